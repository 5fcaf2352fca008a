//! Changes travel between running daemons over real connections.

use crate::{
    proc::{Daemon, Start, Typist},
    runner::{fail, CaseResult, Ctx, Prop},
    tape::Src,
    text,
    wire::{frame, Line, Wire},
    world::{project, read_tree, R},
};
use automerge::{AutoCommit, ReadDoc};
use std::{
    collections::BTreeMap,
    path::{Path, PathBuf},
    time::{Duration, Instant},
};

pub fn prop() -> Prop {
    Prop {
        id: "C23",
        level: "exploration",
        rule: "a case is a group of 2-4 daemon processes connected over loopback whose files are changed by other programs and editors, \
               or a daemon and 1-3 peers that speak its protocol slowly; non-trivial if changes were made on at least two daemons without waiting for \
               each other, a daemon was killed and started again, or a message of a peer came in several pieces",
        assumptions: &[
            "daemons are only killed when everything has arrived and is saved",
            "each file is only written by programs on one of the computers; several editors may edit the same file",
        ],
        quick: 150,
        thorough: 6_000,
        threads: 8,
        case_timeout_s: 420,
        exhaustive: false,
        case,
    }
}

struct Side {
    dir: PathBuf,
    d: Option<Daemon>,
    to: Option<usize>,
    port: u16,
    ed: Option<Typist>,
}

enum Want {
    Exactly(String),
    /// These lines, in any order.
    Lines(Vec<String>),
}

#[derive(Default)]
struct Net {
    sides: Vec<Side>,
    want: BTreeMap<String, Want>,
}

fn sorted(s: &str) -> Vec<&str> {
    let mut l: Vec<&str> = s.split('\n').collect();
    l.sort_unstable();
    l
}

impl Net {
    fn start(&mut self, i: usize) -> R<()> {
        let dir = self.sides[i].dir.clone();
        let mut s = Start::new(&dir);
        if let Some(to) = self.sides[i].to {
            s = s.arg("--peer").arg(format!("/ip4/127.0.0.1/tcp/{}", self.sides[to].port));
        }
        let mut d = s.start()?;
        self.sides[i].port = d.port()?;
        self.sides[i].d = Some(d);
        Ok(())
    }

    /// What is different from what it should be, if anything.
    fn difference(&mut self, saved: bool) -> R<Option<String>> {
        let mut first: BTreeMap<String, String> = BTreeMap::new();
        // A daemon may wait for an editor that does not read.
        for ed in self.sides.iter_mut().filter_map(|s| s.ed.as_mut()) {
            ed.read()?;
        }
        for i in 0..self.sides.len() {
            let s = &mut self.sides[i];
            let Some(d) = &mut s.d else { continue };
            d.check_alive("changes")?;
            let mut files: BTreeMap<String, String> = if saved {
                match saved_files(&s.dir) {
                    Some(f) => f,
                    None => return Ok(Some(format!("daemon {i} has not saved"))),
                }
            } else {
                read_tree(&s.dir)
                    .into_iter()
                    .map(|(k, v)| (k, String::from_utf8_lossy(&v).to_string()))
                    .collect()
            };
            if let Some(ed) = &s.ed {
                files.insert(ed.name.clone(), text::to_string(&ed.text));
            }
            for name in self.want.keys().chain(files.keys()) {
                let (w, h) = (self.want.get(name), files.get(name));
                let same = match (w, h) {
                    (Some(Want::Exactly(w)), Some(h)) => w == h,
                    (Some(Want::Lines(w)), Some(h)) => {
                        let mut w: Vec<&str> = w.iter().map(String::as_str).collect();
                        w.push("");
                        w.sort_unstable();
                        w == sorted(h) && first.get(name).is_none_or(|f| f == h)
                    }
                    (None, None) => true,
                    _ => false,
                };
                if !same {
                    let len = |l: usize| l.to_string();
                    let w = match w {
                        None => "nothing".into(),
                        Some(Want::Exactly(s)) => len(s.len()),
                        Some(Want::Lines(l)) => format!("{} lines, {} bytes", l.len(), l.iter().map(|l| l.len() + 1).sum::<usize>()),
                    };
                    let h = h.map_or("nothing".into(), |s| format!("{} lines, {} bytes", s.split('\n').count() - 1, s.len()));
                    return Ok(Some(format!(
                        "daemon {i}, {name}{}: expected {w}, has {h}",
                        if saved { " as saved" } else { "" }
                    )));
                }
            }
            for (k, v) in files {
                first.entry(k).or_insert(v);
            }
        }
        Ok(None)
    }

    fn cpu(&self) -> u64 {
        self.sides.iter().filter_map(|s| s.d.as_ref()).map(Daemon::cpu).sum()
    }

    /// Waits until every change has arrived everywhere. If the daemons are idle and it has not, it
    /// never will.
    fn settle(&mut self, saved: bool, scratch: &Path) -> R<()> {
        let start = Instant::now();
        let mut marks: Vec<(Instant, u64)> = vec![(start, self.cpu())];
        let mut pause = 3;
        loop {
            let Some(what) = self.difference(saved)? else { return Ok(()) };
            std::thread::sleep(Duration::from_millis(pause));
            pause = (pause * 5 / 4).min(100);
            let (now, cpu) = (Instant::now(), self.cpu());
            marks.push((now, cpu));
            marks.retain(|(t, _)| now.duration_since(*t) < Duration::from_secs(15));
            let idle = now.duration_since(marks[0].0) > Duration::from_secs(12) && cpu - marks[0].1 < 60;
            if idle || start.elapsed() > Duration::from_secs(200) {
                if !control(scratch)? {
                    return fail("harness-timeout", format!("not even two fresh daemons sync in time; {what}"));
                }
                if let Some(what) = self.difference(saved)? {
                    if !idle {
                        return fail("harness-timeout", format!("daemons are still busy; {what}"));
                    }
                    return fail(
                        if saved { "not-saved" } else { "not-arrived" },
                        format!("all daemons are idle, but {what}"),
                    );
                }
            }
        }
    }
}

/// The files in the saved document.
fn saved_files(dir: &Path) -> Option<BTreeMap<String, String>> {
    let bytes = std::fs::read(dir.join(".ethersync/doc")).ok()?;
    let doc = AutoCommit::load(&bytes).ok()?;
    let (_, files) = doc.get(automerge::ROOT, "files").ok()??;
    let mut out = BTreeMap::new();
    for k in doc.keys(&files).collect::<Vec<_>>() {
        let (_, id) = doc.get(&files, k.as_str()).ok()??;
        out.insert(k, doc.text(&id).ok()?);
    }
    Some(out)
}

/// Whether this machine lets daemons work: two fresh daemons sync a file, or they do not although
/// nothing keeps them from it.
pub fn control(scratch: &Path) -> R<bool> {
    let base = scratch.join("control");
    let (a, b) = (project(&base, "a"), project(&base, "b"));
    std::fs::write(a.join("f"), "content").expect("write");
    let mut da = Start::new(&a).start()?;
    let port = da.port()?;
    let mut db = Start::new(&b).arg("--peer").arg(format!("/ip4/127.0.0.1/tcp/{port}")).start()?;
    let start = Instant::now();
    let mut ok = false;
    while !ok && start.elapsed() < Duration::from_secs(30) {
        ok = std::fs::read(b.join("f")).is_ok_and(|c| c == b"content");
        std::thread::sleep(Duration::from_millis(20));
    }
    if !ok {
        let used = |d: &[&Daemon]| d.iter().map(|d| (d.cpu(), d.delay())).collect::<Vec<_>>();
        let before = used(&[&da, &db]);
        std::thread::sleep(Duration::from_secs(12));
        let after = used(&[&da, &db]);
        ok = da.alive()
            && db.alive()
            && loopback()
            && before.iter().zip(&after).all(|(b, a)| a.0 < b.0 + 20 && a.1.saturating_sub(b.1) < Duration::from_millis(500));
    }
    drop((da, db));
    let _ = std::fs::remove_dir_all(&base);
    Ok(ok)
}

/// Whether a connection over the loopback network can be made and used.
fn loopback() -> bool {
    use std::io::{Read, Write};
    let echo = || -> std::io::Result<bool> {
        let l = std::net::TcpListener::bind("127.0.0.1:0")?;
        let mut a = std::net::TcpStream::connect(l.local_addr()?)?;
        let mut b = l.accept()?.0;
        a.write_all(b"ping")?;
        b.set_read_timeout(Some(Duration::from_secs(2)))?;
        let mut buf = [0; 4];
        b.read_exact(&mut buf)?;
        Ok(&buf == b"ping")
    };
    echo().unwrap_or(false)
}

/// A text with many different lines that can not be compressed much.
fn block(src: &mut Src, counter: &mut usize, big: bool) -> String {
    *counter += 1;
    let c = *counter;
    let size = match src.weighted(&if big { [0, 0, 3, 4, 3] } else { [8, 4, 2, 0, 0] }) {
        0 => src.usize(3),
        1 => 1 + src.usize(100),
        2 => 1_000 + src.usize(10_000),
        3 => 20_000 + src.usize(100_000),
        _ => 380_000 + src.usize(100_000),
    };
    let mut out = format!("{c}\n");
    let mut x = src.below(1 << 32) | 1;
    let mut n = 0;
    while out.len() < size {
        n += 1;
        out.push_str(&format!("{c}.{n} äöü 🥕 "));
        for _ in 0..12 {
            x ^= x << 13;
            x ^= x >> 7;
            x ^= x << 17;
            out.extend((0..9).map(|i| char::from(33 + ((x >> (i * 7)) % 94) as u8)));
        }
        out.push('\n');
    }
    out
}

fn case(src: &mut Src, ctx: &mut Ctx, i: usize) -> CaseResult {
    if i % 3 == 2 {
        ctx.label("a peer that is slow in the middle of messages");
        return crate::world::block_on(slow_peer(src, ctx));
    }
    group(src, ctx)
}

struct Slow {
    host: Daemon,
    dir: PathBuf,
    want: BTreeMap<String, String>,
    wires: Vec<Wire>,
    /// Lines that stay silent.
    silent: Vec<Line>,
    scratch: PathBuf,
    marks: Vec<(Instant, u64)>,
}

impl Slow {
    /// Fails if the daemon has been idle for long although something is left to do.
    fn stuck(&mut self, what: &str) -> R<()> {
        self.host.check_alive("messages of a peer")?;
        let (now, cpu) = (Instant::now(), self.host.cpu());
        self.marks.push((now, cpu));
        self.marks.retain(|(t, _)| now.duration_since(*t) < Duration::from_secs(15));
        if now.duration_since(self.marks[0].0) < Duration::from_secs(12) || cpu - self.marks[0].1 > 60 {
            return Ok(());
        }
        if control(&self.scratch)? {
            return fail("stuck", format!("the daemon is idle, but {what}"));
        }
        fail("harness-timeout", format!("not even two fresh daemons sync in time; {what}"))
    }

    async fn write(&mut self, i: usize, mut bytes: &[u8]) -> R<()> {
        self.marks.clear();
        while !bytes.is_empty() {
            match self.wires[i].write(bytes).await? {
                Some(n) => {
                    bytes = &bytes[n..];
                    self.marks.clear();
                }
                None => self.stuck("does not read what a peer sends")?,
            }
        }
        Ok(())
    }

    /// The host has something to say, and has said it if it can.
    async fn host_changes(&mut self, src: &mut Src, counter: &mut usize, big: bool) {
        let t = block(src, counter, big);
        let name = format!("host{}", if big { *counter } else { 0 });
        let tmp = self.dir.join(".ethersync/tmp");
        std::fs::write(&tmp, &t).expect("write");
        std::fs::rename(&tmp, self.dir.join(&name)).expect("rename");
        self.want.insert(name, t);
        let wait = if big { 1500 } else { 60 };
        tokio::time::sleep(Duration::from_millis(wait)).await;
    }

    fn difference(&self) -> R<Option<String>> {
        let disk: BTreeMap<String, String> = read_tree(&self.dir)
            .into_iter()
            .map(|(k, v)| (k, String::from_utf8_lossy(&v).to_string()))
            .collect();
        if let Some(k) = self.want.keys().chain(disk.keys()).find(|k| self.want.get(*k) != disk.get(*k)) {
            return Ok(Some(format!("the host's file {k} is not as expected")));
        }
        for (i, w) in self.wires.iter().enumerate() {
            if w.peer.map("files").is_none() {
                return Ok(Some(format!("peer {i} got nothing")));
            }
            let files = w.peer.files()?;
            if let Some(k) = self.want.keys().chain(files.keys()).find(|k| self.want.get(*k) != files.get(*k)) {
                return Ok(Some(format!("peer {i} does not have {k}")));
            }
        }
        Ok(None)
    }

    /// Everybody talks and listens until everything has arrived.
    async fn settle(&mut self) -> R<()> {
        self.marks.clear();
        loop {
            for i in 0..self.wires.len() {
                while let Some(m) = self.wires[i].peer.generate() {
                    let b = frame(m);
                    self.write(i, &b).await?;
                }
                while let Some(m) = self.wires[i].read(3).await? {
                    self.wires[i].peer.receive(m);
                    self.marks.clear();
                }
            }
            let Some(what) = self.difference()? else { return Ok(()) };
            self.stuck(&what)?;
        }
    }
}

/// One daemon, and peers whose messages come in pieces, or who write before they read, as the
/// daemon itself does.
async fn slow_peer(src: &mut Src, ctx: &mut Ctx) -> R<()> {
    let dir = project(&ctx.scratch, "host");
    let mut counter = 0;
    let mut want = BTreeMap::new();
    let mut big_left = if src.chance(1, 4) { 1 + src.usize(3) } else { 0 };
    let big = big_left > 0;
    big_left -= usize::from(big);
    let t = block(src, &mut counter, big);
    std::fs::write(dir.join("first"), &t).expect("write");
    want.insert("first".to_string(), t);
    let mut host = Start::new(&dir).start()?;
    let port = host.port()?;
    let mut s = Slow {
        host,
        dir,
        want,
        wires: vec![],
        silent: vec![],
        scratch: ctx.scratch.clone(),
        marks: vec![],
    };
    let mut pieces = 0;
    let steps = 5 + src.usize(if ctx.thorough { 30 } else { 16 });
    for k in 0..steps {
        match if k == 0 { 0 } else { src.weighted(&[if s.wires.len() < 3 { 3 } else { 0 }, 8, 3, 2, 1, if big_left > 0 { 4 } else { 0 }]) } {
            0 => {
                let line = Line::connect(port).await?;
                if src.chance(1, 6) {
                    ctx.log("a peer connects and says nothing for a while");
                    ctx.label("a peer with a late stream");
                    tokio::time::sleep(Duration::from_millis(1100 + src.below(400))).await;
                    s.wires.push(line.open().await?);
                } else if src.chance(1, 4) {
                    ctx.log("a peer connects and says nothing");
                    ctx.label("a peer without a stream");
                    s.silent.push(line);
                } else {
                    ctx.log("a peer connects");
                    s.wires.push(line.open().await?);
                }
            }
            // A peer changes something and says so, in pieces.
            1 if !s.wires.is_empty() => {
                let i = src.usize(s.wires.len());
                // Nothing can be changed before the first sync.
                let big = big_left > 0 && src.bool();
                if s.wires[i].peer.map("files").is_some() {
                    big_left -= usize::from(big);
                    if big {
                        ctx.label("a large change");
                    }
                    let t = block(src, &mut counter, big);
                    let name = format!("peer{i}-{k}");
                    ctx.log(format!("peer {i} creates {name}, {} bytes", t.len()));
                    s.wires[i].peer.create(&name, &t);
                    s.want.insert(name, t);
                } else {
                    ctx.log(format!("peer {i} talks"));
                }
                let Some(m) = s.wires[i].peer.generate() else { continue };
                let bytes = frame(m);
                let mut cuts: Vec<usize> = (0..1 + src.usize(4))
                    .map(|_| if src.bool() { src.usize(6).min(bytes.len()) } else { src.usize(bytes.len()) })
                    .collect();
                cuts.sort_unstable();
                cuts.dedup();
                let mut at = 0;
                for c in cuts {
                    if c == at {
                        continue;
                    }
                    s.write(i, &bytes[at..c]).await?;
                    at = c;
                    pieces += 1;
                    match src.usize(3) {
                        0 => {
                            ctx.log(format!("after {at} of {} bytes the host changes a file", bytes.len()));
                            s.host_changes(src, &mut counter, false).await;
                        }
                        1 => {
                            ctx.log(format!("after {at} of {} bytes there is a pause", bytes.len()));
                            tokio::time::sleep(Duration::from_millis(src.below(30))).await;
                        }
                        _ => {}
                    }
                }
                s.write(i, &bytes[at..]).await?;
            }
            2 if !s.wires.is_empty() => {
                let i = src.usize(s.wires.len());
                ctx.log(format!("peer {i} listens"));
                while let Some(m) = s.wires[i].read(5).await? {
                    s.wires[i].peer.receive(m);
                }
            }
            3 => {
                let big = big_left > 0;
                big_left -= usize::from(big);
                ctx.log(format!("the host changes a file{}", if big { ", a lot" } else { "" }));
                s.host_changes(src, &mut counter, big).await;
            }
            4 => {
                ctx.log("everything arrives");
                s.settle().await?;
            }
            // Both sides have much to say at the same time.
            5 if big_left > 0 && !s.wires.is_empty() => {
                big_left = 0;
                let i = src.usize(s.wires.len());
                s.settle().await?;
                ctx.label("large messages cross");
                ctx.log(format!("peer {i} and the host change a lot and say so at the same time"));
                let size = 500_000 + src.usize(200_000);
                let mut long = String::new();
                while long.len() < size {
                    counter += 1;
                    long.push_str(&block(src, &mut counter, true));
                }
                while long.len() > size {
                    long.pop();
                }
                let (name, theirs) = (format!("peer{i}-{k}"), long.clone());
                s.wires[i].peer.create(&name, &theirs);
                let ours = long.chars().rev().collect::<String>();
                let tmp = s.dir.join(".ethersync/tmp");
                std::fs::write(&tmp, &ours).expect("write");
                std::fs::rename(&tmp, s.dir.join(format!("host-long{k}"))).expect("rename");
                s.want.insert(name, theirs);
                s.want.insert(format!("host-long{k}"), ours);
                // The host notices and wants to send, but nobody reads.
                let mut quiet = 0;
                let mut cpu = s.host.cpu();
                while quiet < 8 {
                    tokio::time::sleep(Duration::from_millis(100)).await;
                    let now = s.host.cpu();
                    quiet = if now == cpu { quiet + 1 } else { 0 };
                    cpu = now;
                }
                if let Some(m) = s.wires[i].peer.generate() {
                    let b = frame(m);
                    s.write(i, &b).await?;
                }
            }
            _ => continue,
        }
    }
    ctx.log("everything arrives");
    s.settle().await?;
    if s.wires.is_empty() {
        s.wires.push(Line::connect(port).await?.open().await?);
        s.settle().await?;
    }
    ctx.nontrivial = pieces > 0;
    drop(s.silent);
    Ok(())
}

fn group(src: &mut Src, ctx: &mut Ctx) -> CaseResult {
    let n = 2 + src.weighted(&[6, 3, 1]);
    ctx.label(["2 daemons", "3 daemons", "4 daemons"][n - 2]);
    let mut net = Net::default();
    let mut counter = 0;
    let mut big_left = if src.chance(1, 5) { 1 + src.usize(3) } else { 0 };
    for i in 0..n {
        let dir = project(&ctx.scratch, &format!("d{i}"));
        std::fs::create_dir_all(dir.join("sub")).expect("mkdir");
        let to = (i > 0).then(|| if src.chance(1, 4) { src.usize(i) } else { 0 });
        net.sides.push(Side {
            dir,
            d: None,
            to,
            port: 0,
            ed: None,
        });
    }
    let shared = "shared.txt";
    std::fs::write(net.sides[0].dir.join(shared), "start\n").expect("write");
    net.want.insert(shared.into(), Want::Lines(vec!["start".into()]));
    let mut initial = |src: &mut Src, net: &mut Net, k: usize| {
        let big = big_left > 0 && src.chance(1, 3);
        big_left -= usize::from(big);
        let t = block(src, &mut counter, big);
        let name = format!("d0-{k}");
        std::fs::write(net.sides[0].dir.join(&name), &t).expect("write");
        net.want.insert(name, Want::Exactly(t));
    };
    for k in 0..src.usize(3) {
        initial(src, &mut net, k);
    }
    for i in 0..n {
        net.start(i)?;
        if src.bool() {
            ctx.log(format!("daemon {i} starts, everything arrives"));
            net.settle(false, &ctx.scratch)?;
        } else {
            ctx.log(format!("daemon {i} starts"));
        }
    }
    let (mut at_once, mut restarts) = (0, 0);
    let mut last_writer = None;
    let steps = 4 + src.usize(if ctx.thorough { 24 } else { 12 });
    for _ in 0..steps {
        match src.weighted(&[8, 6, 3, 3, 2, 1, 2]) {
            // Another program writes files.
            0 => {
                let i = src.usize(n);
                let times = 1 + src.weighted(&[5, 2, 1]) * (1 + src.usize(4));
                for _ in 0..times {
                    let k = src.usize(3);
                    let big = big_left > 0 && src.bool();
                    // Daemons take long to compare large texts.
                    let name = match k {
                        _ if big => format!("d{i}-large{counter}"),
                        2 => format!("sub/d{i}"),
                        k => format!("d{i}-{k}"),
                    };
                    let path = net.sides[i].dir.join(&name);
                    big_left -= usize::from(big);
                    if big {
                        ctx.label("a large change");
                    }
                    let b = block(src, &mut counter, big);
                    let old = match net.want.get(&name) {
                        Some(Want::Exactly(t)) => t.clone(),
                        _ => String::new(),
                    };
                    let lines: Vec<&str> = old.split_inclusive('\n').collect();
                    let at = if lines.is_empty() { 0 } else { src.usize(lines.len() + 1) };
                    let del = src.usize(3).min(lines.len() - at);
                    let new = lines[..at].concat() + &b + &lines[at + del..].concat();
                    let rename = new.len() > 100_000 || src.bool();
                    ctx.log(format!("daemon {i}: {name} is written, {} bytes{}", new.len(), if rename { ", moved into place" } else { "" }));
                    if rename {
                        let tmp = net.sides[i].dir.join(".ethersync/tmp");
                        std::fs::write(&tmp, &new).expect("write");
                        std::fs::rename(&tmp, &path).expect("rename");
                    } else {
                        std::fs::write(&path, &new).expect("write");
                    }
                    net.want.insert(name, Want::Exactly(new));
                }
                if last_writer.is_some_and(|w| w != i) {
                    at_once += 1;
                }
                last_writer = Some(i);
            }
            // Somebody types.
            1 => {
                let i = src.usize(n);
                if net.sides[i].ed.is_none() {
                    // The file has to be there first.
                    net.settle(false, &ctx.scratch)?;
                    last_writer = None;
                    let d = net.sides[i].d.as_ref().expect("running");
                    net.sides[i].ed = Some(Typist::open(d, shared)?);
                    ctx.log(format!("an editor on daemon {i} opens {shared}"));
                }
                for _ in 0..1 + src.weighted(&[3, 2, 1]) * 4 {
                    let big = big_left > 0 && src.bool();
                    big_left -= usize::from(big);
                    if big {
                        ctx.label("a large change");
                    }
                    let mut b = block(src, &mut counter, big);
                    if big && src.chance(1, 4) {
                        ctx.label("a very large edit");
                        while b.len() < 1_200_000 {
                            b.push_str(&block(src, &mut counter, true));
                        }
                    }
                    let ed = net.sides[i].ed.as_mut().expect("editor");
                    if src.bool() {
                        ed.read()?;
                    }
                    let starts: Vec<usize> = std::iter::once(0)
                        .chain(ed.text.iter().enumerate().filter(|(_, c)| **c == '\n').map(|(p, _)| p + 1))
                        .collect();
                    let at = starts[src.usize(starts.len())];
                    ctx.log(format!("editor on daemon {i} inserts {} bytes", b.len()));
                    ed.insert(at, &b);
                    if let Some(Want::Lines(l)) = net.want.get_mut(shared) {
                        l.extend(b.lines().map(String::from));
                    }
                }
                if last_writer.is_some_and(|w| w != i) {
                    at_once += 1;
                }
                last_writer = Some(i);
            }
            2 => {
                let i = src.usize(n);
                let mine: Vec<String> = net.want.keys().filter(|k| k.contains(&format!("d{i}"))).cloned().collect();
                if !mine.is_empty() {
                    let name = src.pick(&mine).clone();
                    ctx.log(format!("daemon {i}: {name} is deleted"));
                    std::fs::remove_file(net.sides[i].dir.join(&name)).expect("remove");
                    net.want.remove(&name);
                }
            }
            3 => {
                let ms = src.below(60);
                std::thread::sleep(Duration::from_millis(ms));
            }
            4 => {
                ctx.log("everything arrives");
                net.settle(false, &ctx.scratch)?;
                last_writer = None;
            }
            // A joiner is killed, things change, it is started again.
            5 => {
                net.settle(false, &ctx.scratch)?;
                net.settle(true, &ctx.scratch)?;
                last_writer = None;
                let leaves: Vec<usize> = (1..n)
                    .filter(|i| net.sides[*i].ed.is_none() && net.sides.iter().all(|s| s.to != Some(*i)))
                    .collect();
                if leaves.is_empty() {
                    continue;
                }
                let i = *src.pick(&leaves);
                ctx.log(format!("everything is saved, daemon {i} is killed"));
                ctx.label("killed and restarted");
                net.sides[i].d = None;
                let mut own = false;
                for _ in 0..src.usize(3) {
                    let j = src.usize(n);
                    own |= i == j;
                    let name = format!("d{j}-{}", src.usize(2));
                    let new = block(src, &mut counter, false);
                    ctx.log(format!("daemon {j}: {name} is written, {} bytes", new.len()));
                    std::fs::write(net.sides[j].dir.join(&name), &new).expect("write");
                    net.want.insert(name, Want::Exactly(new));
                }
                if !own && src.bool() {
                    net.settle(false, &ctx.scratch)?;
                }
                ctx.log(format!("daemon {i} starts again"));
                net.start(i)?;
                restarts += 1;
            }
            // All at the same time.
            _ => {
                if last_writer.is_none() {
                    ctx.label("all at once");
                }
                let big = big_left > 0;
                big_left -= usize::from(big);
                if big {
                    ctx.label("large changes in all directions at once");
                }
                let mut all = vec![];
                for i in 0..n {
                    // Large texts are not compared with other large texts.
                    let name = if big { format!("d{i}-big{counter}") } else { format!("d{i}-{}", src.usize(2)) };
                    let new = block(src, &mut counter, big);
                    ctx.log(format!("daemon {i}: {name} is replaced, {} bytes", new.len()));
                    let tmp = net.sides[i].dir.join(".ethersync/tmp");
                    std::fs::write(&tmp, &new).expect("write");
                    all.push((tmp, net.sides[i].dir.join(&name)));
                    net.want.insert(name, Want::Exactly(new));
                }
                for (tmp, path) in all {
                    std::fs::rename(tmp, path).expect("rename");
                }
                at_once += 1;
                last_writer = None;
            }
        }
    }
    if src.chance(1, 60) {
        ctx.log("nothing happens for 12 s");
        ctx.label("a long pause");
        net.settle(false, &ctx.scratch)?;
        std::thread::sleep(Duration::from_secs(12));
        let new = block(src, &mut counter, false);
        std::fs::write(net.sides[n - 1].dir.join("late"), &new).expect("write");
        net.want.insert("late".into(), Want::Exactly(new));
    }
    ctx.log("everything arrives");
    net.settle(false, &ctx.scratch)?;
    if src.chance(1, 4) {
        ctx.log("everything is saved");
        net.settle(true, &ctx.scratch)?;
    }
    ctx.nontrivial = at_once > 0 || restarts > 0;
    Ok(())
}
