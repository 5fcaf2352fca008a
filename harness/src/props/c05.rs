//! Open files belong to editors, closed files on disk hold the shared text.

use crate::{
    runner::{fail, CaseResult, Ctx, Prop},
    tape::Src,
    text,
    world::{block_on, project, Ed, Ev, Node, Peer, PeerLink, World, R},
};
use std::collections::{BTreeMap, BTreeSet};

pub fn prop() -> Prop {
    Prop {
        id: "C05",
        level: "exploration",
        rule: "a case is a history of opening, editing, closing and disconnecting editors, remote edits and changes on disk, \
               with disk and shared text compared after every message; non-trivial if a file was checked both while open and, after it was edited, while closed, \
               and something changed on disk or remotely while it was open",
        assumptions: &["the file watcher reports what happened on disk, in order and with any delay"],
        quick: 30_000,
        thorough: 400_000,
        threads: 8,
        case_timeout_s: 60,
        exhaustive: false,
        case,
    }
}

fn case(src: &mut Src, ctx: &mut Ctx, _i: usize) -> CaseResult {
    block_on(run(src, ctx))
}

const FILES: [&str; 3] = ["f", "g", "d/h"];

struct S {
    w: World,
    peer: Peer,
    link: PeerLink,
    /// Editors that have a file open, as far as the daemon has been told.
    held: BTreeMap<&'static str, BTreeSet<usize>>,
    /// The daemon may or may not know that these are gone.
    broken: BTreeSet<usize>,
    /// What open files are expected to hold on disk.
    disk: BTreeMap<&'static str, Option<Vec<u8>>>,
    /// Changed on disk, and the daemon has not been told yet.
    dirty: BTreeSet<&'static str>,
    edited: BTreeSet<&'static str>,
    tempted: BTreeSet<&'static str>,
    closed_checks: usize,
}

impl S {
    fn holders(&self, f: &str) -> usize {
        self.held.get(f).map_or(0, BTreeSet::len)
    }

    fn unsure(&self, f: &str) -> bool {
        self.held.get(f).is_some_and(|h| h.iter().any(|e| self.broken.contains(e)))
    }

    async fn check(&mut self, what: &str) -> R<()> {
        self.w.observe()?;
        for evs in &self.w.watch {
            self.dirty = FILES
                .iter()
                .filter(|f| self.dirty.contains(*f) && evs.iter().any(|e| ev_path(e) == **f))
                .copied()
                .collect();
        }
        let shared = self.w.nodes[0].shared().await?;
        for f in FILES {
            let now = self.w.nodes[0].disk(f);
            if self.unsure(f) {
                self.disk.insert(f, now);
                continue;
            }
            if self.holders(f) > 0 {
                if !shared.contains_key(f) {
                    // Somebody deleted it; the daemon may remove it from disk as well.
                    self.disk.insert(f, now);
                    continue;
                }
                let expected = self.disk.get(f).cloned().flatten();
                if now != expected {
                    return fail(
                        "open-file-written",
                        format!(
                            "{f} is open in an editor, but {what} changed it on disk from {:?} to {:?}",
                            show(&expected),
                            show(&now)
                        ),
                    );
                }
            } else {
                self.disk.insert(f, now.clone());
                if self.dirty.contains(f) {
                    continue;
                }
                let t = shared.get(f).map(|t| t.clone().into_bytes());
                if t.is_some() && now != t {
                    return fail(
                        "disk-differs",
                        format!(
                            "after {what}, {f} is open in no editor and holds {:?} on disk, but the shared text is {:?}",
                            show(&now),
                            show(&t)
                        ),
                    );
                }
                if self.edited.contains(f) && self.tempted.contains(f) {
                    self.closed_checks += 1;
                }
            }
        }
        Ok(())
    }

    /// The daemon reads one message of an editor.
    async fn deliver(&mut self, e: usize) -> R<bool> {
        let closing = self.w.eds[e].out.front().and_then(|m| {
            let v: serde_json::Value = serde_json::from_str(m).expect("own message");
            (v["method"] == "close").then(|| v["params"]["uri"].as_str().unwrap_or("").to_string())
        });
        if !self.w.eds[e].deliver(&self.w.nodes).await? {
            return Ok(false);
        }
        if let Some(uri) = closing {
            for f in FILES {
                if self.w.eds[e].uri(f) == uri {
                    self.held.entry(f).or_default().remove(&e);
                }
            }
        }
        Ok(true)
    }
}

fn ev_path(e: &Ev) -> &str {
    match e {
        Ev::Created(p) | Ev::Changed(p) | Ev::Removed(p) => p,
    }
}

fn show(b: &Option<Vec<u8>>) -> Option<String> {
    b.as_ref().map(|b| String::from_utf8_lossy(b).to_string())
}

async fn run(src: &mut Src, ctx: &mut Ctx) -> R<()> {
    let dir = project(&ctx.scratch, "p");
    std::fs::create_dir_all(dir.join("d")).expect("mkdir");
    for f in FILES {
        if src.chance(3, 4) {
            let t = text::gen_plain(src, 6);
            ctx.log(format!("file {f}: {t:?}"));
            std::fs::write(dir.join(f), t).expect("write");
        }
    }
    let mut w = World::default();
    w.add_node(Node::start("A", &dir, false, true)?);
    let mut peer = Peer::new();
    peer.sync(&w.nodes[0]).await?;
    let link = PeerLink::new(&w.nodes[0], &mut peer);
    let mut s = S {
        w,
        peer,
        link,
        held: BTreeMap::new(),
        broken: BTreeSet::new(),
        disk: BTreeMap::new(),
        dirty: BTreeSet::new(),
        edited: BTreeSet::new(),
        tempted: BTreeSet::new(),
        closed_checks: 0,
    };
    s.check("starting").await?;

    // Mostly start with an editor that has a file open.
    let mut todo = vec![];
    if src.chance(4, 5) {
        todo = vec![1, 0];
    }
    let steps = 8 + src.usize(if ctx.thorough { 60 } else { 40 });
    for _ in 0..steps {
        let live: Vec<usize> = (0..s.w.eds.len()).filter(|e| s.w.eds[*e].alive()).collect();
        let e = if live.is_empty() { None } else { Some(*src.pick(&live)) };
        let f = FILES[src.weighted(&[4, 2, 1])];
        let kind = match todo.pop() {
            Some(k) => k,
            None => src.weighted(&[2, 6, 8, 8, 3, 4, 1, 1, 5, 7, 4, 3, 6]),
        };
        match (kind, e) {
            (0, _) | (1..=7, None) => {
                if live.len() < 3 {
                    let ed = Ed::connect(&s.w.nodes, 0).await?;
                    ctx.log(format!("editor {} connects", s.w.eds.len()));
                    s.w.eds.push(ed);
                }
            }
            (1, Some(e)) => {
                if !s.w.eds[e].bufs.contains_key(f) {
                    while s.deliver(e).await? {}
                    let before = s.w.nodes[0].disk(f);
                    let ok = s.w.eds[e].open(&s.w.nodes, f).await?;
                    ctx.log(format!("editor {e} opens {f}: {ok}"));
                    if !ok {
                        return fail("open-refused", format!("open of {f} was refused"));
                    }
                    s.held.entry(f).or_default().insert(e);
                    // Opening a missing file creates it.
                    s.disk.insert(f, Some(before.unwrap_or_default()));
                }
            }
            (2, Some(e)) => {
                let open: Vec<String> = s.w.eds[e].bufs.keys().cloned().collect();
                if !open.is_empty() {
                    let name = if open.iter().any(|o| o == f) { f.to_string() } else { src.pick(&open).clone() };
                    let (at, del) = text::gen_splice(src, s.w.eds[e].bufs[&name].text.len());
                    let ins = text::gen_plain(src, 3);
                    ctx.log(format!("editor {e}: {name} replace {del} at {at} by {ins:?}"));
                    s.w.eds[e].user_edit(&name, at, del, &ins);
                    s.edited.insert(FILES.iter().find(|f| **f == name).unwrap());
                }
            }
            (3, Some(e)) => {
                if s.deliver(e).await? {
                    ctx.log(format!("editor {e} -> daemon"));
                }
            }
            (4, Some(e)) => {
                s.w.eds[e].process_all()?;
            }
            (5, Some(e)) => {
                if s.w.eds[e].bufs.contains_key(f) {
                    ctx.log(format!("editor {e} closes {f}"));
                    s.w.eds[e].close(f);
                }
            }
            (6, Some(e)) => {
                ctx.log(format!("editor {e} disconnects"));
                ctx.label("an editor disconnected with a file open");
                s.w.eds[e].disconnect(&s.w.nodes).await?;
                for h in s.held.values_mut() {
                    h.remove(&e);
                }
            }
            (7, Some(e)) => {
                ctx.log(format!("editor {e} dies, unnoticed so far"));
                ctx.label("an editor died");
                s.w.eds[e].break_socket();
                s.broken.insert(e);
            }
            (8, _) => {
                if let Some(t) = s.peer.files()?.get(f) {
                    let (at, del) = text::gen_splice(src, t.chars().count());
                    let ins = text::gen_plain(src, 3);
                    ctx.log(format!("remote: {f} replace {del} at {at} by {ins:?}"));
                    s.peer.splice(f, at, del, &ins);
                    if s.holders(f) > 0 {
                        s.tempted.insert(f);
                    }
                }
            }
            (9, _) => {
                let what = src.usize(4);
                if s.link.step(&s.w.nodes[0], &mut s.peer, what).await? {
                    ctx.log(format!("remote link step {what}"));
                }
            }
            (10, _) => {
                // Somebody writes the file on disk.
                let t = text::gen_plain(src, 6);
                ctx.log(format!("{f} on disk becomes {t:?}"));
                s.w.nodes[0].write_disk(f, t.as_bytes());
                s.w.observe()?;
                if s.holders(f) > 0 {
                    s.tempted.insert(f);
                    ctx.label("an open file changed on disk");
                }
                s.disk.insert(f, Some(t.into_bytes()));
                s.dirty.insert(f);
            }
            (11, _) => {
                // A dead editor is noticed at last.
                if let Some(e) = s.broken.iter().next().copied() {
                    ctx.log(format!("editor {e} is noticed to be gone"));
                    if src.bool() {
                        // What it had written before is still read first.
                        while s.deliver(e).await? {}
                    } else {
                        s.w.eds[e].out.clear();
                    }
                    s.w.eds[e].notice_disconnect(&s.w.nodes).await?;
                    s.broken.remove(&e);
                    for h in s.held.values_mut() {
                        h.remove(&e);
                    }
                }
            }
            _ => {
                if let Some(ev) = s.w.watch[0].front().cloned() {
                    ctx.log(format!("watcher: {ev:?}"));
                    let open = s.holders(ev_path(&ev)) > 0 && !s.unsure(ev_path(&ev));
                    let before = s.w.nodes[0].shared().await?;
                    s.w.watch_step(0).await?;
                    let after = s.w.nodes[0].shared().await?;
                    let p = ev_path(&ev);
                    if open && before.get(p) != after.get(p) {
                        return fail(
                            "disk-changed-open-file",
                            format!(
                                "{p} is open in an editor, but {ev:?} changed its shared text from {:?} to {:?}",
                                before.get(p),
                                after.get(p)
                            ),
                        );
                    }
                }
            }
        }
        let last = ctx.trace.last().cloned().unwrap_or_default();
        s.check(&last).await?;
    }
    // In the end everybody leaves.
    for e in 0..s.w.eds.len() {
        if s.broken.contains(&e) {
            s.w.eds[e].notice_disconnect(&s.w.nodes).await?;
            s.broken.remove(&e);
        } else if !s.w.eds[e].alive() {
            continue;
        } else if src.bool() {
            ctx.log(format!("editor {e} closes everything"));
            for f in FILES {
                if s.w.eds[e].bufs.contains_key(f) {
                    s.w.eds[e].close(f);
                }
            }
            while s.deliver(e).await? {}
        } else {
            ctx.log(format!("editor {e} disconnects at the end"));
            s.w.eds[e].disconnect(&s.w.nodes).await?;
        }
        for h in s.held.values_mut() {
            h.remove(&e);
        }
        s.check("everybody leaving").await?;
    }
    ctx.nontrivial = s.closed_checks > 0;
    Ok(())
}
