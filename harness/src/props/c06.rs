//! Changes made by other tools while the daemon runs are shared.

use crate::{
    runner::{fail, CaseResult, Ctx, Prop},
    tape::Src,
    text,
    world::{block_on, project, read_tree, Node, Peer, PeerLink, R},
};
use ethersync::watcher::{Watcher, WatcherEvent};
use std::{
    collections::BTreeMap,
    path::{Path, PathBuf},
    time::Duration,
};

pub fn prop() -> Prop {
    Prop {
        id: "C06",
        level: "exploration",
        rule: "a case is 1-6 bursts of file operations on a watched project, each followed by comparing what a connected peer has with the directory; \
               non-trivial if at least three operations changed files that are shared and at least one of them was a rename, move or delete",
        assumptions: &[
            "inotify reports operations in order; the harness waits for the event of a marker file it writes last",
            "files that were text stay text, names do not end in '~', and new directories are not created while watching",
        ],
        quick: 2_500,
        thorough: 60_000,
        threads: 8,
        case_timeout_s: 120,
        exhaustive: false,
        case,
    }
}

fn case(src: &mut Src, ctx: &mut Ctx, _i: usize) -> CaseResult {
    block_on(run(src, ctx))
}

const FILES: [&str; 7] = ["f", "g", "d/h", "d/e/k", "ü 🥕.txt", ".hidden", "d/a%20b#c"];
const IGNORED: [&str; 4] = ["x.log", "d/y.log", "build/out", ".git/config"];
const BINARY: [&str; 2] = ["bin", "d/bin2"];

/// What the peers should have: the model of which files are shared.
fn expected(dir: &Path) -> BTreeMap<String, String> {
    read_tree(dir)
        .into_iter()
        .filter(|(p, _)| !IGNORED.contains(&p.as_str()) && !p.starts_with("marker-"))
        .filter_map(|(p, b)| String::from_utf8(b).ok().map(|t| (p, t)))
        .collect()
}

fn write(p: &Path, b: &[u8]) {
    std::fs::write(p, b).expect("write");
}

fn gen_text(src: &mut Src) -> String {
    match src.weighted(&[6, 1]) {
        0 => text::gen_plain(src, 8),
        _ => {
            let line = text::gen_plain(src, 8);
            let n = 1 + src.usize(3000);
            format!("{line}\n").repeat(n)
        }
    }
}

struct S {
    dir: PathBuf,
    outside: PathBuf,
    counted: usize,
    moved: usize,
    tmp: usize,
}

impl S {
    fn present(&self) -> Vec<&'static str> {
        FILES.iter().filter(|f| self.dir.join(f).is_file()).copied().collect()
    }

    fn op(&mut self, src: &mut Src, ctx: &mut Ctx) {
        use std::io::Write;
        let name = *src.pick(&FILES);
        let p = self.dir.join(name);
        let other = *src.pick(&FILES);
        let q = self.dir.join(other);
        let exists = p.is_file();
        self.tmp += 1;
        let tmp_in = self.dir.join(format!("tmp-{}", self.tmp));
        let tmp_out = self.outside.join(format!("tmp-{}", self.tmp));
        let kind = src.weighted(&[5, 3, 4, 3, 3, 2, 4, 3, 3, 4, 2, 1, 1, 2, 1, 1]);
        let before = (self.counted, self.moved);
        self.counted += 1;
        match kind {
            0 if !exists => {
                let t = gen_text(src);
                ctx.log(format!("create {name} with {}", short(&t)));
                write(&p, t.as_bytes());
            }
            1 if exists => {
                let t = text::gen_plain(src, 5);
                ctx.log(format!("append {t:?} to {name}"));
                let mut f = std::fs::OpenOptions::new().append(true).open(&p).expect("open");
                f.write_all(t.as_bytes()).expect("append");
            }
            2 if exists => {
                let t = gen_text(src);
                ctx.log(format!("overwrite {name} in place with {}", short(&t)));
                write(&p, t.as_bytes());
            }
            3 if exists => {
                // As sed -i and most editors do it.
                let t = gen_text(src);
                ctx.log(format!("replace {name} by renaming a new file over it, {}", short(&t)));
                write(&tmp_in, t.as_bytes());
                std::fs::rename(&tmp_in, &p).expect("rename");
                self.moved += 1;
            }
            4 if exists => {
                let t = gen_text(src);
                ctx.log(format!("move a file from outside over {name}, {}", short(&t)));
                write(&tmp_out, t.as_bytes());
                std::fs::rename(&tmp_out, &p).expect("rename");
                self.moved += 1;
            }
            5 if !exists => {
                let t = gen_text(src);
                ctx.log(format!("move {name} in from outside with {}", short(&t)));
                write(&tmp_out, t.as_bytes());
                std::fs::rename(&tmp_out, &p).expect("rename");
                self.moved += 1;
            }
            6 if exists && name != other => {
                ctx.log(format!("rename {name} to {other}{}", if q.is_file() { " (overwriting)" } else { "" }));
                std::fs::rename(&p, &q).expect("rename");
                self.moved += 1;
            }
            7 if exists => {
                ctx.log(format!("move {name} out of the project"));
                std::fs::rename(&p, &tmp_out).expect("rename");
                self.moved += 1;
            }
            8 if exists => {
                let t = gen_text(src);
                ctx.log(format!("delete and create {name} with {}", short(&t)));
                std::fs::remove_file(&p).expect("remove");
                write(&p, t.as_bytes());
                self.moved += 1;
            }
            9 if exists => {
                ctx.log(format!("delete {name}"));
                std::fs::remove_file(&p).expect("remove");
                self.moved += 1;
            }
            10 if exists => {
                // As Vim does it with 'backupcopy' off.
                let t = gen_text(src);
                ctx.log(format!("save {name} with a backup, {}", short(&t)));
                let backup = self.dir.join(format!("{name}~"));
                std::fs::rename(&p, &backup).expect("rename");
                write(&p, t.as_bytes());
                std::fs::remove_file(&backup).expect("remove");
                self.moved += 1;
            }
            11 => {
                let i = *src.pick(&IGNORED);
                ctx.log(format!("write ignored {i}"));
                ctx.label("an ignored file was written");
                write(&self.dir.join(i), b"secret");
                self.counted -= 1;
            }
            12 => {
                let b = *src.pick(&BINARY);
                ctx.log(format!("write binary {b}"));
                ctx.label("a binary file was written");
                write(&self.dir.join(b), &[0xff, 0xfe, 0, src.usize(256) as u8]);
                self.counted -= 1;
            }
            13 if exists => {
                ctx.log(format!("empty {name}"));
                write(&p, b"");
            }
            14 if exists => {
                let t = std::fs::read(&p).expect("read");
                ctx.log(format!("write {name} with the same content"));
                write(&p, &t);
                self.counted -= 1;
            }
            15 if exists && name != other && q.is_file() => {
                ctx.log(format!("swap {name} and {other}"));
                std::fs::rename(&p, &tmp_in).expect("rename");
                std::fs::rename(&q, &p).expect("rename");
                std::fs::rename(&tmp_in, &q).expect("rename");
                self.moved += 1;
            }
            _ => (self.counted, self.moved) = before,
        }
    }
}

fn short(t: &str) -> String {
    if t.chars().count() > 40 {
        let s: String = t.chars().take(12).collect();
        format!("{s:?}... ({} bytes)", t.len())
    } else {
        format!("{t:?}")
    }
}

fn event_path(e: &WatcherEvent) -> &Path {
    match e {
        WatcherEvent::Created { file_path }
        | WatcherEvent::Removed { file_path }
        | WatcherEvent::Changed { file_path } => file_path,
    }
}

async fn run(src: &mut Src, ctx: &mut Ctx) -> R<()> {
    let dir = project(&ctx.scratch, "p");
    let outside = ctx.scratch.join("outside");
    for d in [&outside, &dir.join("d/e"), &dir.join("build"), &dir.join(".git")] {
        std::fs::create_dir_all(d).expect("mkdir");
    }
    write(&dir.join(".ignore"), b"*.log\nbuild/\n");
    for f in FILES {
        if src.chance(1, 2) {
            let t = text::gen_plain(src, 6);
            ctx.log(format!("file {f}: {t:?}"));
            write(&dir.join(f), t.as_bytes());
        }
    }
    let node = Node::start("A", &dir, false, true)?;
    let mut peer = Peer::new();
    let mut link = PeerLink::new(&node, &mut peer);
    link.settle(&node, &mut peer).await?;
    let mut watcher = Watcher::new(&dir);

    let mut s = S { dir: dir.clone(), outside, counted: 0, moved: 0, tmp: 0 };
    let bursts = 1 + src.usize(if ctx.thorough { 8 } else { 5 });
    for burst in 0..bursts {
        let n = 1 + src.usize(6);
        for _ in 0..n {
            // Mostly something that is possible.
            for _ in 0..4 {
                let before = ctx.trace.len();
                s.op(src, ctx);
                if ctx.trace.len() > before || s.present().is_empty() {
                    break;
                }
            }
            // Sometimes the daemon notices in between.
            if src.chance(1, 4) {
                if let Ok(Some(e)) = tokio::time::timeout(Duration::from_millis(2), watcher.next()).await {
                    ctx.log(format!("noticed {e:?}").replace(&dir.display().to_string(), ""));
                    node.watcher(e).await?;
                }
            }
            if src.chance(1, 6) {
                link.step(&node, &mut peer, src.usize(4)).await?;
            }
        }
        let marker = dir.join(format!("marker-{burst}"));
        write(&marker, b"");
        ctx.log("everything is noticed");
        loop {
            let next = tokio::time::timeout(Duration::from_secs(10), watcher.next()).await;
            let Ok(Some(e)) = next else {
                // Nothing more will be noticed.
                break;
            };
            let done = event_path(&e) == marker;
            node.watcher(e).await?;
            if done {
                break;
            }
        }
        link.settle(&node, &mut peer).await?;
        let want = expected(&dir);
        let got: BTreeMap<String, String> = peer
            .files()?
            .into_iter()
            .filter(|(p, _)| !p.starts_with("marker-"))
            .collect();
        if want != got {
            let mut diffs = vec![];
            for p in want.keys().chain(got.keys()) {
                if want.get(p) != got.get(p) {
                    diffs.push(format!(
                        "{p}: on disk {:?}, shared {:?}",
                        want.get(p).map(|t| short(t)),
                        got.get(p).map(|t| short(t))
                    ));
                }
            }
            diffs.dedup();
            return fail("shared-differs", diffs.join("; "));
        }
    }
    ctx.nontrivial = s.counted >= 3 && s.moved >= 1;
    Ok(())
}
