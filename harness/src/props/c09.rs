//! Ignored and binary files are never shared or touched.

use crate::{
    runner::{fail, CaseResult, Ctx, Prop},
    tape::Src,
    world::{block_on, project, Ed, Node, Peer, PeerLink, World, R},
};
use ethersync::watcher::{Watcher, WatcherEvent};
use serde_json::json;
use std::{
    collections::{BTreeMap, BTreeSet},
    path::{Path, PathBuf},
    time::Duration,
};

pub fn prop() -> Prop {
    Prop {
        id: "C09",
        level: "exploration",
        rule: "a case is a project with generated ignore files, then starts, restarts, file operations and editors opening files; every third case has the real file watcher; \
               non-trivial if at least two private files existed, one was opened in an editor or changed while the daemon ran, and one file was shared",
        assumptions: &[
            "ignore rules do not change, and files that were shared as text do not become binary",
            "no peer shares a file of a private name",
        ],
        quick: 9_000,
        thorough: 150_000,
        threads: 8,
        case_timeout_s: 120,
        exhaustive: false,
        case,
    }
}

fn case(src: &mut Src, ctx: &mut Ctx, i: usize) -> CaseResult {
    if i == 0 {
        return block_on(surrounding(ctx));
    }
    block_on(run(src, ctx, i % 3 == 2))
}

/// A rule that names a folder, in an ignore file above the project, for a file in a folder. The
/// generated cases only have rules without folders there.
async fn surrounding(ctx: &mut Ctx) -> R<()> {
    let parent = ctx.scratch.join("repo");
    let dir = project(&parent, "p");
    std::fs::create_dir_all(parent.join(".git")).expect("mkdir");
    std::fs::create_dir_all(dir.join("d")).expect("mkdir");
    std::fs::write(parent.join(".gitignore"), "/p/d/secret\n").expect("write");
    std::fs::write(dir.join("d/secret"), "secret").expect("write");
    let node = Node::start("n", &dir, false, true)?;
    if node.shared().await?.contains_key("d/secret") {
        return fail(
            "surrounding-rule-with-folder",
            "the project is the folder p of a Git repository whose .gitignore is \"/p/d/secret\", and d/secret is shared",
        );
    }
    Ok(())
}

/// One line of an ignore file.
#[derive(Clone, Debug)]
struct Rule {
    line: String,
    negated: bool,
    dir_only: bool,
    /// Relative to the directory of the ignore file; otherwise for the last component only.
    anchored: bool,
    parts: Vec<String>,
}

fn rule(line: &str) -> Rule {
    let mut l = line;
    let negated = l.starts_with('!');
    l = l.strip_prefix('!').unwrap_or(l);
    let dir_only = l.ends_with('/');
    l = l.strip_suffix('/').unwrap_or(l);
    let anchored = l.contains('/');
    l = l.strip_prefix('/').unwrap_or(l);
    Rule {
        line: line.to_string(),
        negated,
        dir_only,
        anchored,
        parts: l.split('/').map(String::from).collect(),
    }
}

/// `*` and `?` within one component.
fn glob(p: &[u8], s: &[u8]) -> bool {
    match p.first() {
        None => s.is_empty(),
        Some(b'*') => (0..=s.len()).any(|i| glob(&p[1..], &s[i..])),
        Some(b'?') => !s.is_empty() && glob(&p[1..], &s[1..]),
        Some(c) => s.first() == Some(c) && glob(&p[1..], &s[1..]),
    }
}

fn glob_path(p: &[String], s: &[&str]) -> bool {
    match p.first() {
        None => s.is_empty(),
        Some(x) if x == "**" => (0..=s.len()).any(|i| glob_path(&p[1..], &s[i..])),
        Some(x) => !s.is_empty() && glob(x.as_bytes(), s[0].as_bytes()) && glob_path(&p[1..], &s[1..]),
    }
}

impl Rule {
    fn matches(&self, rel: &[&str], is_dir: bool) -> bool {
        if self.dir_only && !is_dir {
            return false;
        }
        if self.anchored {
            glob_path(&self.parts, rel)
        } else {
            glob(self.parts[0].as_bytes(), rel.last().unwrap().as_bytes())
        }
    }
}

/// Ignore files by their directory, with paths relative to the parent of the project.
type Rules = BTreeMap<String, Vec<Rule>>;

fn ignored(rules: &Rules, exclude: &[Rule], path: &str) -> bool {
    let parts: Vec<&str> = path.split('/').collect();
    for n in 2..=parts.len() {
        let is_dir = n < parts.len();
        let mut verdict = None;
        for up in (0..n).rev() {
            let dir = parts[..up].join("/");
            if let Some(list) = rules.get(&dir) {
                if let Some(r) = list.iter().rev().find(|r| r.matches(&parts[up..n], is_dir)) {
                    verdict = Some(!r.negated);
                    break;
                }
            }
        }
        if verdict.is_none() {
            verdict = exclude.iter().rev().find(|r| r.matches(&parts[1..n], is_dir)).map(|r| !r.negated);
        }
        if verdict == Some(true) {
            return true;
        }
    }
    false
}

const DIRS: [&str; 7] = ["", "d/", "d/e/", "build/", "logs/", "d/build/", "d/e/logs/"];
const EXTS: [&str; 4] = [".txt", ".log", ".tmp", ""];

/// All files a case may have: every name contains a token of its own.
fn pool() -> Vec<String> {
    let mut v = vec![];
    for (i, d) in DIRS.iter().enumerate() {
        for (j, e) in EXTS.iter().enumerate() {
            v.push(format!("{d}zq{i}{j}{e}"));
        }
    }
    for (i, d) in [".git/", "d/.git/", ".ethersync/", "d/.ethersync/", ".git/hooks/", "d/e/.git/"].iter().enumerate() {
        v.push(format!("{d}zq9{i}.txt"));
    }
    v
}

fn patterns(src: &mut Src, negations: bool) -> Vec<String> {
    let n = 1 + src.usize(5);
    let mut v = vec![];
    for _ in 0..n {
        let i = src.usize(DIRS.len());
        let j = src.usize(EXTS.len());
        let mut p: String = match src.usize(13) {
            0 => "*.log".into(),
            1 => "*.tmp".into(),
            2 => "build/".into(),
            3 => "logs".into(),
            4 => "/logs/".into(),
            5 => "d/e/".into(),
            6 => format!("zq{i}{j}{}", EXTS[j]),
            7 => format!("/{}zq{i}{j}{}", DIRS[i], EXTS[j]),
            8 => format!("zq{i}*"),
            9 => "**/e/zq*".into(),
            10 => "d/**/*.txt".into(),
            11 => "zq?1.*".into(),
            _ => "*".into(),
        };
        if negations && !v.is_empty() && src.chance(1, 3) {
            p = format!("!{p}");
        }
        v.push(p);
    }
    v
}

struct Files {
    dir: PathBuf,
    /// Matched by a rule or in a private folder.
    hidden: BTreeMap<String, bool>,
    disk: BTreeMap<String, Vec<u8>>,
    was_text: BTreeSet<String>,
    /// Tokens that were in a file that may be shared.
    public: BTreeSet<usize>,
    next: usize,
}

fn token(n: usize) -> String {
    format!("tok{n:05}kot")
}

impl Files {
    fn is_private(&self, p: &str) -> bool {
        self.hidden[p] || self.disk.get(p).is_some_and(|b| std::str::from_utf8(b).is_err())
    }

    fn note(&mut self, p: &str) {
        if self.disk.contains_key(p) && !self.is_private(p) {
            self.was_text.insert(p.to_string());
            let text = String::from_utf8(self.disk[p].clone()).unwrap();
            for (i, _) in text.match_indices("tok") {
                if let Some(n) = text.get(i + 3..i + 8).and_then(|n| n.parse().ok()) {
                    self.public.insert(n);
                }
            }
        }
    }

    fn write(&mut self, p: &str, binary: bool) -> usize {
        let n = self.next;
        self.next += 1;
        let mut b = token(n).into_bytes();
        b.push(b'\n');
        if binary {
            b.push(0xff);
        }
        std::fs::write(self.dir.join(p), &b).expect("write");
        self.disk.insert(p.to_string(), b);
        self.note(p);
        n
    }

    /// A random operation by another program.
    fn op(&mut self, src: &mut Src, ctx: &mut Ctx, names: &[String]) -> bool {
        let p = src.pick(names).clone();
        let show = |s: &Self, p: &str| format!("{p}{}", if s.is_private(p) { " (private)" } else { "" });
        match src.weighted(&[6, 2, 2]) {
            0 => {
                let binary = !self.was_text.contains(&p) && src.chance(1, 4);
                self.write(&p, binary);
                ctx.log(format!("write {}{}", show(self, &p), if binary { ", binary" } else { "" }));
            }
            1 => {
                let q = src.pick(names).clone();
                let Some(b) = self.disk.get(&p).cloned() else {
                    return false;
                };
                let binary = std::str::from_utf8(&b).is_err();
                if p == q || (binary && self.was_text.contains(&q)) {
                    return false;
                }
                ctx.log(format!("rename {} to {}", show(self, &p), show(self, &q)));
                std::fs::rename(self.dir.join(&p), self.dir.join(&q)).expect("rename");
                self.disk.remove(&p);
                self.disk.insert(q.clone(), b);
                self.note(&q);
            }
            _ => {
                if self.disk.remove(&p).is_none() {
                    return false;
                }
                ctx.log(format!("delete {}", show(self, &p)));
                std::fs::remove_file(self.dir.join(&p)).expect("remove");
            }
        }
        self.is_private(&p)
    }

    /// The private files are as other programs left them.
    fn check_untouched(&self) -> R<()> {
        for p in self.hidden.keys() {
            if !self.is_private(p) {
                continue;
            }
            let now = std::fs::read(self.dir.join(p)).ok();
            if now.as_ref() != self.disk.get(p) {
                return fail(
                    "private-changed",
                    format!("private file {p} is {:?}, it was {:?}", now.map(lossy), self.disk.get(p).cloned().map(lossy)),
                );
            }
        }
        Ok(())
    }

    fn may_be_known(&self, p: &str) -> bool {
        !self.hidden[p] && (self.was_text.contains(p) || !self.is_private(p))
    }

    fn check_names<'a>(&self, where_: &str, texts: impl Iterator<Item = &'a String>) -> R<()> {
        for t in texts {
            for p in self.hidden.keys() {
                let base = p.rsplit('/').next().unwrap();
                if (t == p || t.ends_with(&format!("/{p}")) || (t.contains(base) && t.contains('/') && t.ends_with(base) && same(t, p)))
                    && !self.may_be_known(p)
                {
                    return fail("name-visible", format!("{where_} shows the private name {p}: {t}"));
                }
            }
        }
        Ok(())
    }

    fn check_content(&self, where_: &str, bytes: &[u8]) -> R<()> {
        let text = String::from_utf8_lossy(bytes);
        for (i, _) in text.match_indices("tok") {
            if let Some(n) = text.get(i + 3..i + 8).and_then(|n| n.parse::<usize>().ok()) {
                if !self.public.contains(&n) {
                    return fail("content-visible", format!("{where_} shows the content of a private file: {}", token(n)));
                }
            }
        }
        Ok(())
    }
}

fn same(t: &str, p: &str) -> bool {
    Path::new(t).ends_with(p)
}

fn lossy(b: Vec<u8>) -> String {
    String::from_utf8_lossy(&b).to_string()
}

fn event_path(e: &WatcherEvent) -> &Path {
    match e {
        WatcherEvent::Created { file_path } | WatcherEvent::Removed { file_path } | WatcherEvent::Changed { file_path } => file_path,
    }
}

async fn run(src: &mut Src, ctx: &mut Ctx, watching: bool) -> R<()> {
    let parent = ctx.scratch.join("repo");
    let dir = project(&parent, "p");
    for d in DIRS.iter().chain(&[".git/hooks/", "d/.git/", "d/.ethersync/", "d/e/.git/"]) {
        std::fs::create_dir_all(dir.join(d)).expect("mkdir");
    }
    let kind = src.usize(4);
    ctx.label(["gitignore", "ignore", "gitignore of a surrounding repository", "gitignore and exclude file"][kind]);
    if watching {
        ctx.label("with file watcher");
    }
    let file = if kind == 1 { ".ignore" } else { ".gitignore" };
    let mut rules = Rules::new();
    let mut exclude = vec![];
    let negations = kind != 3;
    let mut places = vec!["p"];
    if kind == 2 {
        // The project itself is then no repository.
        std::fs::create_dir_all(parent.join(".git")).expect("mkdir");
    }
    if (kind == 2 || kind == 1) && src.bool() {
        places.push("");
    }
    for d in ["p/d", "p/d/e", "p/build"] {
        if src.chance(1, 4) {
            places.push(d);
        }
    }
    if kind == 2 {
        for d in [".git", "d/.git", "d/e/.git"] {
            std::fs::remove_dir_all(dir.join(d)).expect("rmdir");
        }
    } else {
        // A repository of its own would hide the rules above it.
        for d in ["d/.git", "d/e/.git"] {
            if kind != 1 {
                std::fs::remove_dir_all(dir.join(d)).expect("rmdir");
            }
        }
    }
    for place in places {
        let mut lines = patterns(src, negations);
        if place.is_empty() {
            lines.retain(|l| !rule(l).anchored);
        }
        let mut text = String::new();
        for l in &lines {
            match src.usize(6) {
                0 => text.push_str("# comment\n\n"),
                1 => text.push('\n'),
                _ => {}
            }
            text.push_str(l);
            text.push_str(*src.pick(&["\n", "\n", "  \n"]));
        }
        ctx.log(format!("{place}/{file}: {lines:?}"));
        std::fs::write(parent.join(place).join(file), text).expect("write");
        rules.insert(place.to_string(), lines.iter().map(|l| rule(l)).collect());
    }
    if kind == 3 {
        let lines = patterns(src, false);
        ctx.log(format!("exclude: {lines:?}"));
        std::fs::create_dir_all(dir.join(".git/info")).expect("mkdir");
        std::fs::write(dir.join(".git/info/exclude"), lines.join("\n")).expect("write");
        exclude = lines.iter().map(|l| rule(l)).collect();
    }
    let names: Vec<String> = pool().into_iter().filter(|p| dir.join(p).parent().unwrap().is_dir()).collect();
    let hidden = names
        .iter()
        .map(|p| {
            let private = p.split('/').any(|c| c == ".git" || c == ".ethersync");
            (p.clone(), private || ignored(&rules, &exclude, &format!("p/{p}")))
        })
        .collect();
    let mut f = Files {
        dir: dir.clone(),
        hidden,
        disk: BTreeMap::new(),
        was_text: BTreeSet::new(),
        public: BTreeSet::new(),
        next: 1,
    };
    for p in &names {
        if src.chance(1, 3) {
            let binary = src.chance(1, 5);
            f.write(p, binary);
            ctx.log(format!("{p}{}{}", if binary { ", binary" } else { "" }, if f.hidden[p] { " (hidden)" } else { "" }));
        }
    }
    let privates = names.iter().filter(|p| f.disk.contains_key(*p) && f.is_private(p)).count();

    let mut w = World::default();
    w.add_node(Node::start("n", &dir, false, true)?);
    let mut peer = Peer::new();
    let mut link = PeerLink::new(&w.nodes[0], &mut peer);
    let mut watcher = watching.then(|| Watcher::new(&dir));
    for _ in 0..2 {
        let e = Ed::connect(&w.nodes, 0).await?;
        w.eds.push(e);
    }
    link.settle(&w.nodes[0], &mut peer).await?;
    check(&mut f, &mut w, &mut peer)?;
    let mut touched = 0;
    let steps = 4 + src.usize(if ctx.thorough { 24 } else { 10 });
    for step in 0..steps {
        match src.weighted(&[6, if watching { 8 } else { 0 }, 2, 3]) {
            0 => {
                // Editor 0 opens anything, also without a file, and types into it.
                let p = src.pick(&names).clone();
                ctx.log(format!("editor 0 opens {p}{}", if f.is_private(&p) { " (private)" } else { "" }));
                let existed = f.disk.contains_key(&p);
                let ok = w.eds[0].open(&w.nodes, &p).await?;
                if !existed {
                    if let Ok(b) = std::fs::read(dir.join(&p)) {
                        if !b.is_empty() {
                            return fail("private-changed", format!("{p} appeared with {:?}", lossy(b)));
                        }
                        f.disk.insert(p.clone(), b);
                    }
                }
                f.note(&p);
                if f.is_private(&p) {
                    touched += 1;
                }
                let typed = token(f.next);
                f.next += 1;
                if !f.is_private(&p) {
                    f.public.insert(f.next - 1);
                }
                let uri = w.eds[0].uri(&p);
                let z = json!({"line": 0, "character": 0});
                w.eds[0].request(
                    "edit",
                    json!({"uri": uri, "revision": 0, "delta": [{"range": {"start": z, "end": z}, "replacement": typed}]}),
                );
                w.eds[0].deliver(&w.nodes).await?;
                if src.chance(2, 3) || !ok {
                    w.eds[0].close(&p);
                    w.eds[0].deliver(&w.nodes).await?;
                }
                reread(&mut f);
            }
            1 => {
                for _ in 0..1 + src.usize(4) {
                    if f.op(src, ctx, &names) {
                        touched += 1;
                    }
                    if src.chance(1, 4) {
                        if let Ok(Some(e)) = tokio::time::timeout(Duration::from_millis(2), watcher.as_mut().unwrap().next()).await {
                            w.nodes[0].watcher(e).await?;
                        }
                    }
                }
            }
            2 => {
                ctx.log("restart, with changes while it is down");
                if src.chance(3, 4) {
                    w.nodes[0].persist().await?;
                }
                w.eds.clear();
                drop(watcher.take());
                w.nodes.clear();
                for _ in 0..src.usize(5) {
                    f.op(src, ctx, &names);
                }
                let mut fresh = World::default();
                let init = src.chance(1, 4);
                fresh.add_node(Node::start("n", &dir, init, true)?);
                w = fresh;
                if init {
                    peer = Peer::new();
                }
                link = PeerLink::new(&w.nodes[0], &mut peer);
                watcher = watching.then(|| Watcher::new(&dir));
                for _ in 0..2 {
                    let e = Ed::connect(&w.nodes, 0).await?;
                    w.eds.push(e);
                }
                reread(&mut f);
            }
            _ => {
                // The observer opens what is public.
                let public: Vec<&String> = names.iter().filter(|p| f.disk.contains_key(*p) && !f.is_private(p)).collect();
                if !public.is_empty() {
                    let p = (*src.pick(&public)).clone();
                    ctx.log(format!("editor 1 opens {p}"));
                    w.eds[1].open(&w.nodes, &p).await?;
                }
            }
        }
        if let Some(watcher) = &mut watcher {
            // Some file the watcher certainly reports.
            let marker = dir.join(format!("marker-{step}"));
            if !ignored(&rules, &exclude, &format!("p/marker-{step}")) {
                std::fs::write(&marker, b"").expect("write");
                loop {
                    let next = tokio::time::timeout(Duration::from_secs(10), watcher.next()).await;
                    let Ok(Some(e)) = next else {
                        break;
                    };
                    let done = event_path(&e) == marker;
                    w.nodes[0].watcher(e).await?;
                    if done {
                        break;
                    }
                }
            } else {
                // Everything at the top is ignored: be content with what comes soon.
                while let Ok(Some(e)) = tokio::time::timeout(Duration::from_millis(5), watcher.next()).await {
                    w.nodes[0].watcher(e).await?;
                }
            }
        }
        link.settle(&w.nodes[0], &mut peer).await?;
        check(&mut f, &mut w, &mut peer)?;
    }
    if std::env::var("VERIF_MODEL").is_ok() {
        let shared = peer.files()?;
        for p in &names {
            if f.disk.contains_key(p) && !f.is_private(p) && !shared.contains_key(p) {
                return fail("model", format!("{p} should be shared"));
            }
        }
    }
    history(&f, &mut peer)?;
    ctx.nontrivial = privates >= 2 && touched > 0 && !peer.files()?.is_empty();
    Ok(())
}

/// Public files change by themselves; private ones do not.
fn reread(f: &mut Files) {
    for p in f.hidden.keys().cloned().collect::<Vec<_>>() {
        if f.is_private(&p) {
            continue;
        }
        match std::fs::read(f.dir.join(&p)) {
            Ok(b) => {
                f.disk.insert(p.clone(), b);
                f.note(&p);
            }
            Err(_) => {
                f.disk.remove(&p);
            }
        }
    }
}

fn check(f: &mut Files, w: &mut World, peer: &mut Peer) -> R<()> {
    reread(f);
    f.check_untouched()?;
    let shared = peer.files()?;
    f.check_names("the shared project", shared.keys())?;
    for t in shared.values() {
        f.check_content("the shared project", t.as_bytes())?;
    }
    w.drain_all()?;
    for m in &w.eds[1].inbox {
        f.check_content("a message to another editor", m.to_string().as_bytes())?;
        if let Some(u) = m["params"]["uri"].as_str() {
            f.check_names("a message to another editor", [u.to_string()].iter())?;
        }
    }
    for e in &mut w.eds {
        e.process_all()?;
    }
    Ok(())
}

/// Nothing was there at any time.
fn history(f: &Files, peer: &mut Peer) -> R<()> {
    use automerge::ReadDoc;
    let hashes: Vec<_> = peer.doc.get_changes(&[]).iter().map(|c| c.hash()).collect();
    for h in hashes {
        let heads = [h];
        let Some((_, files)) = peer.doc.get_at(automerge::ROOT, "files", &heads).ok().flatten() else {
            continue;
        };
        let keys: Vec<String> = peer.doc.keys_at(&files, &heads).collect();
        f.check_names("the shared history", keys.iter())?;
        for k in &keys {
            if let Some((_, text)) = peer.doc.get_at(&files, k.as_str(), &heads).ok().flatten() {
                if let Ok(t) = peer.doc.text_at(&text, &heads) {
                    f.check_content("the shared history", t.as_bytes())?;
                }
            }
        }
    }
    Ok(())
}
