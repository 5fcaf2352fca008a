//! A joining daemon takes over the host's project and publishes nothing by itself.

use crate::{
    runner::{fail, CaseResult, Ctx, Prop},
    tape::Src,
    text,
    world::{block_on, project, read_tree, Node, World, R},
};
use automerge::ReadDoc;
use std::{
    collections::{BTreeMap, BTreeSet},
    path::Path,
};

pub fn prop() -> Prop {
    Prop {
        id: "C22",
        level: "exploration",
        rule: "a case is a host, started fresh or starting over on an old history, and 1-3 joining daemons, all with generated directories; \
               non-trivial if host and joiner both had files, one of them of the same name with another content, and the joiner had one of its own",
        assumptions: &["no path is a file on one side and a directory on the other"],
        quick: 9_000,
        thorough: 300_000,
        threads: 8,
        case_timeout_s: 60,
        exhaustive: false,
        case,
    }
}

fn case(src: &mut Src, ctx: &mut Ctx, _i: usize) -> CaseResult {
    block_on(run(src, ctx))
}

type Files = BTreeMap<String, Vec<u8>>;

const NAMES: [&str; 14] = [
    "a", "b", "c.txt", ".hidden", " a b%41 ", "ü.md", "sub/a", "sub/b", "sub/deep/x", "dir.d/🥕", "Makefile", "CON", "-", "x'\"\\y",
];

fn content(src: &mut Src, old: Option<&Vec<u8>>) -> Vec<u8> {
    match src.weighted(&[8, 2, 2, if old.is_some() { 3 } else { 0 }, 1]) {
        0 => text::gen_string(src, 14).into_bytes(),
        1 => vec![],
        // Not a text.
        2 => {
            let mut v = text::gen_string(src, 6).into_bytes();
            let bad: &[u8] = *src.pick(&[&b"\xff"[..], b"\xc3", b"\xed\xa0\x80", b"\x80", b"\xf5\x80\x80\x80", b"\xc0\x80"]);
            // At the end, so that it is never completed by what follows.
            v.extend_from_slice(bad);
            v
        }
        3 => old.cloned().unwrap_or_default(),
        _ => {
            let n = 1 + src.usize(2_000);
            "line of text\n".repeat(n / 13 + 1).into_bytes()
        }
    }
}

fn gen_files(src: &mut Src, near: Option<&Files>) -> Files {
    let mut out = Files::new();
    for _ in 0..src.usize(6) {
        let name = match near {
            Some(n) if !n.is_empty() && src.bool() => n.keys().nth(src.usize(n.len())).unwrap().clone(),
            _ => (*src.pick(&NAMES)).to_string(),
        };
        let old = near.and_then(|n| n.get(&name));
        let c = content(src, old);
        out.insert(name, c);
    }
    out
}

fn put(dir: &Path, files: &Files) {
    for (n, c) in files {
        let p = dir.join(n);
        std::fs::create_dir_all(p.parent().unwrap()).expect("mkdir");
        std::fs::write(p, c).expect("write");
    }
}

fn texts(files: &Files) -> BTreeMap<String, String> {
    files
        .iter()
        .filter_map(|(k, v)| Some((k.clone(), String::from_utf8(v.clone()).ok()?)))
        .collect()
}

async fn expect_shared(n: &Node, want: &BTreeMap<String, String>, what: &str) -> R<()> {
    let have = n.shared().await?;
    if have != *want {
        let names: BTreeSet<&String> = have.keys().chain(want.keys()).filter(|k| have.get(*k) != want.get(*k)).collect();
        let k = names.into_iter().next().unwrap();
        return fail(
            what,
            format!("{}: {k:?} is shared as {:?}, expected {:?}", n.name, have.get(k), want.get(k)),
        );
    }
    Ok(())
}

fn expect_disk(dir: &Path, want: &Files, what: &str) -> R<()> {
    let have = read_tree(dir);
    if have != *want {
        let k = have.keys().chain(want.keys()).find(|k| have.get(*k) != want.get(*k)).unwrap();
        let show = |v: Option<&Vec<u8>>| v.map(|v| String::from_utf8_lossy(&v[..v.len().min(80)]).to_string());
        return fail(
            what,
            format!("{}: {k:?} has {:?}, expected {:?}", dir.display(), show(have.get(k)), show(want.get(k))),
        );
    }
    Ok(())
}

/// No version of the document ever had these texts.
fn expect_no_history(doc: &automerge::AutoCommit, secrets: &[String], what: &str) -> R<()> {
    let mut doc = doc.clone();
    let Ok(Some((_, files))) = doc.get(automerge::ROOT, "files") else {
        return fail("no-files-map", "the shared document has no file map");
    };
    let hashes: Vec<_> = doc.get_changes(&[]).iter().map(|c| c.hash()).collect();
    for h in hashes {
        let names: Vec<String> = doc.keys_at(&files, &[h]).collect();
        for n in names {
            let Ok(Some((_, id))) = doc.get_at(&files, n.as_str(), &[h]) else { continue };
            let t = doc.text_at(&id, &[h]).unwrap_or_default();
            if let Some(s) = secrets.iter().find(|s| t.contains(*s) || n.contains(*s)) {
                return fail(what, format!("the history still has {s} in {n}"));
            }
        }
    }
    Ok(())
}

async fn run(src: &mut Src, ctx: &mut Ctx) -> R<()> {
    let mut w = World::default();
    let dir = project(&ctx.scratch, "host");
    let mut host_files = gen_files(src, None);
    let over = src.chance(1, 3);
    if over {
        ctx.label("starting over");
        // An older life of this project.
        let mut old = gen_files(src, None);
        let mut secrets = vec![];
        for (i, (_, c)) in old.iter_mut().enumerate() {
            if src.bool() && std::str::from_utf8(c).is_ok() {
                let s = format!("zq{i:03}");
                c.extend_from_slice(s.as_bytes());
                secrets.push(s);
            }
        }
        put(&dir, &old);
        let node = Node::start("old", &dir, src.chance(1, 4), true)?;
        expect_shared(&node, &texts(&old), "host-shares-wrong").await?;
        node.persist().await?;
        if src.bool() {
            // Some more history.
            if let Some(k) = old.keys().next().cloned() {
                let c = content(src, None);
                node.write_disk(&k, &c);
                node.changed(&k).await?;
                node.persist().await?;
            }
        }
        drop(node);
        let keep = src.bool();
        for k in old.keys() {
            if !keep || src.bool() {
                std::fs::remove_file(dir.join(k)).expect("remove");
            } else {
                host_files.entry(k.clone()).or_insert_with(|| std::fs::read(dir.join(k)).expect("read"));
            }
        }
        put(&dir, &host_files);
        ctx.log(format!("host starts over with {:?}", host_files.keys().collect::<Vec<_>>()));
        let node = Node::start("host", &dir, true, true)?;
        // Texts that were kept are present, so they are not secret.
        secrets.retain(|s| !host_files.values().any(|c| String::from_utf8_lossy(c).contains(s.as_str())));
        expect_no_history(&node.look().await?.doc, &secrets, "old-history")?;
        node.persist().await?;
        let saved = std::fs::read(dir.join(".ethersync/doc")).expect("saved document");
        match automerge::AutoCommit::load(&saved) {
            Ok(d) => expect_no_history(&d, &secrets, "old-history-saved")?,
            Err(e) => return fail("saved-unreadable", format!("the saved document can not be read: {e}")),
        }
        w.add_node(node);
    } else {
        put(&dir, &host_files);
        ctx.log(format!("host starts with {:?}", host_files.keys().collect::<Vec<_>>()));
        w.add_node(Node::start("host", &dir, src.chance(1, 6), true)?);
    }
    let shared = texts(&host_files);
    expect_shared(&w.nodes[0], &shared, "host-shares-wrong").await?;
    expect_disk(&dir, &host_files, "host-disk-changed")?;

    let joiners = 1 + src.weighted(&[5, 2, 1]);
    let mut dirs = vec![];
    let mut conflict = false;
    for j in 0..joiners {
        let d = project(&ctx.scratch, &format!("j{j}"));
        let files = gen_files(src, Some(&host_files));
        put(&d, &files);
        ctx.log(format!("joiner {j} starts with {:?}", files.keys().collect::<Vec<_>>()));
        conflict |= files.iter().any(|(k, v)| shared.get(k).is_some_and(|s| s.as_bytes() != v.as_slice()))
            && files.keys().any(|k| !shared.contains_key(k));
        w.add_node(Node::start(&format!("j{j}"), &d, false, false)?);
        let n = w.nodes.len() - 1;
        expect_shared(&w.nodes[n], &BTreeMap::new(), "joiner-publishes").await?;
        expect_disk(&d, &files, "joiner-disk-changed")?;
        dirs.push((d, files));
    }
    for j in 0..joiners {
        let to = src.usize(j + 1);
        let late = src.bool();
        ctx.log(format!("joiner {j} connects to {}", w.nodes[to].name));
        w.link(to, j + 1);
        if late {
            w.settle().await?;
        } else {
            for _ in 0..src.usize(6) {
                let l = src.usize(w.links.len());
                let (what, side) = (src.bool(), src.bool());
                let link = &mut w.links[l];
                if what {
                    link.generate(&w.nodes, side).await?;
                } else {
                    link.deliver(&w.nodes, side).await?;
                }
            }
        }
    }
    w.settle().await?;
    for n in &w.nodes {
        expect_shared(n, &shared, "shared-differs").await?;
    }
    expect_disk(&dir, &host_files, "host-disk-changed")?;
    for (d, files) in &dirs {
        let mut want = files.clone();
        for (k, v) in &shared {
            want.insert(k.clone(), v.clone().into_bytes());
        }
        expect_disk(d, &want, "joiner-disk-wrong")?;
    }
    ctx.nontrivial = conflict;
    Ok(())
}
