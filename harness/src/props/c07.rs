//! A restart makes the shared state match the files and merges cleanly.

use crate::{
    runner::{fail, CaseResult, Ctx, Prop},
    sim::Uniq,
    tape::Src,
    world::{block_on, project, read_tree, Ed, Node, World, R},
};
use std::collections::BTreeMap;

pub fn prop() -> Prop {
    Prop {
        id: "C07",
        level: "exploration",
        rule: "a case is a project shared by two daemons of which one or both are stopped, changed on disk and started again, 1-3 times; \
               non-trivial if in one round the same file was edited on both sides and a file was created or deleted offline",
        assumptions: &[
            "the daemon's state was persisted before it stopped (C08 covers what was not)",
            "edits made on both sides of a file are at least 8 untouched characters apart",
        ],
        quick: 8_000,
        thorough: 200_000,
        threads: 8,
        case_timeout_s: 60,
        exhaustive: false,
        case,
    }
}

fn case(src: &mut Src, ctx: &mut Ctx, _i: usize) -> CaseResult {
    block_on(run(src, ctx))
}

const NAMES: [&str; 6] = ["f", "g", "h", "d/k", "d/e/l", "ü m.txt "];

/// Texts are made of blocks; one edit changes one block and leaves its ends alone.
type Blocks = Vec<String>;

fn block(src: &mut Src, u: &mut Uniq) -> String {
    let mut s = String::new();
    while s.chars().count() < 12 {
        s.push_str(&u.fresh(src, 4));
    }
    // The ends are unique characters.
    format!("{}{s}{}", one(src, u), one(src, u))
}

fn one(src: &mut Src, u: &mut Uniq) -> String {
    loop {
        let s = u.fresh(src, 1);
        if s != "\n" && !s.is_empty() {
            return s;
        }
    }
}

fn change(src: &mut Src, u: &mut Uniq, b: &str) -> String {
    let mut c: Vec<char> = b.chars().collect();
    // Keep four characters at both ends, so that edits of neighbours are eight apart.
    let (lo, hi) = (4.min(c.len() / 2), c.len() - 4.min(c.len() / 2));
    let at = src.range(lo, hi);
    let del = src.usize((hi - at).min(4) + 1);
    let ins = u.fresh(src, 4);
    c.splice(at..at + del, ins.chars());
    c.into_iter().collect()
}

fn text(b: &Blocks) -> String {
    b.join("\n")
}

async fn check_node(n: &Node, model: &BTreeMap<String, Blocks>, open: &[String], what: &str) -> R<()> {
    let want: BTreeMap<String, String> = model.iter().map(|(k, v)| (k.clone(), text(v))).collect();
    let got = n.shared().await?;
    if got != want {
        return fail("shared-differs", format!("{what}: {} {}", n.name, diff(&got, &want)));
    }
    let disk: BTreeMap<String, String> = read_tree(&n.dir)
        .into_iter()
        .map(|(k, v)| (k, String::from_utf8_lossy(&v).to_string()))
        .filter(|(k, _)| !open.contains(k))
        .collect();
    let want: BTreeMap<String, String> = want.into_iter().filter(|(k, _)| !open.contains(k)).collect();
    if disk != want {
        return fail("disk-differs", format!("{what}: {} on disk {}", n.name, diff(&disk, &want)));
    }
    Ok(())
}

fn diff(got: &BTreeMap<String, String>, want: &BTreeMap<String, String>) -> String {
    let mut out = vec![];
    for k in got.keys().chain(want.keys()) {
        if got.get(k) != want.get(k) {
            out.push(format!("{k}: has {:?}, expected {:?}", got.get(k), want.get(k)));
        }
    }
    out.dedup();
    out.join("; ")
}

fn put(n: &Node, name: &str, b: &Blocks) {
    n.write_disk(name, text(b).as_bytes());
}

async fn run(src: &mut Src, ctx: &mut Ctx) -> R<()> {
    let mut u = Uniq::default();
    let mut model: BTreeMap<String, Blocks> = BTreeMap::new();
    let dirs = [project(&ctx.scratch, "a"), project(&ctx.scratch, "b")];
    for name in NAMES {
        if src.chance(3, 4) {
            let n = src.usize(6);
            let blocks: Blocks = (0..n).map(|_| block(src, &mut u)).collect();
            ctx.log(format!("host file {name}: {:?}", text(&blocks)));
            let p = dirs[0].join(name);
            std::fs::create_dir_all(p.parent().unwrap()).expect("mkdir");
            std::fs::write(p, text(&blocks)).expect("write");
            model.insert(name.into(), blocks);
        }
    }
    let mut w = World::default();
    w.add_node(Node::start("a", &dirs[0], false, true)?);
    w.add_node(Node::start("b", &dirs[1], false, false)?);
    w.link(0, 1);
    w.settle().await?;

    let rounds = 1 + src.usize(3);
    let mut nontrivial = false;
    for round in 0..rounds {
        // Some work while connected, persisted in between.
        for _ in 0..src.usize(4) {
            let i = src.usize(2);
            if src.bool() {
                ctx.log(format!("{} persists", w.nodes[i].name));
                w.nodes[i].persist().await?;
            }
            let names: Vec<String> = model.keys().cloned().collect();
            if let Some(name) = (!names.is_empty()).then(|| src.pick(&names).clone()) {
                let blocks = model.get_mut(&name).unwrap();
                if !blocks.is_empty() {
                    let k = src.usize(blocks.len());
                    blocks[k] = change(src, &mut u, &blocks[k].clone());
                    ctx.log(format!("{}: {name} becomes {:?}", w.nodes[i].name, text(blocks)));
                    put(&w.nodes[i], &name, blocks);
                    w.settle().await?;
                }
            }
        }
        w.settle().await?;
        check_node(&w.nodes[0], &model, &[], "before the restart").await?;
        check_node(&w.nodes[1], &model, &[], "before the restart").await?;

        // Who stops, and what happens to each file meanwhile.
        let stops = [true, src.chance(1, 3)];
        for i in 0..2 {
            if stops[i] || src.bool() {
                w.nodes[i].persist().await?;
            }
        }
        w.links.clear();
        let mut parts: [BTreeMap<String, Blocks>; 2] = [model.clone(), model.clone()];
        // Stopped daemons are changed on disk; the other one through disk or an editor.
        let mut nodes: Vec<Option<Node>> = std::mem::take(&mut w.nodes).into_iter().map(Some).collect();
        for i in 0..2 {
            if stops[i] {
                ctx.log(format!("{} stops", ["a", "b"][i]));
                nodes[i] = None;
            }
        }
        // Let the stopped daemons' tasks end.
        for _ in 0..3 {
            tokio::task::yield_now().await;
        }
        let mut running = World::default();
        let mut editor: Option<Ed> = None;
        if let Some(n) = nodes[1].take() {
            running.add_node(n);
            if src.bool() {
                let mut e = Ed::connect(&running.nodes, 0).await?;
                for name in model.keys() {
                    if src.bool() && !e.open(&running.nodes, name).await? {
                        return fail("open-refused", format!("open of {name} was refused"));
                    }
                }
                ctx.label("an editor was open at the running peer");
                editor = Some(e);
            }
        }
        let none_changed = src.chance(1, 8);
        let (mut both, mut special) = (false, false);
        for name in NAMES {
            if none_changed {
                ctx.label("nothing changed offline");
                break;
            }
            let old = model.get(name).cloned();
            let open = editor.as_ref().is_some_and(|e| e.bufs.contains_key(name));
            match (src.weighted(&[2, 5, 2, 2]), old) {
                (0, _) => {}
                (1, Some(old)) if !old.is_empty() => {
                    // Both edit different blocks.
                    let parity = src.usize(2);
                    let mut merged = old.clone();
                    let mut touched = [false, false];
                    for k in 0..old.len() {
                        let side = (k + parity) % 2;
                        if src.bool() {
                            let c = change(src, &mut u, &old[k]);
                            merged[k] = c.clone();
                            parts[side].get_mut(name).unwrap()[k] = c;
                            touched[side] = true;
                        }
                    }
                    for side in 0..2 {
                        if !touched[side] {
                            continue;
                        }
                        let new = &parts[side][name];
                        ctx.log(format!("{}: {name} becomes {:?}", ["a", "b"][side], text(new)));
                        if stops[side] {
                            std::fs::write(dirs[side].join(name), text(new)).expect("write");
                        } else if open {
                            type_into(editor.as_mut().unwrap(), name, &old, new);
                        } else {
                            put(&running.nodes[0], name, new);
                            running.settle().await?;
                        }
                    }
                    both |= touched[0] && touched[1];
                    model.insert(name.into(), merged);
                }
                (2, Some(_)) => {
                    // One side deletes it.
                    let side = src.usize(2);
                    if open && side == 1 {
                        continue;
                    }
                    ctx.log(format!("{}: {name} is deleted", ["a", "b"][side]));
                    std::fs::remove_file(dirs[side].join(name)).expect("remove");
                    if !stops[side] {
                        running.settle().await?;
                    } else {
                        special = true;
                    }
                    model.remove(name);
                    parts[side].remove(name);
                }
                (3, None) => {
                    let side = src.usize(2);
                    let n = src.usize(4);
                    let blocks: Blocks = (0..n).map(|_| block(src, &mut u)).collect();
                    ctx.log(format!("{}: {name} is created with {:?}", ["a", "b"][side], text(&blocks)));
                    let p = dirs[side].join(name);
                    std::fs::create_dir_all(p.parent().unwrap()).expect("mkdir");
                    std::fs::write(p, text(&blocks)).expect("write");
                    if !stops[side] {
                        running.settle().await?;
                    } else {
                        special = true;
                    }
                    parts[side].insert(name.into(), blocks.clone());
                    model.insert(name.into(), blocks);
                }
                (3, Some(old)) if !old.is_empty() && !open => {
                    // One side empties it.
                    let side = src.usize(2);
                    ctx.log(format!("{}: {name} is emptied", ["a", "b"][side]));
                    std::fs::write(dirs[side].join(name), "").expect("write");
                    if !stops[side] {
                        running.settle().await?;
                    } else {
                        ctx.label("emptied offline");
                        special = true;
                    }
                    parts[side].insert(name.into(), vec![]);
                    model.insert(name.into(), vec![]);
                }
                _ => {}
            }
        }
        if let Some(e) = editor.as_mut() {
            while e.deliver(&running.nodes).await? {}
            e.drain()?;
        }
        nontrivial |= both && special;

        // Start again. Sometimes twice, with nothing happening in between.
        let mut restarted = vec![];
        for i in 0..2 {
            if !stops[i] {
                continue;
            }
            let times = 1 + usize::from(src.chance(1, 4));
            for t in 0..times {
                ctx.log(format!("{} starts again", ["a", "b"][i]));
                let n = Node::start(["a", "b"][i], &dirs[i], false, i == 0)?;
                check_node(&n, &parts[i], &[], "after the restart").await?;
                if t + 1 < times || src.bool() {
                    n.persist().await?;
                }
                if t + 1 == times {
                    restarted.push((i, n));
                }
            }
            for _ in 0..3 {
                tokio::task::yield_now().await;
            }
        }
        let mut nw = World::default();
        let mut slots: Vec<Option<Node>> = vec![None, None];
        for (i, n) in restarted {
            slots[i] = Some(n);
        }
        if !stops[1] {
            slots[1] = running.nodes.pop();
        }
        for n in slots.into_iter().flatten() {
            nw.add_node(n);
        }
        if let Some(mut e) = editor.take() {
            e.node = 1;
            nw.eds.push(e);
        }
        nw.link(0, 1);
        ctx.log("they meet again");
        nw.settle().await?;
        let open: Vec<String> = nw.eds.first().map(|e| e.bufs.keys().cloned().collect()).unwrap_or_default();
        check_node(&nw.nodes[0], &model, &[], "after meeting again").await?;
        // A file may be deleted under an editor; its buffer keeps it.
        check_node(&nw.nodes[1], &model, &open, "after meeting again").await?;
        nw.check_buffers().await?;
        if !nw.eds.is_empty() {
            nw.eds[0].disconnect(&nw.nodes).await?;
            nw.eds.clear();
            nw.settle().await?;
            check_node(&nw.nodes[1], &model, &[], "after the editor left").await?;
        }
        w = nw;
        if round + 1 == rounds {
            break;
        }
    }
    ctx.nontrivial = nontrivial;
    Ok(())
}

/// Changes the blocks that differ, as a user would, from the last to the first.
fn type_into(e: &mut Ed, name: &str, old: &Blocks, new: &Blocks) {
    for k in (0..old.len()).rev() {
        if old[k] == new[k] {
            continue;
        }
        let start: usize = old[..k].iter().map(|b| b.chars().count() + 1).sum();
        let o: Vec<char> = old[k].chars().collect();
        let n: Vec<char> = new[k].chars().collect();
        let mut p = 0;
        while p < o.len() && p < n.len() && o[p] == n[p] {
            p += 1;
        }
        let mut s = 0;
        while s < o.len() - p && s < n.len() - p && o[o.len() - 1 - s] == n[n.len() - 1 - s] {
            s += 1;
        }
        let ins: String = n[p..n.len() - s].iter().collect();
        e.user_edit(name, start + p, o.len() - s - p, &ins);
    }
}
