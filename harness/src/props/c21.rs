//! Deleted files are gone for everybody, created files appear for everybody.

use crate::{
    runner::{fail, CaseResult, Ctx, Prop},
    tape::Src,
    text,
    world::{block_on, project, Ed, Node, World, R},
};
use std::collections::BTreeMap;

pub fn prop() -> Prop {
    Prop {
        id: "C21",
        level: "exploration",
        rule: "a case is a history of creations, deletions, replacements and edits of a few names on 2-3 daemons, compared after each with a model of the shared files; \
               non-trivial if a file was deleted, a deleted name was created again, and one of that happened while an editor had the file open",
        assumptions: &["the file watcher reports what happened on disk, in order and with any delay"],
        quick: 6_000,
        thorough: 150_000,
        threads: 8,
        case_timeout_s: 60,
        exhaustive: false,
        case,
    }
}

fn case(src: &mut Src, ctx: &mut Ctx, _i: usize) -> CaseResult {
    block_on(run(src, ctx))
}

const NAMES: [&str; 4] = ["f", "g", "d/h", "new/dir/k"];

struct S {
    w: World,
    model: BTreeMap<String, String>,
}

impl S {
    /// Everything is delivered; the watchers may lag behind, except where somebody did something.
    async fn settle(&mut self, lag: bool, did: &[usize]) -> R<()> {
        self.w.observe()?;
        for n in did {
            while self.w.watch_step(*n).await? {}
        }
        self.w.settle_with(!lag).await
    }

    async fn check(&self) -> R<()> {
        for (i, n) in self.w.nodes.iter().enumerate() {
            let shared = n.shared().await?;
            if shared != self.model {
                return fail(
                    "shared-differs",
                    format!("{} shares {shared:?}, expected {:?}", n.name, self.model),
                );
            }
            for name in NAMES {
                if self.w.owned(i, name) {
                    continue;
                }
                let d = n.disk_text(name);
                if d.as_ref() != self.model.get(name) {
                    return fail(
                        "disk-differs",
                        format!("{}: {name} on disk is {d:?}, expected {:?}", n.name, self.model.get(name)),
                    );
                }
            }
        }
        self.w.check_buffers().await
    }
}

async fn run(src: &mut Src, ctx: &mut Ctx) -> R<()> {
    let n = 2 + src.usize(2);
    let host = project(&ctx.scratch, "n0");
    let mut model = BTreeMap::new();
    for name in NAMES {
        if src.bool() {
            let t = text::gen_plain(src, 6);
            ctx.log(format!("host file {name}: {t:?}"));
            let p = host.join(name);
            std::fs::create_dir_all(p.parent().unwrap()).expect("mkdir");
            std::fs::write(p, &t).expect("write");
            model.insert(name.to_string(), t);
        }
    }
    let mut w = World::default();
    w.add_node(Node::start("n0", &host, false, true)?);
    for i in 1..n {
        let name = format!("n{i}");
        let dir = project(&ctx.scratch, &name);
        w.add_node(Node::start(&name, &dir, false, false)?);
        w.link(src.usize(i), i);
    }
    w.settle().await?;
    let mut s = S { w, model };
    s.check().await?;

    let mut deleted = vec![];
    let (mut deletes, mut recreates, mut while_open) = (0, 0, 0);
    let steps = 4 + src.usize(if ctx.thorough { 30 } else { 16 });
    for _ in 0..steps {
        let node = src.usize(n);
        let name = *src.pick(&NAMES);
        let lag = src.chance(1, 3);
        let kind = src.weighted(&[4, 5, 5, 6, 2, 1, 2, 3, 2, 2]);
        if matches!(kind, 0 | 1 | 6 | 7 | 8 | 9) {
            // People look at what is there: what happened before has been noticed.
            s.settle(false, &[]).await?;
        }
        let open_somewhere = (0..n).any(|i| s.w.owned(i, name));
        let owned = s.w.owned(node, name);
        let exists = s.w.nodes[node].disk(name).is_some();
        let known = s.model.contains_key(name);
        let live: Vec<usize> = (0..s.w.eds.len()).filter(|e| s.w.eds[*e].alive()).collect();
        match kind {
            0 if !exists && !owned => {
                let t = text::gen_plain(src, 6);
                ctx.log(format!("n{node}: {name} is created with {t:?}"));
                s.w.nodes[node].write_disk(name, t.as_bytes());
                s.model.insert(name.into(), t);
                s.settle(lag, &[node]).await?;
            }
            1 if exists => {
                ctx.log(format!("n{node}: {name} is deleted{}", if owned { " (open here)" } else { "" }));
                std::fs::remove_file(s.w.nodes[node].dir.join(name)).expect("remove");
                if !owned && known {
                    s.model.remove(name);
                    deletes += 1;
                    if open_somewhere {
                        while_open += 1;
                        ctx.label("deleted while open elsewhere");
                    }
                }
                s.settle(lag, &[node]).await?;
            }
            2 => {
                // An editor opens a name, new or not.
                if !s.w.nodes[node].dir.join(name).parent().unwrap().is_dir() {
                    continue;
                }
                let e = match live.iter().find(|e| s.w.eds[**e].node == node) {
                    Some(e) if src.chance(2, 3) => *e,
                    _ => {
                        if live.len() >= 4 {
                            continue;
                        }
                        let ed = Ed::connect(&s.w.nodes, node).await?;
                        s.w.eds.push(ed);
                        s.w.eds.len() - 1
                    }
                };
                if s.w.eds[e].bufs.contains_key(name) {
                    continue;
                }
                ctx.log(format!("n{node}: editor {e} opens {name}"));
                if !s.w.eds[e].open(&s.w.nodes, name).await? {
                    return fail("open-refused", format!("open of {name} was refused"));
                }
                if !known {
                    ctx.label("created by opening");
                    s.model.insert(name.into(), String::new());
                }
                s.settle(lag, &[]).await?;
            }
            3 => {
                let Some(e) = live.iter().copied().find(|e| s.w.eds[*e].bufs.contains_key(name)) else {
                    continue;
                };
                let len = s.w.eds[e].bufs[name].text.len();
                let (at, del) = text::gen_splice(src, len);
                let ins = text::gen_plain(src, 3);
                ctx.log(format!("editor {e}: {name} replace {del} at {at} by {ins:?}"));
                s.w.eds[e].user_edit(name, at, del, &ins);
                if !known {
                    ctx.label("typed into a deleted file");
                }
                s.model.insert(name.into(), text::to_string(&s.w.eds[e].bufs[name].text));
                s.settle(lag, &[]).await?;
            }
            4 => {
                let Some(e) = live.iter().copied().find(|e| s.w.eds[*e].bufs.contains_key(name)) else {
                    continue;
                };
                ctx.log(format!("editor {e} closes {name}"));
                s.w.eds[e].close(name);
                s.settle(lag, &[]).await?;
            }
            5 if !live.is_empty() => {
                let e = *src.pick(&live);
                ctx.log(format!("editor {e} disconnects"));
                s.w.eds[e].disconnect(&s.w.nodes).await?;
                s.settle(lag, &[]).await?;
            }
            6 if !known && !open_somewhere => {
                // The same name is created in two places at once.
                let other = (node + 1 + src.usize(n - 1)) % n;
                let (t, u) = (text::gen_plain(src, 5), text::gen_plain(src, 5));
                ctx.log(format!("n{node} and n{other} create {name} at once: {t:?}, {u:?}"));
                ctx.label("created twice at once");
                s.w.nodes[node].write_disk(name, t.as_bytes());
                s.w.nodes[other].write_disk(name, u.as_bytes());
                s.settle(lag, &[node, other]).await?;
                let got = s.w.nodes[0].shared().await?.remove(name);
                match got {
                    Some(g) if g == t || g == u => {
                        s.model.insert(name.into(), g);
                    }
                    g => {
                        return fail(
                            "conflict-lost",
                            format!("{name} was created as {t:?} and as {u:?}, but is shared as {g:?}"),
                        )
                    }
                }
            }
            7 if exists && !owned => {
                let t = text::gen_plain(src, 6);
                ctx.log(format!("n{node}: {name} is deleted and created again with {t:?}"));
                s.w.replace_on_disk(node, name, t.as_bytes())?;
                s.model.insert(name.into(), t);
                if open_somewhere {
                    while_open += 1;
                    ctx.label("replaced while open elsewhere");
                }
                s.settle(lag, &[node]).await?;
            }
            8 if exists && !owned && known => {
                // Deleted here while somebody types there.
                let Some(e) = live.iter().copied().find(|e| s.w.eds[*e].bufs.contains_key(name)) else {
                    continue;
                };
                let ins = text::gen_plain(src, 3);
                ctx.log(format!("n{node}: {name} is deleted while editor {e} types {ins:?}"));
                ctx.label("deleted while typing");
                s.w.eds[e].user_edit(name, 0, 0, &ins);
                std::fs::remove_file(s.w.nodes[node].dir.join(name)).expect("remove");
                s.w.observe()?;
                if src.bool() {
                    s.w.eds[e].deliver(&s.w.nodes).await?;
                }
                s.settle(false, &[node]).await?;
                let got = s.w.nodes[0].shared().await?.remove(name);
                let buf = text::to_string(&s.w.eds[e].bufs[name].text);
                match got {
                    None => {
                        s.model.remove(name);
                        deletes += 1;
                        while_open += 1;
                    }
                    Some(g) if g == buf => {
                        s.model.insert(name.into(), g);
                    }
                    Some(g) => {
                        return fail("buffer-differs", format!("{name} is shared as {g:?}, the buffer holds {buf:?}"))
                    }
                }
            }
            9 if exists && !owned && known => {
                // Renamed to another name.
                let to = *src.pick(&NAMES);
                if to == name || s.model.contains_key(to) || s.w.owned(node, to) || s.w.nodes[node].disk(to).is_some() {
                    continue;
                }
                let dest = s.w.nodes[node].dir.join(to);
                std::fs::create_dir_all(dest.parent().unwrap()).expect("mkdir");
                ctx.log(format!("n{node}: {name} is moved to {to}"));
                std::fs::rename(s.w.nodes[node].dir.join(name), dest).expect("rename");
                let t = s.model.remove(name).unwrap();
                s.model.insert(to.into(), t);
                deletes += 1;
                if open_somewhere {
                    while_open += 1;
                }
                s.settle(lag, &[node]).await?;
            }
            _ => continue,
        }
        for name in NAMES {
            if !s.model.contains_key(name) {
                deleted.push(name);
            } else if deleted.contains(&name) {
                recreates += 1;
                deleted.retain(|d| *d != name);
            }
        }
        s.check().await?;
    }
    s.settle(false, &[]).await?;
    s.check().await?;
    ctx.nontrivial = deletes > 0 && recreates > 0 && while_open > 0;
    Ok(())
}
