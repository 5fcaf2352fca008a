//! No path reaches files outside the project directory.

use crate::{
    hostile::Hostile,
    runner::{CaseResult, Ctx, Prop},
    tape::Src,
    text,
    world::{block_on, Ed, Node, Peer, PeerLink, R},
};
use serde_json::json;
use std::{os::unix::fs::symlink, path::Path};

pub fn prop() -> Prop {
    Prop {
        id: "C10",
        level: "exploration",
        rule: "a case is a history of file names from a peer, an editor and the file watcher, with symbolic links that come and go; \
               non-trivial if at least three names that resolve to a place outside the project were used and the daemon handled them all (two for cases that call the file functions directly)",
        assumptions: &[
            "symbolic links do not change between the daemon's check of a path and its use",
            "looking up whether a path exists does not count as reading",
        ],
        quick: 12_000,
        thorough: 200_000,
        threads: 8,
        case_timeout_s: 60,
        exhaustive: false,
        case,
    }
}

fn case(src: &mut Src, ctx: &mut Ctx, i: usize) -> CaseResult {
    if i % 4 == 3 {
        ctx.label("file functions alone");
        return functions(src, ctx);
    }
    match block_on(run(src, ctx)) {
        // That it keeps running is for other properties.
        Err(f) if f.signature.starts_with("daemon-stopped") && std::env::var("VERIF_STRICT").is_err() => {
            ctx.label("daemon stopped");
            Ok(())
        }
        r => r,
    }
}

/// The functions all file access goes through, one by one.
fn functions(src: &mut Src, ctx: &mut Ctx) -> R<()> {
    use ethersync::sandbox;
    let h = Hostile::new(&ctx.scratch);
    let base = h.proj.clone();
    let mut leads_out = 0;
    for _ in 0..8 {
        let name = h.name(src);
        let path = base.join(&name);
        let (kind, other) = (src.usize(9), base.join(h.name(src)));
        ctx.log(format!("function {kind} on {name:?} ({})", other.display()));
        let read = std::panic::catch_unwind(|| match kind {
            0 => sandbox::read_file(&base, &path).unwrap_or_default(),
            1 => sandbox::write_file(&base, &path, b"w").map_or(vec![], |()| vec![1]),
            2 => sandbox::append_file(&base, &path, b"a").map_or(vec![], |()| vec![1]),
            3 => sandbox::rename_file(&base, &path, &other).map_or(vec![], |()| vec![1]),
            4 => sandbox::remove_file(&base, &path).map_or(vec![], |()| vec![1]),
            5 => sandbox::create_dir(&base, &path).map_or(vec![], |()| vec![1]),
            6 => sandbox::create_dir_all(&base, &path).map_or(vec![], |()| vec![1]),
            7 => sandbox::exists(&base, &path).map_or(vec![], |_| vec![1]),
            _ => sandbox::rename_file(&base, &other, &path).map_or(vec![], |()| vec![1]),
        });
        crate::runner::take_panic();
        if !path_clean(&path).starts_with(&base) || name.starts_with("link_dir") {
            leads_out += 1;
        }
        h.check_no_leak("what was read", &String::from_utf8_lossy(&read.unwrap_or_default()))?;
        h.check_outside()?;
    }
    ctx.nontrivial = leads_out >= 2;
    Ok(())
}

struct S {
    h: Hostile,
    nodes: Vec<Node>,
    peer: Peer,
    link: PeerLink,
    eds: Vec<Ed>,
    leads_out: usize,
}

impl S {
    async fn check(&mut self) -> R<()> {
        self.link.settle(&self.nodes[0], &mut self.peer).await?;
        self.nodes[0].barrier("anything").await?;
        self.h.check_outside()?;
        for (k, v) in self.nodes[0].shared().await? {
            self.h.check_no_leak("the shared name", &k)?;
            self.h.check_no_leak(&format!("the shared text of {k}"), &v)?;
        }
        for e in &mut self.eds {
            e.drain()?;
            while let Some(m) = e.inbox.pop_front() {
                self.h.check_no_leak("a message to an editor", &m.to_string())?;
            }
        }
        Ok(())
    }

    fn note(&mut self, name: &str) {
        let p = self.h.proj.join(name);
        let out = |p: &Path| !p.starts_with(&self.h.proj);
        let lexical = path_clean(&p);
        let real = std::fs::canonicalize(&lexical)
            .ok()
            .or_else(|| lexical.parent().and_then(|d| std::fs::canonicalize(d).ok()));
        if out(&lexical) || real.is_some_and(|r| out(&r)) || std::fs::symlink_metadata(&lexical).is_ok_and(|m| m.is_symlink()) {
            self.leads_out += 1;
        }
    }
}

fn path_clean(p: &Path) -> std::path::PathBuf {
    let mut out = std::path::PathBuf::new();
    for c in p.components() {
        match c {
            std::path::Component::ParentDir => {
                out.pop();
            }
            std::path::Component::CurDir => {}
            c => out.push(c),
        }
    }
    out
}

async fn run(src: &mut Src, ctx: &mut Ctx) -> R<()> {
    let h = Hostile::new(&ctx.scratch);
    let host = src.bool();
    let node = Node::start("n0", &h.proj, false, host)?;
    let mut peer = Peer::new();
    let link = PeerLink::new(&node, &mut peer);
    let mut s = S {
        h,
        nodes: vec![node],
        peer,
        link,
        eds: vec![],
        leads_out: 0,
    };
    s.check().await?;
    let mut opened: Vec<(usize, String)> = vec![];
    let steps = 4 + src.usize(if ctx.thorough { 40 } else { 16 });
    for _ in 0..steps {
        let name = s.h.name(src);
        match src.weighted(&[6, 3, 3, 6, 4, 2, 1, 4, 3, 1, 1]) {
            0 => {
                let t = text::gen_plain(src, 5);
                ctx.log(format!("peer creates {name:?} with {t:?}"));
                s.note(&name);
                s.peer.create(&name, &t);
            }
            1 => {
                let keys: Vec<String> = s.peer.files()?.into_keys().collect();
                if keys.is_empty() {
                    continue;
                }
                let k = src.pick(&keys).clone();
                ctx.log(format!("peer edits {k:?}"));
                s.note(&k);
                s.peer.splice(&k, 0, 0, "typed");
            }
            2 => {
                let keys: Vec<String> = s.peer.files()?.into_keys().collect();
                if keys.is_empty() {
                    continue;
                }
                let k = src.pick(&keys).clone();
                ctx.log(format!("peer deletes {k:?}"));
                s.note(&k);
                s.peer.delete(&k);
            }
            3 => {
                if !s.eds.last().is_some_and(Ed::alive) || src.chance(1, 5) {
                    let ed = Ed::connect(&s.nodes, 0).await?;
                    s.eds.push(ed);
                }
                let e = s.eds.len() - 1;
                let uri = match src.weighted(&[6, 1, 1, 1]) {
                    0 => format!("file://{}/{name}", s.h.proj.display()),
                    1 => format!("file://{}/secret", s.h.outside.display()),
                    2 => format!("file://{}2/near", s.h.proj.display()),
                    _ => format!("file://{}/../outside/new", s.h.proj.display()),
                };
                ctx.log(format!("editor {e} opens {uri}"));
                s.note(&name);
                s.eds[e].request("open", json!({ "uri": uri }));
                s.eds[e].deliver(&s.nodes).await?;
                opened.push((e, uri));
            }
            4 if !opened.is_empty() => {
                let (e, uri) = src.pick(&opened).clone();
                if !s.eds[e].alive() {
                    continue;
                }
                let rev = src.usize(3);
                ctx.log(format!("editor {e} edits {uri}"));
                let delta = json!([{"range": {"start": {"line": 0, "character": 0}, "end": {"line": 0, "character": 0}}, "replacement": "zz"}]);
                s.eds[e].request("edit", json!({"uri": uri, "revision": rev, "delta": delta}));
                s.eds[e].deliver(&s.nodes).await?;
            }
            5 if !opened.is_empty() => {
                let (e, uri) = src.pick(&opened).clone();
                if !s.eds[e].alive() {
                    continue;
                }
                ctx.log(format!("editor {e} closes {uri}"));
                s.eds[e].request("close", json!({ "uri": uri }));
                s.eds[e].deliver(&s.nodes).await?;
            }
            6 => {
                let Some(e) = s.eds.iter().position(|e| e.alive()) else {
                    continue;
                };
                ctx.log(format!("editor {e} disconnects"));
                s.eds[e].disconnect(&s.nodes).await?;
            }
            7 => {
                // Somebody puts a link in the place of something.
                let at = *src.pick(&["f", "g", "sub", "sub/x", "newlink", "newlinkdir", "brand"]);
                let to = *src.pick(&["../outside/secret", "../outside", "../outside/missing", "../proj2", "sub"]);
                let p = s.h.proj.join(at);
                if !p.parent().unwrap().starts_with(&s.h.proj)
                    || std::fs::canonicalize(p.parent().unwrap()).map_or(true, |c| !c.starts_with(&s.h.proj))
                {
                    continue;
                }
                match std::fs::symlink_metadata(&p) {
                    Ok(m) if m.is_dir() => std::fs::remove_dir_all(&p).expect("rm"),
                    Ok(_) => std::fs::remove_file(&p).expect("rm"),
                    Err(_) => {}
                }
                ctx.log(format!("{at} becomes a link to {to}"));
                symlink(to, &p).expect("symlink");
                if src.bool() {
                    s.nodes[0].removed(at).await?;
                }
                if src.bool() && p.exists() {
                    s.nodes[0].created(at).await?;
                    s.leads_out += 1;
                }
                if src.bool() && p.exists() {
                    s.nodes[0].changed(at).await?;
                }
            }
            8 => {
                let at = *src.pick(&["link_dir/secret", "link_dir/sub/deep", "link_file", "link_dir", "link_in/x", "newlink", "sub/x", "sub/deep"]);
                ctx.log(format!("watcher event for {at}"));
                match src.usize(3) {
                    0 => s.nodes[0].created(at).await?,
                    1 => s.nodes[0].changed(at).await?,
                    _ => s.nodes[0].removed(at).await?,
                }
                s.leads_out += 1;
            }
            9 => {
                ctx.log("restart");
                ctx.label("restart");
                s.nodes[0].persist().await?;
                s.eds.clear();
                opened.clear();
                let init = src.chance(1, 4);
                let node = Node::start("n0", &s.h.proj, init, host)?;
                s.nodes = vec![node];
                s.peer = Peer::new();
                s.link = PeerLink::new(&s.nodes[0], &mut s.peer);
            }
            10 => {
                if s.eds.is_empty() {
                    continue;
                }
                let e = s.eds.len() - 1;
                if !s.eds[e].alive() {
                    continue;
                }
                let uri = format!("file://{}/{name}", s.h.proj.display());
                ctx.log(format!("editor {e} puts its cursor into {uri}"));
                s.eds[e].request("cursor", json!({"uri": uri, "ranges": []}));
                s.eds[e].deliver(&s.nodes).await?;
            }
            _ => continue,
        }
        s.check().await?;
    }
    ctx.nontrivial = s.leads_out >= 3;
    Ok(())
}
