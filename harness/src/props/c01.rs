//! Editor buffers converge with the shared text under every interleaving.

use crate::{
    runner::{CaseResult, Ctx, Prop},
    tape::Src,
    text,
    world::{block_on, project, Ed, Node, Peer, PeerLink, World, R},
};

pub fn prop() -> Prop {
    Prop {
        id: "C01",
        level: "exploration",
        rule: "a case is a schedule of edits by 1-3 editors of one daemon and a remote peer with every message delayed at will; \
               non-trivial if an editor had to ignore at least one daemon edit (real concurrency) and at least one daemon edit was applied",
        assumptions: &[
            "editors follow the documented protocol: they open a file when its content on disk is the shared text, and send one change per edit",
        ],
        quick: 60_000,
        thorough: 2_000_000,
        threads: 8,
        case_timeout_s: 60,
        exhaustive: false,
        case,
    }
}

fn case(src: &mut Src, ctx: &mut Ctx, _i: usize) -> CaseResult {
    block_on(run(src, ctx))
}

async fn run(src: &mut Src, ctx: &mut Ctx) -> R<()> {
    let dir = project(&ctx.scratch, "p");
    let files = ["f", "g"];
    let nfiles = 1 + src.usize(2);
    for f in &files[..nfiles] {
        let content = text::gen_plain(src, 8);
        ctx.log(format!("file {f}: {content:?}"));
        std::fs::write(dir.join(f), content).expect("write");
    }
    let mut w = World::default();
    w.add_node(Node::start("A", &dir, false, true)?);
    let mut peer = Peer::new();
    peer.sync(&w.nodes[0]).await?;
    let mut link = PeerLink::new(&w.nodes[0], &mut peer);

    let neds = 1 + src.usize(3);
    for _ in 0..neds {
        let mut e = Ed::connect(&w.nodes, 0).await?;
        for f in &files[..nfiles] {
            if !e.open(&w.nodes, f).await? {
                return crate::runner::fail("open-refused", format!("open of {f} was refused"));
            }
        }
        w.eds.push(e);
    }
    ctx.label(["1 editor", "2 editors", "3 editors"][neds - 1]);

    let steps = 5 + src.usize(if ctx.thorough { 90 } else { 45 });
    for _ in 0..steps {
        match src.weighted(&[5, 5, 5, 3, 4, 1]) {
            0 => {
                // A user types.
                let e = src.usize(neds);
                let f = files[src.usize(nfiles)];
                let len = w.eds[e].bufs[f].text.len();
                let (at, del) = text::gen_splice(src, len);
                let ins = text::gen_plain(src, 4);
                ctx.log(format!("editor {e}: {f} replace {del} at {at} by {ins:?}"));
                w.eds[e].user_edit(f, at, del, &ins);
            }
            1 => {
                let e = src.usize(neds);
                if w.eds[e].deliver(&w.nodes).await? {
                    ctx.log(format!("editor {e} -> daemon"));
                }
                w.drain_all()?;
            }
            2 => {
                let e = src.usize(neds);
                w.eds[e].refuse = src.chance(1, 6);
                let before = w.eds[e].refused_edits;
                if w.eds[e].process()? {
                    ctx.log(format!("editor {e} processes a message"));
                }
                w.eds[e].refuse = false;
                if w.eds[e].refused_edits > before {
                    ctx.log(format!("editor {e} could not apply it"));
                    ctx.label("an edit could not be applied");
                }
            }
            3 => {
                // Somebody remote types.
                let f = files[src.usize(nfiles)];
                let len = peer.files()?[f].chars().count();
                let (at, del) = text::gen_splice(src, len);
                let ins = text::gen_plain(src, 4);
                ctx.log(format!("remote: {f} replace {del} at {at} by {ins:?}"));
                peer.splice(f, at, del, &ins);
            }
            4 => {
                let what = src.usize(4);
                if link.step(&w.nodes[0], &mut peer, what).await? {
                    ctx.log(format!("remote link step {what}"));
                }
                w.drain_all()?;
            }
            _ => {
                // One editor catches up completely.
                let e = src.usize(neds);
                ctx.log(format!("editor {e} catches up"));
                while w.eds[e].deliver(&w.nodes).await? {}
                w.drain_all()?;
                w.eds[e].process_all()?;
            }
        }
    }
    ctx.log("settle");
    loop {
        w.settle().await?;
        if !link.settle(&w.nodes[0], &mut peer).await? {
            break;
        }
    }
    w.drain_all()?;
    w.settle().await?;
    w.check_buffers().await?;
    let ignored: usize = w.eds.iter().map(|e| e.ignored_edits).sum();
    let applied: usize = w.eds.iter().map(|e| e.applied_edits).sum();
    ctx.nontrivial = ignored > 0 && applied > 0;
    if ignored > 0 {
        ctx.label("an edit had to be ignored");
    }
    for e in &w.eds {
        crate::ensure!(e.stray_edits == 0, "stray-edit", "edit for a file that is not open");
        crate::ensure!(e.responses.iter().all(|(_, ok)| *ok), "edit-refused", "a valid request was refused");
    }
    // The remote person sees the same text.
    let shared = w.nodes[0].shared().await?;
    let remote = peer.files()?;
    crate::ensure!(shared == remote, "peers-differ", "daemon {shared:?}, remote {remote:?}");
    Ok(())
}
