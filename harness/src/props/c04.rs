//! Positions: lines end at '\n' only, characters are Unicode code points.

use crate::{
    ensure,
    runner::{fail, CaseResult, Ctx, Prop},
    tape::Src,
    text,
    world::{block_on, project, Ed, Node, Peer, PeerLink, World, R},
};

pub fn prop() -> Prop {
    Prop {
        id: "C04",
        level: "exploration",
        rule: "a case is a series of edits by two editors and a remote peer on a text full of unusual characters, partly in lockstep and partly concurrent; \
               non-trivial if an edit was made on a text that holds a line-break-like character other than newline, or a character outside ASCII, before the edited place",
        assumptions: &["editors send one change per edit, as the existing plugins do"],
        quick: 40_000,
        thorough: 800_000,
        threads: 8,
        case_timeout_s: 60,
        exhaustive: false,
        case,
    }
}

const BREAKS: &[char] = &['\r', '\u{b}', '\u{c}', '\u{85}', '\u{2028}', '\u{2029}'];

fn classify(ctx: &mut Ctx, before: &[char]) {
    if before.iter().any(|c| BREAKS.contains(c)) {
        ctx.label("edit behind a line-break-like character");
        ctx.nontrivial = true;
    }
    if before.iter().any(|c| !c.is_ascii()) {
        ctx.label("edit behind a non-ASCII character");
        ctx.nontrivial = true;
    }
}

fn case(src: &mut Src, ctx: &mut Ctx, _i: usize) -> CaseResult {
    block_on(run(src, ctx))
}

async fn run(src: &mut Src, ctx: &mut Ctx) -> R<()> {
    let dir = project(&ctx.scratch, "p");
    let content = text::gen_string(src, 14);
    ctx.log(format!("file: {content:?}"));
    std::fs::write(dir.join("f"), &content).expect("write");
    let mut w = World::default();
    w.add_node(Node::start("A", &dir, false, true)?);
    let mut peer = Peer::new();
    peer.sync(&w.nodes[0]).await?;
    let mut link = PeerLink::new(&w.nodes[0], &mut peer);
    for _ in 0..2 {
        let mut e = Ed::connect(&w.nodes, 0).await?;
        ensure!(e.open(&w.nodes, "f").await?, "open-refused", "open was refused");
        w.eds.push(e);
    }
    let lockstep = src.bool();
    ctx.label(if lockstep { "lockstep" } else { "concurrent" });
    let steps = 2 + src.usize(14);
    for _ in 0..steps {
        match src.weighted(&[4, 2]) {
            0 => {
                let e = src.usize(2);
                let t = w.eds[e].bufs["f"].text.clone();
                let (at, del) = text::gen_splice(src, t.len());
                let ins = text::gen_string(src, 5);
                classify(ctx, &t[..at + del]);
                ctx.log(format!("editor {e}: replace {del} at {at} by {ins:?}"));
                w.eds[e].user_edit("f", at, del, &ins);
                if lockstep {
                    w.eds[e].deliver(&w.nodes).await?;
                    let want = text::to_string(&w.eds[e].bufs["f"].text);
                    let got = w.nodes[0].shared().await?.remove("f").unwrap_or_default();
                    ensure!(
                        want == got,
                        "editor-edit-misread",
                        "after the edit the buffer is {want:?}, the shared text {got:?}"
                    );
                }
            }
            _ => {
                // Several places at once.
                for _ in 0..1 + src.usize(3) {
                    let t = text::to_text(&peer.files()?["f"]);
                    let (at, del) = text::gen_splice(src, t.len());
                    let ins = text::gen_string(src, 5);
                    classify(ctx, &t[..at + del]);
                    ctx.log(format!("remote: replace {del} at {at} by {ins:?}"));
                    peer.splice("f", at, del, &ins);
                }
                if !lockstep {
                    link.settle(&w.nodes[0], &mut peer).await?;
                    w.drain_all()?;
                }
            }
        }
        if lockstep {
            ctx.log("everything delivered");
            link.settle(&w.nodes[0], &mut peer).await?;
            w.settle().await?;
            link.settle(&w.nodes[0], &mut peer).await?;
            w.check_buffers().await?;
        } else {
            // Partial progress.
            match src.usize(4) {
                0 => {
                    w.eds[0].deliver(&w.nodes).await?;
                }
                1 => {
                    w.eds[1].deliver(&w.nodes).await?;
                }
                2 => {
                    w.eds[0].process()?;
                }
                _ => {
                    w.eds[1].process()?;
                }
            }
            w.drain_all()?;
        }
    }
    loop {
        w.settle().await?;
        if !link.settle(&w.nodes[0], &mut peer).await? {
            break;
        }
    }
    w.drain_all()?;
    w.settle().await?;
    w.check_buffers().await?;
    for e in &w.eds {
        if let Some((id, _)) = e.responses.iter().find(|(_, ok)| !ok) {
            return fail("edit-refused", format!("the valid request {id} was refused"));
        }
    }
    Ok(())
}
