//! No keystroke is lost, duplicated or resurrected.

use crate::{
    ensure,
    runner::{CaseResult, Ctx, Prop},
    sim::{Sim, Weights},
    tape::Src,
    world::{block_on, R},
};

pub fn prop() -> Prop {
    Prop {
        id: "C02",
        level: "exploration",
        rule: "a case is a schedule of edits by up to 4 editors on 1-3 connected daemons, every typed character being unique; \
               non-trivial if at least two editors typed and at least one had to ignore a daemon edit or a link carried edits made at both ends",
        assumptions: &["editors follow the documented protocol and open a file while its content on disk is the shared text"],
        quick: 12_000,
        thorough: 300_000,
        threads: 8,
        case_timeout_s: 60,
        exhaustive: false,
        case,
    }
}

const W: Weights = Weights {
    edit: 8,
    deliver: 8,
    process: 8,
    catch_up: 2,
    link: 10,
    cut: 1,
    watch: 3,
    open: 0,
    close: 0,
    save: 1,
    new_ed: 0,
    drop_ed: 0,
    disk_write: 0,
    disk_create: 0,
    disk_delete: 0,
    settle: 0,
};

fn case(src: &mut Src, ctx: &mut Ctx, _i: usize) -> CaseResult {
    block_on(run(src, ctx))
}

async fn run(src: &mut Src, ctx: &mut Ctx) -> R<()> {
    let n = 1 + src.usize(3);
    ctx.label(["1 daemon", "2 daemons", "3 daemons"][n - 1]);
    let names = ["f", "g", "d/h"];
    let mut sim = Sim::start(src, ctx, n, &names, true, W).await?;
    let before = sim.w.nodes[0].shared().await?;
    let files: Vec<String> = before.keys().cloned().collect();
    if files.is_empty() {
        return Ok(());
    }
    // One file nobody touches.
    let untouched = if files.len() > 1 { files.last().cloned() } else { None };
    let neds = 1 + src.usize(4);
    for _ in 0..neds {
        let node = src.usize(n);
        let e = sim.add_ed(ctx, node).await?;
        for f in &files {
            if Some(f) != untouched.as_ref() && src.chance(3, 4) {
                let ok = sim.open(ctx, e, f).await?;
                ensure!(ok, "open-refused", "opening {f} was refused");
            }
        }
    }
    let steps = 10 + src.usize(if ctx.thorough { 120 } else { 60 });
    for _ in 0..steps {
        sim.step(src, ctx).await?;
    }
    sim.finish(ctx).await?;
    let texts = sim.w.check_same().await?;
    sim.uniq.as_ref().unwrap().check(&texts)?;
    if let Some(u) = &untouched {
        ensure!(texts.get(u) == before.get(u), "other-file-changed", "{u} changed from {:?} to {:?}", before.get(u), texts.get(u));
    }
    sim.w.check_buffers().await?;
    let ignored: usize = sim.w.eds.iter().map(|e| e.ignored_edits).sum();
    if ignored > 0 {
        ctx.label("an edit had to be ignored");
    }
    ctx.nontrivial = neds > 1 && (ignored > 0 || sim.remote_edits > 0 && sim.remote_edits < sim.edits);
    Ok(())
}
