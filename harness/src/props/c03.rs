//! Connected peers end up with the same directory content.

use crate::{
    runner::{CaseResult, Ctx, Prop},
    sim::{Sim, Weights},
    tape::Src,
    world::{block_on, R},
};

pub fn prop() -> Prop {
    Prop {
        id: "C03",
        level: "exploration",
        rule: "a case is a history of edits in editors, changes on disk, creations and deletions on 2-4 daemons with delayed, interleaved and broken links; \
               non-trivial if at least one edit and one disk operation happened and not all on the same daemon",
        assumptions: &["the file watcher reports what happened on disk, in order and with any delay"],
        quick: 8_000,
        thorough: 200_000,
        threads: 8,
        case_timeout_s: 60,
        exhaustive: false,
        case,
    }
}

const W: Weights = Weights {
    edit: 8,
    deliver: 6,
    process: 6,
    catch_up: 3,
    link: 12,
    cut: 1,
    watch: 8,
    open: 4,
    close: 2,
    save: 1,
    new_ed: 1,
    drop_ed: 1,
    disk_write: 4,
    disk_create: 4,
    disk_delete: 2,
    settle: 1,
};

fn case(src: &mut Src, ctx: &mut Ctx, _i: usize) -> CaseResult {
    block_on(run(src, ctx))
}

async fn run(src: &mut Src, ctx: &mut Ctx) -> R<()> {
    let n = 2 + src.usize(3);
    ctx.label(["2 daemons", "3 daemons", "4 daemons"][n - 2]);
    let names = ["f", "g", "d/h", "d/e/k"];
    let mut sim = Sim::start(src, ctx, n, &names, false, W).await?;
    for _ in 0..1 + src.usize(3) {
        let node = src.usize(n);
        sim.add_ed(ctx, node).await?;
    }
    let steps = 10 + src.usize(if ctx.thorough { 100 } else { 50 });
    for _ in 0..steps {
        sim.step(src, ctx).await?;
    }
    sim.finish(ctx).await?;
    sim.w.check_same().await?;
    for i in 0..n {
        sim.w.check_disk(i).await?;
    }
    sim.w.check_buffers().await?;
    ctx.nontrivial = sim.edits > 0 && sim.disk_ops > 0;
    Ok(())
}
