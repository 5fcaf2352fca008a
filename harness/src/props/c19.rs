//! Neovim: edits from others are applied exactly, also while typing.

use crate::{
    ensure,
    nvim::{self, Nvim},
    runner::{fail, CaseResult, Ctx, Prop},
    tape::Src,
    text::{self, Op, Text},
    world::{block_on, project, Ed, Node, R},
};
use serde_json::{json, Value};
use std::path::PathBuf;

pub fn prop() -> Prop {
    Prop {
        id: "C19",
        level: "exploration",
        rule: "a case is a Neovim with the plugin and 1-3 open files; every other case delivers generated edits to it \
               (non-trivial with at least two applied edits and one with another revision), the others connect it to a daemon with \
               another editor and delay everything (non-trivial with at least two applied edits and two own ones)",
        assumptions: &[
            "texts without carriage returns, NUL and byte order marks, which Neovim itself takes out of the text",
            "files are opened one after the other and edited when the daemon has answered",
        ],
        quick: 10_000,
        thorough: 200_000,
        threads: 8,
        case_timeout_s: 120,
        exhaustive: false,
        case,
    }
}

fn case(src: &mut Src, ctx: &mut Ctx, i: usize) -> CaseResult {
    if i % 2 == 0 {
        single(src, ctx)
    } else {
        block_on(together(src, ctx))
    }
}

struct File {
    path: PathBuf,
    text: Text,
    /// Edits by the user, and by the daemon.
    own: usize,
    others: usize,
}

fn edit_command(path: &std::path::Path) -> Value {
    json!({"do": "cmd", "cmd": format!("edit {}", path.display().to_string().replace(' ', "\\ "))})
}

fn content(src: &mut Src) -> String {
    let size = [0, 2, 8, 30][src.weighted(&[1, 2, 4, 4])];
    nvim::gen_text(src, size)
}

/// The plugin alone.
fn single(src: &mut Src, ctx: &mut Ctx) -> CaseResult {
    let dir = project(&ctx.scratch, "p");
    let mut vim = Nvim::start(&ctx.scratch.join("vim"))?;
    let n = 1 + src.weighted(&[3, 2, 1]);
    let mut files: Vec<File> = vec![];
    for k in 0..n {
        let path = dir.join(*src.pick(&["f", "ü mlaut", "g.txt"])).with_extension(k.to_string());
        let content = content(src);
        ctx.log(format!("file {k}: {content:?}"));
        std::fs::write(&path, &content).expect("write");
        vim.call(edit_command(&path))?;
        let sent = vim.take();
        let Some(m) = sent.iter().find(|m| m["method"] == "open") else {
            return fail("not-opened", format!("the plugin did not open the file, it sent {sent:?}"));
        };
        vim.receive(&json!({"id": m["id"], "result": "success"}))?;
        files.push(File { path, text: text::to_text(&content), own: 0, others: 0 });
    }
    let (mut applied, mut stale) = (0, 0);
    for _ in 0..1 + src.usize(if ctx.thorough { 20 } else { 10 }) {
        match src.weighted(&[6, 2, 2, 1]) {
            what @ (0 | 1) => {
                let k = src.usize(n);
                // In the middle of something, or not.
                let keys = match src.weighted(&[4, 3, 1, 1]) {
                    0 => "",
                    1 => "<C-Bslash><C-n>i<Cmd>lua Pause()<CR><Esc>",
                    2 => "<C-Bslash><C-n>V<Cmd>lua Pause()<CR><Esc>",
                    _ => "<C-Bslash><C-n>A<Cmd>lua Pause()<CR><Esc>",
                };
                let paused = !keys.is_empty() && vim.call(json!({"do": "keys", "keys": keys}))?;
                let f = &mut files[k];
                let ops = nvim::gen_ops(src, &f.text);
                let revision = if what == 0 {
                    f.own
                } else {
                    stale += 1;
                    match src.usize(3) {
                        0 => f.own + 1,
                        1 => f.own + 1 + f.others,
                        _ if f.own > 0 => f.own - 1,
                        _ => f.own + 2,
                    }
                };
                let delta: Vec<Value> = ops.iter().map(Op::json).collect();
                let before = text::to_string(&f.text);
                ctx.log(format!("{keys} edit of file {k} for revision {revision}: {}", json!(delta)));
                if what == 0 {
                    f.text = text::apply(&f.text, &ops).map_err(|e| crate::runner::Failure { signature: "harness-delta".into(), message: e })?;
                    f.others += 1;
                    applied += 1;
                }
                vim.receive(&json!({"method": "edit", "params": {"uri": uri(&f.path), "revision": revision, "delta": delta}}))?;
                if paused {
                    while vim.go()? {}
                }
                let own: Vec<Value> = vim.take().into_iter().filter(|m| m["method"] != "cursor").collect();
                ensure!(own.is_empty(), "reported-back", "after {} on {before:?} the plugin sent {own:?}", json!(delta));
                for (j, f) in files.iter().enumerate() {
                    let Some(t) = vim.text(&f.path) else {
                        return fail("buffer-gone", format!("file {j} {}", vim.complaint));
                    };
                    ensure!(
                        *t == f.text,
                        if what == 1 { "applied-for-another-revision" } else if j == k { "applied-wrongly" } else { "wrong-buffer" },
                        "revision {revision} {} on {before:?} (file {k}): file {j} is {:?} instead of {:?} {}",
                        json!(delta),
                        text::to_string(t),
                        text::to_string(&f.text),
                        vim.complaint
                    );
                }
            }
            2 => {
                let keys = nvim::gen_keys(src, false);
                ctx.log(format!("keys {keys}"));
                vim.call(json!({"do": "keys", "keys": keys}))?;
                if vim.broken {
                    ctx.label("given up: neovim cut a character in two or did not stop");
                    break;
                }
                for m in vim.take() {
                    if m["method"] != "edit" {
                        continue;
                    }
                    let Some(f) = files.iter_mut().find(|f| m["params"]["uri"] == json!(uri(&f.path))) else {
                        return fail("wrong-uri", format!("an edit of another file: {m}"));
                    };
                    f.own += 1;
                    ensure!(
                        m["params"]["revision"] == json!(f.others),
                        "wrong-revision",
                        "{} edits were applied, but the plugin sent {m}",
                        f.others
                    );
                }
                // Whether the edits are right is for C18.
                for f in &mut files {
                    let Some(t) = vim.text(&f.path) else {
                        return fail("harness-buffer-gone", "after keys");
                    };
                    f.text = t.clone();
                }
            }
            _ => {
                let k = src.usize(n);
                ctx.log(format!("to file {k}"));
                vim.call(json!({"do": "cmd", "cmd": format!("buffer {}", files[k].path.display().to_string().replace(' ', "\\ "))}))?;
            }
        }
    }
    ctx.nontrivial = applied >= 2 && stale >= 1;
    Ok(())
}

fn uri(path: &std::path::Path) -> String {
    format!("file://{}", path.display())
}

/// Neovim, a daemon and another editor.
struct Trio {
    nodes: Vec<Node>,
    vim: Nvim,
    /// Neovim's connection to the daemon.
    line: Ed,
    other: Ed,
    applied: usize,
    own: usize,
    over: bool,
}

impl Trio {
    /// What the plugin has sent is on its way.
    fn pick_up(&mut self) {
        if self.vim.broken {
            self.over = true;
            return;
        }
        for mut m in self.vim.take() {
            self.own += usize::from(m["method"] == "edit");
            m["jsonrpc"] = json!("2.0");
            self.line.out.push_back(m.to_string());
        }
    }

    async fn receive(&mut self) -> R<bool> {
        self.line.drain()?;
        let Some(m) = self.line.inbox.pop_front() else {
            return Ok(false);
        };
        ensure!(m.get("error").is_none(), "edit-refused", "the daemon does not accept what the plugin sent: {m}");
        self.applied += usize::from(m["method"] == "edit");
        self.vim.receive(&m)?;
        self.pick_up();
        Ok(true)
    }

    async fn step(&mut self, src: &mut Src, ctx: &mut Ctx) -> R<()> {
        match src.weighted(&[3, 3, 3, 2, 2]) {
            0 => {
                let paths: Vec<String> = self.other.bufs.keys().cloned().collect();
                let path = src.pick(&paths).clone();
                let (at, del) = {
                    let t = &self.other.bufs[&path].text;
                    let at = src.usize(t.len() + 1);
                    (at, if src.bool() { 0 } else { src.usize((t.len() - at).min(8) + 1) })
                };
                let ins = if del > 0 && src.bool() { String::new() } else { nvim::gen_text(src, 3) };
                ctx.log(format!("other: {path} {at} {del} {ins:?}"));
                self.other.user_edit(&path, at, del, &ins);
                if src.bool() {
                    self.other.deliver(&self.nodes).await?;
                }
            }
            1 => {
                ctx.log("daemon reads from neovim");
                self.line.deliver(&self.nodes).await?;
            }
            2 => {
                ctx.log("neovim reads");
                self.receive().await?;
            }
            3 => {
                ctx.log("daemon reads from other");
                self.other.deliver(&self.nodes).await?;
            }
            _ => {
                ctx.log("other reads");
                self.other.drain()?;
                self.other.process()?;
            }
        }
        Ok(())
    }
}

async fn together(src: &mut Src, ctx: &mut Ctx) -> CaseResult {
    let dir = project(&ctx.scratch, "p");
    let n = 1 + src.weighted(&[3, 1]);
    let names: Vec<String> = (0..n).map(|k| format!("{}{k}", *src.pick(&["f", "ü mlaut"]))).collect();
    for name in &names {
        let content = content(src);
        ctx.log(format!("{name}: {content:?}"));
        std::fs::write(dir.join(name), content).expect("write");
    }
    let nodes = vec![Node::start("host", &dir, true, true)?];
    nodes[0].barrier("start").await?;
    let line = Ed::connect(&nodes, 0).await?;
    let other = Ed::connect(&nodes, 0).await?;
    let mut t = Trio {
        nodes,
        vim: Nvim::start(&ctx.scratch.join("vim"))?,
        line,
        other,
        applied: 0,
        own: 0,
        over: false,
    };
    for name in &names {
        ensure!(t.other.open(&t.nodes, name).await?, "harness-open", "{name}");
        t.vim.call(edit_command(&dir.join(name)))?;
        t.pick_up();
        while t.line.deliver(&t.nodes).await? {}
        while t.receive().await? {}
    }
    for _ in 0..2 + src.usize(if ctx.thorough { 25 } else { 12 }) {
        if src.weighted(&[1, 1]) == 0 {
            t.step(src, ctx).await?;
        } else {
            if n > 1 && src.chance(1, 6) {
                ctx.log("switch");
                t.vim.call(json!({"do": "keys", "keys": "<C-^>"}))?;
            }
            let what = if src.chance(1, 5) {
                json!({"do": "cmd", "cmd": nvim::gen_cmd(src)})
            } else {
                json!({"do": "keys", "keys": format!("<C-Bslash><C-n>{}", nvim::gen_keys(src, true))})
            };
            ctx.log(what.to_string());
            let mut paused = t.vim.call(what)?;
            t.pick_up();
            while paused && !t.over {
                ctx.log("pause");
                for _ in 0..src.usize(5) {
                    t.step(src, ctx).await?;
                }
                if t.over {
                    break;
                }
                paused = t.vim.go()?;
                t.pick_up();
            }
        }
        if t.over {
            ctx.label("given up: neovim cut a character in two or did not stop");
            return Ok(());
        }
    }
    ctx.log("everything is delivered");
    for round in 0.. {
        ensure!(round < 20_000, "does-not-settle", "messages go around in circles");
        let mut quiet = true;
        quiet &= !t.line.deliver(&t.nodes).await?;
        quiet &= !t.other.deliver(&t.nodes).await?;
        quiet &= !t.receive().await?;
        t.other.drain()?;
        quiet &= !t.other.process()?;
        if quiet {
            break;
        }
    }
    if t.over {
        return Ok(());
    }
    let shared = t.nodes[0].shared().await?;
    for name in &names {
        let Some(mine) = t.vim.text(&dir.join(name)) else {
            return fail("buffer-gone", name.clone());
        };
        let theirs = &t.other.bufs[name].text;
        ensure!(
            text::to_string(mine) == shared[name],
            "texts-differ",
            "{name} is {:?} in Neovim, {:?} in the daemon, {:?} in the other editor {}",
            text::to_string(mine),
            shared[name],
            text::to_string(theirs),
            t.vim.complaint
        );
        ensure!(mine == theirs, "other-differs", "{name} is {:?} in Neovim, {:?} in the other editor", text::to_string(mine), text::to_string(theirs));
    }
    ctx.nontrivial = t.applied >= 2 && t.own >= 2;
    Ok(())
}
