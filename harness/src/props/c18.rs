//! Neovim: every local buffer change is reported exactly.

use crate::{
    ensure,
    nvim::{self, Nvim},
    runner::{fail, CaseResult, Ctx, Prop},
    tape::Src,
    text::{self, Op, Text},
    world::{project, R},
};
use serde_json::{json, Value};
use std::path::{Path, PathBuf};

pub fn prop() -> Prop {
    Prop {
        id: "C18",
        level: "exploration",
        rule: "a case is a Neovim with the plugin and 1-3 open files in which a generated sequence of commands is given; \
               non-trivial if at least three commands changed a text",
        assumptions: &[
            "texts without carriage returns, NUL and byte order marks, which Neovim itself takes out of the text",
            "files are edited when the daemon has answered that they are open",
            "reading a file again is not undone, upon which Neovim ends the connection of the plugin to the buffer",
            "no virtual replace mode, at the end of which Neovim changes lines without telling anybody",
        ],
        quick: 14_000,
        thorough: 400_000,
        threads: 8,
        case_timeout_s: 120,
        exhaustive: false,
        case,
    }
}

/// A file as the daemon sees it.
struct File {
    path: PathBuf,
    text: Text,
    open: bool,
    /// Edits from the daemon since it was opened.
    others: usize,
    own: usize,
}

struct Daemon {
    files: Vec<File>,
    /// Requests to open a file that are not answered yet.
    waiting: Vec<Value>,
}

impl Daemon {
    /// Reads what the plugin has sent.
    fn read(&mut self, vim: &mut Nvim) -> R<()> {
        for m in vim.take() {
            let Some(f) = self.files.iter_mut().find(|f| m["params"]["uri"] == json!(format!("file://{}", f.path.display()))) else {
                return fail("wrong-uri", format!("a message about another file: {m}"));
            };
            match m["method"].as_str() {
                Some("cursor") => {}
                Some("open") => {
                    ensure!(!f.open, "opened-twice", "{m}");
                    f.open = true;
                    (f.others, f.own) = (0, 0);
                    self.waiting.push(m["id"].clone());
                }
                Some("close") => {
                    ensure!(f.open, "closed-twice", "{m}");
                    f.open = false;
                }
                Some("edit") => {
                    ensure!(f.open, "edit-without-open", "{m}");
                    ensure!(m["params"]["revision"] == json!(f.others), "wrong-revision", "{} edits came from the daemon, but the plugin sent {m}", f.others);
                    f.own += 1;
                    let Some(ops) = text::parse_delta(&m["params"]["delta"]) else {
                        return fail("malformed", format!("{m}"));
                    };
                    match text::apply(&f.text, &ops) {
                        Ok(t) => f.text = t,
                        Err(e) => return fail("not-applicable", format!("{m} on {:?}: {e}", text::to_string(&f.text))),
                    }
                }
                _ => return fail("unexpected-message", format!("the plugin sent {m}")),
            }
        }
        Ok(())
    }

    fn answer(&mut self, vim: &mut Nvim) -> R<()> {
        for id in self.waiting.drain(..) {
            vim.receive(&json!({"id": id, "result": "success"}))?;
        }
        Ok(())
    }

    fn write(&self) {
        for f in &self.files {
            std::fs::write(&f.path, text::to_string(&f.text)).expect("write");
        }
    }

    fn compare(&self, vim: &Nvim, what: &str, before: &[Text]) -> R<usize> {
        let mut changed = 0;
        for (f, b) in self.files.iter().zip(before) {
            let Some(t) = vim.text(&f.path) else {
                return fail("harness-buffer-gone", what);
            };
            ensure!(f.open, "not-opened", "after {what} the plugin has not opened {}", f.path.display());
            changed += usize::from(t != b);
            ensure!(
                *t == f.text,
                "not-reported",
                "{what} made {:?} of {:?}, but according to the plugin it is {:?} {}",
                text::to_string(t),
                text::to_string(b),
                text::to_string(&f.text),
                vim.complaint
            );
        }
        Ok(changed)
    }

    fn texts(&self) -> Vec<Text> {
        self.files.iter().map(|f| f.text.clone()).collect()
    }
}

fn named(command: &str, path: &Path) -> Value {
    json!({"do": "cmd", "cmd": format!("{command} {}", path.display().to_string().replace(' ', "\\ "))})
}

fn case(src: &mut Src, ctx: &mut Ctx, _i: usize) -> CaseResult {
    let dir = project(&ctx.scratch, "p");
    let mut vim = Nvim::start(&ctx.scratch.join("vim"))?;
    let n = 1 + src.weighted(&[8, 2, 1]);
    // Neovim may go on to the next file before the daemon has answered.
    let at_once = src.bool();
    let mut d = Daemon { files: vec![], waiting: vec![] };
    for k in 0..n {
        let path = dir.join(*src.pick(&["f", "ü mlaut", "g.txt"])).with_extension(k.to_string());
        let size = [0, 2, 8, 30][src.weighted(&[1, 2, 4, 4])];
        let content = nvim::gen_text(src, size);
        ctx.log(format!("file {k}: {content:?}"));
        // A file that does not exist yet is an empty one.
        if !content.is_empty() || src.bool() {
            std::fs::write(&path, &content).expect("write");
        }
        let text = text::to_text(&content);
        d.files.push(File { path: path.clone(), text, open: false, others: 0, own: 0 });
        vim.call(named("edit", &path))?;
        d.read(&mut vim)?;
        if !at_once {
            d.answer(&mut vim)?;
        }
    }
    d.answer(&mut vim)?;
    d.compare(&vim, "opening", &d.texts())?;
    let mut changed = 0;
    for _ in 0..1 + src.usize(if ctx.thorough { 25 } else { 12 }) {
        if n > 1 && src.chance(1, 6) {
            ctx.log("switch");
            vim.call(json!({"do": "keys", "keys": "<C-^>"}))?;
        }
        if src.chance(1, 25) {
            // The daemon writes the file when it is closed.
            d.write();
            let k = src.usize(n);
            let path = d.files[k].path.clone();
            let again = src.bool();
            ctx.log(format!("open file {k} again ({again})"));
            vim.call(named(if again { "buffer" } else { "bdelete!" }, &path))?;
            d.read(&mut vim)?;
            vim.call(named("edit!", &path))?;
            d.read(&mut vim)?;
            d.answer(&mut vim)?;
            d.compare(&vim, "opening again", &d.texts())?;
        }
        if src.chance(1, 8) {
            let f = &mut d.files[src.usize(n)];
            let ops = nvim::gen_ops(src, &f.text);
            let delta: Vec<Value> = ops.iter().map(Op::json).collect();
            ctx.log(format!("from the daemon: {}", json!(delta)));
            vim.receive(&json!({"method": "edit", "params": {"uri": format!("file://{}", f.path.display()), "revision": f.own, "delta": delta}}))?;
            f.text = text::apply(&f.text, &ops).expect("delta");
            f.others += 1;
            if vim.text(&f.path) != Some(&f.text) {
                // That is for C19.
                ctx.label("given up: an edit was not applied");
                break;
            }
        }
        let what = match src.weighted(&[10, 4, 1]) {
            0 => json!({"do": "keys", "keys": nvim::gen_keys(src, false)}),
            1 => json!({"do": "cmd", "cmd": nvim::gen_cmd(src)}),
            _ => api(src, &vim),
        };
        ctx.log(what.to_string());
        let before = d.texts();
        vim.call(what.clone())?;
        if vim.broken {
            ctx.label("given up: neovim cut a character in two or did not stop");
            break;
        }
        d.read(&mut vim)?;
        changed += d.compare(&vim, &what.to_string(), &before)?;
    }
    ctx.nontrivial = changed >= 3;
    Ok(())
}

/// Another plugin changes the current buffer.
fn api(src: &mut Src, vim: &Nvim) -> Value {
    let Some(b) = vim.bufs.iter().find(|b| b.current) else {
        return json!({"do": "state"});
    };
    let t = text::to_string(&b.text);
    let lines: Vec<&str> = t.strip_suffix('\n').unwrap_or(&t).split('\n').collect();
    let new = nvim::gen_text(src, 6);
    let new: Vec<&str> = new.split('\n').collect();
    let a = src.usize(lines.len());
    let b = a + src.usize(lines.len() - a);
    if src.bool() {
        let b = if src.bool() { b + 1 } else { b };
        return json!({"do": "set_lines", "at": a, "to": b, "lines": if src.chance(1, 3) { vec![] } else { new }});
    }
    let column = |src: &mut Src, l: &str, from: usize| {
        let ends: Vec<usize> = l.char_indices().map(|(i, _)| i).chain([l.len()]).filter(|i| *i >= from).collect();
        *src.pick(&ends)
    };
    let ca = column(src, lines[a], 0);
    let cb = column(src, lines[b], if a == b { ca } else { 0 });
    json!({"do": "set_text", "at": [a, ca], "to": [b, cb], "lines": new})
}
