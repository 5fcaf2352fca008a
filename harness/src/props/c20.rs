//! VS Code: edits and cursors are converted exactly in both directions.

use crate::{
    code::{utf16_pos, Code},
    ensure, nvim,
    runner::{fail, CaseResult, Ctx, Failure, Prop},
    tape::Src,
    text::{self, Op, Text},
    world::{block_on, project, Ed, Node, R},
};
use serde_json::{json, Value};
use std::path::{Path, PathBuf};

pub fn prop() -> Prop {
    Prop {
        id: "C20",
        level: "exploration",
        rule: "a case is the extension with 1-2 open documents in a stand-in for VS Code that decides what reaches whom when; in every other \
               case the other side is generated edits (non-trivial with at least two applied edits, two of the user and one for another revision), in \
               the others it is a daemon with another editor (non-trivial with at least two edits of each side)",
        assumptions: &[
            "VS Code reports changes of one event from the end of the document to its start, in order and with the document as it is then, and \
             does not apply edits for a document that has changed since they were asked for",
            "texts without carriage returns, NUL and byte order marks; documents change when the daemon has answered that they are open",
        ],
        quick: 20_000,
        thorough: 300_000,
        threads: 8,
        case_timeout_s: 120,
        exhaustive: false,
        case,
    }
}

fn case(src: &mut Src, ctx: &mut Ctx, i: usize) -> CaseResult {
    if i % 2 == 0 {
        single(src, ctx)
    } else {
        block_on(together(src, ctx))
    }
}

const NAMES: &[&str] = &["f", "ü mlaut", "a#b", "x+y.txt", "a@b,c;d=e$f&g", "q?", "[1](2)", "100%", "%41", "a:b", "🥕'"];

fn gen_text(src: &mut Src, max: usize) -> String {
    let n = src.usize(max + 1);
    (0..n).map(|_| if src.chance(1, 6) { *src.pick(&['🥕', '😀', '\u{10000}', '\u{10ffff}']) } else { nvim::gen_char(src) }).collect()
}

fn content(src: &mut Src) -> String {
    let size = [0, 2, 8, 30][src.weighted(&[1, 2, 4, 4])];
    gen_text(src, size)
}

/// What a user replaces, with one or several cursors.
fn gen_edit(src: &mut Src, t: &[char]) -> Vec<(usize, usize, String)> {
    let mut out = vec![];
    let mut at = match src.weighted(&[4, 1, 1]) {
        0 => src.usize(t.len() + 1),
        1 => 0,
        _ => t.len(),
    };
    let same = gen_text(src, 3);
    for _ in 0..1 + src.weighted(&[6, 2, 1]) {
        let del = match src.weighted(&[4, 3, 1]) {
            0 => 0,
            1 => src.usize((t.len() - at).min(6) + 1),
            _ => t.len() - at,
        };
        let ins = if del > 0 && src.bool() {
            String::new()
        } else if same.is_empty() && del == 0 {
            "x".into()
        } else {
            same.clone()
        };
        out.push((at, del, ins));
        at += del + src.usize(4);
        if at > t.len() || del == 0 && out[out.len() - 1].0 == at {
            break;
        }
    }
    out
}

/// Daemon edits as a user would type them.
fn as_typed(t: &[char], ops: &[Op]) -> Option<Vec<(usize, usize, String)>> {
    ops.iter()
        .map(|o| {
            let s = text::offset_of(t, o.start.0, o.start.1)?;
            let e = text::offset_of(t, o.end.0, o.end.1)?;
            Some((s, e - s, o.text.clone()))
        })
        .collect()
}

fn harness<T>(r: Result<T, String>) -> R<T> {
    r.map_err(|e| Failure { signature: "harness-delta".into(), message: e })
}

struct File {
    path: PathBuf,
    /// What the messages so far amount to.
    text: Text,
    /// Numbers of edits the extension has sent and applied.
    own: usize,
    others: usize,
    /// Sent to the extension, which has said nothing since.
    pending: Vec<Vec<Op>>,
}

impl File {
    fn with_pending(&self) -> R<Text> {
        let mut t = self.text.clone();
        for ops in &self.pending {
            t = harness(text::apply(&t, ops))?;
        }
        Ok(t)
    }
}

struct Single {
    code: Code,
    files: Vec<File>,
    applied: usize,
    typed: usize,
    empties: u64,
}

fn uri(path: &Path) -> String {
    format!("file://{}", path.display())
}

fn range(t: &[char], (a, b): (usize, usize)) -> Value {
    let ((l1, c1), (l2, c2)) = (text::pos_of(t, a), text::pos_of(t, b));
    json!({"start": {"line": l1, "character": c1}, "end": {"line": l2, "character": c2}})
}

impl Single {
    /// Takes what the extension has sent.
    fn pick_up(&mut self) -> R<()> {
        let mut cursors = vec![];
        for m in self.code.take() {
            match m["method"].as_str() {
                Some("cursor") => cursors.push(m["params"].clone()),
                Some("edit") => {
                    let Some(f) = self.files.iter_mut().find(|f| m["params"]["uri"] == json!(uri(&f.path))) else {
                        return fail("wrong-uri", format!("an edit of another file: {m}"));
                    };
                    let Some(seen) = m["params"]["revision"].as_u64().and_then(|r| (r as usize).checked_sub(f.others)) else {
                        return fail("wrong-revision", format!("{} edits were applied before, but: {m}", f.others));
                    };
                    ensure!(
                        seen <= f.pending.len(),
                        "wrong-revision",
                        "there were {} edits to apply and {} applied before, but: {m}",
                        f.pending.len(),
                        f.others
                    );
                    for ops in f.pending.drain(..).take(seen).collect::<Vec<_>>() {
                        f.text = harness(text::apply(&f.text, &ops))?;
                        f.others += 1;
                        self.applied += 1;
                    }
                    let Some(ops) = text::parse_delta(&m["params"]["delta"]) else {
                        return fail("not-an-edit", m.to_string());
                    };
                    ensure!(ops.len() <= 1, "not-an-edit", "the daemon takes one change at a time: {m}");
                    self.empties += u64::from(ops.is_empty());
                    f.own += 1;
                    match text::apply(&f.text, &ops) {
                        Ok(t) => f.text = t,
                        Err(e) => return fail("wrong-edit", format!("{e}: {m} of {:?}", text::to_string(&f.text))),
                    }
                }
                _ => return fail("unexpected-message", m.to_string()),
            }
        }
        ensure!(
            self.empties <= self.code.refused,
            "refused-without-reason",
            "the extension refused {} edits, but VS Code {}",
            self.empties,
            self.code.refused
        );
        let selected = std::mem::take(&mut self.code.selected);
        let expected: Vec<Value> = selected
            .iter()
            .map(|s| {
                let t = text::to_text(s["text"].as_str().expect("text"));
                let ranges: Vec<Value> = s["ranges"]
                    .as_array()
                    .expect("ranges")
                    .iter()
                    .map(|r| {
                        let n = |i: usize| r[i].as_u64().expect("number") as usize;
                        let find = |at: (usize, usize)| (0..=t.len()).find(|o| utf16_pos(&t, *o) == at).expect("position");
                        let (a, b) = (find((n(0), n(1))), find((n(2), n(3))));
                        range(&t, (a.min(b), a.max(b)))
                    })
                    .collect();
                json!({"uri": format!("file://{}", s["path"].as_str().expect("path")), "ranges": ranges})
            })
            .collect();
        ensure!(cursors == expected, "wrong-cursor", "{} instead of {} {}", json!(cursors), json!(expected), self.code.messages);
        Ok(())
    }

    fn settle(&mut self) -> R<()> {
        for round in 0.. {
            ensure!(round < 2_000, "does-not-settle", "the extension goes on and on");
            if self.code.to_window > 0 {
                self.code.window()?;
            } else if self.code.to_extension > 0 {
                self.code.extension(1)?;
            } else {
                break;
            }
            self.pick_up()?;
        }
        for f in &mut self.files {
            f.text = f.with_pending()?;
            f.others += f.pending.len();
            self.applied += f.pending.len();
            f.pending.clear();
            let Some(t) = self.code.text(&f.path) else {
                return fail("harness-document-gone", uri(&f.path));
            };
            ensure!(
                *t == f.text,
                "texts-differ",
                "{} is {:?}, but by the messages it should be {:?} {}",
                f.path.display(),
                text::to_string(t),
                text::to_string(&f.text),
                self.code.messages
            );
        }
        Ok(())
    }

    fn open(&mut self, k: usize) -> R<()> {
        let f = &mut self.files[k];
        self.code.open(&f.path, &text::to_string(&f.text))?;
        (f.own, f.others) = (0, 0);
        let sent = self.code.take();
        match &sent[..] {
            [m] if m["method"] == "open" && m["params"]["uri"] == json!(uri(&f.path)) => self.code.receive(&json!({"id": m["id"], "result": "success"})),
            _ => fail("not-opened", format!("opening {} sends {}", f.path.display(), json!(sent))),
        }
    }
}

/// The extension alone.
fn single(src: &mut Src, ctx: &mut Ctx) -> CaseResult {
    let dir = project(&ctx.scratch, "p");
    let mut s = Single { code: Code::start(src.bool())?, files: vec![], applied: 0, typed: 0, empties: 0 };
    let n = 1 + src.weighted(&[3, 1]);
    for k in 0..n {
        let path = dir.join(format!("{}{k}", *src.pick(NAMES)));
        let content = content(src);
        ctx.log(format!("{path:?}: {content:?}"));
        s.files.push(File { path, text: text::to_text(&content), own: 0, others: 0, pending: vec![] });
        s.open(k)?;
    }
    let mut stale = 0;
    for _ in 0..2 + src.usize(if ctx.thorough { 40 } else { 20 }) {
        let k = src.usize(n);
        let f = &mut s.files[k];
        match src.weighted(&[5, 4, 1, 4, 5, 1, 1, 1, 1]) {
            0 => {
                let t = s.code.text(&f.path).expect("document").clone();
                // Sometimes the same as somebody else at the same time.
                let same = if src.chance(1, 4) { f.pending.last().and_then(|ops| as_typed(&t, ops)) } else { None };
                let ops = same.unwrap_or_else(|| gen_edit(src, &t));
                ctx.log(format!("user: {k} {ops:?}"));
                s.typed += 1;
                s.code.edit(&f.path, &t, &ops)?;
            }
            what @ (1 | 2) => {
                let t = f.with_pending()?;
                let mut ops = nvim::gen_ops(src, &t);
                if src.chance(1, 12) {
                    ops.clear();
                }
                let revision = match (what, src.usize(3)) {
                    (1, _) => f.own,
                    (_, 0) if f.own > 0 => f.own - 1,
                    (_, 1) => f.own + 1 + f.others,
                    _ => f.own + 1,
                };
                let delta: Vec<Value> = ops.iter().map(Op::json).collect();
                ctx.log(format!("daemon: {k} for revision {revision}: {}", json!(delta)));
                // A revision from the future can come true while others wait.
                if what == 1 || revision < f.own || s.code.to_extension + s.code.to_window == 0 {
                    if what == 1 {
                        f.pending.push(ops);
                    } else {
                        stale += 1;
                    }
                    s.code.receive(&json!({"method": "edit", "params": {"uri": uri(&f.path), "revision": revision, "delta": delta}}))?;
                }
            }
            3 => {
                ctx.log("window");
                s.code.window()?;
            }
            4 => {
                let n = 1 + src.weighted(&[4, 2, 1]);
                ctx.log(format!("extension {n}"));
                s.code.extension(n)?;
            }
            5 => {
                let t = s.code.text(&f.path).expect("document").clone();
                let ranges: Vec<Value> = (0..1 + src.usize(3))
                    .map(|_| {
                        let ((a, b), (c, d)) = (utf16_pos(&t, src.usize(t.len() + 1)), utf16_pos(&t, src.usize(t.len() + 1)));
                        json!([a, b, c, d])
                    })
                    .collect();
                ctx.log(format!("select: {k} {ranges:?}"));
                s.code.call(json!({"do": "select", "path": f.path, "ranges": ranges}))?;
            }
            6 => {
                ctx.log("settle");
                s.settle()?;
            }
            7 => {
                s.settle()?;
                let f = &s.files[k];
                let spans: Vec<(usize, usize)> = (0..1 + src.usize(3))
                    .map(|_| {
                        let (a, b) = (src.usize(f.text.len() + 1), src.usize(f.text.len() + 1));
                        (a.min(b), a.max(b))
                    })
                    .collect();
                let ranges: Vec<Value> = spans.iter().map(|s| range(&f.text, *s)).collect();
                ctx.log(format!("cursor: {k} {}", json!(ranges)));
                let user = src.usize(2);
                s.code.receive(&json!({"method": "cursor", "params": {"userid": user, "name": "n", "uri": uri(&f.path), "ranges": ranges}}))?;
                let expected: Vec<Value> = spans
                    .iter()
                    .map(|(a, b)| {
                        let ((a, b), (c, d)) = (utf16_pos(&f.text, *a), utf16_pos(&f.text, *b));
                        json!([a, b, c, d])
                    })
                    .collect();
                let shown = s.code.decorations.iter().rev().find(|d| d["path"] == json!(f.path)).map(|d| d["ranges"].clone());
                ensure!(
                    shown == Some(json!(expected)),
                    "cursor-shown-elsewhere",
                    "{} of {:?} is shown at {shown:?} instead of {} {}",
                    json!(ranges),
                    text::to_string(&f.text),
                    json!(expected),
                    s.code.messages
                );
            }
            _ => {
                s.settle()?;
                ctx.log(format!("close and open {k}"));
                let f = &s.files[k];
                s.code.call(json!({"do": "close", "path": f.path}))?;
                let sent = s.code.take();
                ensure!(
                    sent.len() == 1 && sent[0]["method"] == "close" && sent[0]["params"]["uri"] == json!(uri(&f.path)),
                    "not-closed",
                    "closing {} sends {}",
                    f.path.display(),
                    json!(sent)
                );
                s.open(k)?;
            }
        }
        s.pick_up()?;
    }
    ctx.log("settle");
    s.settle()?;
    ctx.nontrivial = s.applied >= 2 && s.typed >= 2 && stale >= 1;
    if s.code.refused > 0 {
        ctx.label("refused by VS Code");
    }
    Ok(())
}

/// The extension, a daemon and another editor.
struct Trio {
    nodes: Vec<Node>,
    code: Code,
    line: Ed,
    other: Ed,
    applied: usize,
    own: usize,
}

impl Trio {
    fn pick_up(&mut self) {
        self.code.selected.clear();
        for mut m in self.code.take() {
            self.own += usize::from(m["method"] == "edit");
            m["jsonrpc"] = json!("2.0");
            self.line.out.push_back(m.to_string());
        }
    }

    fn receive(&mut self) -> R<bool> {
        self.line.drain()?;
        let Some(m) = self.line.inbox.pop_front() else {
            return Ok(false);
        };
        ensure!(m.get("error").is_none(), "edit-refused", "the daemon does not accept what the extension sent: {m}");
        self.applied += usize::from(m["method"] == "edit");
        self.code.receive(&m)?;
        self.pick_up();
        Ok(true)
    }
}

async fn together(src: &mut Src, ctx: &mut Ctx) -> CaseResult {
    let dir = project(&ctx.scratch, "p");
    let n = 1 + src.weighted(&[3, 1]);
    let names: Vec<String> = (0..n).map(|k| format!("{}{k}", *src.pick(NAMES))).collect();
    let mut contents = vec![];
    for name in &names {
        let content = content(src);
        ctx.log(format!("{name}: {content:?}"));
        std::fs::write(dir.join(name), &content).expect("write");
        contents.push(content);
    }
    let nodes = vec![Node::start("host", &dir, true, true)?];
    nodes[0].barrier("start").await?;
    let line = Ed::connect(&nodes, 0).await?;
    let other = Ed::connect(&nodes, 0).await?;
    let mut t = Trio { nodes, code: Code::start(src.bool())?, line, other, applied: 0, own: 0 };
    for (name, content) in names.iter().zip(&contents) {
        ensure!(t.other.open(&t.nodes, name).await?, "harness-open", "{name}");
        t.code.open(&dir.join(name), content)?;
        t.pick_up();
        while t.line.deliver(&t.nodes).await? {}
        while t.receive()? {}
    }
    let mut theirs = 0;
    for _ in 0..4 + src.usize(if ctx.thorough { 60 } else { 30 }) {
        match src.weighted(&[3, 3, 3, 2, 2, 3, 4]) {
            0 => {
                let path = src.pick(&names).clone();
                let at_del = text::gen_splice(src, t.other.bufs[&path].text.len());
                let ins = if at_del.1 > 0 && src.bool() { String::new() } else { gen_text(src, 3) };
                ctx.log(format!("other: {path} {at_del:?} {ins:?}"));
                t.other.user_edit(&path, at_del.0, at_del.1, &ins);
                theirs += 1;
                if src.bool() {
                    t.other.deliver(&t.nodes).await?;
                }
            }
            1 => {
                ctx.log("daemon reads from the extension");
                t.line.deliver(&t.nodes).await?;
            }
            2 => {
                ctx.log("extension reads from the daemon");
                t.receive()?;
            }
            3 => {
                ctx.log("daemon reads from other");
                t.other.deliver(&t.nodes).await?;
            }
            4 => {
                ctx.log("other reads");
                t.other.drain()?;
                t.other.process()?;
            }
            5 => {
                let path = dir.join(src.pick(&names));
                let now = t.code.text(&path).expect("document").clone();
                let ops = gen_edit(src, &now);
                ctx.log(format!("user: {path:?} {ops:?}"));
                t.code.edit(&path, &now, &ops)?;
            }
            _ => {
                let n = 1 + src.usize(3);
                if src.bool() {
                    ctx.log("window");
                    t.code.window()?;
                } else {
                    ctx.log(format!("extension {n}"));
                    t.code.extension(n)?;
                }
                t.pick_up();
            }
        }
    }
    ctx.log("everything is delivered");
    for round in 0.. {
        ensure!(round < 20_000, "does-not-settle", "messages go around in circles");
        let mut quiet = true;
        quiet &= !t.line.deliver(&t.nodes).await?;
        quiet &= !t.other.deliver(&t.nodes).await?;
        quiet &= !t.receive()?;
        t.other.drain()?;
        quiet &= !t.other.process()?;
        if t.code.to_window > 0 {
            t.code.window()?;
            quiet = false;
        }
        if t.code.to_extension > 0 {
            t.code.extension(1)?;
            quiet = false;
        }
        t.pick_up();
        quiet &= t.line.out.is_empty();
        if quiet {
            break;
        }
    }
    let shared = t.nodes[0].shared().await?;
    for name in &names {
        let Some(mine) = t.code.text(&dir.join(name)) else {
            return fail("harness-document-gone", name.clone());
        };
        let theirs = &t.other.bufs[name].text;
        ensure!(
            Some(&text::to_string(mine)) == shared.get(name),
            "texts-differ",
            "{name} is {:?} in VS Code, {:?} in the daemon, {:?} in the other editor {}",
            text::to_string(mine),
            shared.get(name),
            text::to_string(theirs),
            t.code.messages
        );
        ensure!(
            mine == theirs,
            "other-differs",
            "{name} is {:?} in VS Code, {:?} in the other editor",
            text::to_string(mine),
            text::to_string(theirs)
        );
    }
    ctx.nontrivial = t.applied >= 2 && t.own >= 2 && theirs >= 2;
    Ok(())
}
