//! The VS Code extension of the repository in a stand-in for VS Code (code.js).

use crate::{
    proc::kill_with_parent,
    runner::{fail, scratch_root},
    text::{self, Text},
    world::R,
};
use serde_json::{json, Value};
use std::{
    cell::RefCell,
    io::{BufRead, BufReader, Write},
    path::Path,
    process::{Child, ChildStdin, ChildStdout, Command, Stdio},
};

const DRIVER: &str = include_str!("code.js");
const SOURCE: &str = "/repo/vscode-plugin/src/extension.ts";

struct Proc {
    child: Child,
    to: ChildStdin,
    from: BufReader<ChildStdout>,
}

impl Proc {
    fn start() -> Self {
        // The program cannot come from stdin, that is for commands.
        let dir = scratch_root().join("code");
        std::fs::create_dir_all(&dir).expect("mkdir");
        let file = dir.join("code.js");
        if !file.exists() {
            let new = dir.join(format!("{:?}.js", std::thread::current().id()));
            std::fs::write(&new, DRIVER).expect("write");
            std::fs::rename(&new, &file).expect("rename");
        }
        let mut c = Command::new("node");
        c.arg(&file).arg(SOURCE).stdin(Stdio::piped()).stdout(Stdio::piped()).stderr(Stdio::inherit());
        kill_with_parent(&mut c);
        let mut child = c.spawn().expect("node");
        Self {
            to: child.stdin.take().expect("stdin"),
            from: BufReader::new(child.stdout.take().expect("stdout")),
            child,
        }
    }

    fn call(&mut self, v: &Value) -> Option<String> {
        self.to.write_all(format!("{v}\n").as_bytes()).ok()?;
        self.to.flush().ok()?;
        let mut line = String::new();
        (self.from.read_line(&mut line).ok()? > 0).then_some(line)
    }
}

impl Drop for Proc {
    fn drop(&mut self) {
        let _ = self.child.kill();
        let _ = self.child.wait();
    }
}

thread_local! {
    /// Between two cases. A process ends with the thread that started it.
    static IDLE: RefCell<Option<Proc>> = const { RefCell::new(None) };
}

pub struct Code {
    proc: Option<Proc>,
    /// Written by the extension, not yet taken.
    pub sent: Vec<Value>,
    pub docs: Vec<(String, Text)>,
    pub selected: Vec<Value>,
    pub decorations: Vec<Value>,
    /// What the extension told the user, and what it did not catch.
    pub messages: String,
    /// Edits the window did not take.
    pub refused: u64,
    pub to_window: u64,
    pub to_extension: u64,
}

impl Code {
    /// `empty` is what VS Code says to an edit without changes.
    pub fn start(empty: bool) -> R<Self> {
        let reset = json!({"do": "reset", "empty": empty});
        let mut c = Self {
            proc: None,
            sent: vec![],
            docs: vec![],
            selected: vec![],
            decorations: vec![],
            messages: String::new(),
            refused: 0,
            to_window: 0,
            to_extension: 0,
        };
        let idle = IDLE.with(|i| i.take());
        if let Some(mut p) = idle {
            if let Some(line) = p.call(&reset) {
                c.proc = Some(p);
                c.take_in(&line)?;
                return Ok(c);
            }
        }
        c.proc = Some(Proc::start());
        c.call(reset)?;
        Ok(c)
    }

    pub fn call(&mut self, v: Value) -> R<()> {
        let Some(line) = self.proc.as_mut().and_then(|p| p.call(&v)) else {
            self.proc = None;
            return fail("harness-node-ended", v.to_string());
        };
        self.take_in(&line)
    }

    fn take_in(&mut self, line: &str) -> R<()> {
        let Ok(v) = serde_json::from_str::<Value>(line) else {
            return fail("harness-node-answer", line.to_string());
        };
        if let Some(e) = v["failed"].as_str() {
            return fail("extension-fails", e);
        }
        for m in v["sent"].as_array().expect("sent") {
            let m = m.as_str().expect("message");
            match serde_json::from_str(m) {
                Ok(m) => self.sent.push(m),
                Err(e) => return fail("broken-message", format!("{e}: {m}")),
            }
        }
        self.selected.extend(v["selected"].as_array().expect("selected").iter().cloned());
        self.decorations = v["decorations"].as_array().expect("decorations").clone();
        self.refused = v["refused"].as_u64().expect("refused");
        self.to_window = v["toWindow"].as_u64().expect("number");
        self.to_extension = v["toExtension"].as_u64().expect("number");
        for m in v["messages"].as_array().into_iter().chain(v["complaints"].as_array()).flatten() {
            self.messages = m.as_str().unwrap_or("").chars().take(400).collect();
        }
        self.docs.clear();
        for d in v["docs"].as_array().expect("docs") {
            let path = d["path"].as_str().expect("path").to_string();
            if d["broken"] == json!(true) {
                return fail("character-cut-in-two", format!("{path}: {}", d["text"]));
            }
            let t = text::to_text(d["text"].as_str().expect("text"));
            // No case types that much.
            if t.len() > 20_000 {
                return fail("does-not-settle", format!("{path} has grown to {} characters", t.len()));
            }
            self.docs.push((path, t));
        }
        Ok(())
    }

    pub fn text(&self, path: &Path) -> Option<&Text> {
        let path = path.to_string_lossy();
        self.docs.iter().find(|(p, _)| *p == path).map(|(_, t)| t)
    }

    pub fn open(&mut self, path: &Path, text: &str) -> R<()> {
        self.call(json!({"do": "open", "path": path, "text": text}))
    }

    pub fn receive(&mut self, m: &Value) -> R<()> {
        self.call(json!({"do": "recv", "msg": m}))
    }

    /// The user replaces ranges of characters.
    pub fn edit(&mut self, path: &Path, t: &[char], ops: &[(usize, usize, String)]) -> R<()> {
        let ops: Vec<Value> =
            ops.iter().map(|(at, del, ins)| json!({"start": utf16(&t[..*at]), "end": utf16(&t[..at + del]), "text": ins})).collect();
        self.call(json!({"do": "type", "path": path, "ops": ops}))
    }

    /// The window takes the next request of the extension.
    pub fn window(&mut self) -> R<()> {
        self.call(json!({"do": "window"}))
    }

    /// The extension gets the next `n` events or answers from the window.
    pub fn extension(&mut self, n: usize) -> R<()> {
        self.call(json!({"do": "extension", "n": n}))
    }

    pub fn take(&mut self) -> Vec<Value> {
        std::mem::take(&mut self.sent)
    }
}

impl Drop for Code {
    fn drop(&mut self) {
        if let Some(p) = self.proc.take() {
            let _ = IDLE.try_with(|i| i.replace(Some(p)));
        }
    }
}

pub fn utf16(t: &[char]) -> usize {
    t.iter().map(|c| c.len_utf16()).sum()
}

/// Line and UTF-16 column of a character.
pub fn utf16_pos(t: &[char], offset: usize) -> (usize, usize) {
    let (line, column) = text::pos_of(t, offset);
    (line, utf16(&t[offset - column..offset]))
}
