//! Neovim with the plugin of the repository, in place of a model of it.

use crate::{
    proc::kill_with_parent,
    runner::fail,
    tape::Src,
    text::{self, Op, Text},
    world::R,
};
use serde_json::{json, Value};
use std::{
    fs::File,
    io::{BufRead, BufReader, Write},
    os::fd::AsRawFd,
    path::{Path, PathBuf},
    process::{Child, Command, Stdio},
    time::{Duration, Instant},
};

const DRIVER: &str = include_str!("nvim.lua");
pub const PLUGIN: &str = "/repo/vim-plugin";

pub struct Nvim {
    child: Child,
    to: File,
    from: BufReader<File>,
    log: PathBuf,
    /// Written by the plugin, not yet taken.
    pub sent: Vec<Value>,
    pub bufs: Vec<Buffer>,
    pub mode: String,
    /// Neovim has cut characters in two, or does not stop: the case ends here.
    pub broken: bool,
    /// What Neovim complained about last.
    pub complaint: String,
}

#[derive(Clone)]
pub struct Buffer {
    pub name: String,
    pub text: Text,
    pub current: bool,
}

fn fifo(path: &Path) {
    let c = std::ffi::CString::new(path.to_string_lossy().as_bytes()).expect("path");
    assert!(unsafe { libc::mkfifo(c.as_ptr(), 0o600) } == 0, "mkfifo");
}

impl Nvim {
    /// `dir` is for files of the driver, outside of the project.
    pub fn start(dir: &Path) -> R<Self> {
        std::fs::create_dir_all(dir).expect("mkdir");
        let driver = dir.join("driver.lua");
        std::fs::write(&driver, DRIVER).expect("write");
        let (i, o) = (dir.join("in"), dir.join("out"));
        fifo(&i);
        fifo(&o);
        let log = dir.join("nvim.log");
        let out = File::create(&log).expect("log");
        let mut c = Command::new("nvim");
        c.args(["--headless", "-u", "NONE", "-i", "NONE", "-n"])
            .arg("--cmd")
            .arg(format!("set rtp^={PLUGIN}"))
            .arg("-c")
            .arg("set nomodeline noswapfile updatetime=100000 undoreload=0 noshowmode noruler noshowcmd report=99999 shortmess+=sWAcCF")
            .arg("-c")
            .arg(format!("luafile {}", driver.display()))
            .env("VERIF_IN", &i)
            .env("VERIF_OUT", &o)
            .env("HOME", dir)
            .env("XDG_STATE_HOME", dir)
            .env("XDG_DATA_HOME", dir)
            .env("XDG_CONFIG_HOME", dir)
            .env("XDG_RUNTIME_DIR", dir)
            .env("LANG", "C.UTF-8")
            .env("LC_ALL", "C.UTF-8")
            .env("SHELL", "/bin/sh")
            .current_dir(dir)
            .stdin(Stdio::null())
            .stdout(out.try_clone().expect("log"))
            .stderr(out);
        kill_with_parent(&mut c);
        let child = c.spawn().expect("nvim");
        // Opening for both reading and writing does not wait for the other side.
        let to = File::options().read(true).write(true).open(&i).expect("fifo");
        let from = File::options().read(true).write(true).open(&o).expect("fifo");
        let mut n = Self {
            child,
            to,
            from: BufReader::new(from),
            log,
            sent: vec![],
            bufs: vec![],
            mode: String::new(),
            broken: false,
            complaint: String::new(),
        };
        n.call(json!({"do": "cmd", "cmd": format!("source {PLUGIN}/plugin/ethersync.lua")}))?;
        if !n.complaint.is_empty() {
            return fail("plugin-does-not-load", n.complaint.clone());
        }
        Ok(n)
    }

    fn answer(&mut self) -> R<Value> {
        let start = Instant::now();
        loop {
            if self.from.buffer().contains(&b'\n') {
                break;
            }
            let mut p = libc::pollfd {
                fd: self.from.get_ref().as_raw_fd(),
                events: libc::POLLIN,
                revents: 0,
            };
            let r = unsafe { libc::poll(&mut p, 1, 500) };
            if r > 0 {
                break;
            }
            if start.elapsed() > Duration::from_secs(20) {
                // A macro running in circles. That is no answer to anything.
                let _ = self.child.kill();
                self.broken = true;
                return Ok(Value::Null);
            }
            if !matches!(self.child.try_wait(), Ok(None)) {
                return fail("harness-nvim-ended", std::fs::read_to_string(&self.log).unwrap_or_default());
            }
        }
        let mut line = vec![];
        self.from.read_until(b'\n', &mut line).expect("read");
        let line = String::from_utf8_lossy(&line);
        let Ok(v) = serde_json::from_str::<Value>(&line) else {
            return fail("harness-nvim-answer", line.to_string());
        };
        // Lua does not distinguish empty lists and objects.
        for m in v["sent"].as_array().into_iter().flatten() {
            self.sent.push(serde_json::from_str(m.as_str().unwrap_or("")).expect("message"));
        }
        self.bufs = v["bufs"]
            .as_array()
            .into_iter()
            .flatten()
            .map(|b| {
                let mut t: Vec<&str> = b["lines"].as_array().expect("lines").iter().map(|l| l.as_str().expect("line")).collect();
                if b["eol"] == json!(true) {
                    t.push("");
                }
                Buffer {
                    name: b["name"].as_str().expect("name").into(),
                    text: text::to_text(&t.join("\n")),
                    current: b["current"] == json!(true),
                }
            })
            .collect();
        self.broken = v["broken"] == json!(true);
        self.mode = v["mode"].as_str().unwrap_or("").into();
        self.complaint = format!("{}{}", v["failed"].as_str().unwrap_or(""), v["err"].as_str().unwrap_or(""));
        Ok(v)
    }

    /// True if Neovim is in the middle of it.
    pub fn call(&mut self, v: Value) -> R<bool> {
        self.to.write_all(format!("{v}\n").as_bytes()).expect("write");
        Ok(self.answer()?["paused"] == json!(true))
    }

    /// Goes on after a pause; true if there is another one.
    pub fn go(&mut self) -> R<bool> {
        self.call(json!({"do": "go"}))
    }

    pub fn text(&self, name: &Path) -> Option<&Text> {
        let name = name.to_string_lossy();
        self.bufs.iter().find(|b| b.name == name).map(|b| &b.text)
    }

    pub fn receive(&mut self, m: &Value) -> R<()> {
        self.call(json!({"do": "recv", "msg": m}))?;
        Ok(())
    }

    /// What the plugin has sent since the last time.
    pub fn take(&mut self) -> Vec<Value> {
        std::mem::take(&mut self.sent)
    }
}

impl Drop for Nvim {
    fn drop(&mut self) {
        let _ = self.child.kill();
        let _ = self.child.wait();
    }
}

fn lt(s: &str) -> String {
    s.replace('<', "<lt>")
}

/// A character Neovim keeps as it is.
pub fn gen_char(src: &mut Src) -> char {
    loop {
        let c = match src.weighted(&[8, 3, 3, 4]) {
            0 => *src.pick(&['a', 'b', 'c', 'x', '1', '9']),
            1 => '\n',
            2 => *src.pick(&[' ', '\t', '.', '(', ')', '{', '"', '-']),
            _ => text::gen_char(src),
        };
        // Neovim has its own view on these, in files already: line ends of several systems, the
        // end of strings, and marks of encodings.
        if !matches!(c, '\r' | '\0' | '\u{feff}' | '\u{fffd}') {
            return c;
        }
    }
}

pub fn gen_text(src: &mut Src, max: usize) -> String {
    let n = src.usize(max + 1);
    (0..n).map(|_| gen_char(src)).collect()
}

/// One line of visible characters.
fn gen_word(src: &mut Src, max: usize) -> String {
    let n = src.usize(max + 1);
    (0..n)
        .map(|_| loop {
            let c = gen_char(src);
            if !c.is_control() {
                return c;
            }
        })
        .collect()
}

fn motion(src: &mut Src) -> String {
    let m = *src.pick(&["l", "h", "j", "k", "w", "b", "e", "0", "$", "gg", "G", "{", "}", "^", "fa", "tx", "ge", "W", "+", "-", "H", "%"]);
    match src.weighted(&[6, 1]) {
        0 => m.into(),
        _ => format!("{}{m}", 2 + src.usize(2)),
    }
}

/// What is typed in insert mode, with pauses if asked for.
fn typing(src: &mut Src, pauses: bool) -> String {
    let mut out = String::new();
    for _ in 0..1 + src.usize(6) {
        if pauses && src.chance(1, 2) {
            out.push_str("<Cmd>lua Pause()<CR>");
        }
        match src.weighted(&[8, 3, 2, 1]) {
            0 => out.push_str(&lt(&gen_word(src, 3))),
            1 => out.push_str("<CR>"),
            2 => out.push_str(*src.pick(&["<BS>", "<Del>", "<C-w>", "<C-u>"])),
            _ => out.push_str(*src.pick(&[
                "<Tab>", "<C-t>", "<C-d>", "<C-o>x", "<C-o>dd", "<C-o>D", "<C-o>u", "<C-n>", "<C-p>", "<C-n><C-n>", "<C-x><C-l>", "<C-r>\"", "<C-r><C-o>\"",
                "<Left>", "<Right>", "<Up>", "<Down>", "<End>", "<Home>", "<C-e>", "<C-y>", "<C-a>", "<C-g>u", "<C-v>u20ac", "<C-k>a:", "<C-Left>",
            ])),
        }
    }
    if pauses && src.bool() {
        out.push_str("<Cmd>lua Pause()<CR>");
    }
    out
}

/// A command somebody gives in normal mode.
pub fn gen_keys(src: &mut Src, pauses: bool) -> String {
    let mut out = String::new();
    for _ in 0..src.usize(3) {
        out.push_str(&motion(src));
    }
    match src.weighted(&[6, 6, 6, 3, 3, 3, 2]) {
        // Insert something.
        0 => {
            let c = *src.pick(&["i", "a", "I", "A", "o", "O", "gI", "R", "2i", "3A", "2o", "2R"]);
            out += &format!("{c}{}<Esc>", typing(src, pauses));
        }
        // Delete or change something.
        1 => {
            let c = *src.pick(&[
                "x", "X", "dd", "D", "J", "gJ", "3J", "2dd", "3x", "dw", "db", "d$", "d0", "dG", "dgg", "dj", "dk", "diw", "daw", "dip", "dap", "d}", "~", "g~~",
                "guu", "gUU", "g??", ">>", "<lt><lt>", "==", "<C-a>", "<C-x>", "gqq", "gqG", "gwG", "gUG", "=G", "5J", "da(", "3dd", ">G", "2~",
            ]);
            out += c;
        }
        2 => {
            let c = *src.pick(&["u", "u", "<C-r>", "p", "P", "yyp", "yyP", "yyjp", "ywP", "xp", "ddp", "ddP", "ddkP", ".", "2.", "3p", "gp", "gP", "]p", "U", "g-", "g+", "2u", "yGP", "yGGp", "\"ayy\"ap", "ddu", "J.", "&", "@:"]);
            out += c;
        }
        3 => {
            let c = *src.pick(&["cc", "C", "s", "S", "cw", "c$", "ciw", "cj", "cG", "2s", "cgg", "c}"]);
            out += &format!("{c}{}<Esc>", typing(src, pauses));
        }
        // Something selected.
        4 => {
            let v = *src.pick(&["v", "V", "<C-v>"]);
            let m: String = (0..1 + src.usize(3)).map(|_| motion(src)).collect();
            let c = *src.pick(&["d", "J", "~", "U", "u", ">", "<lt>", "rx", "x", "y", "p", "P", "D", "X", "gJ", "gq", "=", "yP", "ygvp", "o", "g<C-a>", "<C-a>", "O", "g?", "Y"]);
            out += &format!("{v}{m}{c}");
        }
        5 => {
            let v = *src.pick(&["v", "V", "<C-v>", "<C-v>", "<C-v>"]);
            let m: String = (0..1 + src.usize(3)).map(|_| motion(src)).collect();
            let c = *src.pick(&["I", "A", "c", "s", "C", "S", "R", "$A"]);
            out += &format!("{v}{m}{c}{}<Esc>", typing(src, pauses));
        }
        _ => {
            let c = lt(&gen_word(src, 1));
            out += &match src.usize(4) {
                0 => format!("r{c}"),
                1 => format!("3r{c}"),
                2 => format!("r<CR>"),
                _ => format!("qqxi{c}<Esc>jq2@q"),
            };
        }
    }
    out
}

/// A command line.
pub fn gen_cmd(src: &mut Src) -> String {
    let range = *src.pick(&["", "%", "%", "1", "$", "1,2", "2,3", ".,$", "1,$-1", "2,$"]);
    let r = |c: &str| format!("{range}{c}");
    match src.weighted(&[4, 4, 4, 1]) {
        0 => {
            let pat = *src.pick(&["a", "b", "[abc]", ".", "$", "^", "x*", "\\n", "a\\n", "\\w", "\\s", "^.*$", "ä", "[^a-c]"]);
            let sub = *src.pick(&["", "b", "\\r", "&&", "🥕", "y\\rz", "\\U&", "x&", "\\r\\r"]);
            let flags = *src.pick(&["", "g"]);
            r(&format!("s/{pat}/{sub}/{flags}"))
        }
        1 => {
            let pat = *src.pick(&["a", "b", ".", "^$", "x", "$"]);
            let v = *src.pick(&["g", "v", "g!"]);
            let c = *src.pick(&["d", "m0", "m$", "t.", "t0", "s/a/b/", "j", "normal Ax", "normal dd", "normal ox", "normal yyp", "s/$/\\r/", "-d", "+d", "normal J", "put ='z'"]);
            r(&format!("{v}/{pat}/{c}"))
        }
        2 => {
            let c = *src.pick(&[
                "d", "d", "j", "j!", "m0", "m$", "m+1", "m-2", "t.", "t0", "t$", "sort", "sort!", "sort u", ">", "<", "left", "center 10", "right 10", "normal Ax", "normal Ix",
                "normal x", "normal dd", "normal o", "y | put", "y | 0put", "retab!", "copy 0", "&&", "s/./&&/ | s/a/b/", "normal ~j", "change | ", "d | put",
            ]);
            r(c)
        }
        _ => (*src.pick(&[
            "undo", "redo", "undo 0", "earlier 2", "earlier 10", "later 2", "later 10", "put ='a'", "put! ='a'", "0put =['x','y']", "$put =''", "%!sort", "%!cat", "%!true", "%!tr a-c x-z", "1!cat", "$!cat", "write",
            "silent! write", "call setline(1, 'ü')", "call append('$', ['a', ''])", "call append(0, '')", "call setline('$', ['n', 'm'])", "call deletebufline('%', 1, '$')", "undojoin | normal x",
            "set list", "1,1move $ | $move 0", "normal! ggyGP", "normal! gg\"_dG", "r !printf a", "0r !printf 'a\\nb'", "call setbufline('%', 2, 'k')", "normal! ggVGd", "windo normal x", "bufdo normal x",
        ]))
        .into(),
    }
}

/// Non-overlapping replacements, in coordinates of the text before.
pub fn gen_ops(src: &mut Src, t: &[char]) -> Vec<Op> {
    let mut ops = vec![];
    let mut at = match src.weighted(&[4, 1, 1]) {
        0 => src.usize(t.len() + 1),
        1 => 0,
        _ => t.len(),
    };
    for _ in 0..1 + src.weighted(&[4, 2, 1]) {
        let rest = t.len() - at;
        let del = match src.weighted(&[3, 4, 1]) {
            0 => 0,
            1 => src.usize(rest.min(6) + 1),
            _ => rest,
        };
        let ins = if del > 0 && src.bool() {
            String::new()
        } else {
            loop {
                let s = gen_text(src, 4);
                if del > 0 || !s.is_empty() {
                    break s;
                }
            }
        };
        if del > 0 && !ins.is_empty() && src.bool() {
            // As the daemon writes it.
            ops.push(text::splice_op(t, at, 0, &ins));
            ops.push(text::splice_op(t, at, del, ""));
        } else {
            ops.push(text::splice_op(t, at, del, &ins));
        }
        at += del + 1 + src.usize(4);
        if at > t.len() {
            break;
        }
    }
    ops
}
