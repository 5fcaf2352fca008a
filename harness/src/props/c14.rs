//! The client bridge passes every message through unchanged and in order.

use crate::{
    proc,
    runner::{fail, CaseResult, Ctx, Prop},
    tape::Src,
    text,
    world::R,
};
use std::{
    io::{Read, Write},
    os::{
        fd::AsRawFd,
        unix::{
            fs::PermissionsExt,
            net::{UnixListener, UnixStream},
        },
    },
    process::{Child, ChildStdin, Command, Stdio},
    time::Duration,
};

pub fn prop() -> Prop {
    Prop {
        id: "C14",
        level: "exploration",
        rule: "a case is one run of `ethersync client` between a simulated editor and a simulated daemon that send 0-12 messages each, in generated chunks; \
               non-trivial if at least two messages went to the daemon, one came back, and a message was cut into pieces",
        assumptions: &["messages are single lines of valid UTF-8, lines of the daemon do not end in a carriage return"],
        quick: 3_000,
        thorough: 60_000,
        threads: 8,
        case_timeout_s: 200,
        exhaustive: false,
        case,
    }
}

fn message(src: &mut Src) -> String {
    let mut s: String = match src.weighted(&[120, 80, 20, 20, 20, 20, 1]) {
        0 => {
            let t = text::gen_string(src, 12);
            serde_json::json!({"jsonrpc": "2.0", "id": src.below(1000), "method": "edit", "params": {"text": t}}).to_string()
        }
        1 => text::gen_string(src, 30),
        2 => String::new(),
        3 => {
            let t = text::gen_string(src, 9);
            let n = 1 + src.usize(30_000);
            format!("[\"{t}\"]").repeat(n)
        }
        4 => (*src.pick(&["Content-Length: 5", "Content-Length: 3\r\rabc", "Content-Length: ", "content-length: 0", "\r", "\r\r", " ", "\u{feff}{}"])).to_string(),
        6 => {
            // Longer than any buffer.
            let t = text::gen_string(src, 9);
            let n = 1_000_000 + src.usize(2_000_000);
            format!("\"{t}\"").repeat(n / (t.len() + 2))
        }
        _ => {
            // Sizes around those of buffers.
            let n = *src.pick(&[4096usize, 8192, 16384, 65536]);
            let d = src.usize(60);
            "x".repeat(n - 30 + d)
        }
    };
    s.retain(|c| c != '\n');
    s
}

fn frame(src: &mut Src, m: &str) -> Vec<u8> {
    let (prefix, end) = match src.weighted(&[6, 3, 1]) {
        0 => ("", "\r\n\r\n"),
        1 => ("", "\n\n"),
        _ => ("Content-Type: application/vscode-jsonrpc; charset=utf-8\r\n", "\r\n\r\n"),
    };
    format!("{prefix}Content-Length: {}{end}{m}", m.len()).into_bytes()
}

/// Splits what was written by the client into messages; the rest if it ends early.
fn unframe(mut b: &[u8]) -> Result<Vec<String>, String> {
    let mut out = vec![];
    while !b.is_empty() {
        let show = || format!("{:?}", String::from_utf8_lossy(&b[..b.len().min(80)]));
        let head = b.windows(4).position(|w| w == b"\r\n\r\n").ok_or_else(show)?;
        let mut len = None;
        for line in String::from_utf8_lossy(&b[..head]).split("\r\n") {
            if let Some(n) = line.strip_prefix("Content-Length: ") {
                len = n.parse::<usize>().ok();
            }
        }
        let len = len.ok_or_else(show)?;
        let rest = &b[head + 4..];
        if rest.len() < len {
            return Err(format!("a message of {len} bytes ends after {}", rest.len()));
        }
        out.push(String::from_utf8(rest[..len].to_vec()).map_err(|e| e.to_string())?);
        b = &rest[len..];
    }
    Ok(out)
}

/// Writes in pieces; a piece is mostly consumed before the next one comes.
fn feed(src: &mut Src, bytes: &[u8], cuts: &mut usize, mut write: impl FnMut(&[u8]) -> bool, pending: impl Fn() -> bool) -> bool {
    let mut rest = bytes;
    let style = src.usize(4);
    while !rest.is_empty() {
        let n = match style {
            0 => rest.len(),
            1 => 1 + src.usize(rest.len().min(8)),
            2 => 1 + src.usize(rest.len().min(60)),
            _ => 1 + src.usize(rest.len()),
        };
        // Not too many tiny pieces of something big.
        let n = if rest.len() > 3000 && n < 100 { rest.len() / 2 } else { n };
        if !write(&rest[..n]) {
            return false;
        }
        rest = &rest[n..];
        if !rest.is_empty() {
            *cuts += 1;
            for _ in 0..50 {
                if !pending() {
                    break;
                }
                std::thread::sleep(Duration::from_micros(50));
            }
        }
    }
    true
}

fn unread(fd: i32) -> bool {
    let mut n: libc::c_int = 0;
    unsafe { libc::ioctl(fd, libc::FIONREAD, &mut n) == 0 && n > 0 }
}

struct Client(Child);

impl Drop for Client {
    fn drop(&mut self) {
        let _ = self.0.kill();
        let _ = self.0.wait();
    }
}

fn collect(mut r: impl Read + Send + 'static) -> std::thread::JoinHandle<Vec<u8>> {
    std::thread::spawn(move || {
        let mut v = vec![];
        let mut tmp = [0u8; 65536];
        loop {
            match r.read(&mut tmp) {
                Ok(0) => return v,
                Ok(n) => v.extend_from_slice(&tmp[..n]),
                Err(e) if e.kind() == std::io::ErrorKind::Interrupted => {}
                // A reset connection ends like a closed one.
                Err(_) => return v,
            }
        }
    })
}

fn case(src: &mut Src, ctx: &mut Ctx, _i: usize) -> CaseResult {
    let run = ctx.scratch.join("run");
    std::fs::create_dir_all(&run).expect("mkdir");
    std::fs::set_permissions(&run, PermissionsExt::from_mode(0o700)).expect("chmod");
    let listener = UnixListener::bind(run.join("ethersync")).expect("bind");
    let mut c = Command::new(proc::ethersync());
    c.arg("client")
        .env_clear()
        .env("USER", "verif")
        .env("XDG_RUNTIME_DIR", &run)
        .stdin(Stdio::piped())
        .stdout(Stdio::piped())
        .stderr(Stdio::null());
    proc::kill_with_parent(&mut c);
    let mut client = Client(c.spawn().expect("the ethersync program"));
    let mut stdin: ChildStdin = client.0.stdin.take().unwrap();
    let stdout = client.0.stdout.take().unwrap();
    listener.set_nonblocking(true).expect("nonblocking");
    let mut accepted: Option<UnixStream> = None;
    proc::until(|| {
        accepted = listener.accept().ok().map(|a| a.0);
        accepted.is_some()
    });
    let Some(mut sock) = accepted else {
        return fail("harness-timeout", "the client does not connect");
    };
    sock.set_nonblocking(false).expect("blocking");
    let at_daemon = collect(sock.try_clone().expect("clone"));
    let at_editor = collect(stdout);

    let mut to_daemon: Vec<String> = vec![];
    let mut to_editor: Vec<String> = vec![];
    let mut cuts = 0;
    let n = src.usize(24);
    for _ in 0..n {
        let mut m = message(src);
        // Several messages may come in one piece.
        let together = src.chance(1, 4);
        if src.chance(3, 5) {
            let mut bytes = frame(src, &m);
            log(ctx, "editor", &m);
            to_daemon.push(m);
            if together {
                for _ in 0..1 + src.usize(3) {
                    let m = message(src);
                    log(ctx, "  and", &m);
                    bytes.extend(frame(src, &m));
                    to_daemon.push(m);
                }
            }
            let fd = stdin.as_raw_fd();
            feed(src, &bytes, &mut cuts, |b| stdin.write_all(b).is_ok(), || unread(fd));
        } else {
            while m.ends_with('\r') {
                m.pop();
            }
            log(ctx, "daemon", &m);
            let bytes = format!("{m}\n").into_bytes();
            to_editor.push(m);
            feed(src, &bytes, &mut cuts, |b| sock.write_all(b).is_ok(), || false);
            if src.bool() {
                std::thread::sleep(Duration::from_micros(200));
            }
        }
    }
    // One side closes; what it had sent must have arrived completely.
    let editor_ends = src.bool();
    if editor_ends {
        ctx.label("the editor ends");
        drop(stdin);
    } else {
        ctx.label("the daemon ends");
        let _ = sock.shutdown(std::net::Shutdown::Write);
    }
    if !proc::until(|| at_daemon.is_finished() && at_editor.is_finished()) {
        return fail("harness-timeout", "the client does not end");
    }
    let at_daemon = at_daemon.join().expect("thread");
    let at_editor = at_editor.join().expect("thread");
    let mut lines: Vec<String> = vec![];
    for l in at_daemon.split_inclusive(|b| *b == b'\n') {
        match std::str::from_utf8(l) {
            Ok(l) if l.ends_with('\n') => lines.push(l[..l.len() - 1].to_string()),
            _ if !editor_ends => {}
            _ => return fail("to-daemon-incomplete", format!("the daemon got an incomplete line of {} bytes", l.len())),
        }
    }
    compare("to-daemon", &to_daemon, &lines, editor_ends)?;
    match unframe(&at_editor) {
        Ok(got) => compare("to-editor", &to_editor, &got, !editor_ends)?,
        Err(_) if editor_ends => {}
        Err(e) => return fail("to-editor-framing", format!("the editor got {e}")),
    }
    ctx.nontrivial = to_daemon.len() >= 2 && !to_editor.is_empty() && cuts > 0;
    Ok(())
}

fn log(ctx: &mut Ctx, who: &str, m: &str) {
    ctx.log(format!("{who}: {}", short(m)));
}

fn short(m: &str) -> String {
    let s: String = m.chars().take(60).collect();
    format!("{s:?} ({} bytes)", m.len())
}

fn compare(what: &str, sent: &[String], got: &[String], complete: bool) -> R<()> {
    for (i, g) in got.iter().enumerate() {
        if sent.get(i) != Some(g) {
            return fail(
                &format!("{what}-changed"),
                format!("message {i} arrived as {}, was {:?}", short(g), sent.get(i).map(|s| short(s))),
            );
        }
    }
    if complete && got.len() < sent.len() {
        return fail(
            &format!("{what}-lost"),
            format!("{} of {} messages arrived; next was {}", got.len(), sent.len(), short(&sent[got.len()])),
        );
    }
    Ok(())
}
