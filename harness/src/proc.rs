//! The real programs, as separate processes.

use crate::{
    runner::fail,
    world::{Failed, R},
};
use serde_json::{json, Value};
use std::{
    io::{Read, Write},
    os::unix::{fs::PermissionsExt, net::UnixStream},
    path::{Path, PathBuf},
    process::{Child, Command, Stdio},
    time::{Duration, Instant},
};

/// How long to wait for something that takes milliseconds. Exceeding it is an error of the check.
pub const PATIENCE: Duration = Duration::from_secs(60);

pub fn ethersync() -> PathBuf {
    let mut p = std::env::current_exe().expect("own path");
    p.set_file_name("ethersync");
    p
}

/// A port nobody listens on and that the kernel does not hand out by itself.
pub fn free_port() -> u16 {
    use std::sync::atomic::{AtomicU16, Ordering};
    static NEXT: AtomicU16 = AtomicU16::new(0);
    loop {
        let port = 20_000 + NEXT.fetch_add(1, Ordering::SeqCst) % 12_000;
        if std::net::TcpListener::bind(("0.0.0.0", port)).is_ok() {
            return port;
        }
    }
}

/// A running daemon process.
pub struct Daemon {
    pub dir: PathBuf,
    pub run: PathBuf,
    child: Child,
    log: PathBuf,
}

pub struct Start<'a> {
    pub dir: &'a Path,
    pub args: Vec<String>,
    pub env: Vec<(String, String)>,
}

impl<'a> Start<'a> {
    pub fn new(dir: &'a Path) -> Self {
        Self {
            dir,
            args: vec![],
            env: vec![],
        }
    }
    pub fn arg(mut self, a: impl Into<String>) -> Self {
        self.args.push(a.into());
        self
    }
    pub fn args(mut self, a: &[&str]) -> Self {
        self.args.extend(a.iter().map(|s| (*s).to_string()));
        self
    }
    pub fn env(mut self, k: &str, v: impl Into<String>) -> Self {
        self.env.push((k.into(), v.into()));
        self
    }

    /// Starts the daemon without waiting for anything.
    pub fn spawn(self) -> Daemon {
        let name = self.dir.file_name().unwrap().to_string_lossy().to_string();
        let run = self.dir.with_file_name(format!("{name}-run"));
        if !run.exists() {
            std::fs::create_dir_all(&run).expect("mkdir");
            std::fs::set_permissions(&run, PermissionsExt::from_mode(0o700)).expect("chmod");
        }
        let log = self.dir.with_file_name(format!("{name}.log"));
        let out = std::fs::OpenOptions::new()
            .create(true)
            .append(true)
            .open(&log)
            .expect("log");
        let mut c = Command::new(ethersync());
        c.arg("daemon")
            .arg(self.dir)
            .args(&self.args)
            .env_clear()
            .env("HOME", self.dir.parent().unwrap())
            .env("USER", "verif")
            .env("NO_COLOR", "1")
            .env("XDG_RUNTIME_DIR", &run)
            .envs(self.env.iter().map(|(k, v)| (k, v)))
            .current_dir(self.dir)
            .stdin(Stdio::null())
            .stdout(out.try_clone().expect("log"))
            .stderr(out);
        kill_with_parent(&mut c);
        let child = c.spawn().expect("the ethersync program");
        Daemon {
            dir: self.dir.to_path_buf(),
            run,
            child,
            log,
        }
    }

    /// Starts the daemon and waits until editors can connect.
    pub fn start(self) -> R<Daemon> {
        let mut d = self.spawn();
        let s = d.socket();
        let ok = until(|| !d.alive() || UnixStream::connect(&s).is_ok());
        if !d.alive() {
            return fail("daemon-does-not-start", format!("the daemon stopped at its start: {}", d.log_tail()));
        }
        if !ok {
            return fail("harness-timeout", format!("no socket after {PATIENCE:?}: {}", d.log_tail()));
        }
        d.wait_for_watches();
        Ok(d)
    }
}

pub fn kill_with_parent(c: &mut Command) {
    use std::os::unix::process::CommandExt;
    // No daemon survives the harness, however that ends. And none can get back to being root if the
    // harness only put that aside.
    unsafe {
        c.pre_exec(|| {
            let (uid, gid) = (libc::geteuid(), libc::getegid());
            if uid != 0 && libc::getuid() == 0 {
                if libc::seteuid(0) != 0
                    || libc::setgroups(0, std::ptr::null()) != 0
                    || libc::setresgid(gid, gid, gid) != 0
                    || libc::setresuid(uid, uid, uid) != 0
                {
                    return Err(std::io::Error::last_os_error());
                }
            }
            libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
            Ok(())
        });
    }
}

/// Polls until `f` holds; false if it never does.
pub fn until(mut f: impl FnMut() -> bool) -> bool {
    let start = Instant::now();
    let mut pause = 2;
    while start.elapsed() < PATIENCE {
        if f() {
            return true;
        }
        std::thread::sleep(Duration::from_millis(pause));
        pause = (pause * 3 / 2).min(50);
    }
    f()
}

impl Daemon {
    /// Gives the daemon a moment to watch its directory: this can come later than its socket.
    fn wait_for_watches(&self) {
        let count = || {
            let pid = self.child.id();
            let fds = std::fs::read_dir(format!("/proc/{pid}/fd")).ok()?;
            let mut n = 0;
            for fd in fds.flatten() {
                if std::fs::read_link(fd.path()).is_ok_and(|l| l.to_string_lossy().contains("inotify")) {
                    let info = format!("/proc/{pid}/fdinfo/{}", fd.file_name().to_string_lossy());
                    n += std::fs::read_to_string(info).map_or(0, |s| s.lines().filter(|l| l.starts_with("inotify wd")).count());
                }
            }
            Some(n)
        };
        let start = Instant::now();
        let mut last = 0;
        while start.elapsed() < Duration::from_secs(2) {
            let Some(n) = count() else { return };
            if n > 0 && n == last {
                return;
            }
            last = n;
            std::thread::sleep(Duration::from_millis(4));
        }
    }

    pub fn socket(&self) -> PathBuf {
        self.run.join("ethersync")
    }

    pub fn alive(&mut self) -> bool {
        matches!(self.child.try_wait(), Ok(None))
    }

    pub fn log(&self) -> String {
        String::from_utf8_lossy(&std::fs::read(&self.log).unwrap_or_default()).to_string()
    }

    pub fn log_tail(&self) -> String {
        let l = self.log();
        let n = l.chars().count();
        l.chars().skip(n.saturating_sub(600)).collect()
    }

    /// The daemon is running, or a failure that says how it ended.
    pub fn check_alive(&mut self, what: &str) -> R<()> {
        if self.alive() {
            return Ok(());
        }
        let log = self.log();
        let panic = log
            .split("panicked at ")
            .nth(1)
            .map(|p| p.lines().take(2).collect::<Vec<_>>().join(" "))
            .unwrap_or_default();
        let file: String = panic.split(':').next().unwrap_or("").rsplit('/').next().unwrap_or("").into();
        fail(
            &format!("daemon-stopped:{file}"),
            format!("the daemon stopped after {what}: {}", self.log_tail()),
        )
    }

    pub fn kill(&mut self) {
        let _ = self.child.kill();
        let _ = self.child.wait();
    }
}

impl Drop for Daemon {
    fn drop(&mut self) {
        self.kill();
    }
}

/// A blocking connection to a daemon's socket.
pub struct Conn {
    pub s: UnixStream,
    buf: Vec<u8>,
    next: u64,
}

impl Conn {
    pub fn open(d: &Daemon) -> R<Self> {
        let s = UnixStream::connect(d.socket()).map_err(|e| Failed {
            signature: "can-not-connect".into(),
            message: format!("an editor can not connect: {e}; {}", d.log_tail()),
        })?;
        s.set_read_timeout(Some(PATIENCE)).expect("timeout");
        s.set_write_timeout(Some(PATIENCE)).expect("timeout");
        Ok(Self {
            s,
            buf: vec![],
            next: 1,
        })
    }

    pub fn send_bytes(&mut self, b: &[u8]) -> bool {
        self.s.write_all(b).is_ok()
    }

    pub fn request(&mut self, method: &str, params: Value) -> u64 {
        let id = self.next;
        self.next += 1;
        let m = json!({"jsonrpc":"2.0","id":id,"method":method,"params":params});
        self.send_bytes(format!("{m}\n").as_bytes());
        id
    }

    /// The next message; None if the connection was closed.
    pub fn recv(&mut self) -> R<Option<Value>> {
        loop {
            if let Some(p) = self.buf.iter().position(|b| *b == b'\n') {
                let line: Vec<u8> = self.buf.drain(..=p).collect();
                return match serde_json::from_slice(&line) {
                    Ok(v) => Ok(Some(v)),
                    Err(e) => fail("invalid-json-to-editor", format!("{:?}: {e}", String::from_utf8_lossy(&line))),
                };
            }
            let mut tmp = [0u8; 65536];
            match self.s.read(&mut tmp) {
                Ok(0) => return Ok(None),
                Ok(n) => self.buf.extend_from_slice(&tmp[..n]),
                Err(e) if e.kind() == std::io::ErrorKind::Interrupted => {}
                Err(e) if matches!(e.kind(), std::io::ErrorKind::WouldBlock | std::io::ErrorKind::TimedOut) => {
                    return fail("harness-timeout", "no message from the daemon");
                }
                Err(_) => return Ok(None),
            }
        }
    }

    /// Waits for the answer with this id; other messages go to `f`.
    pub fn answer(&mut self, id: u64, mut f: impl FnMut(&Value)) -> R<Option<Value>> {
        loop {
            match self.recv()? {
                None => return Ok(None),
                Some(m) if m.get("method").is_none() && m["id"] == json!(id) => return Ok(Some(m)),
                Some(m) => f(&m),
            }
        }
    }
}

impl Daemon {
    /// The port on which it waits for other daemons.
    pub fn port(&mut self) -> R<u16> {
        let mut port = None;
        until(|| {
            port = listening(self.child.id());
            port.is_some() || !self.alive()
        });
        match port {
            Some(p) => Ok(p),
            None => {
                self.check_alive("its start")?;
                fail("harness-timeout", "the daemon does not listen for others")
            }
        }
    }

    /// Processor time used so far, in hundredths of a second.
    pub fn cpu(&self) -> u64 {
        let stat = std::fs::read_to_string(format!("/proc/{}/stat", self.child.id())).unwrap_or_default();
        let rest = stat.rsplit(')').next().unwrap_or("");
        let f: Vec<&str> = rest.split_whitespace().collect();
        let n = |i: usize| f.get(i).and_then(|s| s.parse::<u64>().ok()).unwrap_or(0);
        n(11) + n(12)
    }

    /// How long its threads wanted to run but had to wait for a processor, so far.
    pub fn delay(&self) -> Duration {
        let mut ns = 0;
        for t in std::fs::read_dir(format!("/proc/{}/task", self.child.id())).into_iter().flatten().flatten() {
            let stat = std::fs::read_to_string(t.path().join("schedstat")).unwrap_or_default();
            ns += stat.split_whitespace().nth(1).and_then(|s| s.parse::<u64>().ok()).unwrap_or(0);
        }
        Duration::from_nanos(ns)
    }
}

/// The TCP port a process listens on.
pub fn listening(pid: u32) -> Option<u16> {
    let mut inodes = vec![];
    for e in std::fs::read_dir(format!("/proc/{pid}/fd")).ok()?.flatten() {
        if let Ok(t) = std::fs::read_link(e.path()) {
            if let Some(i) = t.to_string_lossy().strip_prefix("socket:[") {
                inodes.push(i.trim_end_matches(']').to_string());
            }
        }
    }
    let table = std::fs::read_to_string("/proc/net/tcp").ok()?;
    for line in table.lines().skip(1) {
        let f: Vec<&str> = line.split_whitespace().collect();
        if f.len() > 9 && f[3] == "0A" && inodes.iter().any(|i| i == f[9]) {
            return u16::from_str_radix(f[1].split(':').nth(1)?, 16).ok();
        }
    }
    None
}

/// An editor with one open file, connected to a daemon process.
pub struct Typist {
    conn: Conn,
    pub name: String,
    uri: String,
    pub text: crate::text::Text,
    editor_rev: u64,
    daemon_rev: u64,
}

impl Typist {
    pub fn open(d: &Daemon, name: &str) -> R<Self> {
        let mut conn = Conn::open(d)?;
        let path = d.dir.join(name);
        let uri = format!("file://{}", path.display());
        let text = String::from_utf8_lossy(&std::fs::read(&path).unwrap_or_default()).to_string();
        let id = conn.request("open", json!({ "uri": uri }));
        let mut early = vec![];
        let a = conn.answer(id, |m| early.push(m.clone()))?;
        if !a.as_ref().is_some_and(|a| a.get("result").is_some()) {
            return fail("open-refused", format!("opening {name}: {a:?}"));
        }
        Ok(Self {
            conn,
            name: name.into(),
            uri,
            text: crate::text::to_text(&text),
            editor_rev: 0,
            daemon_rev: 0,
        })
    }

    /// Applies everything that has arrived.
    pub fn read(&mut self) -> R<()> {
        self.conn.s.set_nonblocking(true).expect("nonblocking");
        let mut tmp = vec![0u8; 1 << 16];
        loop {
            match self.conn.s.read(&mut tmp) {
                Ok(0) => break,
                Ok(n) => self.conn.buf.extend_from_slice(&tmp[..n]),
                Err(_) => break,
            }
        }
        self.conn.s.set_nonblocking(false).expect("blocking");
        while self.conn.buf.contains(&b'\n') {
            let Some(m) = self.conn.recv()? else { break };
            if m["method"] != "edit" || m["params"]["uri"] != json!(self.uri) {
                continue;
            }
            if m["params"]["revision"].as_u64() != Some(self.editor_rev) {
                continue;
            }
            let Some(ops) = crate::text::parse_delta(&m["params"]["delta"]) else {
                return fail("bad-edit", format!("malformed: {m}"));
            };
            match crate::text::apply(&self.text, &ops) {
                Ok(t) => {
                    self.text = t;
                    self.daemon_rev += 1;
                }
                Err(e) => return fail("edit-not-applicable", e),
            }
        }
        Ok(())
    }

    pub fn insert(&mut self, at: usize, what: &str) {
        let op = crate::text::splice_op(&self.text, at, 0, what);
        crate::text::splice(&mut self.text, at, 0, what);
        self.editor_rev += 1;
        let p = json!({"uri": self.uri, "revision": self.daemon_rev, "delta": [op.json()]});
        self.conn.request("edit", p);
    }
}
