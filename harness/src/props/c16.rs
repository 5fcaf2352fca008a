//! Other local users get no access through socket or key.

use crate::{
    proc::{self, Start},
    runner::{fail, CaseResult, Ctx, Prop},
    tape::Src,
    world::{project, R},
};
use std::{
    os::unix::{
        fs::{symlink, MetadataExt, PermissionsExt},
        net::UnixStream,
        process::CommandExt,
    },
    path::{Path, PathBuf},
    process::{Child, Command, Stdio},
};

pub fn prop() -> Prop {
    Prop {
        id: "C16",
        level: "exploration",
        rule: "the first cases enumerate all 512 permissions of the socket's directory, all 512 of an existing key file, and all 64 umasks of group and others for a new key and for the directory made by the daemon; \
               the others are generated socket names, restarts and directories behind symbolic links; \
               non-trivial if the permissions, the umask or the name differ from the usual ones",
        assumptions: &["umasks leave the owner's permissions alone", "the daemon runs as an ordinary user"],
        quick: 512 + 512 + 64 + 64 + 448,
        thorough: 512 + 512 + 64 + 64 + 4_448,
        threads: 8,
        case_timeout_s: 200,
        exhaustive: false,
        case,
    }
}

struct Run {
    child: Child,
    log: PathBuf,
}

impl Drop for Run {
    fn drop(&mut self) {
        let _ = self.child.kill();
        let _ = self.child.wait();
    }
}

impl Run {
    fn alive(&mut self) -> bool {
        matches!(self.child.try_wait(), Ok(None))
    }

    /// Paths of the sockets it listens on.
    fn sockets(&self) -> Vec<PathBuf> {
        let mut inodes = vec![];
        if let Ok(fds) = std::fs::read_dir(format!("/proc/{}/fd", self.child.id())) {
            for e in fds.flatten() {
                if let Ok(t) = std::fs::read_link(e.path()) {
                    if let Some(i) = t.to_string_lossy().strip_prefix("socket:[") {
                        inodes.push(i.trim_end_matches(']').to_string());
                    }
                }
            }
        }
        let table = std::fs::read(PathBuf::from("/proc/net/unix")).unwrap_or_default();
        let mut out = vec![];
        for line in String::from_utf8_lossy(&table).lines().skip(1) {
            // Num RefCount Protocol Flags Type St Inode Path
            let f: Vec<&str> = line.split_whitespace().collect();
            if f.len() < 8 || f[3] != "00010000" || !inodes.iter().any(|i| i == f[6]) {
                continue;
            }
            let at = line.find(f[6]).unwrap() + f[6].len() + 1;
            out.push(PathBuf::from(&line[at..]));
        }
        out
    }

    fn log(&self) -> String {
        String::from_utf8_lossy(&std::fs::read(&self.log).unwrap_or_default()).to_string()
    }

    /// Waits until it listens for editors and for others, or has stopped.
    fn decided(&mut self) -> R<bool> {
        let mut up = false;
        let ok = proc::until(|| {
            up = !self.sockets().is_empty() && proc::listening(self.child.id()).is_some();
            up || !self.alive()
        });
        if !ok {
            return fail("harness-timeout", format!("the daemon neither listens nor stops: {}", self.log()));
        }
        Ok(self.alive() && up)
    }
}

fn spawn(dir: &Path, runtime: Option<&Path>, umask: u32, args: &[&str], env: &[(&str, &str)]) -> Run {
    let log = dir.with_extension("log");
    let out = std::fs::OpenOptions::new().create(true).append(true).open(&log).expect("log");
    let mut c = Command::new(proc::ethersync());
    c.arg("daemon")
        .arg(dir)
        .args(args)
        .env_clear()
        .env("HOME", dir.parent().unwrap())
        .env("USER", "verif")
        .envs(env.iter().copied())
        .current_dir(dir.parent().unwrap())
        .stdin(Stdio::null())
        .stdout(out.try_clone().expect("log"))
        .stderr(out);
    if let Some(r) = runtime {
        c.env("XDG_RUNTIME_DIR", r);
    }
    unsafe {
        c.pre_exec(move || {
            libc::umask(umask as libc::mode_t);
            Ok(())
        });
    }
    proc::kill_with_parent(&mut c);
    Run {
        child: c.spawn().expect("the ethersync program"),
        log,
    }
}

fn make_dir(p: &Path, mode: u32) {
    std::fs::create_dir_all(p).expect("mkdir");
    chmod(p, mode);
}

fn chmod(p: &Path, mode: u32) {
    std::fs::set_permissions(p, PermissionsExt::from_mode(mode)).expect("chmod");
}

fn mode(p: &Path) -> u32 {
    std::fs::metadata(p).map_or(0, |m| m.mode() & 0o7777)
}

/// A usable key, made by the daemon itself.
fn new_key(ctx: &Ctx) -> R<Vec<u8>> {
    let dir = project(&ctx.scratch, "first");
    let run = ctx.scratch.join("first-run");
    make_dir(&run, 0o700);
    let mut r = spawn(&dir, Some(&run), 0o022, &[], &[]);
    if !r.decided()? {
        return fail("does-not-listen", format!("the daemon does not start: {}", r.log()));
    }
    Ok(std::fs::read(dir.join(".ethersync/key")).expect("key"))
}

/// The name of a peer with this key, as others write it.
pub fn peer_id(key: &[u8]) -> String {
    // An ed25519 key: type, length, 32 private bytes, 32 public bytes.
    let mut b = vec![0x00, 0x24, 0x08, 0x01, 0x12, 0x20];
    b.extend_from_slice(&key[key.len() - 32..]);
    let alphabet = b"123456789ABCDEFGHJKLMNPQRSTUVWXYZabcdefghijkmnopqrstuvwxyz";
    let mut digits: Vec<u8> = vec![];
    for byte in &b {
        let mut carry = u32::from(*byte);
        for d in &mut digits {
            carry += u32::from(*d) << 8;
            *d = (carry % 58) as u8;
            carry /= 58;
        }
        while carry > 0 {
            digits.push((carry % 58) as u8);
            carry /= 58;
        }
    }
    let zeros = b.iter().take_while(|x| **x == 0).count();
    let mut s = "1".repeat(zeros);
    s.extend(digits.iter().rev().map(|d| char::from(alphabet[*d as usize])));
    s
}

fn check_socket(r: &Run, want: &Path) -> R<()> {
    let dir = want.parent().unwrap().canonicalize().expect("directory");
    for s in r.sockets() {
        let parent = s.parent().and_then(|p| p.canonicalize().ok());
        if parent.as_deref() != Some(&*dir) {
            return fail("socket-elsewhere", format!("listens at {}, the directory is {}", s.display(), dir.display()));
        }
        if mode(&dir) & 0o077 != 0 {
            return fail("open-directory", format!("listens in a directory with mode {:o}", mode(&dir)));
        }
    }
    Ok(())
}

fn case(src: &mut Src, ctx: &mut Ctx, i: usize) -> CaseResult {
    ctx.nontrivial = true;
    let dir = project(&ctx.scratch, "p");
    let run = ctx.scratch.join("run");
    let result = if i < 512 {
        ctx.label("permissions of the socket's directory");
        directory_mode(ctx, &dir, &run, i as u32)
    } else if i < 1024 {
        ctx.label("permissions of the key");
        key_mode(ctx, &dir, &run, (i - 512) as u32)
    } else if i < 1088 {
        ctx.label("umask and a new key");
        new_key_umask(ctx, &dir, &run, (i - 1024) as u32)
    } else if i < 1152 {
        ctx.label("umask and the daemon's own directory");
        own_directory(ctx, &dir, (i - 1088) as u32, None)
    } else {
        match src.weighted(&[6, 2, 2, 1]) {
            0 => {
                ctx.label("socket names");
                socket_name(src, ctx, &dir, &run)
            }
            1 => {
                ctx.label("restarts");
                restarts(src, ctx, &dir, &run)
            }
            2 => {
                ctx.label("symbolic links and special permissions");
                links(src, ctx, &dir, &run)
            }
            _ => {
                ctx.label("the daemon's own directory exists");
                let m = src.below(512) as u32 | 0o700;
                own_directory(ctx, &dir, 0o022, Some(m))
            }
        }
    };
    if run.exists() {
        chmod(&run, 0o700);
    }
    result
}

fn directory_mode(ctx: &mut Ctx, dir: &Path, run: &Path, m: u32) -> R<()> {
    ctx.log(format!("socket directory with mode {m:o}"));
    make_dir(run, m);
    let mut r = spawn(dir, Some(run), 0o022, &[], &[]);
    let up = r.decided()?;
    if up && m & 0o077 != 0 {
        return fail("open-directory", format!("listens in a directory with mode {m:o}"));
    }
    if !up && m == 0o700 {
        return fail("does-not-listen", format!("mode {m:o}: {}", r.log()));
    }
    if up {
        check_socket(&r, &run.join("ethersync"))?;
    }
    Ok(())
}

fn key_mode(ctx: &mut Ctx, dir: &Path, run: &Path, m: u32) -> R<()> {
    ctx.log(format!("key with mode {m:o}"));
    let key = new_key(ctx)?;
    make_dir(run, 0o700);
    let file = dir.join(".ethersync/key");
    std::fs::write(&file, &key).expect("write");
    chmod(&file, m);
    let mut r = spawn(dir, Some(run), 0o022, &[], &[]);
    let up = r.decided()?;
    if up && m & 0o077 != 0 {
        return fail("open-key", format!("uses a key with mode {m:o}"));
    }
    if m == 0o600 {
        if !up {
            return fail("does-not-listen", format!("with a key of mode {m:o}: {}", r.log()));
        }
        if std::fs::read(&file).ok() != Some(key) {
            return fail("other-key", "the key was replaced");
        }
    }
    Ok(())
}

fn new_key_umask(ctx: &mut Ctx, dir: &Path, run: &Path, umask: u32) -> R<()> {
    ctx.log(format!("new key with umask {umask:o}"));
    make_dir(run, 0o700);
    for attempt in ["first", "second"] {
        let mut r = spawn(dir, Some(run), umask, &[], &[]);
        if !r.decided()? {
            return fail("does-not-listen", format!("{attempt} start with umask {umask:o}: {}", r.log()));
        }
        let m = mode(&dir.join(".ethersync/key"));
        if m & 0o077 != 0 || m == 0 {
            return fail("open-key", format!("made a key with mode {m:o} (umask {umask:o})"));
        }
    }
    Ok(())
}

/// Without a runtime directory, the daemon uses a directory named after the user.
fn own_directory(ctx: &mut Ctx, dir: &Path, umask: u32, existing: Option<u32>) -> R<()> {
    ctx.log(format!("own directory with umask {umask:o}, existing {existing:?}"));
    let user = format!(
        "verif-{}-{}",
        std::process::id(),
        ctx.scratch.to_string_lossy().replace(|c: char| !c.is_alphanumeric(), "-")
    );
    let own = PathBuf::from(format!("/tmp/ethersync-{user}"));
    let _ = std::fs::remove_dir_all(&own);
    if let Some(m) = existing {
        make_dir(&own, m);
    }
    let result = (|| {
        let mut r = spawn(dir, None, umask, &[], &[("USER", &user)]);
        let up = r.decided()?;
        let m = mode(&own);
        if up && m & 0o077 != 0 {
            return fail("open-directory", format!("listens in a directory with mode {m:o} (umask {umask:o})"));
        }
        if up {
            check_socket(&r, &own.join("ethersync"))?;
        } else if existing.is_none_or(|m| m == 0o700) {
            return fail("does-not-listen", format!("umask {umask:o}: {}", r.log()));
        }
        Ok(())
    })();
    let _ = std::fs::remove_dir_all(&own);
    result
}

fn socket_name(src: &mut Src, ctx: &mut Ctx, dir: &Path, run: &Path) -> R<()> {
    make_dir(run, 0o700);
    let outside = ctx.scratch.join("outside");
    make_dir(&outside, 0o700);
    make_dir(&run.join("inner"), 0o700);
    std::fs::write(outside.join("file"), "untouched").expect("write");
    let parts = ["a", "..", ".", "", "inner", "outside", "run", "ethersync", "a b", "ü🥕", "x.sock", "...", "-x", "file", "~"];
    let mut name = match src.weighted(&[6, 2, 2]) {
        0 => (0..1 + src.usize(4)).map(|_| (*src.pick(&parts)).to_string()).collect::<Vec<_>>().join("/"),
        1 => format!("../outside/{}", src.pick(&["file", "s", ".", ""])),
        _ => outside.join(*src.pick(&["file", "s", "a/../s"])).to_string_lossy().to_string(),
    };
    if src.chance(1, 8) {
        name.push('/');
    }
    ctx.log(format!("socket name {name:?}"));
    let plain = !name.is_empty() && !name.contains('/') && name != "." && name != "..";
    let by_env = src.bool() || name.starts_with('-');
    // A directory of the same name is in the way.
    let fine = plain && name != "inner";
    let mut r = if by_env {
        spawn(dir, Some(run), 0o022, &[], &[("ETHERSYNC_SOCKET", &name)])
    } else {
        spawn(dir, Some(run), 0o022, &["--socket-name", &name], &[])
    };
    let up = r.decided()?;
    if std::fs::read(outside.join("file")).ok().as_deref() != Some(b"untouched") {
        return fail("outside-changed", format!("with the socket name {name:?} a file elsewhere was removed or changed"));
    }
    if std::fs::read_dir(&outside).expect("outside").count() != 1 {
        return fail("socket-elsewhere", format!("the socket name {name:?} made something in another directory"));
    }
    if up {
        check_socket(&r, &run.join("x"))?;
        if plain && UnixStream::connect(run.join(&name)).is_err() {
            return fail("wrong-name", format!("no socket at {name:?}"));
        }
    } else if fine {
        return fail("does-not-listen", format!("with the plain socket name {name:?}: {}", r.log()));
    }
    Ok(())
}

fn restarts(src: &mut Src, ctx: &mut Ctx, dir: &Path, run: &Path) -> R<()> {
    make_dir(run, 0o700);
    std::fs::write(dir.join("f"), "content").expect("write");
    let umask = src.below(64) as u32;
    let mut key = None;
    for _ in 0..1 + src.usize(3) {
        let mut r = spawn(dir, Some(run), umask, &[], &[]);
        if !r.decided()? {
            return fail("does-not-listen", r.log());
        }
        let k = std::fs::read(dir.join(".ethersync/key")).expect("key");
        if key.as_ref().is_some_and(|o| *o != k) {
            return fail("other-key", "the key changed at a restart");
        }
        key = Some(k);
        ctx.log("started");
    }
    // Others who know the identity from the first time still find it.
    let mut r = spawn(dir, Some(run), umask, if src.bool() { &["--init"] } else { &[] }, &[]);
    if !r.decided()? {
        return fail("does-not-listen", r.log());
    }
    let port = proc::listening(r.child.id()).unwrap_or(0);
    let id = peer_id(&key.unwrap());
    ctx.log(format!("somebody connects to {id}"));
    let other = project(&ctx.scratch, "joiner");
    let _d = Start::new(&other).arg("--peer").arg(format!("/ip4/127.0.0.1/tcp/{port}/p2p/{id}")).start()?;
    if proc::until(|| other.join("f").exists()) {
        return Ok(());
    }
    if super::c23::control(&ctx.scratch)? {
        return fail("other-identity", "a daemon that expects the identity of the key file can not connect");
    }
    fail("harness-timeout", "not even two fresh daemons sync in time")
}

fn links(src: &mut Src, ctx: &mut Ctx, dir: &Path, run: &Path) -> R<()> {
    let real = ctx.scratch.join("real");
    let m = match src.usize(4) {
        0 => 0o700,
        1 => 0o700 | *src.pick(&[0o1000u32, 0o2000, 0o4000, 0o7000]),
        2 => 0o700 | src.below(64) as u32 | *src.pick(&[0o1000u32, 0o2000, 0o4000]),
        _ => 0o700 | src.below(64) as u32,
    };
    let link = src.bool();
    ctx.log(format!("mode {m:o}, behind a link: {link}"));
    make_dir(&real, m);
    if link {
        symlink(&real, run).expect("symlink");
    } else {
        std::fs::rename(&real, run).expect("rename");
    }
    // What is left of an earlier run.
    let old = src.bool();
    if old {
        drop(std::os::unix::net::UnixListener::bind(run.join("ethersync")).expect("bind"));
    }
    let mut r = spawn(dir, Some(run), 0o022, &[], &[]);
    let up = r.decided()?;
    if up {
        check_socket(&r, &run.join("ethersync"))?;
        if UnixStream::connect(run.join("ethersync")).is_err() {
            return fail("wrong-name", "no socket");
        }
    } else if m == 0o700 {
        return fail("does-not-listen", format!("mode {m:o}, link {link}, old socket {old}: {}", r.log()));
    }
    Ok(())
}
