//! The daemon restarts after being killed at any point.
//!
//! A child process runs a generated history and kills itself at a chosen file operation (see
//! `crash`); every operation of the history is tried. Then the daemon is started again on what is
//! left.

use crate::{
    crash,
    runner::{fail, CaseResult, Ctx, Failure, Prop},
    tape::Src,
    world::{block_on, project, read_tree, Ed, Node, Peer, R},
};
use automerge::AutoCommit;
use serde_json::{json, Value};
use std::{
    collections::BTreeMap,
    path::{Path, PathBuf},
    process::{Command, Stdio},
    time::{Duration, Instant},
};

pub fn prop() -> Prop {
    Prop {
        id: "C08",
        level: "fault_enumeration",
        rule: "a case is a history of one daemon with every crash point of it: before each file operation and inside each write; \
               non-trivial if a crash hit the persistence of changes after an earlier complete one",
        assumptions: &[
            "a kill leaves the effects of all finished system calls and a prefix of an unfinished write (no power loss)",
            "the peer met after the restart has what was persisted completely, plus own changes",
        ],
        quick: 600,
        thorough: 20_000,
        threads: 8,
        case_timeout_s: 240,
        exhaustive: false,
        case,
    }
}

const NAMES: [&str; 4] = ["f", "g", "d/h", "ä b "];

fn case(src: &mut Src, ctx: &mut Ctx, i: usize) -> CaseResult {
    if i % 25 == 24 {
        whole(src, ctx)
    } else {
        actor(src, ctx)
    }
}

fn gen_text(src: &mut Src, n: &mut u32) -> String {
    let len = *src.pick(&[0usize, 3, 12, 200, 3000]);
    let len = src.usize(len + 1);
    let mut s = String::new();
    for _ in 0..len {
        *n += 1;
        s.push(match *n % 11 {
            0 => '\n',
            k => char::from(b'a' + ((*n / 7 + k) % 26) as u8),
        });
    }
    s
}

fn exe() -> PathBuf {
    std::env::current_exe().expect("exe")
}

struct Ran {
    /// Killed itself.
    killed: bool,
    code: Option<i32>,
    out: Vec<String>,
    err: String,
}

fn child(kind: &str, job: &Value, dir: &Path) -> R<Ran> {
    let f = dir.join("job.json");
    std::fs::write(&f, job.to_string()).expect("job");
    let out = Command::new(exe())
        .arg(kind)
        .arg(&f)
        .stdin(Stdio::null())
        .stdout(Stdio::piped())
        .stderr(Stdio::piped())
        .output();
    let Ok(out) = out else {
        return fail("harness-child", "could not start the child process");
    };
    use std::os::unix::process::ExitStatusExt;
    Ok(Ran {
        killed: out.status.signal() == Some(libc::SIGKILL),
        code: out.status.code(),
        out: String::from_utf8_lossy(&out.stdout).lines().map(String::from).collect(),
        err: String::from_utf8_lossy(&out.stderr).to_string(),
    })
}

/// Every crash point of the operations a child listed: (operation, bytes of it).
fn points(ran: &Ran) -> Vec<(i64, i64, String)> {
    let mut out = vec![];
    for l in &ran.out {
        if let Some(rest) = l.strip_prefix("op ") {
            let mut it = rest.split(' ');
            let k: i64 = it.next().and_then(|s| s.parse().ok()).unwrap_or(0);
            let kind = it.next().unwrap_or("");
            let len: i64 = it.next().and_then(|s| s.parse().ok()).unwrap_or(0);
            out.push((k, 0, format!("before {kind}")));
            let mut cuts = vec![1, 9, len / 2, len - 1];
            cuts.retain(|c| *c > 0 && *c < len);
            cuts.dedup();
            for c in cuts {
                out.push((k, c, format!("{kind} after {c} of {len} bytes")));
            }
        }
    }
    out
}

fn text_files(dir: &Path) -> (BTreeMap<String, String>, Vec<String>) {
    let mut texts = BTreeMap::new();
    let mut binary = vec![];
    for (k, v) in read_tree(dir) {
        match String::from_utf8(v) {
            Ok(t) => {
                texts.insert(k, t);
            }
            Err(_) => binary.push(k),
        }
    }
    (texts, binary)
}

fn compare(shared: &BTreeMap<String, String>, dir: &Path, what: &str) -> R<()> {
    let (texts, binary) = text_files(dir);
    let shared: BTreeMap<_, _> = shared.iter().filter(|(k, _)| !binary.contains(k)).collect();
    if shared != texts.iter().collect() {
        return fail(
            "shared-differs",
            format!("{what}: shared {shared:?}, files on disk {texts:?}"),
        );
    }
    Ok(())
}

// ---------------------------------------------------------------- the document actor

fn actor(src: &mut Src, ctx: &mut Ctx) -> CaseResult {
    let mut n = 0;
    let mut files = serde_json::Map::new();
    for name in NAMES {
        if src.bool() {
            files.insert(name.into(), json!(gen_text(src, &mut n)));
        }
    }
    let mut ops: Vec<Value> = vec![json!({"op": "start"})];
    if src.chance(5, 6) {
        ops.push(json!({"op": "persist"}));
    }
    for _ in 0..src.usize(10) {
        let name = *src.pick(&NAMES);
        let op = match src.weighted(&[5, 4, 1, 4, 4, 1, 2]) {
            0 => json!({"op": "persist"}),
            1 => json!({"op": "disk", "name": name, "text": gen_text(src, &mut n)}),
            2 => json!({"op": "rm", "name": name}),
            3 => json!({"op": "peer", "name": name, "at": src.below(1 << 16), "del": src.usize(4), "ins": gen_text(src, &mut n)}),
            4 => json!({"op": "type", "name": name, "at": src.below(1 << 16), "del": src.usize(4), "ins": gen_text(src, &mut n)}),
            5 => json!({"op": "leave"}),
            _ => json!({"op": "restart"}),
        };
        ops.push(op);
    }
    ops.push(json!({"op": "persist"}));
    for o in &ops {
        let mut s = o.to_string();
        s.truncate(s.char_indices().nth(160).map_or(s.len(), |(i, _)| i));
        ctx.log(s);
    }

    let scratch = ctx.scratch.clone();
    let make = |k: usize| -> (PathBuf, PathBuf) {
        let dir = project(&scratch, &format!("p{k}"));
        for (name, t) in &files {
            let p = dir.join(name);
            std::fs::create_dir_all(p.parent().unwrap()).expect("mkdir");
            std::fs::write(p, t.as_str().unwrap()).expect("write");
        }
        (dir, scratch.join(format!("snap{k}")))
    };
    let (dir, snap) = make(0);
    let job = |dir: &Path, snap: &Path, target: i64, bytes: i64| {
        json!({"dir": dir, "snap": snap, "ops": ops, "target": target, "bytes": bytes})
    };
    let dry = child("__c08_actor", &job(&dir, &snap, -1, 0), &ctx.scratch)?;
    if dry.code != Some(0) {
        return child_failure(&dry, "the history without a crash");
    }
    let mut pts = points(&dry);
    let max = if ctx.thorough { 200 } else { 30 };
    while pts.len() > max {
        let i = src.usize(pts.len());
        pts.swap_remove(i);
    }
    pts.sort();
    ctx.log(format!("{} crash points", pts.len()));
    verify_actor(&dir, &snap, &dry, "no crash")?;
    for (j, (k, bytes, what)) in pts.iter().enumerate() {
        let (dir, snap) = make(j + 1);
        let ran = child("__c08_actor", &job(&dir, &snap, *k, *bytes), &ctx.scratch)?;
        if !ran.killed && ran.code != Some(0) {
            return child_failure(&ran, what);
        }
        let done = ran.out.iter().filter(|l| l.starts_with("persisted")).count();
        if ran.killed && done > 0 {
            ctx.label("killed after a complete persist");
        }
        let op = ran.out.iter().rev().find_map(|l| l.strip_prefix("doing ")).unwrap_or("");
        if ran.killed && done > 0 && op.contains("persist") {
            ctx.nontrivial = true;
        }
        let what = format!("killed at operation {k} ({what}) while doing {op}");
        if let Err(f) = verify_actor(&dir, &snap, &ran, &what) {
            ctx.log(what);
            return Err(f);
        }
        let _ = std::fs::remove_dir_all(&dir);
        let _ = std::fs::remove_dir_all(&snap);
    }
    Ok(())
}

fn child_failure(ran: &Ran, what: &str) -> CaseResult {
    if let Some(l) = ran.out.iter().find_map(|l| l.strip_prefix("FAIL ")) {
        let (sig, msg) = l.split_once(" :: ").unwrap_or(("unknown", l));
        return Err(Failure {
            signature: sig.into(),
            message: format!("{what}: {msg}"),
        });
    }
    fail(
        "harness-child",
        format!("{what}: child ended with {:?}: {}", ran.code, ran.err),
    )
}

fn verify_actor(dir: &Path, snap: &Path, ran: &Ran, what: &str) -> CaseResult {
    block_on(async {
        let node = Node::start("a", dir, false, true)?;
        let before = node.shared().await?;
        compare(&before, dir, &format!("{what}; after the restart"))?;
        // A peer with everything that was persisted completely.
        let persisted = ran.out.iter().filter(|l| l.starts_with("persisted")).count();
        if persisted > 0 {
            let bytes = std::fs::read(snap.join(format!("{persisted}"))).expect("snapshot");
            let mut peer = Peer::new();
            peer.doc = AutoCommit::load(&bytes).expect("peer document");
            // Files that were removed since then.
            let mut gone = vec![];
            let mut seen = 0;
            for l in &ran.out {
                if l.starts_with("persisted") {
                    seen += 1;
                } else if let Some(name) = l.strip_prefix("removing ") {
                    if seen == persisted {
                        gone.push(name.to_string());
                    }
                }
            }
            let known: Vec<String> = peer.files()?.keys().cloned().collect();
            for name in &known {
                peer.splice(name, 0, 0, "\u{2022}");
            }
            peer.sync(&node).await?;
            let after = node.shared().await?;
            if after.keys().ne(before.keys()) {
                return fail(
                    "history-lost",
                    format!("{what}: files {:?} became {:?} by meeting a peer with persisted state", before.keys(), after.keys()),
                );
            }
            for (name, text) in &after {
                let without = text.replace('\u{2022}', "");
                let marks = text.matches('\u{2022}').count();
                let want = usize::from(known.contains(name) && !gone.contains(name));
                let ok = if gone.contains(name) { marks <= 1 } else { marks == want };
                if without != before[name] || !ok {
                    return fail(
                        "history-lost",
                        format!("{what}: meeting a peer with persisted state turned {name} from {:?} into {text:?}", before[name]),
                    );
                }
            }
            if peer.files()? != after {
                return fail("peer-differs", format!("{what}: peer has {:?}, daemon {after:?}", peer.files()?));
            }
            compare(&after, dir, &format!("{what}; after meeting the peer"))?;
        }
        // And once more, persisted and started again.
        node.persist().await?;
        let last = node.shared().await?;
        drop(node);
        let node = Node::start("a", dir, false, true)?;
        let again = node.shared().await?;
        if again != last {
            return fail("second-restart", format!("{what}: {last:?} became {again:?} at the second restart"));
        }
        Ok(())
    })
}

/// Runs in the child process.
pub fn child_actor(file: &str) -> ! {
    let job: Value = serde_json::from_str(&std::fs::read_to_string(file).expect("job")).expect("json");
    let dir = PathBuf::from(job["dir"].as_str().unwrap());
    crash::setup(
        job["dir"].as_str().unwrap(),
        job["target"].as_i64().unwrap(),
        job["bytes"].as_i64().unwrap(),
    );
    let r = block_on(child_history(&job, &dir));
    if let Err(f) = r {
        say(&format!("FAIL {} :: {}", f.signature, f.message.replace('\n', " ")));
        std::process::exit(4);
    }
    for (k, (kind, len)) in crash::log().iter().enumerate() {
        say(&format!("op {k} {kind} {len}"));
    }
    std::process::exit(0);
}

fn say(s: &str) {
    use std::io::Write;
    let mut o = std::io::stdout().lock();
    let _ = writeln!(o, "{s}");
    let _ = o.flush();
}

async fn child_history(job: &Value, dir: &Path) -> R<()> {
    let snap = PathBuf::from(job["snap"].as_str().unwrap());
    std::fs::create_dir_all(&snap).expect("mkdir");
    let mut nodes: Vec<Node> = vec![];
    let mut peer = Peer::new();
    let mut ed: Option<Ed> = None;
    let mut persisted = 0;
    for op in job["ops"].as_array().unwrap() {
        let kind = op["op"].as_str().unwrap();
        let name = op["name"].as_str().unwrap_or("");
        say(&format!("doing {kind} {name}"));
        match kind {
            "start" | "restart" => {
                ed = None;
                nodes.clear();
                for _ in 0..3 {
                    tokio::task::yield_now().await;
                }
                // What was not persisted is gone, so the peer starts from the snapshot as well.
                peer = Peer::new();
                if persisted > 0 {
                    let bytes = std::fs::read(snap.join(format!("{persisted}"))).expect("snapshot");
                    peer.doc = AutoCommit::load(&bytes).expect("peer document");
                }
                crash::arm(true);
                nodes.push(Node::start("a", dir, false, true)?);
                crash::arm(false);
            }
            "persist" => {
                crash::arm(true);
                nodes[0].persist().await?;
                crash::arm(false);
                peer.sync(&nodes[0]).await?;
                persisted += 1;
                std::fs::write(snap.join(format!("{persisted}")), peer.doc.save()).expect("snapshot");
                say(&format!("persisted {persisted}"));
            }
            "disk" => {
                if ed.as_ref().is_some_and(|e| e.bufs.contains_key(name)) {
                    continue;
                }
                let existed = nodes[0].disk(name).is_some();
                nodes[0].write_disk(name, op["text"].as_str().unwrap().as_bytes());
                crash::arm(true);
                if existed {
                    nodes[0].changed(name).await?;
                } else {
                    nodes[0].created(name).await?;
                }
                crash::arm(false);
            }
            "rm" => {
                if ed.as_ref().is_some_and(|e| e.bufs.contains_key(name)) || nodes[0].disk(name).is_none() {
                    continue;
                }
                say(&format!("removing {name}"));
                std::fs::remove_file(dir.join(name)).expect("rm");
                crash::arm(true);
                nodes[0].removed(name).await?;
                crash::arm(false);
            }
            "peer" => {
                peer.sync(&nodes[0]).await?;
                let ins = op["ins"].as_str().unwrap();
                match peer.files()?.get(name) {
                    Some(t) => {
                        let len = t.chars().count();
                        let at = op["at"].as_u64().unwrap() as usize % (len + 1);
                        let del = (op["del"].as_u64().unwrap() as usize).min(len - at);
                        peer.splice(name, at, del, ins);
                    }
                    None => peer.create(name, ins),
                }
                crash::arm(true);
                peer.sync(&nodes[0]).await?;
                crash::arm(false);
            }
            "type" => {
                crash::arm(true);
                if ed.is_none() {
                    ed = Some(Ed::connect(&nodes, 0).await?);
                }
                let e = ed.as_mut().unwrap();
                // The editor knows no file in a folder that does not exist.
                let possible = nodes[0].disk(name).is_some() || !name.contains('/');
                if !e.bufs.contains_key(name) && possible {
                    e.open(&nodes, name).await?;
                }
                e.drain()?;
                e.process_all()?;
                if let Some(b) = e.bufs.get(name) {
                    let len = b.text.len();
                    let at = op["at"].as_u64().unwrap() as usize % (len + 1);
                    let del = (op["del"].as_u64().unwrap() as usize).min(len - at);
                    e.user_edit(name, at, del, op["ins"].as_str().unwrap());
                    while e.deliver(&nodes).await? {}
                    e.drain()?;
                    e.process_all()?;
                }
                crash::arm(false);
            }
            "leave" => {
                crash::arm(true);
                if let Some(mut e) = ed.take() {
                    e.disconnect(&nodes).await?;
                }
                crash::arm(false);
            }
            _ => {}
        }
    }
    Ok(())
}

// ---------------------------------------------------------------- the whole daemon

/// Kills a complete daemon at every file operation of its first and second start.
fn whole(src: &mut Src, ctx: &mut Ctx) -> CaseResult {
    let mut n = 0;
    let mut files: BTreeMap<&str, String> = BTreeMap::new();
    for name in NAMES {
        if src.bool() {
            files.insert(name, gen_text(src, &mut n));
        }
    }
    let second = src.bool();
    ctx.log(format!("whole daemon, crashing during its {} start", if second { "second" } else { "first" }));
    ctx.label("whole daemon");
    let scratch = ctx.scratch.clone();
    let make = |k: usize| -> R<PathBuf> {
        let dir = project(&scratch, &format!("p{k}"));
        for (name, t) in &files {
            let p = dir.join(name);
            std::fs::create_dir_all(p.parent().unwrap()).expect("mkdir");
            std::fs::write(p, t).expect("write");
        }
        if second {
            whole_run(&scratch, &dir, -1, 0, "the first start")?;
        }
        Ok(dir)
    };
    let dir = make(0)?;
    let dry = whole_run(&scratch, &dir, -1, 0, "a start without crash")?;
    let pts = points(&dry);
    ctx.log(format!("{} crash points", pts.len()));
    for (j, (k, bytes, what)) in pts.iter().enumerate() {
        let dir = make(j + 1)?;
        let what = format!("killed at operation {k} ({what})");
        let ran = whole_run(&scratch, &dir, *k, *bytes, &what)?;
        if ran.killed {
            ctx.nontrivial = true;
        }
        let again = whole_run(&scratch, &dir, -1, 0, &format!("{what}; started again"))?;
        let shared = again.out.iter().find_map(|l| l.strip_prefix("shared ")).unwrap_or("{}");
        let shared: BTreeMap<String, String> = serde_json::from_str(shared).expect("json");
        if let Err(f) = compare(&shared, &dir, &format!("{what}; after the restart")) {
            ctx.log(what);
            return Err(f);
        }
        let _ = std::fs::remove_dir_all(&dir);
    }
    Ok(())
}

fn whole_run(scratch: &Path, dir: &Path, target: i64, bytes: i64, what: &str) -> R<Ran> {
    for _ in 0..4 {
        let port = std::net::TcpListener::bind("127.0.0.1:0").expect("port").local_addr().unwrap().port();
        let run = scratch.join("run");
        std::fs::create_dir_all(&run).expect("mkdir");
        use std::os::unix::fs::PermissionsExt;
        std::fs::set_permissions(&run, std::fs::Permissions::from_mode(0o700)).expect("chmod");
        let job = json!({"dir": dir, "socket": run.join("s"), "port": port, "target": target, "bytes": bytes});
        let ran = child("__c08_daemon", &job, scratch)?;
        match ran.code {
            None if ran.killed && target >= 0 => return Ok(ran),
            Some(0) => return Ok(ran),
            // Not ready in time; the port may have been taken.
            Some(7) => continue,
            Some(5) => {
                let p = ran.out.iter().find_map(|l| l.strip_prefix("PANIC ")).unwrap_or("unknown").to_string();
                return fail(
                    &format!("daemon-stopped:{}", crate::runner::panic_signature(&p)),
                    format!("{what}: the daemon stopped: {p}"),
                );
            }
            _ => {
                child_failure(&ran, what)?;
            }
        }
    }
    fail("harness-not-ready", format!("{what}: the daemon did not get ready: port or time"))
}

/// Runs in the child process.
pub fn child_daemon(file: &str) -> ! {
    let job: Value = serde_json::from_str(&std::fs::read_to_string(file).expect("job")).expect("json");
    let dir = PathBuf::from(job["dir"].as_str().unwrap());
    let socket = PathBuf::from(job["socket"].as_str().unwrap());
    let port = job["port"].as_u64().unwrap() as u16;
    // The daemon's own main ends the process on any panic.
    std::panic::set_hook(Box::new(|info| {
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        let msg = info
            .payload()
            .downcast_ref::<&str>()
            .map(|s| (*s).to_string())
            .or_else(|| info.payload().downcast_ref::<String>().cloned())
            .unwrap_or_default();
        println!("PANIC {loc}: {}", msg.replace('\n', " "));
        std::process::exit(5);
    }));
    crash::setup(
        job["dir"].as_str().unwrap(),
        job["target"].as_i64().unwrap(),
        job["bytes"].as_i64().unwrap(),
    );
    let rt = tokio::runtime::Builder::new_multi_thread()
        .worker_threads(2)
        .enable_all()
        .build()
        .expect("runtime");
    rt.block_on(async move {
        crash::arm(true);
        let daemon = ethersync::daemon::Daemon::new(
            ethersync::peer::PeerConnectionInfo {
                port: Some(port),
                peer: None,
                passphrase: None,
            },
            &socket,
            &dir,
            false,
        );
        let deadline = Instant::now() + Duration::from_secs(20);
        let (mut last, mut quiet) = (usize::MAX, 0);
        loop {
            if Instant::now() > deadline {
                std::process::exit(7);
            }
            let ready = std::os::unix::net::UnixStream::connect(&socket).is_ok()
                && std::net::TcpStream::connect(("127.0.0.1", port)).is_ok();
            tokio::time::sleep(Duration::from_millis(30)).await;
            let ops = crash::log().len();
            quiet = if ready && ops == last { quiet + 1 } else { 0 };
            if quiet == 4 {
                break;
            }
            last = ops;
        }
        crash::arm(false);
        let node = Node {
            name: "a".into(),
            dir,
            handle: daemon.document_handle,
        };
        let shared = node.shared().await.expect("shared");
        say(&format!("shared {}", serde_json::to_string(&shared).unwrap()));
        for (k, (kind, len)) in crash::log().iter().enumerate() {
            say(&format!("op {k} {kind} {len}"));
        }
        std::process::exit(0);
    })
}
