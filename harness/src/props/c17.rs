//! Settings on the command line win over the configuration file, one by one.

use crate::{
    proc::{free_port, until, Daemon, Start},
    runner::{fail, CaseResult, Ctx, Prop},
    tape::Src,
    world::{project, R},
};
use std::{
    os::unix::net::UnixStream,
    path::{Path, PathBuf},
    time::Duration,
};

pub fn prop() -> Prop {
    Prop {
        id: "C17",
        level: "exploration",
        rule: "a case is one start of the daemon program with port, peer, secret and socket name each given on the command line (or in the environment), in the configuration file, in both or not at all; \
               non-trivial if at least one setting was given in two places with different values, or the peer came from one place and the port from the other",
        assumptions: &["values are valid; secrets are printable text that the configuration file format has no special meaning for"],
        quick: 400,
        thorough: 10_000,
        threads: 8,
        case_timeout_s: 300,
        exhaustive: false,
        case,
    }
}

use super::c15::{near, secret, DEFAULT};

fn has(dir: &Path, name: &str) -> bool {
    dir.join(name).exists()
}

struct Other {
    dir: PathBuf,
    d: Daemon,
    port: u16,
}

/// Another daemon to connect to, or that connects.
fn other(ctx: &Ctx, name: &str, secret: &str, peer: Option<String>) -> R<Other> {
    let dir = project(&ctx.scratch, name);
    std::fs::write(dir.join(format!("of-{name}")), name).expect("write");
    if secret != DEFAULT {
        std::fs::write(dir.join(".ethersync/config"), format!("secret={secret}\n")).expect("write");
    }
    let mut s = Start::new(&dir);
    if let Some(p) = peer {
        s = s.arg("--peer").arg(p);
    }
    let mut d = s.start()?;
    let port = d.port()?;
    Ok(Other { dir, d, port })
}

fn wait(ctx: &Ctx, what: &str, f: impl FnMut() -> bool) -> R<()> {
    if until(f) {
        return Ok(());
    }
    if super::c23::control(&ctx.scratch)? {
        return fail("setting-not-used", what.to_string());
    }
    fail("harness-timeout", "not even two daemons without settings sync in time")
}

fn case(src: &mut Src, ctx: &mut Ctx, _i: usize) -> CaseResult {
    let mut config: Vec<String> = vec![];
    let mut double = false;
    let mut places = vec![];

    let secret = match src.usize(4) {
        0 => DEFAULT.to_string(),
        1 => src.pick(&["a", "x1", "one secret", "Another"]).to_string(),
        _ => secret(src),
    };
    let secret = secret.as_str();
    if secret != DEFAULT || src.bool() {
        config.push(format!("secret{}{secret}", src.pick(&["=", " = "])));
    }

    // Two daemons to choose from.
    let first = other(ctx, "first", secret, None)?;
    let second = other(ctx, "second", secret, None)?;
    let addr = |src: &mut Src, o: &Other| {
        let host = *src.pick(&["/ip4/127.0.0.1/tcp/", "/ip4/127.0.0.2/tcp/"]);
        let mut a = format!("{host}{}", o.port);
        if src.chance(1, 3) {
            let key = std::fs::read(o.dir.join(".ethersync/key")).unwrap_or_default();
            a += &format!("/p2p/{}", super::c16::peer_id(&key));
        }
        a
    };

    let dir = project(&ctx.scratch, "tested");
    std::fs::write(dir.join("of-tested"), "mine").expect("write");
    let mut start = Start::new(&dir);

    let (cli_peer, conf_peer) = (src.bool(), src.bool());
    if cli_peer {
        let a = addr(src, &first);
        ctx.log(format!("--peer {a}"));
        start = if src.bool() { start.arg("--peer").arg(a) } else { start.arg(format!("--peer={a}")) };
    }
    if conf_peer {
        let a = addr(src, &second);
        ctx.log(format!("config: peer {a}"));
        config.push(format!("peer{}{a}", src.pick(&["=", " = "])));
    }
    double |= cli_peer && conf_peer;
    places.push((cli_peer, conf_peer));
    let host = !cli_peer && !conf_peer;

    let (cli_port, conf_port) = (src.weighted(&[3, 3, 1]), src.bool());
    let (p1, p2) = (free_port(), free_port());
    match cli_port {
        1 => start = start.arg("--port").arg(p1.to_string()),
        2 => start = start.arg("--port=0"),
        _ => {}
    }
    if conf_port {
        config.push(format!("port{}{p2}", src.pick(&["=", " = "])));
    }
    ctx.log(format!("port: command line {}, config {conf_port}", ["no", "yes", "0"][cli_port]));
    double |= cli_port > 0 && conf_port;
    places.push((cli_port > 0, conf_port));

    let (cli_name, env_name) = (src.chance(1, 3), src.chance(1, 3));
    let by_option = *src.pick(&["by-option", "o", "ethersync", "ethersync.sock", "öption 1", ".o"]);
    let by_env = *src.pick(&["by-env", "e", "ethersync", "env.sock", "ümgebung 1", ".e"]);
    if cli_name {
        start = match src.usize(3) {
            0 => start.arg("-s").arg(by_option),
            1 => start.arg("--socket-name").arg(by_option),
            _ => start.arg(format!("--socket-name={by_option}")),
        };
    }
    if env_name {
        start = start.env("ETHERSYNC_SOCKET", by_env);
    }
    double |= cli_name && env_name;
    let socket = match (cli_name, env_name) {
        (true, _) => by_option,
        (false, true) => by_env,
        _ => "ethersync",
    };

    if !config.is_empty() || src.bool() {
        // The order does not matter.
        for i in (1..config.len()).rev() {
            config.swap(i, src.usize(i + 1));
        }
        if src.chance(1, 4) {
            config.insert(src.usize(config.len() + 1), "; a comment".into());
        }
        if src.chance(1, 4) {
            config.insert(src.usize(config.len() + 1), String::new());
        }
        if src.chance(1, 4) {
            config.insert(src.usize(config.len() + 1), "something = else".into());
        }
        let mut text = config.join("\n");
        if src.bool() {
            text.push('\n');
        }
        std::fs::write(dir.join(".ethersync/config"), text).expect("write");
    }

    let mut d = start.spawn();
    let path = d.run.join(socket);
    let up = until(|| !d.alive() || UnixStream::connect(&path).is_ok());
    d.check_alive("its start")?;
    if !up {
        let there: Vec<String> = std::fs::read_dir(&d.run)
            .map(|r| r.flatten().map(|e| e.file_name().to_string_lossy().to_string()).collect())
            .unwrap_or_default();
        if there.is_empty() {
            return fail("harness-timeout", "no socket");
        }
        return fail("socket-name", format!("expected the socket {socket}, there is {there:?}"));
    }

    let port = d.port()?;
    match (cli_port, conf_port) {
        (1, _) if port != p1 => return fail("wrong-port", format!("listens on {port}, the command line says {p1}")),
        (0, true) if port != p2 => return fail("wrong-port", format!("listens on {port}, the configuration says {p2}")),
        (2, true) if port == p2 => return fail("wrong-port", format!("listens on {port}, the command line says any")),
        _ => {}
    }

    // With the same secret, a joiner is served.
    let joiner = other(ctx, "joiner", secret, Some(format!("/ip4/127.0.0.1/tcp/{port}")))?;
    if host {
        wait(ctx, "a host does not publish its file", || has(&joiner.dir, "of-tested"))?;
    } else {
        let (good, bad) = if cli_peer { ("of-first", "of-second") } else { ("of-second", "of-first") };
        wait(ctx, &format!("{good} did not arrive from the peer"), || has(&dir, good) && has(&joiner.dir, good))?;
        std::thread::sleep(Duration::from_millis(50));
        if has(&dir, bad) {
            return fail("wrong-peer", format!("{bad} arrived"));
        }
        for o in [&first.dir, &second.dir, &joiner.dir] {
            if has(o, "of-tested") {
                return fail("joiner-publishes", "a daemon with a peer published its file");
            }
        }
    }
    // And without it, it is not.
    if src.chance(1, 3) {
        let mut bad = if src.bool() { DEFAULT.to_string() } else { near(src, secret) };
        if bad == secret {
            bad = format!("{secret}-");
        }
        let mut o = other(ctx, "stranger", &bad, Some(format!("/ip4/127.0.0.1/tcp/{port}")))?;
        std::thread::sleep(Duration::from_millis(150));
        o.d.check_alive("connecting with another secret")?;
        if ["of-tested", "of-first", "of-second"].iter().any(|n| has(&o.dir, n)) {
            return fail("secret-not-used", format!("a daemon with secret {bad:?} got a file, expected {secret:?}"));
        }
    }
    d.check_alive("its start")?;
    ctx.nontrivial = double || places[0] != places[1];
    drop((first, second, joiner));
    Ok(())
}
