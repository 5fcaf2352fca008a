//! Only peers with the same secret get anything.

use crate::{
    proc::{until, Daemon, Start, PATIENCE},
    runner::{fail, CaseResult, Ctx, Prop},
    tape::Src,
    world::{project, read_tree, R},
};
use std::{
    path::{Path, PathBuf},
    time::Duration,
};

pub fn prop() -> Prop {
    Prop {
        id: "C15",
        level: "exploration",
        rule: "a case is a host process, up to three joiners with secrets that are almost the host's, and one with the same secret that connects last; \
               non-trivial if there was at least one joiner with another secret, and the one with the same secret got everything",
        assumptions: &[
            "secrets are printable text that the configuration file format has no special meaning for",
            "what has not crossed 150 ms after the joiner with the right secret has everything will not cross later",
        ],
        quick: 640,
        thorough: 8_000,
        threads: 8,
        case_timeout_s: 300,
        exhaustive: false,
        case,
    }
}

pub const DEFAULT: &str = "default-passphrase";

pub fn secret(src: &mut Src) -> String {
    match src.weighted(&[6, 2, 1, 1]) {
        0 => {
            let chars: Vec<char> = CHARS.chars().collect();
            (0..1 + src.usize(24)).map(|_| *src.pick(&chars)).collect()
        }
        1 => {
            // Around the sizes of hash blocks and keys.
            let n = *src.pick(&[31usize, 32, 33, 63, 64, 65, 127, 128, 129, 200]);
            (0..n).map(|_| char::from(b'a' + src.usize(26) as u8)).collect()
        }
        2 => "correct horse battery staple".into(),
        _ => DEFAULT.into(),
    }
}

const CHARS: &str = "abcXYZ019-_.:/+@!$%^&*()?<>|~äß🥕中";

fn any_char(src: &mut Src) -> char {
    let chars: Vec<char> = CHARS.chars().collect();
    if src.usize(3) == 0 {
        *src.pick(&['x', '0', '.', '='])
    } else {
        *src.pick(&chars)
    }
}

/// Another secret, close to this one.
pub fn near(src: &mut Src, s: &str) -> String {
    let c: Vec<char> = s.chars().collect();
    for _ in 0..20 {
        let mut o = c.clone();
        match src.usize(14) {
            0 => o.push(any_char(src)),
            1 => {
                o.pop();
            }
            2 => o.insert(0, any_char(src)),
            3 => {
                o.remove(0);
            }
            4 => {
                let i = src.usize(o.len());
                o[i] = if o[i] == 'q' { 'r' } else { 'q' };
            }
            5 => o = s.to_uppercase().chars().collect(),
            6 => o.extend(c.iter()),
            7 => {
                let i = src.usize(o.len());
                o[i] = any_char(src);
            }
            8 => {
                let i = src.usize(o.len() + 1);
                o.insert(i, if src.bool() { ' ' } else { any_char(src) });
            }
            9 if o.len() > 1 => {
                let i = src.usize(o.len() - 1);
                o.swap(i, i + 1);
            }
            10 if o.len() > 1 => {
                // The same beginning.
                let n = 1 + src.usize(o.len() - 1);
                o.truncate(n);
                o.extend((0..1 + src.usize(4)).map(|_| any_char(src)));
            }
            11 => {
                // The same in fewer bits, or when characters are written differently.
                let i = src.usize(o.len());
                if o[i] == 'ä' {
                    o[i] = 'a';
                    o.insert(i + 1, '\u{308}');
                } else if let Some(c) = char::from_u32(o[i] as u32 + 0x100 * (1 + src.usize(3)) as u32) {
                    o[i] = c;
                }
            }
            12 => o = s.to_lowercase().chars().collect(),
            _ => return secret(src),
        }
        let o: String = o.into_iter().collect();
        let o = o.trim().to_string();
        if !o.is_empty() {
            return o;
        }
    }
    format!("{s}x")
}

/// Puts a secret into the project, or nothing for the default.
fn configure(src: &mut Src, dir: &Path, s: &str) -> bool {
    let default = s == DEFAULT && src.bool();
    if !default {
        let line = match src.usize(3) {
            0 => format!("secret={s}\n"),
            1 => format!("secret = {s}\n"),
            _ => format!("\nsecret = {s}"),
        };
        std::fs::write(dir.join(".ethersync/config"), line).expect("config");
    }
    default
}

fn has(dir: &Path, name: &str, content: &str) -> bool {
    std::fs::read(dir.join(name)).is_ok_and(|c| c == content.as_bytes())
}

struct Wrong {
    dir: PathBuf,
    d: Daemon,
    secret: String,
    name: String,
}

impl Wrong {
    /// Nothing has crossed in either direction.
    fn check(&mut self, host: &Path, own: &[String]) -> R<()> {
        self.d.check_alive("connecting with another secret")?;
        for (n, _) in read_tree(&self.dir) {
            if !own.contains(&n) {
                return fail("crossed", format!("a joiner with the secret {:?} got {n}", self.secret));
            }
        }
        if has(&self.dir, "common", "host's\n") {
            return fail("crossed", format!("a joiner with the secret {:?} got a text", self.secret));
        }
        if host.join(&self.name).exists() {
            return fail("crossed", format!("the host got a file of a joiner with the secret {:?}", self.secret));
        }
        Ok(())
    }
}

fn case(src: &mut Src, ctx: &mut Ctx, _i: usize) -> CaseResult {
    let right = secret(src);
    let host_dir = project(&ctx.scratch, "host");
    let default = configure(src, &host_dir, &right);
    if right == DEFAULT {
        ctx.label(if default { "host without a secret" } else { "host with the default secret" });
    }
    std::fs::write(host_dir.join("common"), "host's\n").expect("write");
    std::fs::write(host_dir.join("first"), "first\n").expect("write");
    ctx.log(format!("host with secret {right:?}{}", if default { " (no configuration)" } else { "" }));
    let mut host = Start::new(&host_dir).start()?;
    let port = host.port()?;
    let peer = format!("/ip4/127.0.0.1/tcp/{port}");
    let mut wrong = vec![];
    for i in 0..src.usize(4) {
        let s = if src.chance(1, 6) { DEFAULT.to_string() } else { near(src, &right) };
        if s == right {
            continue;
        }
        let dir = project(&ctx.scratch, &format!("wrong{i}"));
        configure(src, &dir, &s);
        std::fs::write(dir.join("common"), "mine\n").expect("write");
        ctx.log(format!("joiner with secret {s:?}"));
        let d = Start::new(&dir).arg("--peer").arg(&peer).start()?;
        // Something to share.
        let name = format!("of-wrong{i}");
        std::fs::write(dir.join(&name), "mine\n").expect("write");
        wrong.push(Wrong {
            dir,
            d,
            secret: s,
            name,
        });
    }
    let dir = project(&ctx.scratch, "right");
    configure(src, &dir, &right);
    ctx.log("joiner with the same secret");
    let mut d = Start::new(&dir).arg("--peer").arg(&peer).start()?;
    let ok = until(|| has(&dir, "first", "first\n") && has(&dir, "common", "host's\n"));
    host.check_alive("joiners connecting")?;
    d.check_alive("connecting")?;
    if !ok {
        if super::c23::control(&ctx.scratch)? {
            return fail("no-sync", format!("a joiner with the same secret {right:?} got nothing in {PATIENCE:?}"));
        }
        return fail("harness-timeout", "not even two daemons without a secret sync in time");
    }
    // And both ways.
    std::fs::write(dir.join("of-right"), "right\n").expect("write");
    std::fs::write(host_dir.join("second"), "second\n").expect("write");
    let ok = until(|| has(&dir, "second", "second\n") && has(&host_dir, "of-right", "right\n"));
    if !ok {
        if super::c23::control(&ctx.scratch)? {
            return fail("no-sync", "changes between daemons with the same secret did not arrive");
        }
        return fail("harness-timeout", "not even two daemons without a secret sync in time");
    }
    if !wrong.is_empty() {
        std::thread::sleep(Duration::from_millis(150));
    }
    for w in &mut wrong {
        let own = [w.name.clone(), "common".to_string()];
        w.check(&host_dir, &own)?;
    }
    // The host's own files are as they were.
    if !has(&host_dir, "common", "host's\n") {
        return fail("crossed", "the host's text was changed");
    }
    ctx.nontrivial = !wrong.is_empty();
    Ok(())
}
