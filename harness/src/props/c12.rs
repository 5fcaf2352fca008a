//! A misbehaving editor cannot stop the daemon or harm others.

use super::c11::garbage;
use crate::{
    hostile::Hostile,
    proc::{self, Conn, Start},
    runner::{fail, CaseResult, Ctx, Prop},
    tape::Src,
    text::{self, Op},
    world::{block_on, Buf, Ed, Node, Peer, PeerLink, World, R},
};
use serde_json::{json, Value};
use std::{collections::{BTreeMap, BTreeSet}, path::Path};

pub fn prop() -> Prop {
    Prop {
        id: "C12",
        level: "exploration",
        rule: "a case is a history of arbitrary messages and disconnects of one editor, next to an editor and a peer who work; one case in 100 sends arbitrary bytes to the real daemon process; \
               non-trivial if at least four invalid messages were handled, of which one edit of an open file, and the other editor typed",
        assumptions: &["the misbehaving editor reads what the daemon sends, or disconnects"],
        quick: 8_000,
        thorough: 200_000,
        threads: 8,
        case_timeout_s: 240,
        exhaustive: false,
        case,
    }
}

fn case(src: &mut Src, ctx: &mut Ctx, i: usize) -> CaseResult {
    if i % 100 == 99 {
        ctx.label("real process");
        return process(src, ctx);
    }
    block_on(run(src, ctx))
}

/// The relative path a URI denotes, if it is one inside the project.
fn resolve(proj: &Path, uri: &str) -> Option<String> {
    let rel = Path::new(uri.strip_prefix("file://")?).strip_prefix(proj).ok()?;
    let parts: Vec<String> = rel.iter().map(|c| c.to_string_lossy().to_string()).collect();
    (!parts.is_empty() && !parts.iter().any(|p| p == "..")).then(|| parts.join("/"))
}

struct Message {
    text: String,
    method: &'static str,
    uri: String,
    revision: u64,
    /// None if the message is invalid for other reasons.
    ops: Option<Vec<Op>>,
}

fn uri(src: &mut Src, h: &Hostile) -> String {
    let proj = h.proj.display();
    match src.weighted(&[10, 3, 2, 1]) {
        0 => format!("file://{proj}/{}", src.pick(&["f", "g", "sub/x", "fresh"])),
        1 => format!("file://{proj}/{}", h.name(src)),
        2 => format!("file://{proj}/{}", h.private_name(src)),
        _ => (*src.pick(&["", "file://", "file:///", "f", "http://x/f", "file://localhost/f", "FILE:///f", "file:///\u{0}", "file:////"])).to_string(),
    }
}

fn number(src: &mut Src, around: usize) -> u64 {
    match src.weighted(&[8, 2, 1, 1]) {
        0 => around as u64,
        1 => (around + 1).saturating_sub(src.usize(3)) as u64,
        2 => src.below(5) + 1000,
        _ => *src.pick(&[u64::MAX, u64::MAX - 1, 1 << 63, u64::from(u32::MAX), 1 << 32]),
    }
}

fn op(src: &mut Src, b: Option<&Buf>) -> Op {
    let empty = vec![];
    let t = b.map_or(&empty, |b| &b.text);
    let (at, del) = text::gen_splice(src, t.len());
    let mut o = text::splice_op(t, at, del, &text::gen_string(src, 3));
    let huge = u64::MAX as usize;
    match src.weighted(&[5, 1, 1, 1, 1, 1]) {
        0 => {}
        1 => o.end.0 += 1 + src.usize(3),
        2 => o.end.1 += t.len() + 1 + src.usize(3),
        3 => std::mem::swap(&mut o.start, &mut o.end),
        4 => o.start = (huge, huge),
        _ => o.end = (0, huge),
    }
    o
}

fn message(src: &mut Src, h: &Hostile, ed: &Ed) -> Message {
    let u = if !ed.bufs.is_empty() && src.bool() {
        let names: Vec<&String> = ed.bufs.keys().collect();
        ed.uri(names[src.usize(names.len())])
    } else {
        uri(src, h)
    };
    let buf = resolve(&h.proj, &u).and_then(|n| ed.bufs.get(&n));
    let method = *src.pick(&["edit", "open", "edit", "close", "cursor", "edit"]);
    let revision = number(src, buf.map_or(0, |b| b.daemon_rev));
    let mut ops = vec![];
    let mut params = match method {
        "edit" => {
            for _ in 0..*src.pick(&[1usize, 1, 1, 0, 2, 3]) {
                ops.push(op(src, buf));
            }
            let delta: Vec<Value> = ops.iter().map(Op::json).collect();
            json!({"uri": u, "revision": revision, "delta": delta})
        }
        "cursor" => {
            let r: Vec<Value> = (0..src.usize(3)).map(|_| op(src, buf).json()["range"].clone()).collect();
            json!({"uri": u, "ranges": r})
        }
        _ => json!({ "uri": u }),
    };
    let mut ops = Some(ops);
    // Sometimes damage the structure.
    if src.chance(1, 8) {
        ops = None;
        let keys: Vec<String> = params.as_object().unwrap().keys().cloned().collect();
        let k = src.pick(&keys).clone();
        match src.usize(4) {
            0 => {
                params.as_object_mut().unwrap().remove(&k);
            }
            1 => params[k] = json!(null),
            2 => params[k] = json!([[[]]]),
            _ => params[k] = json!(-1.5),
        }
    }
    let mut m = json!({"jsonrpc": "2.0", "method": method, "params": params});
    match src.weighted(&[6, 2, 1, 1, 1]) {
        0 => m["id"] = json!(src.below(100)),
        1 => {}
        2 => m["id"] = json!("string"),
        3 => m["id"] = json!(u64::MAX),
        _ => m["extra"] = json!({"id": 5}),
    }
    let mut text = m.to_string();
    if src.chance(1, 12) {
        // Cut off somewhere.
        let n = text.chars().count();
        text = text.chars().take(src.usize(n)).collect();
        ops = None;
    }
    Message {
        text,
        method,
        uri: u,
        revision,
        ops,
    }
}

async fn run(src: &mut Src, ctx: &mut Ctx) -> R<()> {
    let h = Hostile::new(&ctx.scratch);
    let mut w = World::default();
    w.add_node(Node::start("n0", &h.proj, false, true)?);
    let good = Ed::connect(&w.nodes, 0).await?;
    let bad = Ed::connect(&w.nodes, 0).await?;
    w.eds = vec![good, bad];
    let mut peer = Peer::new();
    let mut link = PeerLink::new(&w.nodes[0], &mut peer);
    link.settle(&w.nodes[0], &mut peer).await?;
    // Files of which it is not known whether the editor has them open, because a message about
    // them was not answered.
    let mut murky = BTreeSet::new();
    let (mut invalid, mut invalid_edits, mut typed) = (0, 0, 0);
    if src.chance(3, 4) {
        ctx.log("it opens f");
        w.eds[1].open(&w.nodes, "f").await?;
    }
    let steps = 10 + src.usize(if ctx.thorough { 60 } else { 24 });
    for _ in 0..steps {
        match src.weighted(&[12, 3, 3, 1, 2, 1]) {
            0 => {
                w.eds[1].drain()?;
                w.eds[1].process_all()?;
                let m = message(src, &h, &w.eds[1]);
                ctx.log(m.text.clone());
                let name = resolve(&h.proj, &m.uri);
                let on_disk = name.as_ref().and_then(|n| w.nodes[0].disk_text(n)).unwrap_or_default();
                let before = w.nodes[0].shared().await?;
                w.eds[1].answers.clear();
                w.eds[1].out.push_back(m.text.clone());
                w.eds[1].deliver(&w.nodes).await?;
                let after = w.nodes[0].shared().await?;
                w.drain_all()?;
                let refused = w.eds[1].inbox.iter().any(|a| a.get("error").is_some());
                let done = w.eds[1].inbox.iter().any(|a| a.get("result").is_some());
                let key = name.clone().unwrap_or_default();
                let effect = if murky.contains(&key) && !refused && !(m.method == "open" && done) {
                    Effect::Murky
                } else {
                    verdict(&m, name.as_deref(), w.eds[1].bufs.get(&key), refused, done)
                };
                match &effect {
                    Effect::Murky => {
                        same_except(&before, &after, Some(&key), &m.text)?;
                        w.eds[1].bufs.remove(&key);
                        murky.insert(key);
                    }
                    Effect::None => {
                        invalid += 1;
                        if m.method == "edit" && name.as_ref().is_some_and(|n| w.eds[1].bufs.contains_key(n)) {
                            invalid_edits += 1;
                        }
                        same_except(&before, &after, None, &m.text)?;
                    }
                    Effect::Open => {
                        same_except(&before, &after, name.as_deref(), &m.text)?;
                        murky.remove(&key);
                        w.eds[1].bufs.insert(
                            name.clone().unwrap(),
                            Buf {
                                text: text::to_text(&on_disk),
                                editor_rev: 0,
                                daemon_rev: 0,
                            },
                        );
                    }
                    Effect::Close => {
                        same_except(&before, &after, None, &m.text)?;
                        w.eds[1].bufs.remove(name.as_deref().unwrap());
                    }
                    Effect::Edit(t) => {
                        let n = name.clone().unwrap();
                        same_except(&before, &after, Some(&n), &m.text)?;
                        if after.get(&n) != Some(&text::to_string(t)) {
                            return fail(
                                "wrong-effect",
                                format!("{}: the text is {:?} instead of {:?}", m.text, after.get(&n), text::to_string(t)),
                            );
                        }
                        let b = w.eds[1].bufs.get_mut(&n).unwrap();
                        b.text = t.clone();
                        b.editor_rev += 1;
                    }
                }
                w.eds[1].process_all()?;
            }
            1 => {
                let g = garbage(src, &w.eds[1].uri("f"));
                ctx.log(format!("{g:?}"));
                let before = w.nodes[0].shared().await?;
                w.eds[1].out.push_back(g.clone());
                w.eds[1].deliver(&w.nodes).await?;
                invalid += 1;
                same_except(&before, &w.nodes[0].shared().await?, None, &g)?;
                w.drain_all()?;
                w.eds[1].process_all()?;
            }
            2 => {
                let name = *src.pick(&["f", "g", "sub/x"]);
                if !w.eds[0].bufs.contains_key(name) {
                    ctx.log(format!("the other editor opens {name}"));
                    if !w.eds[0].open(&w.nodes, name).await? {
                        return fail("other-editor-refused", format!("another editor can not open {name}"));
                    }
                }
                let (at, del) = text::gen_splice(src, w.eds[0].bufs[name].text.len());
                let ins = text::gen_plain(src, 3);
                ctx.log(format!("the other editor: {name} replace {del} at {at} by {ins:?}"));
                w.eds[0].user_edit(name, at, del, &ins);
                typed += 1;
                settle(&mut w, &mut peer, &mut link).await?;
            }
            3 => {
                ctx.log("it disconnects with answers outstanding and comes back");
                for _ in 0..src.usize(4) {
                    let m = message(src, &h, &w.eds[1]);
                    ctx.log(format!("  {}", m.text));
                    w.eds[1].out.push_back(m.text);
                }
                w.eds[1].break_socket();
                while w.eds[1].deliver(&w.nodes).await? {
                    // Others do something meanwhile.
                    if src.bool() {
                        if let Some(n) = w.eds[0].bufs.keys().next().cloned() {
                            w.eds[0].user_edit(&n, 0, 0, "m");
                            w.eds[0].deliver(&w.nodes).await?;
                        }
                    }
                }
                w.eds[1].notice_disconnect(&w.nodes).await?;
                murky.clear();
                w.eds[1] = Ed::connect(&w.nodes, 0).await?;
                settle(&mut w, &mut peer, &mut link).await?;
            }
            4 => {
                if let Some(id) = peer.text_obj("f") {
                    use automerge::{transaction::Transactable, ReadDoc};
                    let len = peer.doc.length(&id);
                    let (at, del) = text::gen_splice(src, len);
                    ctx.log(format!("the peer replaces {del} at {at}"));
                    peer.doc.splice_text(&id, at, del as isize, "p").expect("splice");
                    settle(&mut w, &mut peer, &mut link).await?;
                }
            }
            _ => {
                settle(&mut w, &mut peer, &mut link).await?;
            }
        }
        h.check_outside()?;
        h.check_private()?;
    }
    settle(&mut w, &mut peer, &mut link).await?;
    w.check_buffers().await?;
    let shared = w.nodes[0].shared().await?;
    if peer.files()? != shared {
        return fail("peer-differs", format!("the peer has {:?}, the daemon {shared:?}", peer.files()?));
    }
    ctx.nontrivial = invalid >= 4 && invalid_edits > 0 && typed > 0;
    Ok(())
}

enum Effect {
    None,
    Murky,
    Open,
    Close,
    Edit(text::Text),
}

/// What a message may do, given that the editor is up to date.
fn verdict(m: &Message, name: Option<&str>, buf: Option<&Buf>, refused: bool, done: bool) -> Effect {
    if refused || name.is_none() {
        return Effect::None;
    }
    let Some(ops) = &m.ops else {
        return Effect::None;
    };
    let effect = match m.method {
        "open" => Effect::Open,
        "close" => Effect::Close,
        "edit" => {
            let Some(b) = buf else {
                return Effect::None;
            };
            if m.revision > b.daemon_rev as u64 || ops.len() > 1 {
                return Effect::None;
            }
            if m.revision < b.daemon_rev as u64 {
                // Made before the editor received our latest edits; C01 says what it does.
                return Effect::Murky;
            }
            match ops.first() {
                None => Effect::Edit(b.text.clone()),
                Some(o) => match text::apply(&b.text, &[forward(o)]) {
                    Ok(t) => Effect::Edit(t),
                    // The place behind a line break counts as being on its line, too.
                    Err(_) if behind_break(&b.text, o.start) || behind_break(&b.text, o.end) => return Effect::Murky,
                    Err(_) => return Effect::None,
                },
            }
        }
        _ => return Effect::None,
    };
    if done {
        effect
    } else {
        Effect::Murky
    }
}

fn behind_break(t: &text::Text, p: (usize, usize)) -> bool {
    let s = text::to_string(t);
    s.split_inclusive('\n').nth(p.0).is_some_and(|l| l.ends_with('\n') && l.chars().count() == p.1)
}

fn forward(o: &Op) -> Op {
    let mut o = o.clone();
    if o.start > o.end {
        std::mem::swap(&mut o.start, &mut o.end);
    }
    o
}

fn same_except(a: &BTreeMap<String, String>, b: &BTreeMap<String, String>, name: Option<&str>, what: &str) -> R<()> {
    for k in a.keys().chain(b.keys()) {
        if Some(k.as_str()) != name && a.get(k) != b.get(k) {
            return fail(
                "unexpected-change",
                format!("{what} changed {k:?} from {:?} to {:?}", a.get(k), b.get(k)),
            );
        }
    }
    Ok(())
}

async fn settle(w: &mut World, peer: &mut Peer, link: &mut PeerLink) -> R<()> {
    for _ in 0..50 {
        for i in 0..2 {
            while w.eds[i].deliver(&w.nodes).await? {
                w.drain_all()?;
            }
        }
        let any = link.settle(&w.nodes[0], peer).await?;
        w.drain_all()?;
        let mut more = false;
        for e in &mut w.eds {
            more |= e.process_all()?;
        }
        if !any && !more {
            return Ok(());
        }
    }
    fail("world-does-not-settle", "messages never ended")
}

/// Bytes against the real program.
fn process(src: &mut Src, ctx: &mut Ctx) -> R<()> {
    let h = Hostile::new(&ctx.scratch.join("x"));
    // A key of its own: the one of `Hostile` is none.
    std::fs::remove_file(h.proj.join(".ethersync/key")).expect("rm");
    let mut d = Start::new(&h.proj).start()?;
    let mut good = Conn::open(&d)?;
    let file = format!("file://{}/keep", h.proj.display());
    let id = good.request("open", json!({ "uri": file }));
    let mut content: String = "keep me\n".into();
    match good.answer(id, |_| ())? {
        Some(a) if a.get("result").is_some() => {}
        a => return fail("other-editor-refused", format!("opening a file: {a:?}")),
    }
    let mut rejected = 0;
    for round in 0..3 + src.usize(4) {
        let Ok(mut bad) = Conn::open(&d) else {
            d.check_alive("everything so far")?;
            return fail("can-not-connect", "an editor can not connect any more");
        };
        let mut bytes: Vec<u8> = vec![];
        for _ in 0..1 + src.usize(8) {
            match src.weighted(&[4, 3, 2, 1, 1, 1]) {
                0 => {
                    let ed = garbage(src, &format!("file://{}/f", h.proj.display()));
                    bytes.extend_from_slice(ed.as_bytes());
                }
                1 => {
                    let u = uri(src, &h);
                    let method = *src.pick(&["open", "edit", "close", "cursor"]);
                    let z = json!({"line": number(src, 0), "character": number(src, 0)});
                    let m = json!({"jsonrpc":"2.0","id":src.below(9),"method":method,"params":{
                        "uri":u,"revision":number(src, 0),"ranges":[{"start":z,"end":z}],
                        "delta":[{"range":{"start":z,"end":z},"replacement":"R"}]}});
                    bytes.extend_from_slice(m.to_string().as_bytes());
                }
                2 => {
                    for _ in 0..src.usize(40) {
                        bytes.push(src.below(256) as u8);
                    }
                }
                3 => bytes.extend(std::iter::repeat_n(b'[', 200_000)),
                4 => bytes.extend(std::iter::repeat_n(b'x', 2_000_000)),
                _ => {}
            }
            if src.chance(3, 4) {
                bytes.extend_from_slice(*src.pick(&[&b"\n"[..], b"\r\n", b"\n\n", b"\0\n"]));
            }
        }
        let shown: String = String::from_utf8_lossy(&bytes).chars().take(300).collect();
        ctx.log(format!("round {round}: {} bytes {shown:?}", bytes.len()));
        rejected += 1;
        // In pieces, and read what comes back.
        let reader = bad.s.try_clone().expect("clone");
        let drain = std::thread::spawn(move || {
            let mut r = reader;
            let mut tmp = [0u8; 65536];
            while matches!(std::io::Read::read(&mut r, &mut tmp), Ok(n) if n > 0) {}
        });
        let mut rest = &bytes[..];
        while !rest.is_empty() {
            let n = 1 + src.usize(rest.len());
            if !bad.send_bytes(&rest[..n]) {
                break;
            }
            rest = &rest[n..];
        }
        match src.usize(3) {
            0 => {
                let _ = bad.s.shutdown(std::net::Shutdown::Both);
            }
            1 => {
                let _ = bad.s.shutdown(std::net::Shutdown::Write);
            }
            _ => {
                // Still connected until the other one has been served.
                let e = edit(&mut good, &file, &mut content)?;
                if !e {
                    d.check_alive(&format!("{shown:?}"))?;
                }
                let _ = bad.s.shutdown(std::net::Shutdown::Both);
            }
        }
        let _ = drain.join();
        if !edit(&mut good, &file, &mut content)? {
            proc::until(|| !d.alive());
            d.check_alive(&format!("{shown:?}"))?;
            return fail("other-editor-refused", "the connection of another editor was closed");
        }
        d.check_alive(&format!("{shown:?}"))?;
    }
    let id = good.request("close", json!({ "uri": file }));
    good.answer(id, |_| ())?;
    let disk = std::fs::read_to_string(h.proj.join("keep")).ok();
    if disk.as_deref() != Some(content.as_str()) {
        return fail("other-file-changed", format!("the other editor's file is {disk:?}, expected {content:?}"));
    }
    ctx.nontrivial = rejected >= 3;
    Ok(())
}

/// The other editor types; false if it is not served.
fn edit(c: &mut Conn, uri: &str, content: &mut String) -> R<bool> {
    let z = json!({"line": 0, "character": 0});
    let id = c.request(
        "edit",
        json!({"uri": uri, "revision": 0, "delta": [{"range": {"start": z, "end": z}, "replacement": "t"}]}),
    );
    let mut edits = 0;
    let a = c.answer(id, |m| {
        if m["method"] == "edit" {
            edits += 1;
        }
    })?;
    if edits > 0 {
        return fail("unexpected-change", "somebody else changed the file");
    }
    content.insert(0, 't');
    Ok(a.is_some_and(|a| a.get("result").is_some()))
}
