//! A misbehaving peer cannot stop the daemon.

use crate::{
    hostile::Hostile,
    runner::{fail, CaseResult, Ctx, Prop},
    tape::Src,
    text,
    world::{block_on, Ed, Node, Peer, PeerLink, R},
};
use automerge::{
    marks::{ExpandMark, Mark},
    transaction::Transactable,
    ObjId, ObjType, ReadDoc, ScalarValue, Value as AmValue, ROOT,
};
use serde_json::json;

pub fn prop() -> Prop {
    Prop {
        id: "C24",
        level: "exploration",
        rule: "a case is a history of arbitrary changes of the shared document by a peer, next to an editor and a well-behaved peer who keep working; \
               non-trivial if at least three changes no daemon would make were delivered and the editor typed after the first of them",
        assumptions: &["the peer speaks valid Automerge: only the content of the document is arbitrary"],
        quick: 8_000,
        thorough: 200_000,
        threads: 8,
        case_timeout_s: 60,
        exhaustive: false,
        case,
    }
}

fn case(src: &mut Src, ctx: &mut Ctx, _i: usize) -> CaseResult {
    block_on(run(src, ctx))
}

fn scalar(src: &mut Src) -> ScalarValue {
    match src.usize(8) {
        0 => ScalarValue::Str("text".into()),
        1 => ScalarValue::Int(-7),
        2 => ScalarValue::Uint(u64::MAX),
        3 => ScalarValue::Null,
        4 => ScalarValue::Boolean(true),
        5 => ScalarValue::F64(f64::NAN),
        6 => ScalarValue::Bytes(vec![0, 255, 1]),
        _ => ScalarValue::counter(3),
    }
}

/// A text is a sequence of characters or other single values, never of longer strings.
fn element(src: &mut Src, t: ObjType) -> ScalarValue {
    match scalar(src) {
        ScalarValue::Str(_) if t == ObjType::Text => ScalarValue::Str("🥕".into()),
        v => v,
    }
}

const TYPES: [ObjType; 4] = [ObjType::Text, ObjType::Map, ObjType::List, ObjType::Table];

/// Objects below `obj`, with their types.
fn objects(p: &Peer, obj: &ObjId, depth: usize, out: &mut Vec<(String, ObjId, ObjType)>, at: &str) {
    if depth > 4 {
        return;
    }
    let Ok(t) = p.doc.object_type(obj) else {
        return;
    };
    let values: Vec<(String, AmValue, ObjId)> = match t {
        ObjType::Map | ObjType::Table => p
            .doc
            .map_range(obj, ..)
            .map(|i| (i.key.to_string(), i.value.to_owned(), i.id))
            .collect(),
        _ => p
            .doc
            .list_range(obj, ..)
            .map(|i| (i.index.to_string(), i.value.to_owned(), i.id))
            .collect(),
    };
    for (k, v, id) in values {
        if let AmValue::Object(t) = v {
            let name = format!("{at}/{k}");
            // What nobody but this peer may touch stays out of its reach.
            if name == "/files/keep" || name == "/files/sub/keep" {
                continue;
            }
            objects(p, &id, depth + 1, out, &name);
            out.push((name, id, t));
        }
    }
}

/// Some change of the document. Errors of Automerge mean that nothing was changed.
fn mischief(src: &mut Src, ctx: &mut Ctx, h: &Hostile, p: &mut Peer) {
    let mut objs = vec![("".to_string(), ROOT, ObjType::Map)];
    objects(p, &ROOT, 0, &mut objs, "");
    objs.reverse();
    let (name, id, t) = objs[src.usize(objs.len())].clone();
    let is_map = matches!(t, ObjType::Map | ObjType::Table);
    if is_map {
        let key: String = if name == "/files" {
            match src.weighted(&[4, 3, 1]) {
                0 => h.name(src),
                1 => h.private_name(src),
                _ => "f".into(),
            }
        } else if name.is_empty() {
            (*src.pick(&["other", "x", "files", "states", "Files", "file"])).to_string()
        } else {
            let keys: Vec<String> = p.doc.keys(&id).collect();
            match keys.first() {
                Some(_) if src.bool() => src.pick(&keys).clone(),
                _ => (*src.pick(&["a", "0-0", "peer-1", "b"])).to_string(),
            }
        };
        match src.weighted(&[3, 4, 2, 1]) {
            0 => {
                let v = scalar(src);
                ctx.log(format!("mischief: {name}/{key:?} = {v:?}"));
                let _ = p.doc.put(&id, key, v);
            }
            1 => {
                let t = *src.pick(&TYPES);
                ctx.log(format!("mischief: {name}/{key:?} becomes a {t:?}"));
                if let Ok(o) = p.doc.put_object(&id, key, t) {
                    fill(src, ctx, h, p, &o, t);
                }
            }
            2 => {
                ctx.log(format!("mischief: {name}/{key:?} is deleted"));
                let _ = p.doc.delete(&id, key);
            }
            _ => {
                ctx.log(format!("mischief: {name}/{key:?} is incremented"));
                let _ = p.doc.increment(&id, key, 1);
            }
        }
    } else {
        let len = p.doc.length(&id);
        let at = src.usize(len + 1);
        match src.weighted(&[3, 2, 2, 2, 2, 2, 1]) {
            0 => {
                let v = element(src, t);
                ctx.log(format!("mischief: {name}: insert {v:?} at {at}"));
                let _ = p.doc.insert(&id, at, v);
            }
            1 => {
                let t = *src.pick(&TYPES);
                ctx.log(format!("mischief: {name}: insert a {t:?} at {at}"));
                if let Ok(o) = p.doc.insert_object(&id, at, t) {
                    fill(src, ctx, h, p, &o, t);
                }
            }
            // Automerge itself reports wrong positions after overwriting elements of a text.
            2 if len > 0 && t != ObjType::Text => {
                let v = element(src, t);
                ctx.log(format!("mischief: {name}: put {v:?} at {}", at % len));
                let _ = p.doc.put(&id, at % len, v);
            }
            3 if len > 0 => {
                ctx.log(format!("mischief: {name}: delete at {}", at % len));
                let _ = p.doc.delete(&id, at % len);
            }
            4 if len > 0 => {
                let (a, b) = (at % len, len);
                ctx.log(format!("mischief: {name}: mark {a}..{b}"));
                let _ = p.doc.mark(&id, Mark::new("bold".into(), true, a, b), ExpandMark::Both);
            }
            5 => {
                let del = src.usize(len - at + 1).min(3);
                let s = (*src.pick(&["abc", "", "ü\n🥕", "{}", "null"])).to_string();
                ctx.log(format!("mischief: {name}: splice {del} at {at} by {s:?}"));
                let _ = p.doc.splice_text(&id, at, del as isize, &s);
            }
            _ => {
                let v = ScalarValue::Str("\n".into());
                ctx.log(format!("mischief: {name}: insert {v:?} at {at}"));
                let _ = p.doc.insert(&id, at, v);
            }
        }
    }
}

fn fill(src: &mut Src, ctx: &mut Ctx, h: &Hostile, p: &mut Peer, id: &ObjId, t: ObjType) {
    if t == ObjType::Text {
        let rel = if src.bool() { h.name(src) } else { h.private_name(src) };
        let s = match src.usize(9) {
            0 => "".to_string(),
            1 => "plain\n".to_string(),
            2 => "{".to_string(),
            3 => "{}".to_string(),
            4 => json!({"cursor_id": "c", "name": null, "file_path": rel, "ranges": []}).to_string(),
            5 => json!({"cursor_id": "c", "name": "n", "file_path": rel, "ranges": [{"start": {"line": u64::MAX, "character": 7}, "end": {"line": 0, "character": 0}}]}).to_string(),
            6 => json!({"cursor_id": 5, "name": "n", "file_path": "f", "ranges": "x"}).to_string(),
            7 => json!({"cursor_id": "c", "name": "n", "file_path": "f", "ranges": [{"start": {"line": -1, "character": 7}, "end": {"line": 0, "character": 0}}]}).to_string(),
            _ => "🥕\u{2028}\u{0}".to_string(),
        };
        ctx.log(format!("  with {s:?}"));
        let _ = p.doc.splice_text(id, 0, 0, &s);
    } else if src.bool() {
        let v = scalar(src);
        let _ = match t {
            ObjType::List => p.doc.insert(id, 0, v),
            _ => p.doc.put(id, "k", v),
        };
    }
}

async fn run(src: &mut Src, ctx: &mut Ctx) -> R<()> {
    let h = Hostile::new(&ctx.scratch);
    let nodes = vec![Node::start("n0", &h.proj, false, true)?];
    let n = &nodes[0];
    let (mut bad, mut good) = (Peer::new(), Peer::new());
    let mut bad_link = PeerLink::new(n, &mut bad);
    let mut good_link = PeerLink::new(n, &mut good);
    let mut ed = Ed::connect(&nodes, 0).await?;
    bad_link.settle(n, &mut bad).await?;
    good_link.settle(n, &mut good).await?;
    let (mut bad_changes, mut typed_after) = (0, 0);
    let steps = 4 + src.usize(if ctx.thorough { 40 } else { 20 });
    for _ in 0..steps {
        match src.weighted(&[7, 3, 4, 1, 1, 1]) {
            0 => {
                for _ in 0..1 + src.usize(3) {
                    mischief(src, ctx, &h, &mut bad);
                    bad_changes += 1;
                }
            }
            1 => {
                let name = *src.pick(&["f", "g", "sub/x"]);
                if ed.bufs.contains_key(name) {
                    continue;
                }
                ctx.log(format!("editor opens {name}"));
                // It may be gone or hidden now, so a refusal is fine.
                ed.open(&nodes, name).await?;
            }
            2 => {
                let names: Vec<String> = ed.bufs.keys().cloned().collect();
                if names.is_empty() {
                    continue;
                }
                let name = src.pick(&names).clone();
                let (at, del) = text::gen_splice(src, ed.bufs[&name].text.len());
                let ins = text::gen_plain(src, 3);
                ctx.log(format!("editor: {name} replace {del} at {at} by {ins:?}"));
                ed.user_edit(&name, at, del, &ins);
                if bad_changes > 0 {
                    typed_after += 1;
                }
            }
            3 => {
                let Some(name) = ed.bufs.keys().next().cloned() else {
                    continue;
                };
                ctx.log(format!("editor closes {name}"));
                ed.close(&name);
            }
            4 => {
                if let Some(id) = good.text_obj("f") {
                    ctx.log("the other peer types");
                    let _ = good.doc.splice_text(&id, 0, 0, "hi");
                }
            }
            _ => {
                let uri = ed.uri("f");
                ctx.log("editor moves its cursor");
                ed.request("cursor", json!({"uri": uri, "ranges": []}));
            }
        }
        // In any order.
        for _ in 0..src.usize(4) {
            match src.usize(3) {
                0 => {
                    let w = src.usize(4);
                    bad_link.step(n, &mut bad, w).await?;
                }
                1 => {
                    ed.deliver(&nodes).await?;
                }
                _ => {
                    ed.drain()?;
                    ed.process()?;
                }
            }
            ed.drain()?;
        }
        if src.chance(1, 4) {
            continue;
        }
        settle(&nodes, &mut ed, (&mut bad, &mut bad_link), (&mut good, &mut good_link)).await?;
        check(&h, n, &ed, &good).await?;
    }
    settle(&nodes, &mut ed, (&mut bad, &mut bad_link), (&mut good, &mut good_link)).await?;
    check(&h, n, &ed, &good).await?;

    // Everybody can still work.
    if ed.bufs.is_empty() {
        let name = "sub/serving";
        if !ed.open(&nodes, name).await? && h.proj.join("sub").is_dir() {
            return fail("not-serving", "a new file can not be opened any more");
        }
    }
    if let Some(name) = ed.bufs.keys().next().cloned() {
        ed.user_edit(&name, 0, 0, "STILL HERE");
        settle(&nodes, &mut ed, (&mut bad, &mut bad_link), (&mut good, &mut good_link)).await?;
        let got = good.text_obj(&name).map(|id| good.doc.text(&id).expect("text"));
        if !got.as_deref().is_some_and(|t| t.contains("STILL HERE")) {
            return fail("not-serving", format!("an edit of {name} did not reach the other peer, who has {got:?}"));
        }
        check(&h, n, &ed, &good).await?;
    }
    // And it starts again from what was saved.
    n.persist().await?;
    ctx.log("restart");
    let again = Node::start("n0 again", &h.proj, false, true)?;
    again.barrier("its start").await?;
    check_files(&h)?;
    ctx.nontrivial = bad_changes >= 3 && typed_after > 0;
    Ok(())
}

async fn settle(nodes: &[Node], ed: &mut Ed, bad: (&mut Peer, &mut PeerLink), good: (&mut Peer, &mut PeerLink)) -> R<()> {
    for _ in 0..200 {
        let mut any = false;
        while ed.deliver(nodes).await? {
            any = true;
            ed.drain()?;
        }
        any |= bad.1.settle(&nodes[0], bad.0).await?;
        any |= good.1.settle(&nodes[0], good.0).await?;
        ed.drain()?;
        any |= ed.process_all()?;
        if !any {
            return Ok(());
        }
    }
    fail("world-does-not-settle", "messages never ended")
}

fn check_files(h: &Hostile) -> R<()> {
    h.check_outside()?;
    h.check_private()?;
    for (f, t) in [("keep", "keep me\n"), ("sub/keep", "me too")] {
        let d = std::fs::read_to_string(h.proj.join(f)).ok();
        if d.as_deref() != Some(t) {
            return fail("other-file-changed", format!("{f} on disk is {d:?}, expected {t:?}"));
        }
    }
    Ok(())
}

async fn check(h: &Hostile, n: &Node, ed: &Ed, good: &Peer) -> R<()> {
    n.barrier("anything").await?;
    check_files(h)?;
    let mut now = Peer::new();
    now.sync(n).await?;
    for (path, buf) in &ed.bufs {
        let b = text::to_string(&buf.text);
        if let Some(id) = now.text_obj(path) {
            let s = now.doc.text(&id).expect("text");
            if s != b {
                return fail("buffer-differs", format!("the buffer of {path} is {b:?}, the shared text is {s:?}"));
            }
        }
    }
    for path in ["f", "g", "sub/x", "keep", "sub/keep"] {
        let t = |p: &Peer| p.text_obj(path).map(|id| p.doc.text(&id).expect("text"));
        if t(&now) != t(good) {
            return fail("peer-differs", format!("{path}: the daemon has {:?}, the other peer {:?}", t(&now), t(good)));
        }
    }
    Ok(())
}
