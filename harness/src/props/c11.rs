//! Every editor request gets exactly one answer.

use crate::{
    runner::{fail, CaseResult, Ctx, Prop},
    tape::Src,
    text,
    world::{block_on, project, read_tree, Ed, Node, Peer, World, R},
};
use automerge::ReadDoc;
use serde_json::{json, Value};
use std::collections::{BTreeMap, VecDeque};

pub fn prop() -> Prop {
    Prop {
        id: "C11",
        level: "exploration",
        rule: "a case is a stream of requests, notifications and invalid messages of one editor while another one types; \
               non-trivial if it has successes, errors, notifications and invalid text, each at least once",
        assumptions: &[
            "request ids are non-negative integers, as in the plugins; other ids make a message invalid",
            "closing a file that is not open may be answered either way",
        ],
        quick: 8_000,
        thorough: 200_000,
        threads: 8,
        case_timeout_s: 60,
        exhaustive: false,
        case,
    }
}

fn case(src: &mut Src, ctx: &mut Ctx, _i: usize) -> CaseResult {
    block_on(run(src, ctx))
}

#[derive(Debug, Clone, Copy, PartialEq)]
enum Want {
    Ok,
    Err,
}

/// What must not change when a request is answered with an error.
#[derive(Debug, PartialEq)]
struct State {
    shared: BTreeMap<String, String>,
    cursors: BTreeMap<String, String>,
    disk: BTreeMap<String, Vec<u8>>,
}

async fn state(n: &Node) -> R<State> {
    let mut p = Peer::new();
    p.sync(n).await?;
    let mut cursors = BTreeMap::new();
    if let Some(m) = p.map("states") {
        for k in p.doc.keys(&m).collect::<Vec<_>>() {
            let t = match p.doc.get(&m, k.as_str()) {
                Ok(Some((_, id))) => p.doc.text(&id).unwrap_or_default(),
                _ => String::new(),
            };
            cursors.insert(k, t);
        }
    }
    Ok(State {
        shared: p.files()?,
        cursors,
        disk: read_tree(&n.dir),
    })
}

fn unchanged(before: &State, mut after: State, what: &str) -> R<()> {
    // It may have created an empty file.
    after
        .disk
        .retain(|p, b| !b.is_empty() || before.disk.contains_key(p));
    if *before != after {
        return fail(
            "error-had-effect",
            format!("{what} was answered with an error but changed {before:?} to {after:?}"),
        );
    }
    Ok(())
}

struct S {
    w: World,
    /// Answers that have to come, in order; None for messages without a valid id.
    want: VecDeque<(Option<u64>, Want, String)>,
    got: Vec<bool>,
}

impl S {
    /// Takes all answers the editor under test has received, in order.
    fn answers(&mut self) -> R<()> {
        let e = &mut self.w.eds[0];
        e.drain()?;
        e.process_all()?;
        for m in std::mem::take(&mut e.answers) {
            let Some((id, want, what)) = self.want.pop_front() else {
                return fail("unexpected-answer", format!("nobody asked, but the daemon answered {m}"));
            };
            let (result, error) = (m.get("result").is_some(), m.get("error").is_some_and(Value::is_object));
            if m["jsonrpc"] != "2.0" || result == error {
                return fail("malformed-answer", format!("{m}"));
            }
            if m["id"] != id.map_or(Value::Null, |i| json!(i)) {
                return fail("wrong-id", format!("the answer to {what} is {m}"));
            }
            if want == Want::Ok && !result || want == Want::Err && result {
                return fail("wrong-answer", format!("the answer to {what} is {m}"));
            }
            self.got.push(result);
        }
        Ok(())
    }
}

/// Text that is no valid message.
pub fn garbage(src: &mut Src, uri: &str) -> String {
    let edit = json!([{"range": {"start": {"line": 0, "character": 0}, "end": {"line": 0, "character": 0}}, "replacement": "G"}]);
    let v = match src.usize(24) {
        0 => return String::new(),
        1 => return "{".into(),
        2 => return "hello".into(),
        3 => return format!("{{\"jsonrpc\":\"2.0\",\"id\":3,\"method\":\"open\",\"params\":{{\"uri\":\"{uri}\"}}"),
        4 => return "\u{0}\u{1}🥕".into(),
        5 => json!(null),
        6 => json!(5),
        7 => json!([]),
        8 => json!([{"jsonrpc":"2.0","id":3,"method":"open","params":{"uri":uri}}]),
        9 => json!({}),
        10 => json!({"jsonrpc":"2.0","id":3}),
        11 => json!({"jsonrpc":"2.0","id":3,"method":"unknown","params":{"uri":uri}}),
        12 => json!({"jsonrpc":"2.0","method":"unknown","params":{}}),
        13 => json!({"jsonrpc":"2.0","id":3,"method":"open"}),
        14 => json!({"jsonrpc":"2.0","id":3,"method":"open","params":{}}),
        15 => json!({"jsonrpc":"2.0","id":3,"method":"open","params":{"uri":7}}),
        16 => json!({"jsonrpc":"2.0","id":3,"method":"edit","params":{"uri":uri,"revision":-1,"delta":edit}}),
        17 => json!({"jsonrpc":"2.0","id":3,"method":"edit","params":{"uri":uri,"revision":0,"delta":"x"}}),
        18 => json!({"jsonrpc":"2.0","id":3,"method":"edit","params":{"uri":uri,"delta":edit}}),
        19 => json!({"jsonrpc":"2.0","id":3,"method":"cursor","params":{"uri":uri,"ranges":[{"start":{"line":0}}]}}),
        20 => json!({"jsonrpc":"2.0","id":"a string","method":"close","params":{"uri":uri}}),
        21 => json!({"jsonrpc":"2.0","id":-4,"method":"edit","params":{"uri":uri,"revision":0,"delta":edit}}),
        22 => json!({"jsonrpc":"2.0","id":1.5,"method":"edit","params":{"uri":uri,"revision":0,"delta":edit}}),
        _ => json!({"jsonrpc":"2.0","id":null,"method":"edit","params":{"uri":uri,"revision":0,"delta":edit}}),
    };
    v.to_string()
}

async fn run(src: &mut Src, ctx: &mut Ctx) -> R<()> {
    let dir = project(&ctx.scratch, "n0");
    let outside = ctx.scratch.join("outside");
    std::fs::create_dir_all(&outside).expect("mkdir");
    std::fs::write(outside.join("o"), "outside").expect("write");
    std::fs::create_dir_all(dir.join("d")).expect("mkdir");
    std::fs::create_dir_all(dir.join(".git")).expect("mkdir");
    for (f, t) in [
        ("f", "one\ntwo\n"),
        ("g", "no newline"),
        ("d/h", ""),
        (".ignore", "*.ign\n"),
        ("x.ign", "ignored"),
        (".git/config", "private"),
    ] {
        std::fs::write(dir.join(f), t).expect("write");
    }
    std::fs::write(dir.join("bin"), [0u8, 255, 254]).expect("write");
    let mut w = World::default();
    w.add_node(Node::start("n0", &dir, false, true)?);
    let ed = Ed::connect(&w.nodes, 0).await?;
    w.eds.push(ed);
    let other = Ed::connect(&w.nodes, 0).await?;
    w.eds.push(other);
    let mut s = S {
        w,
        want: VecDeque::new(),
        got: vec![],
    };
    let (mut notifications, mut invalid) = (0, 0);
    let mut last_rev: BTreeMap<String, usize> = BTreeMap::new();
    let mut cursor_count = 0;
    let steps = 5 + src.usize(if ctx.thorough { 40 } else { 20 });
    for _ in 0..steps {
        let open: Vec<String> = s.w.eds[0].bufs.keys().cloned().collect();
        // Ids need not be consecutive.
        s.w.eds[0].next_request = match src.weighted(&[4, 2, 1, 1]) {
            0 => s.w.eds[0].next_request,
            1 => src.below(1000),
            2 => (1 << 53) + src.below(1000),
            _ => 0,
        };
        let rid = s.w.eds[0].next_request;
        let uri = s.w.eds[0].uri(open.first().map_or("f", String::as_str));
        // Kinds that need everything before to be answered are sent alone.
        let kind = src.weighted(&[4, 8, 5, 2, 3, 4, 4, 3]);
        let mut want = Want::Ok;
        let mut model: Option<String> = None;
        let mut opened: Option<String> = None;
        let mut cursor: Option<Value> = None;
        match kind {
            0 => {
                let name = *src.pick(&["f", "g", "d/h", "new", "d/new"]);
                if open.iter().any(|o| o == name) {
                    continue;
                }
                s.w.settle().await?;
                s.answers()?;
                let u = s.w.eds[0].uri(name);
                s.w.eds[0].request("open", json!({ "uri": u }));
                opened = Some(name.into());
            }
            1 if !open.is_empty() => {
                let name = src.pick(&open).clone();
                let b = &s.w.eds[0].bufs[&name];
                let (at, del) = text::gen_splice(src, b.text.len());
                let ins = text::gen_string(src, 4);
                last_rev.insert(name.clone(), b.daemon_rev);
                s.w.eds[0].user_edit(&name, at, del, &ins);
                model = Some(name);
            }
            2 => {
                // Edits that can not be carried out.
                want = Want::Err;
                let name = open.first().map_or("f", String::as_str).to_string();
                let (rev, len, lines) = s.w.eds[0]
                    .bufs
                    .get(&name)
                    .map_or((0, 0, 1), |b| (b.daemon_rev, b.text.len(), text::pos_of(&b.text, b.text.len()).0 + 1));
                let zero = json!({"line": 0, "character": 0});
                let range = |a: Value, b: Value| json!({"start": a, "end": b});
                let ok_range = range(zero.clone(), zero.clone());
                let far = json!({"line": lines + src.usize(3), "character": 0});
                let wide = json!({"line": src.usize(lines), "character": len + 2 + src.usize(3)});
                let huge = json!({"line": u64::MAX, "character": u64::MAX});
                let one = |r: Value| json!([{"range": r, "replacement": "E"}]);
                let u = s.w.eds[0].uri(&name);
                let p = match src.usize(11) {
                    0 => json!({"uri": u, "revision": rev + 1000, "delta": one(ok_range)}),
                    1 => json!({"uri": u, "revision": rev, "delta": one(range(zero, far))}),
                    2 => json!({"uri": u, "revision": rev, "delta": one(range(far.clone(), far))}),
                    3 => json!({"uri": u, "revision": rev, "delta": one(range(zero, wide))}),
                    4 => json!({"uri": u, "revision": rev, "delta": one(range(wide.clone(), wide))}),
                    5 => json!({"uri": u, "revision": rev, "delta": one(range(huge.clone(), huge))}),
                    6 => json!({"uri": s.w.eds[0].uri("never-opened"), "revision": 0, "delta": one(ok_range)}),
                    7 => json!({"uri": format!("file://{}/o", outside.display()), "revision": 0, "delta": one(ok_range)}),
                    8 => json!({"uri": s.w.eds[0].uri(".git/config"), "revision": 0, "delta": one(ok_range)}),
                    9 => match last_rev.get(&name) {
                        Some(r) if *r > 0 && s.w.eds[0].bufs.contains_key(&name) => {
                            json!({"uri": u, "revision": r - 1, "delta": one(ok_range)})
                        }
                        _ => json!({"uri": "f", "revision": 0, "delta": one(ok_range)}),
                    },
                    _ => json!({"uri": u, "revision": u64::MAX, "delta": one(ok_range)}),
                };
                s.w.eds[0].request("edit", p);
            }
            3 if !open.is_empty() => {
                let name = src.pick(&open).clone();
                s.w.eds[0].close(&name);
                last_rev.remove(&name);
            }
            4 => {
                // Opening or closing what can not be opened.
                want = Want::Err;
                let (a, b) = (s.w.eds[0].uri(""), format!("file://{}/o", outside.display()));
                let names = ["x.ign", "y.ign", ".git/config", ".git/new", ".ethersync/new", "bin", "d", "../outside/o"];
                let u = match src.weighted(&[6, 1, 1, 1, 1, 1]) {
                    0 => s.w.eds[0].uri(src.pick(&names)),
                    1 => a,
                    2 => b,
                    3 => "http://example.org/f".into(),
                    4 => "/f".into(),
                    _ => "file://f".into(),
                };
                s.w.eds[0].request("open", json!({ "uri": u }));
            }
            5 => {
                let n = src.usize(3);
                let r: Vec<Value> = (0..n)
                    .map(|_| json!({"start": {"line": src.usize(9), "character": src.usize(9)}, "end": {"line": src.usize(9), "character": src.usize(9)}}))
                    .collect();
                let name = *src.pick(&["f", "g", "d/h"]);
                let u = match src.weighted(&[5, 1]) {
                    0 => s.w.eds[0].uri(name),
                    _ => {
                        want = Want::Err;
                        format!("file://{}/o", outside.display())
                    }
                };
                let p = json!({"uri": u, "ranges": r});
                if want == Want::Ok {
                    cursor = Some(p.clone());
                }
                s.w.eds[0].request("cursor", p);
            }
            6 => {
                invalid += 1;
                want = Want::Err;
                let g = garbage(src, &uri);
                s.w.eds[0].out.push_back(g);
            }
            7 => {
                let name = *src.pick(&["f", "g"]);
                if s.w.eds[1].bufs.contains_key(name) {
                    let (at, del) = text::gen_splice(src, s.w.eds[1].bufs[name].text.len());
                    s.w.eds[1].user_edit(name, at, del, "o");
                    if src.bool() {
                        s.w.eds[1].deliver(&s.w.nodes).await?;
                    }
                } else {
                    s.w.eds[1].open(&s.w.nodes, name).await?;
                }
                s.w.drain_all()?;
                continue;
            }
            _ => continue,
        }
        let mut what = s.w.eds[0].out.back().expect("message").clone();
        let mut id = Some(rid);
        if kind == 6 {
            id = None;
        } else if src.chance(1, 4) {
            // The same as a notification.
            let mut v: Value = serde_json::from_str(&what).expect("json");
            v.as_object_mut().unwrap().remove("id");
            what = v.to_string();
            *s.w.eds[0].out.back_mut().unwrap() = what.clone();
            notifications += 1;
            ctx.log(format!("notification {what}"));
            id = None;
            if opened.is_some() {
                // It starts tracking as soon as the daemon has it.
                let name = opened.take().unwrap();
                let content = s.w.nodes[0].disk_text(&name).unwrap_or_default();
                s.w.eds[0].deliver(&s.w.nodes).await?;
                s.w.eds[0].bufs.insert(
                    name,
                    crate::world::Buf {
                        text: text::to_text(&content),
                        editor_rev: 0,
                        daemon_rev: 0,
                    },
                );
                s.answers()?;
            }
        } else {
            ctx.log(format!("{what}"));
        }
        if kind == 6 || id.is_some() {
            s.want.push_back((id, want, what.clone()));
        }
        if let Some(name) = opened {
            let content = s.w.nodes[0].disk_text(&name).unwrap_or_default();
            s.w.eds[0].deliver(&s.w.nodes).await?;
            s.w.eds[0].bufs.insert(
                name.clone(),
                crate::world::Buf {
                    text: text::to_text(&content),
                    editor_rev: 0,
                    daemon_rev: 0,
                },
            );
            s.answers()?;
            if !s.w.nodes[0].shared().await?.contains_key(&name) {
                return fail("success-without-effect", format!("{name} was opened but is not shared"));
            }
            continue;
        }
        if want == Want::Err && src.bool() {
            // Alone, to see that it has no effect.
            while s.w.eds[0].out.len() > 1 {
                s.w.eds[0].deliver(&s.w.nodes).await?;
                s.w.drain_all()?;
            }
            let before = state(&s.w.nodes[0]).await?;
            s.w.eds[0].deliver(&s.w.nodes).await?;
            s.answers()?;
            unchanged(&before, state(&s.w.nodes[0]).await?, &what)?;
            continue;
        }
        if src.bool() {
            s.w.settle().await?;
            s.answers()?;
            if let Some(name) = model {
                let shared = s.w.nodes[0].shared().await?;
                let b = text::to_string(&s.w.eds[0].bufs[&name].text);
                if shared.get(&name) != Some(&b) {
                    return fail("success-without-effect", format!("after {what}, the text is {:?} instead of {b:?}", shared.get(&name)));
                }
            }
            if let Some(c) = cursor {
                let seen = &s.w.eds[1].cursors;
                cursor_count += 1;
                if seen.last().is_none_or(|l| l["uri"] != c["uri"] || l["ranges"] != c["ranges"]) {
                    return fail("success-without-effect", format!("the cursor of {what} did not arrive: {:?}", seen.last()));
                }
            }
        }
    }
    s.w.settle().await?;
    s.answers()?;
    if let Some((id, _, what)) = s.want.front() {
        return fail("no-answer", format!("no answer with id {id:?} to {what}"));
    }
    let (ok, err) = (s.got.iter().filter(|o| **o).count(), s.got.iter().filter(|o| !**o).count());
    if cursor_count > 0 {
        ctx.label("cursor");
    }
    ctx.nontrivial = ok > 0 && err > 0 && notifications > 0 && invalid > 0;
    Ok(())
}
