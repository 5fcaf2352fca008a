//! Cursors reach everybody else, unchanged, and disappear with their editor.

use crate::{
    runner::{fail, CaseResult, Ctx, Prop},
    tape::Src,
    text,
    world::{block_on, project, Ed, Node, World, R},
};
use serde_json::{json, Value};
use std::collections::{BTreeMap, BTreeSet};

pub fn prop() -> Prop {
    Prop {
        id: "C13",
        level: "exploration",
        rule: "a case is a history of cursor reports, edits, connects and disconnects of editors on 1-3 daemons with delayed and broken links; \
               non-trivial if at least three reports were made, editors of another connection were there to receive them, and one reporter left",
        assumptions: &["the daemons were connected once before the first cursor report"],
        quick: 8_000,
        thorough: 200_000,
        threads: 8,
        case_timeout_s: 60,
        exhaustive: false,
        case,
    }
}

fn case(src: &mut Src, ctx: &mut Ctx, _i: usize) -> CaseResult {
    block_on(run(src, ctx))
}

const NAMES: [&str; 5] = ["f", "g", "sub/x", " a b%41 ", "ü/🥕"];

/// What an editor wrote to its daemon.
#[derive(Clone, Debug, PartialEq)]
struct Report {
    /// None when the editor left.
    name: Option<String>,
    ranges: Value,
}

#[derive(Default)]
struct Who {
    reports: Vec<Report>,
    /// Set when somebody received a cursor of this connection.
    id: Option<String>,
    gone: bool,
    /// Whether it left while a file was shared.
    must_disappear: bool,
}

struct State {
    w: World,
    who: Vec<Who>,
    /// For each receiver: cursors read so far, and per id the last one.
    last: Vec<BTreeMap<String, Report>>,
    /// For each receiver and reporter: the number of the newest report that must have been
    /// received when everything is settled.
    due: Vec<BTreeMap<usize, usize>>,
    read: Vec<usize>,
}

impl State {
    async fn connect(&mut self, node: usize) -> R<()> {
        let e = Ed::connect(&self.w.nodes, node).await?;
        self.w.eds.push(e);
        self.who.push(Who::default());
        self.last.push(BTreeMap::new());
        self.due.push(BTreeMap::new());
        self.read.push(0);
        Ok(())
    }

    fn alive(&self) -> Vec<usize> {
        (0..self.w.eds.len()).filter(|&i| !self.who[i].gone).collect()
    }

    /// Everything connected now has to learn about the newest report of `from`.
    fn demand(&mut self, from: usize) {
        let n = self.who[from].reports.len() - 1;
        for i in self.alive() {
            if i != from {
                self.due[i].insert(from, n);
            }
        }
    }

    fn read(&mut self) -> R<()> {
        self.w.drain_all()?;
        for i in 0..self.w.eds.len() {
            self.w.eds[i].process_all()?;
            while self.read[i] < self.w.eds[i].cursors.len() {
                let c = self.w.eds[i].cursors[self.read[i]].clone();
                self.read[i] += 1;
                self.receive(i, &c)?;
            }
        }
        Ok(())
    }

    fn receive(&mut self, i: usize, c: &Value) -> R<()> {
        let Some(id) = c["userid"].as_str().map(String::from) else {
            return fail("bad-cursor", format!("cursor without id: {c}"));
        };
        let prefix = format!("file://{}/", self.w.eds[i].dir.display());
        let empty = c["ranges"] == json!([]);
        let name = c["uri"].as_str().and_then(|u| u.strip_prefix(&prefix)).map(String::from);
        if name.is_none() && !empty {
            return fail("bad-cursor", format!("cursor in a strange place: {c}"));
        }
        let got = Report {
            name,
            ranges: c["ranges"].clone(),
        };
        if !empty {
            // Every report has its own numbers, so its origin is known.
            let from = self.who.iter().position(|w| w.reports.iter().any(|r| r.ranges == got.ranges));
            let Some(from) = from else {
                return fail("cursor-changed", format!("editor {i} received {c}, which nobody reported"));
            };
            let n = self.who[from].reports.iter().position(|r| r.ranges == got.ranges).unwrap();
            if self.who[from].reports[n] != got {
                return fail("cursor-changed", format!("editor {i} received {c} for {:?}", self.who[from].reports[n]));
            }
            if from == i {
                return fail("own-cursor", format!("editor {i} received its own cursor"));
            }
            match &self.who[from].id {
                None => {
                    if let Some(other) = self.who.iter().position(|w| w.id.as_ref() == Some(&id)) {
                        return fail("id-not-unique", format!("{id} is used for editor {other} and editor {from}"));
                    }
                    self.who[from].id = Some(id.clone());
                }
                Some(known) if *known != id => {
                    return fail("id-not-stable", format!("editor {from} was {known}, now it is {id}"));
                }
                _ => {}
            }
            if let Some(before) = self.last[i].get(&id) {
                // An older report after a newer one would be left standing.
                let m = self.who[from].reports.iter().position(|r| r.ranges == before.ranges);
                if before.ranges != json!([]) && m.is_some_and(|m| m > n) {
                    return fail("old-report-last", format!("editor {i} received {c} after {before:?}"));
                }
            }
        } else if self.who[i].id.as_ref() == Some(&id) {
            return fail("own-cursor", format!("editor {i} received its own (empty) cursor"));
        }
        self.last[i].insert(id, got);
        Ok(())
    }

    /// The newest reports have been received by those editors for which `now` holds.
    fn check(&self, now: impl Fn(&Self, usize, usize) -> bool) -> R<()> {
        for i in self.alive() {
            for (&from, &n) in &self.due[i] {
                if !now(self, i, from) {
                    continue;
                }
                let want = &self.who[from].reports[n];
                let got = self.who[from].id.as_ref().and_then(|id| self.last[i].get(id));
                let empty = want.ranges == json!([]);
                if got.is_none() && empty && self.who[from].id.is_none() {
                    // Nobody ever saw a cursor of it.
                    continue;
                }
                let right = match got {
                    None => false,
                    // Which file an empty list is for is only fixed for reports.
                    Some(g) if empty => g.ranges == want.ranges && (want.name.is_none() || g.name == want.name || self.who[from].gone),
                    Some(g) => g == want,
                };
                if !right {
                    let kind = if want.name.is_none() { "cursor-stays" } else { "cursor-missing" };
                    return fail(kind, format!("editor {i} last got {got:?} of editor {from}, which reported {want:?}"));
                }
            }
        }
        Ok(())
    }

    fn check_local(&self) -> R<()> {
        self.check(|s, i, from| s.w.eds[i].node == s.w.eds[from].node)
    }
}

fn ranges(src: &mut Src, counter: &mut usize) -> Value {
    if src.chance(1, 8) {
        return json!([]);
    }
    let n = 1 + src.weighted(&[6, 2, 1]);
    let mut list = vec![];
    for _ in 0..n {
        *counter += 1;
        let a = json!({"line": *counter, "character": src.below(5)});
        let b = match src.usize(5) {
            0 | 1 => a.clone(),
            2 => json!({"line": *counter + 1 + src.usize(3), "character": 0}),
            3 => json!({"line": *counter - 1, "character": src.below(100_000)}),
            _ => json!({"line": *counter, "character": src.below(7)}),
        };
        list.push(json!({"start": a, "end": b}));
    }
    json!(list)
}

async fn run(src: &mut Src, ctx: &mut Ctx) -> R<()> {
    let n = 1 + src.usize(3);
    ctx.label(["1 daemon", "2 daemons", "3 daemons"][n - 1]);
    let mut w = World::default();
    let empty = src.chance(1, 12);
    for i in 0..n {
        let dir = project(&ctx.scratch, &format!("n{i}"));
        if i == 0 && !empty {
            for name in NAMES {
                std::fs::create_dir_all(dir.join(name).parent().unwrap()).expect("mkdir");
                std::fs::write(dir.join(name), "one\ntwo\n").expect("write");
            }
        }
        w.add_node(Node::start(&format!("n{i}"), &dir, false, i == 0)?);
    }
    for i in 1..n {
        let to = src.usize(i);
        w.link(to, i);
    }
    w.settle().await?;
    let mut s = State {
        w,
        who: vec![],
        last: vec![],
        due: vec![],
        read: vec![],
    };
    for i in 0..n {
        s.connect(i).await?;
    }
    let node = src.usize(n);
    s.connect(node).await?;
    let (mut counter, mut received, mut left) = (0, 0, 0);
    let steps = 10 + src.usize(if ctx.thorough { 80 } else { 40 });
    let mut single = false;
    for _ in 0..steps {
        let alive = s.alive();
        // Often only one thing happens between two quiet moments.
        let what = if std::mem::take(&mut single) {
            6
        } else {
            src.weighted(&[10, 12, 2, 2, 3, 1, 2])
        };
        let what = if what == 6 && src.bool() {
            settle(&mut s).await?;
            single = true;
            src.weighted(&[10, 0, 2, 6, 2, 0, 0])
        } else {
            what
        };
        match what {
            0 if !alive.is_empty() => {
                let e = *src.pick(&alive);
                let name = src.pick(&NAMES).to_string();
                let r = ranges(src, &mut counter);
                ctx.log(format!("editor {e} on daemon {}: cursor in {name}: {r}", s.w.eds[e].node));
                let uri = s.w.eds[e].uri(&name);
                let p = json!({"uri": uri, "ranges": r});
                if src.bool() {
                    s.w.eds[e].request("cursor", p);
                } else {
                    s.w.eds[e].out.push_back(json!({"jsonrpc": "2.0", "method": "cursor", "params": p}).to_string());
                }
                s.w.eds[e].deliver(&s.w.nodes).await?;
                s.who[e].reports.push(Report { name: Some(name), ranges: r });
                s.demand(e);
                received += alive.len() - 1;
            }
            1 if !s.w.links.is_empty() => {
                let l = src.usize(s.w.links.len());
                let (what, to) = (src.bool(), src.bool());
                let link = &mut s.w.links[l];
                if what {
                    if link.generate(&s.w.nodes, to).await? {
                        ctx.log(format!("link {l}: daemon {} talks", if to { link.a } else { link.b }));
                    }
                } else if link.deliver(&s.w.nodes, to).await? {
                    ctx.log(format!("link {l}: daemon {} hears", if to { link.b } else { link.a }));
                }
            }
            2 if s.w.eds.len() < 12 => {
                let node = src.usize(n);
                ctx.log(format!("editor {} connects to daemon {node}", s.w.eds.len()));
                s.connect(node).await?;
            }
            3 if alive.len() > 1 => {
                let e = *src.pick(&alive);
                ctx.log(format!("editor {e} disconnects"));
                let shared = !s.w.nodes[s.w.eds[e].node].shared().await?.is_empty();
                s.w.eds[e].disconnect(&s.w.nodes).await?;
                s.who[e].gone = true;
                s.who[e].must_disappear = shared;
                if !s.who[e].reports.is_empty() && shared {
                    left += 1;
                    s.who[e].reports.push(Report {
                        name: None,
                        ranges: json!([]),
                    });
                    s.demand(e);
                } else {
                    // The others may or may not be told.
                    for d in &mut s.due {
                        d.remove(&e);
                    }
                }
            }
            4 if !alive.is_empty() && !empty => {
                let e = *src.pick(&alive);
                let name = *src.pick(&NAMES);
                if !s.w.eds[e].bufs.contains_key(name) && !s.w.eds[e].open(&s.w.nodes, name).await? {
                    continue;
                }
                ctx.log(format!("editor {e} types in {name}"));
                let (at, del) = text::gen_splice(src, s.w.eds[e].bufs[name].text.len());
                s.w.eds[e].user_edit(name, at, del, "t\n");
                s.w.eds[e].deliver(&s.w.nodes).await?;
            }
            5 if !s.w.links.is_empty() => {
                let l = src.usize(s.w.links.len());
                ctx.log(format!("link {l} breaks or is restored"));
                if s.w.links[l].up {
                    s.w.links[l].disconnect();
                } else {
                    s.w.links[l].reconnect(&s.w.nodes);
                }
            }
            6 => {
                ctx.log("settle");
                settle(&mut s).await?;
            }
            _ => continue,
        }
        s.read()?;
        s.check_local()?;
    }
    settle(&mut s).await?;
    let ids: BTreeSet<&String> = s.who.iter().filter_map(|w| w.id.as_ref()).collect();
    ctx.nontrivial = received >= 3 && left > 0 && !ids.is_empty();
    Ok(())
}

async fn settle(s: &mut State) -> R<()> {
    for l in 0..s.w.links.len() {
        if !s.w.links[l].up {
            s.w.links[l].reconnect(&s.w.nodes);
        }
    }
    s.w.settle().await?;
    s.read()?;
    s.check(|_, _, _| true)
}
