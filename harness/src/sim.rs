//! Random histories of people working with several daemons.

use crate::{
    runner::{Ctx, Failure},
    tape::Src,
    text,
    world::{project, Ed, Node, World, R},
};
use std::collections::{BTreeMap, HashMap, HashSet};

/// How often each kind of step is chosen.
#[derive(Clone, Copy, Default)]
pub struct Weights {
    pub edit: u32,
    pub deliver: u32,
    pub process: u32,
    pub catch_up: u32,
    pub link: u32,
    pub cut: u32,
    pub watch: u32,
    pub open: u32,
    pub close: u32,
    pub save: u32,
    pub new_ed: u32,
    pub drop_ed: u32,
    pub disk_write: u32,
    pub disk_create: u32,
    pub disk_delete: u32,
    pub settle: u32,
}

/// Hands out characters that occur only once, and remembers what happened to them.
#[derive(Default)]
pub struct Uniq {
    next: u32,
    /// Which run a character was typed in, and its place in it.
    pub typed: HashMap<char, (usize, usize)>,
    pub runs: usize,
    pub deleted: HashSet<char>,
}

impl Uniq {
    pub fn fresh(&mut self, src: &mut Src, max: usize) -> String {
        let n = src.usize(max + 1);
        let run = self.runs;
        self.runs += 1;
        let mut out = String::new();
        for i in 0..n {
            if src.chance(1, 6) {
                out.push('\n');
                continue;
            }
            // CJK and beyond: plenty of distinct characters. Some need two UTF-16 units.
            let c = loop {
                let code = if self.next % 5 == 4 {
                    0x1_F300 + self.next
                } else {
                    0x4E00 + self.next
                };
                self.next += 1;
                if let Some(c) = char::from_u32(code) {
                    break c;
                }
            };
            self.typed.insert(c, (run, i));
            out.push(c);
        }
        out
    }

    pub fn delete(&mut self, gone: &[char]) {
        for c in gone {
            if *c != '\n' {
                self.deleted.insert(*c);
            }
        }
    }

    /// Checks the texts against what was typed and deleted.
    pub fn check(&self, texts: &BTreeMap<String, String>) -> Result<(), Failure> {
        let mut seen = HashSet::new();
        for (path, t) in texts {
            let mut last: HashMap<usize, usize> = HashMap::new();
            for c in t.chars().filter(|c| *c != '\n') {
                let Some((run, i)) = self.typed.get(&c) else {
                    return crate::runner::fail(
                        "invented",
                        format!("{path} holds {c:?}, which nobody typed: {t:?}"),
                    );
                };
                if self.deleted.contains(&c) {
                    return crate::runner::fail(
                        "resurrected",
                        format!("{path} holds {c:?}, which was deleted: {t:?}"),
                    );
                }
                if !seen.insert(c) {
                    return crate::runner::fail(
                        "duplicated",
                        format!("{c:?} occurs twice, in {path}: {t:?}"),
                    );
                }
                if let Some(l) = last.insert(*run, *i) {
                    if l >= *i {
                        return crate::runner::fail(
                            "reordered",
                            format!("{path}: characters typed in one go changed order: {t:?}"),
                        );
                    }
                }
            }
        }
        for c in self.typed.keys() {
            if !self.deleted.contains(c) && !seen.contains(c) {
                return crate::runner::fail(
                    "lost",
                    format!("{c:?} was typed and not deleted, but is in no file: {texts:?}"),
                );
            }
        }
        Ok(())
    }
}

pub struct Sim {
    pub w: World,
    /// Names people use.
    pub names: Vec<String>,
    pub weights: Weights,
    pub uniq: Option<Uniq>,
    pub max_eds: usize,
    /// How long inserted texts are at most.
    pub max_ins: usize,
    pub edits: usize,
    pub remote_edits: usize,
    pub disk_ops: usize,
}

impl Sim {
    /// A host with the given files and `n - 1` daemons that join it along random links.
    pub async fn start(
        src: &mut Src,
        ctx: &mut Ctx,
        n: usize,
        names: &[&str],
        uniq: bool,
        weights: Weights,
    ) -> R<Self> {
        let mut uniq = uniq.then(Uniq::default);
        let host = project(&ctx.scratch, "n0");
        for name in names {
            if src.chance(2, 3) {
                let t = match &mut uniq {
                    Some(u) => u.fresh(src, 6),
                    None => text::gen_plain(src, 8),
                };
                ctx.log(format!("host file {name}: {t:?}"));
                let p = host.join(name);
                std::fs::create_dir_all(p.parent().unwrap()).expect("mkdir");
                std::fs::write(p, t).expect("write");
            }
        }
        let mut w = World::default();
        w.add_node(Node::start("n0", &host, false, true)?);
        for i in 1..n {
            let name = format!("n{i}");
            let dir = project(&ctx.scratch, &name);
            w.add_node(Node::start(&name, &dir, false, false)?);
            let to = src.usize(i);
            ctx.log(format!("n{i} joins n{to}"));
            w.link(to, i);
        }
        w.settle().await?;
        Ok(Self {
            w,
            names: names.iter().map(|s| (*s).to_string()).collect(),
            weights,
            uniq,
            max_eds: 4,
            max_ins: 4,
            edits: 0,
            remote_edits: 0,
            disk_ops: 0,
        })
    }

    fn ins(&mut self, src: &mut Src) -> String {
        match &mut self.uniq {
            Some(u) => u.fresh(src, self.max_ins),
            None => text::gen_plain(src, self.max_ins),
        }
    }

    pub async fn add_ed(&mut self, ctx: &mut Ctx, node: usize) -> R<usize> {
        let e = Ed::connect(&self.w.nodes, node).await?;
        self.w.eds.push(e);
        let i = self.w.eds.len() - 1;
        ctx.log(format!("editor {i} connects to n{node}"));
        Ok(i)
    }

    pub async fn open(&mut self, ctx: &mut Ctx, e: usize, name: &str) -> R<bool> {
        let ok = self.w.eds[e].open(&self.w.nodes, name).await?;
        ctx.log(format!(
            "editor {e} opens {name}: {}",
            if ok { "ok" } else { "refused" }
        ));
        self.w.observe()?;
        Ok(ok)
    }

    pub fn edit(&mut self, src: &mut Src, ctx: &mut Ctx, e: usize, name: &str) {
        let t = self.w.eds[e].bufs[name].text.clone();
        let (at, del) = text::gen_splice(src, t.len());
        let ins = self.ins(src);
        if let Some(u) = &mut self.uniq {
            u.delete(&t[at..at + del]);
        }
        ctx.log(format!("editor {e}: {name} replace {del} at {at} by {ins:?}"));
        self.w.eds[e].user_edit(name, at, del, &ins);
        self.edits += 1;
        if self.w.eds[e].node != 0 {
            self.remote_edits += 1;
        }
    }

    fn live_eds(&self) -> Vec<usize> {
        (0..self.w.eds.len()).filter(|e| self.w.eds[*e].alive()).collect()
    }

    /// One random step; what is not possible at the moment is skipped.
    pub async fn step(&mut self, src: &mut Src, ctx: &mut Ctx) -> R<()> {
        let w = self.weights;
        let kind = src.weighted(&[
            w.edit, w.deliver, w.process, w.catch_up, w.link, w.cut, w.watch, w.open, w.close, w.save,
            w.new_ed, w.drop_ed, w.disk_write, w.disk_create, w.disk_delete, w.settle,
        ]);
        let live = self.live_eds();
        let e = if live.is_empty() { None } else { Some(*src.pick(&live)) };
        match kind {
            0 => {
                if let Some(e) = e {
                    let open: Vec<String> = self.w.eds[e].bufs.keys().cloned().collect();
                    if !open.is_empty() {
                        let name = src.pick(&open).clone();
                        self.edit(src, ctx, e, &name);
                    }
                }
            }
            1 => {
                if let Some(e) = e {
                    if self.w.eds[e].deliver(&self.w.nodes).await? {
                        ctx.log(format!("editor {e} -> daemon"));
                    }
                }
            }
            2 => {
                if let Some(e) = e {
                    if self.w.eds[e].process()? {
                        ctx.log(format!("editor {e} processes a message"));
                    }
                }
            }
            3 => {
                if let Some(e) = e {
                    ctx.log(format!("editor {e} catches up"));
                    while self.w.eds[e].deliver(&self.w.nodes).await? {}
                    self.w.drain_all()?;
                    self.w.eds[e].process_all()?;
                }
            }
            4 => {
                if !self.w.links.is_empty() {
                    let l = src.usize(self.w.links.len());
                    let dir = src.bool();
                    let n = 1 + src.usize(3);
                    for _ in 0..n {
                        let link = &mut self.w.links[l];
                        if src.bool() {
                            if link.generate(&self.w.nodes, dir).await? {
                                ctx.log(format!("link {}-{}: {} talks", link.a, link.b, if dir { link.a } else { link.b }));
                            }
                        } else if link.deliver(&self.w.nodes, dir).await? {
                            ctx.log(format!("link {}-{}: {} hears", link.a, link.b, if dir { link.b } else { link.a }));
                        }
                    }
                }
            }
            5 => {
                if !self.w.links.is_empty() {
                    let l = src.usize(self.w.links.len());
                    let link = &mut self.w.links[l];
                    if link.up {
                        ctx.log(format!("link {}-{} breaks", link.a, link.b));
                        ctx.label("a link broke");
                        link.disconnect();
                    } else {
                        ctx.log(format!("link {}-{} is back", link.a, link.b));
                        link.reconnect(&self.w.nodes);
                    }
                }
            }
            6 => {
                let n = src.usize(self.w.nodes.len());
                if let Some(ev) = self.w.watch[n].front().cloned() {
                    ctx.log(format!("n{n} watcher: {ev:?}"));
                    self.w.watch_step(n).await?;
                }
            }
            7 => {
                if let Some(e) = e {
                    let name = src.pick(&self.names).clone();
                    let parent = self.w.nodes[self.w.eds[e].node].dir.join(&name);
                    if !self.w.eds[e].bufs.contains_key(&name) && parent.parent().unwrap().is_dir() {
                        self.open(ctx, e, &name).await?;
                    }
                }
            }
            8 => {
                if let Some(e) = e {
                    let open: Vec<String> = self.w.eds[e].bufs.keys().cloned().collect();
                    if !open.is_empty() {
                        let name = src.pick(&open).clone();
                        ctx.log(format!("editor {e} closes {name}"));
                        self.w.eds[e].close(&name);
                    }
                }
            }
            9 => {
                if let Some(e) = e {
                    let open: Vec<String> = self.w.eds[e].bufs.keys().cloned().collect();
                    if !open.is_empty() {
                        let name = src.pick(&open).clone();
                        ctx.log(format!("editor {e} saves {name}"));
                        let t = text::to_string(&self.w.eds[e].bufs[&name].text);
                        self.w.nodes[self.w.eds[e].node].write_disk(&name, t.as_bytes());
                    }
                }
            }
            10 => {
                let n = src.usize(self.w.nodes.len());
                if live.len() < self.max_eds {
                    self.add_ed(ctx, n).await?;
                }
            }
            11 => {
                if let Some(e) = e {
                    ctx.log(format!("editor {e} disconnects"));
                    ctx.label("an editor disconnected");
                    self.drop_ed(e).await?;
                }
            }
            12 | 13 | 14 => {
                let n = src.usize(self.w.nodes.len());
                let name = src.pick(&self.names).clone();
                let t = self.ins(src);
                let exists = self.w.nodes[n].dir.join(&name).exists();
                if self.w.owned(n, &name) {
                    // Nobody edits an open file behind the editor's back here.
                } else if kind == 12 && exists {
                    let old = text::to_text(&self.w.nodes[n].disk_text(&name).unwrap_or_default());
                    let (at, del) = text::gen_splice(src, old.len());
                    let mut new = old;
                    text::splice(&mut new, at, del, &t);
                    let new = text::to_string(&new);
                    ctx.log(format!("n{n}: {name} on disk becomes {new:?}"));
                    self.w.nodes[n].write_disk(&name, new.as_bytes());
                    self.disk_ops += 1;
                } else if kind == 13 && !exists {
                    ctx.log(format!("n{n}: {name} is created on disk with {t:?}"));
                    self.w.nodes[n].write_disk(&name, t.as_bytes());
                    self.disk_ops += 1;
                } else if kind == 14 && exists {
                    ctx.log(format!("n{n}: {name} is deleted on disk"));
                    let _ = std::fs::remove_file(self.w.nodes[n].dir.join(&name));
                    self.disk_ops += 1;
                }
            }
            _ => {
                ctx.log("everything is delivered");
                self.w.settle().await?;
            }
        }
        self.w.observe()
    }

    /// An editor goes away; what it had not sent yet is gone with it.
    pub async fn drop_ed(&mut self, e: usize) -> R<()> {
        self.w.eds[e].disconnect(&self.w.nodes).await?;
        self.w.observe()
    }

    pub async fn finish(&mut self, ctx: &mut Ctx) -> R<()> {
        for l in &mut self.w.links {
            if !l.up {
                l.reconnect(&self.w.nodes);
            }
        }
        ctx.log("all links are up and everything is delivered");
        self.w.settle().await
    }
}
