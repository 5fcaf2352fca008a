//! Daemons, editors and links between them, under a schedule chosen by the harness.

use crate::{
    runner::{self, fail, Failure},
    text::{self, Op, Text},
};
use automerge::{
    sync::{Message as SyncMessage, State as SyncState, SyncDoc},
    transaction::Transactable,
    AutoCommit, ObjType, ReadDoc, Value as AmValue, ROOT,
};
use ethersync::{
    daemon::{DocMessage, DocumentActorHandle},
    editor::EditorProtocolCodec,
    watcher::WatcherEvent,
};
use serde_json::{json, Value};
use std::{
    collections::{BTreeMap, VecDeque},
    future::Future,
    path::{Path, PathBuf},
};
use tokio::{net::UnixStream, sync::oneshot};
use tokio_util::codec::FramedWrite;

pub type R<T> = Result<T, Failure>;
pub use crate::runner::Failure as Failed;

/// Runs a case on its own single-threaded runtime.
pub fn block_on<T>(f: impl Future<Output = R<T>>) -> R<T> {
    let rt = tokio::runtime::Builder::new_current_thread()
        .enable_all()
        .build()
        .expect("runtime");
    rt.block_on(f)
}

fn dead<T>(what: &str) -> R<T> {
    let p = runner::peek_panic();
    if p.starts_with("src/") || p.contains("/verif/harness/") {
        return fail("harness", p);
    }
    fail(
        &format!("daemon-stopped:{}", runner::panic_signature(&p)),
        format!("the daemon stopped while handling {what}: {p}"),
    )
}

/// A running daemon without network, watcher and persister: those are driven by the harness.
pub struct Node {
    pub name: String,
    pub dir: PathBuf,
    pub handle: DocumentActorHandle,
}

/// Whether a daemon announced a change: that is what makes it talk to a peer, as in the real
/// connection. A new connection starts with something to say.
pub struct Ping {
    rx: tokio::sync::broadcast::Receiver<()>,
    first: bool,
}

impl Ping {
    pub fn new(node: &Node) -> Self {
        Self {
            rx: node.handle.subscribe_document_changes(),
            first: true,
        }
    }

    pub fn take(&mut self) -> bool {
        use tokio::sync::broadcast::error::TryRecvError;
        let mut any = std::mem::take(&mut self.first);
        loop {
            match self.rx.try_recv() {
                Ok(()) | Err(TryRecvError::Lagged(_)) => any = true,
                Err(_) => return any,
            }
        }
    }
}

impl Node {
    /// Starts a daemon on a directory.
    pub fn start(name: &str, dir: &Path, init: bool, host: bool) -> R<Self> {
        let handle = match std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
            DocumentActorHandle::new(dir, init, host)
        })) {
            Ok(h) => h,
            Err(_) => return dead("its start"),
        };
        Ok(Self {
            name: name.into(),
            dir: dir.to_path_buf(),
            handle,
        })
    }

    /// Waits until everything sent so far has been handled.
    pub async fn barrier(&self, what: &str) -> R<()> {
        let (tx, rx) = oneshot::channel();
        self.send_raw(DocMessage::GetContent { response_tx: tx }, what)
            .await?;
        if rx.await.is_err() {
            return dead(what);
        }
        Ok(())
    }

    async fn send_raw(&self, m: DocMessage, what: &str) -> R<()> {
        let h = self.handle.clone();
        // send_message panics when the daemon is gone; that must not be our panic.
        if tokio::spawn(async move { h.send_message(m).await }).await.is_err() {
            return dead(what);
        }
        Ok(())
    }

    pub async fn send(&self, m: DocMessage, what: &str) -> R<()> {
        self.send_raw(m, what).await?;
        self.barrier(what).await
    }

    pub async fn persist(&self) -> R<()> {
        self.send(DocMessage::Persist, "persisting").await
    }

    pub async fn watcher(&self, e: WatcherEvent) -> R<()> {
        let what = format!("watcher event {e:?}");
        self.send(DocMessage::FromWatcher(e), &what).await
    }

    pub async fn created(&self, path: &str) -> R<()> {
        let file_path = self.dir.join(path);
        self.watcher(WatcherEvent::Created { file_path }).await
    }

    pub async fn changed(&self, path: &str) -> R<()> {
        let file_path = self.dir.join(path);
        self.watcher(WatcherEvent::Changed { file_path }).await
    }

    pub async fn removed(&self, path: &str) -> R<()> {
        let file_path = self.dir.join(path);
        self.watcher(WatcherEvent::Removed { file_path }).await
    }

    pub async fn generate(&self, state: &mut SyncState) -> R<Option<SyncMessage>> {
        let (tx, rx) = oneshot::channel();
        self.send_raw(
            DocMessage::GenerateSyncMessage {
                state: std::mem::take(state),
                response_tx: tx,
            },
            "generating a sync message",
        )
        .await?;
        match rx.await {
            Ok((s, m)) => {
                *state = s;
                Ok(m)
            }
            Err(_) => dead("generating a sync message"),
        }
    }

    pub async fn receive(&self, state: &mut SyncState, message: SyncMessage) -> R<()> {
        let (tx, rx) = oneshot::channel();
        self.send_raw(
            DocMessage::ReceiveSyncMessage {
                message,
                state: std::mem::take(state),
                response_tx: tx,
            },
            "a sync message",
        )
        .await?;
        match rx.await {
            Ok(s) => {
                *state = s;
                self.barrier("a sync message").await
            }
            Err(_) => dead("a sync message"),
        }
    }

    /// All shared files with their texts, as a peer would see them.
    pub async fn shared(&self) -> R<BTreeMap<String, String>> {
        self.look().await?.files()
    }

    /// The whole document. The daemon only hears a question for it, so nothing is pending at its
    /// connections afterwards that was not before.
    pub async fn look(&self) -> R<Peer> {
        let mut o = Peer::new();
        let mut ns = SyncState::new();
        let question = o.generate().expect("a first message");
        AutoCommit::new()
            .sync()
            .receive_sync_message(&mut ns, question)
            .expect("a valid message");
        if let Some(answer) = self.generate(&mut ns).await? {
            let heads = answer.heads.clone();
            o.receive(answer);
            if o.doc.get_heads() != heads {
                return fail("harness-look", "the answer was not the whole document");
            }
        }
        Ok(o)
    }

    pub fn disk(&self, path: &str) -> Option<Vec<u8>> {
        std::fs::read(self.dir.join(path)).ok()
    }

    pub fn disk_text(&self, path: &str) -> Option<String> {
        self.disk(path).and_then(|b| String::from_utf8(b).ok())
    }

    pub fn write_disk(&self, path: &str, bytes: &[u8]) {
        let p = self.dir.join(path);
        if let Some(d) = p.parent() {
            std::fs::create_dir_all(d).expect("mkdir");
        }
        std::fs::write(p, bytes).expect("write");
    }
}

/// Makes a project directory with a `.ethersync` folder.
pub fn project(scratch: &Path, name: &str) -> PathBuf {
    let d = scratch.join(name);
    std::fs::create_dir_all(d.join(".ethersync")).expect("mkdir");
    d.canonicalize().expect("canonicalize")
}

/// All files below `dir` except `.ethersync`, relative, with their bytes.
pub fn read_tree(dir: &Path) -> BTreeMap<String, Vec<u8>> {
    fn walk(base: &Path, d: &Path, out: &mut BTreeMap<String, Vec<u8>>) {
        let Ok(entries) = std::fs::read_dir(d) else {
            return;
        };
        for e in entries.flatten() {
            let p = e.path();
            let Ok(meta) = std::fs::symlink_metadata(&p) else {
                continue;
            };
            let rel = p.strip_prefix(base).unwrap().to_string_lossy().to_string();
            if rel == ".ethersync" {
                continue;
            }
            if meta.is_dir() {
                walk(base, &p, out);
            } else if meta.is_file() {
                out.insert(rel, std::fs::read(&p).unwrap_or_default());
            }
        }
    }
    let mut out = BTreeMap::new();
    walk(dir, dir, &mut out);
    out
}

/// A peer implemented with Automerge only. Can observe and can edit.
pub struct Peer {
    pub doc: AutoCommit,
    pub state: SyncState,
}

impl Peer {
    pub fn new() -> Self {
        Self {
            doc: AutoCommit::new(),
            state: SyncState::new(),
        }
    }

    /// Forgets the connection, as after a disconnect.
    pub fn reconnect(&mut self) {
        self.state = SyncState::new();
    }

    pub fn generate(&mut self) -> Option<SyncMessage> {
        self.doc.sync().generate_sync_message(&mut self.state)
    }

    pub fn receive(&mut self, m: SyncMessage) {
        self.doc
            .sync()
            .receive_sync_message(&mut self.state, m)
            .expect("the daemon sends valid sync messages");
    }

    /// Full sync with a fresh connection.
    pub async fn sync(&mut self, node: &Node) -> R<()> {
        self.reconnect();
        let mut ns = SyncState::new();
        for _ in 0..200 {
            let mut quiet = true;
            if let Some(m) = node.generate(&mut ns).await? {
                quiet = false;
                self.receive(m);
            }
            if let Some(m) = self.generate() {
                quiet = false;
                node.receive(&mut ns, m).await?;
            }
            if quiet {
                return Ok(());
            }
        }
        fail("sync-does-not-settle", "a sync did not settle after 200 rounds")
    }

    pub fn map(&self, name: &str) -> Option<automerge::ObjId> {
        match self.doc.get(ROOT, name) {
            Ok(Some((AmValue::Object(ObjType::Map), id))) => Some(id),
            _ => None,
        }
    }

    pub fn files(&self) -> R<BTreeMap<String, String>> {
        let mut out = BTreeMap::new();
        let Some(m) = self.map("files") else {
            return fail("no-files-map", "the shared document has no file map");
        };
        for k in self.doc.keys(&m).collect::<Vec<_>>() {
            if let Ok(Some((AmValue::Object(ObjType::Text), id))) = self.doc.get(&m, k.as_str()) {
                out.insert(k, self.doc.text(&id).expect("text"));
            } else {
                return fail("file-not-text", format!("shared file {k} is not a text"));
            }
        }
        Ok(out)
    }

    pub fn text_obj(&self, path: &str) -> Option<automerge::ObjId> {
        let m = self.map("files")?;
        match self.doc.get(&m, path) {
            Ok(Some((AmValue::Object(ObjType::Text), id))) => Some(id),
            _ => None,
        }
    }

    pub fn splice(&mut self, path: &str, at: usize, del: usize, ins: &str) {
        let id = self.text_obj(path).expect("file");
        self.doc
            .splice_text(&id, at, del as isize, ins)
            .expect("splice");
    }

    pub fn create(&mut self, path: &str, content: &str) {
        let m = self.map("files").expect("files");
        let id = self
            .doc
            .put_object(&m, path, ObjType::Text)
            .expect("put_object");
        self.doc.splice_text(&id, 0, 0, content).expect("splice");
    }

    pub fn delete(&mut self, path: &str) {
        let m = self.map("files").expect("files");
        self.doc.delete(&m, path).expect("delete");
    }
}

/// A connection between two daemons with explicit queues.
pub struct Link {
    pub a: usize,
    pub b: usize,
    pub up: bool,
    sa: SyncState,
    sb: SyncState,
    pa: Ping,
    pb: Ping,
    pub ab: VecDeque<SyncMessage>,
    pub ba: VecDeque<SyncMessage>,
}

impl Link {
    pub fn new(nodes: &[Node], a: usize, b: usize) -> Self {
        Self {
            a,
            b,
            up: true,
            sa: SyncState::new(),
            sb: SyncState::new(),
            pa: Ping::new(&nodes[a]),
            pb: Ping::new(&nodes[b]),
            ab: VecDeque::new(),
            ba: VecDeque::new(),
        }
    }

    pub fn disconnect(&mut self) {
        self.up = false;
        self.ab.clear();
        self.ba.clear();
    }

    pub fn reconnect(&mut self, nodes: &[Node]) {
        *self = Link::new(nodes, self.a, self.b);
    }

    /// Lets one end say something; true if it had something to say.
    pub async fn generate(&mut self, nodes: &[Node], from_a: bool) -> R<bool> {
        if !self.up {
            return Ok(false);
        }
        let (n, s, q, p) = if from_a {
            (&nodes[self.a], &mut self.sa, &mut self.ab, &mut self.pa)
        } else {
            (&nodes[self.b], &mut self.sb, &mut self.ba, &mut self.pb)
        };
        if !p.take() {
            return Ok(false);
        }
        if let Some(m) = n.generate(s).await? {
            // Through the wire format, as in the real connection.
            let m = SyncMessage::decode(&m.encode()).expect("wire format");
            q.push_back(m);
            return Ok(true);
        }
        Ok(false)
    }

    /// Delivers the oldest message of one direction.
    pub async fn deliver(&mut self, nodes: &[Node], to_b: bool) -> R<bool> {
        let (n, s, q) = if to_b {
            (&nodes[self.b], &mut self.sb, &mut self.ab)
        } else {
            (&nodes[self.a], &mut self.sa, &mut self.ba)
        };
        if let Some(m) = q.pop_front() {
            n.receive(s, m).await?;
            return Ok(true);
        }
        Ok(false)
    }

    /// Runs the connection until both ends are idle.
    pub async fn settle(&mut self, nodes: &[Node]) -> R<bool> {
        let mut any = false;
        for _ in 0..500 {
            let mut quiet = true;
            quiet &= !self.generate(nodes, true).await?;
            quiet &= !self.generate(nodes, false).await?;
            quiet &= !self.deliver(nodes, true).await?;
            quiet &= !self.deliver(nodes, false).await?;
            if quiet {
                return Ok(any);
            }
            any = true;
        }
        fail("sync-does-not-settle", "a connection did not settle after 500 rounds")
    }
}

/// A connection between a daemon and an Automerge-only peer, with explicit queues.
pub struct PeerLink {
    pub ns: SyncState,
    ping: Ping,
    pub to_node: VecDeque<SyncMessage>,
    pub to_peer: VecDeque<SyncMessage>,
}

impl PeerLink {
    pub fn new(node: &Node, peer: &mut Peer) -> Self {
        peer.reconnect();
        Self {
            ns: SyncState::new(),
            ping: Ping::new(node),
            to_node: VecDeque::new(),
            to_peer: VecDeque::new(),
        }
    }

    /// One step: 0 peer talks, 1 node talks, 2 deliver to node, 3 deliver to peer.
    pub async fn step(&mut self, node: &Node, peer: &mut Peer, what: usize) -> R<bool> {
        Ok(match what {
            0 => match peer.generate() {
                Some(m) => {
                    self.to_node.push_back(m);
                    true
                }
                None => false,
            },
            1 if !self.ping.take() => false,
            1 => match node.generate(&mut self.ns).await? {
                Some(m) => {
                    self.to_peer.push_back(m);
                    true
                }
                None => false,
            },
            2 => match self.to_node.pop_front() {
                Some(m) => {
                    node.receive(&mut self.ns, m).await?;
                    true
                }
                None => false,
            },
            _ => match self.to_peer.pop_front() {
                Some(m) => {
                    peer.receive(m);
                    true
                }
                None => false,
            },
        })
    }

    pub async fn settle(&mut self, node: &Node, peer: &mut Peer) -> R<bool> {
        let mut any = false;
        for _ in 0..500 {
            let mut quiet = true;
            for w in 0..4 {
                quiet &= !self.step(node, peer, w).await?;
            }
            if quiet {
                return Ok(any);
            }
            any = true;
        }
        fail("sync-does-not-settle", "a connection did not settle after 500 rounds")
    }
}

/// What an editor keeps for an open file.
#[derive(Debug, Clone)]
pub struct Buf {
    pub text: Text,
    pub editor_rev: usize,
    pub daemon_rev: usize,
}

/// A well-behaved editor as described in the plugin guide.
pub struct Ed {
    pub id: usize,
    pub node: usize,
    stream: Option<UnixStream>,
    line_buf: Vec<u8>,
    pub bufs: BTreeMap<String, Buf>,
    /// Written by the editor, not yet received by the daemon.
    pub out: VecDeque<String>,
    /// Written by the daemon, not yet processed by the editor.
    pub inbox: VecDeque<Value>,
    pub next_request: u64,
    /// Responses seen: id -> ok.
    pub responses: Vec<(Value, bool)>,
    /// The same, as they were, until somebody takes them.
    pub answers: Vec<Value>,
    /// Cursor messages seen, in order.
    pub cursors: Vec<Value>,
    /// Edits that arrived for files it does not have open.
    pub stray_edits: usize,
    pub ignored_edits: usize,
    pub applied_edits: usize,
    pub refused_edits: usize,
    /// The next edit can not be applied, as when the editor is busy.
    pub refuse: bool,
    pub dir: PathBuf,
}

impl Ed {
    pub async fn connect(nodes: &[Node], node: usize) -> R<Self> {
        let n = &nodes[node];
        let (ours, theirs) = UnixStream::pair().expect("socket pair");
        let (_read, write) = tokio::io::split(theirs);
        let id = n.handle.next_editor_id();
        let writer = FramedWrite::new(write, EditorProtocolCodec);
        n.send(DocMessage::NewEditorConnection(id, writer), "an editor connecting")
            .await?;
        Ok(Self {
            id,
            node,
            stream: Some(ours),
            line_buf: vec![],
            bufs: BTreeMap::new(),
            out: VecDeque::new(),
            inbox: VecDeque::new(),
            next_request: 1,
            responses: vec![],
            answers: vec![],
            cursors: vec![],
            stray_edits: 0,
            ignored_edits: 0,
            applied_edits: 0,
            refused_edits: 0,
            refuse: false,
            dir: n.dir.clone(),
        })
    }

    pub fn alive(&self) -> bool {
        self.stream.is_some()
    }

    pub fn uri(&self, path: &str) -> String {
        format!("file://{}", self.dir.join(path).display())
    }

    pub fn request(&mut self, method: &str, params: Value) -> u64 {
        let id = self.next_request;
        self.next_request += 1;
        self.out
            .push_back(json!({"jsonrpc":"2.0","id":id,"method":method,"params":params}).to_string());
        id
    }

    /// Reads everything the daemon has written so far.
    pub fn drain(&mut self) -> R<()> {
        let Some(stream) = &self.stream else {
            return Ok(());
        };
        let mut tmp = [0u8; 65536];
        loop {
            // The runtime may not have noticed readiness yet, so read from the descriptor itself.
            use std::os::fd::AsRawFd;
            let n = unsafe {
                libc::recv(
                    stream.as_raw_fd(),
                    tmp.as_mut_ptr().cast(),
                    tmp.len(),
                    libc::MSG_DONTWAIT,
                )
            };
            if n <= 0 {
                break;
            }
            self.line_buf.extend_from_slice(&tmp[..n as usize]);
        }
        while let Some(p) = self.line_buf.iter().position(|b| *b == b'\n') {
            let line: Vec<u8> = self.line_buf.drain(..=p).collect();
            let v: Value = match serde_json::from_slice(&line) {
                Ok(v) => v,
                Err(e) => {
                    return fail(
                        "invalid-json-to-editor",
                        format!("daemon sent {:?}: {e}", String::from_utf8_lossy(&line)),
                    )
                }
            };
            self.inbox.push_back(v);
        }
        Ok(())
    }

    /// The daemon receives the oldest message written by the editor.
    pub async fn deliver(&mut self, nodes: &[Node]) -> R<bool> {
        let Some(m) = self.out.pop_front() else {
            return Ok(false);
        };
        let what = format!("editor message {m}");
        nodes[self.node]
            .send(DocMessage::FromEditor(self.id, m), &what)
            .await?;
        Ok(true)
    }

    /// The editor processes the oldest message from the daemon.
    pub fn process(&mut self) -> R<bool> {
        let Some(m) = self.inbox.pop_front() else {
            return Ok(false);
        };
        match m["method"].as_str() {
            Some("edit") => {
                let uri = m["params"]["uri"].as_str().unwrap_or("");
                let prefix = format!("file://{}/", self.dir.display());
                let Some(path) = uri.strip_prefix(&prefix) else {
                    return fail("bad-uri", format!("edit with uri {uri}"));
                };
                let Some(rev) = m["params"]["revision"].as_u64() else {
                    return fail("bad-edit", format!("edit without revision: {m}"));
                };
                let Some(ops) = text::parse_delta(&m["params"]["delta"]) else {
                    return fail("bad-edit", format!("edit with malformed delta: {m}"));
                };
                let Some(buf) = self.bufs.get_mut(path) else {
                    self.stray_edits += 1;
                    return Ok(true);
                };
                if rev as usize != buf.editor_rev {
                    self.ignored_edits += 1;
                    return Ok(true);
                }
                if std::mem::take(&mut self.refuse) {
                    // As the VS Code plugin does: a change without effect asks for the edit again.
                    buf.editor_rev += 1;
                    let rev = buf.daemon_rev;
                    self.refused_edits += 1;
                    self.request("edit", json!({"uri": uri, "revision": rev, "delta": []}));
                    return Ok(true);
                }
                match text::apply(&buf.text, &ops) {
                    Ok(t) => {
                        buf.text = t;
                        buf.daemon_rev += 1;
                        self.applied_edits += 1;
                    }
                    Err(e) => {
                        return fail(
                            "edit-not-applicable",
                            format!("editor {}: {e}: {m} on {:?}", self.id, text::to_string(&buf.text)),
                        )
                    }
                }
            }
            Some("cursor") => self.cursors.push(m["params"].clone()),
            Some(other) => return fail("unknown-method", format!("daemon sent method {other}")),
            None => {
                let ok = m.get("result").is_some();
                self.responses.push((m["id"].clone(), ok));
                self.answers.push(m);
            }
        }
        Ok(true)
    }

    /// The user changes a buffer; the edit waits in `out`.
    pub fn user_edit(&mut self, path: &str, at: usize, del: usize, ins: &str) {
        let uri = self.uri(path);
        let buf = self.bufs.get_mut(path).expect("open");
        let op: Op = text::splice_op(&buf.text, at, del, ins);
        text::splice(&mut buf.text, at, del, ins);
        buf.editor_rev += 1;
        let rev = buf.daemon_rev;
        self.request("edit", json!({"uri": uri, "revision": rev, "delta": [op.json()]}));
    }

    /// Everything written so far is exchanged, then the file is read and opened at one instant.
    /// Tracking starts with the success answer.
    pub async fn open(&mut self, nodes: &[Node], path: &str) -> R<bool> {
        while self.deliver(nodes).await? {}
        let content = nodes[self.node].disk_text(path).unwrap_or_default();
        let uri = self.uri(path);
        let id = self.request("open", json!({ "uri": uri }));
        self.deliver(nodes).await?;
        self.drain()?;
        loop {
            if let Some((_, ok)) = self.responses.iter().rev().find(|(i, _)| *i == json!(id)) {
                if *ok {
                    self.bufs.insert(
                        path.to_string(),
                        Buf {
                            text: text::to_text(&content),
                            editor_rev: 0,
                            daemon_rev: 0,
                        },
                    );
                }
                return Ok(*ok);
            }
            if !self.process()? {
                return fail("no-response", format!("no response to open of {path}"));
            }
        }
    }

    pub fn close(&mut self, path: &str) {
        self.bufs.remove(path);
        let uri = self.uri(path);
        self.request("close", json!({ "uri": uri }));
    }

    pub fn process_all(&mut self) -> R<bool> {
        let mut any = false;
        while self.process()? {
            any = true;
        }
        Ok(any)
    }

    /// The connection breaks. What the editor wrote but the daemon did not read is lost.
    pub async fn disconnect(&mut self, nodes: &[Node]) -> R<()> {
        self.stream = None;
        self.out.clear();
        self.inbox.clear();
        self.bufs.clear();
        nodes[self.node]
            .send(DocMessage::CloseEditorConnection(self.id), "an editor disconnecting")
            .await
    }

    /// The socket is closed, but the daemon has not read the end of the stream yet.
    pub fn break_socket(&mut self) {
        self.stream = None;
        self.inbox.clear();
        self.bufs.clear();
    }

    pub async fn notice_disconnect(&mut self, nodes: &[Node]) -> R<()> {
        nodes[self.node]
            .send(DocMessage::CloseEditorConnection(self.id), "an editor disconnecting")
            .await
    }
}

/// What the file watcher of a daemon would report.
#[derive(Debug, Clone, PartialEq)]
pub enum Ev {
    Created(String),
    Changed(String),
    Removed(String),
}

/// Several daemons, links and editors.
#[derive(Default)]
pub struct World {
    pub nodes: Vec<Node>,
    pub links: Vec<Link>,
    pub eds: Vec<Ed>,
    /// Pending watcher events of each daemon, and the directory content they lead up to.
    pub watch: Vec<VecDeque<Ev>>,
    snap: Vec<BTreeMap<String, Vec<u8>>>,
}

impl World {
    pub fn add_node(&mut self, node: Node) {
        self.snap.push(read_tree(&node.dir));
        self.watch.push(VecDeque::new());
        self.nodes.push(node);
    }

    pub fn link(&mut self, a: usize, b: usize) {
        self.links.push(Link::new(&self.nodes, a, b));
    }

    pub fn drain_all(&mut self) -> R<()> {
        for e in &mut self.eds {
            e.drain()?;
        }
        Ok(())
    }

    /// Queues watcher events for whatever happened in the directories, and takes what the
    /// daemons wrote out of the sockets. To be called after everything that happens.
    pub fn observe(&mut self) -> R<()> {
        for i in 0..self.nodes.len() {
            let new = read_tree(&self.nodes[i].dir);
            if new == self.snap[i] {
                continue;
            }
            for (p, b) in &new {
                match self.snap[i].get(p) {
                    None => {
                        self.watch[i].push_back(Ev::Created(p.clone()));
                        self.watch[i].push_back(Ev::Changed(p.clone()));
                    }
                    Some(o) if o != b => self.watch[i].push_back(Ev::Changed(p.clone())),
                    _ => {}
                }
            }
            for p in self.snap[i].keys() {
                if !new.contains_key(p) {
                    self.watch[i].push_back(Ev::Removed(p.clone()));
                }
            }
            self.snap[i] = new;
        }
        self.drain_all()
    }

    /// The daemon handles its oldest watcher event.
    pub async fn watch_step(&mut self, i: usize) -> R<bool> {
        let Some(ev) = self.watch[i].pop_front() else {
            return Ok(false);
        };
        let n = &self.nodes[i];
        match &ev {
            // The watcher drops events of files that are gone already.
            Ev::Created(p) if n.dir.join(p).exists() => n.created(p).await?,
            Ev::Changed(p) if n.dir.join(p).exists() => n.changed(p).await?,
            Ev::Removed(p) => n.removed(p).await?,
            _ => {}
        }
        self.observe()?;
        Ok(true)
    }

    /// Somebody deletes a file and creates it again before the watcher can look.
    pub fn replace_on_disk(&mut self, i: usize, path: &str, bytes: &[u8]) -> R<()> {
        self.observe()?;
        std::fs::remove_file(self.nodes[i].dir.join(path)).expect("remove");
        self.nodes[i].write_disk(path, bytes);
        self.snap[i].insert(path.to_string(), bytes.to_vec());
        for ev in [Ev::Removed(path.into()), Ev::Created(path.into()), Ev::Changed(path.into())] {
            self.watch[i].push_back(ev);
        }
        Ok(())
    }

    /// Delivers everything everywhere until nothing is left to say.
    pub async fn settle(&mut self) -> R<()> {
        self.settle_with(true).await
    }

    /// With or without the file watchers noticing what happens on disk.
    pub async fn settle_with(&mut self, watch: bool) -> R<()> {
        self.observe()?;
        for _ in 0..300 {
            let mut any = false;
            for i in 0..self.eds.len() {
                while self.eds[i].deliver(&self.nodes).await? {
                    any = true;
                    self.observe()?;
                }
            }
            for i in 0..self.links.len() {
                for from_a in [true, false] {
                    any |= self.links[i].generate(&self.nodes, from_a).await?;
                    if self.links[i].deliver(&self.nodes, from_a).await? {
                        any = true;
                        self.observe()?;
                    }
                }
            }
            for i in 0..self.nodes.len() {
                while watch && self.watch_step(i).await? {
                    any = true;
                }
            }
            for e in &mut self.eds {
                e.drain()?;
                any |= e.process_all()?;
            }
            if !any {
                return Ok(());
            }
        }
        fail("world-does-not-settle", "messages never ended")
    }

    /// Editors' buffers equal the shared text of their daemon.
    pub async fn check_buffers(&self) -> R<()> {
        for (i, n) in self.nodes.iter().enumerate() {
            if !self.eds.iter().any(|e| e.node == i && !e.bufs.is_empty()) {
                continue;
            }
            let shared = n.shared().await?;
            for e in self.eds.iter().filter(|e| e.node == i && e.alive()) {
                for (path, buf) in &e.bufs {
                    let b = text::to_string(&buf.text);
                    // A file somebody deleted may linger in a buffer until somebody types.
                    let Some(s) = shared.get(path) else {
                        continue;
                    };
                    if b != *s {
                        return fail(
                            "buffer-differs",
                            format!("editor {} of {}: buffer of {path} is {b:?}, shared text is {s:?}", e.id, n.name),
                        );
                    }
                }
            }
        }
        Ok(())
    }

    pub fn owned(&self, node: usize, path: &str) -> bool {
        self.eds
            .iter()
            .any(|e| e.node == node && e.alive() && e.bufs.contains_key(path))
    }

    /// Files no editor has open hold the shared text on disk.
    pub async fn check_disk(&self, i: usize) -> R<()> {
        let n = &self.nodes[i];
        let shared = n.shared().await?;
        for (path, text) in &shared {
            if self.owned(i, path) {
                continue;
            }
            let d = n.disk_text(path);
            if d.as_deref() != Some(text.as_str()) {
                return fail(
                    "disk-differs",
                    format!("{}: {path} on disk is {d:?}, shared text is {text:?}", n.name),
                );
            }
        }
        Ok(())
    }

    /// Files that are not shared (any more) are not on disk, unless somebody has them open.
    pub async fn check_no_leftovers(&self, i: usize) -> R<()> {
        let n = &self.nodes[i];
        let shared = n.shared().await?;
        for path in read_tree(&n.dir).keys() {
            if !shared.contains_key(path) && !self.owned(i, path) {
                return fail(
                    "leftover-file",
                    format!("{}: {path} is on disk but not shared", n.name),
                );
            }
        }
        Ok(())
    }

    /// All daemons share the same files with the same texts.
    pub async fn check_same(&self) -> R<BTreeMap<String, String>> {
        let first = self.nodes[0].shared().await?;
        for n in &self.nodes[1..] {
            let other = n.shared().await?;
            if other != first {
                return fail(
                    "peers-differ",
                    format!("{} has {first:?}, {} has {other:?}", self.nodes[0].name, n.name),
                );
            }
        }
        Ok(first)
    }
}
