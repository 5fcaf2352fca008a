// VS Code as far as the extension sees it: the window with the documents, the process the extension
// runs in, and the two queues between them, which move when the harness says so.
"use strict"
const fs = require("fs")
const path = require("path")
const {createRequire} = require("module")
const tools = createRequire("/opt/veriftools/node/node_modules/")
const esbuild = tools("esbuild")

const SOURCE = process.argv[2]

// ---- positions

class Position {
    constructor(line, character) {
        if (!(line >= 0) || !(character >= 0)) {
            throw new Error("illegal argument: position")
        }
        this.line = line
        this.character = character
    }
    compareTo(o) {
        return this.line - o.line || this.character - o.character
    }
    isEqual(o) {
        return this.compareTo(o) === 0
    }
    isBefore(o) {
        return this.compareTo(o) < 0
    }
    isBeforeOrEqual(o) {
        return this.compareTo(o) <= 0
    }
    isAfter(o) {
        return this.compareTo(o) > 0
    }
    isAfterOrEqual(o) {
        return this.compareTo(o) >= 0
    }
    translate(a, b) {
        return typeof a === "object"
            ? new Position(this.line + (a.lineDelta || 0), this.character + (a.characterDelta || 0))
            : new Position(this.line + (a || 0), this.character + (b || 0))
    }
    with(a, b) {
        return a !== null && typeof a === "object"
            ? new Position(a.line ?? this.line, a.character ?? this.character)
            : new Position(a ?? this.line, b ?? this.character)
    }
}

class Range {
    constructor(a, b, c, d) {
        if (typeof a === "number") {
            a = new Position(a, b)
            b = new Position(c, d)
        }
        ;[this.start, this.end] = a.compareTo(b) <= 0 ? [a, b] : [b, a]
    }
    get isEmpty() {
        return this.start.isEqual(this.end)
    }
    get isSingleLine() {
        return this.start.line === this.end.line
    }
    isEqual(o) {
        return this.start.isEqual(o.start) && this.end.isEqual(o.end)
    }
    contains(o) {
        return o instanceof Range
            ? this.contains(o.start) && this.contains(o.end)
            : this.start.compareTo(o) <= 0 && this.end.compareTo(o) >= 0
    }
    union(o) {
        return new Range(this.start.isBefore(o.start) ? this.start : o.start, this.end.isAfter(o.end) ? this.end : o.end)
    }
    with(a, b) {
        return a instanceof Position || b
            ? new Range(a ?? this.start, b ?? this.end)
            : new Range(a?.start ?? this.start, a?.end ?? this.end)
    }
}

class Selection extends Range {
    constructor(a, b, c, d) {
        super(a, b, c, d)
        if (typeof a === "number") {
            a = new Position(a, b)
            b = new Position(c, d)
        }
        this.anchor = a
        this.active = b
    }
    get isReversed() {
        return this.anchor.isAfter(this.active)
    }
}

class TextEdit {
    constructor(range, newText) {
        this.range = range
        this.newText = newText ?? ""
    }
    static replace(range, text) {
        return new TextEdit(range, text)
    }
    static insert(position, text) {
        return new TextEdit(new Range(position, position), text)
    }
    static delete(range) {
        return new TextEdit(range, "")
    }
}

class WorkspaceEdit {
    constructor() {
        this.all = new Map()
    }
    list(uri) {
        const key = uri.toString()
        if (!this.all.has(key)) {
            this.all.set(key, {uri, edits: []})
        }
        return this.all.get(key).edits
    }
    set(uri, edits) {
        this.all.delete(uri.toString())
        this.list(uri).push(...(edits || []).map((e) => (Array.isArray(e) ? e[0] : e)))
    }
    get(uri) {
        return this.list(uri).slice()
    }
    has(uri) {
        return this.all.has(uri.toString())
    }
    replace(uri, range, text) {
        this.list(uri).push(new TextEdit(range, text))
    }
    insert(uri, position, text) {
        this.list(uri).push(TextEdit.insert(position, text))
    }
    delete(uri, range) {
        this.list(uri).push(new TextEdit(range, ""))
    }
    entries() {
        return [...this.all.values()].map((e) => [e.uri, e.edits])
    }
    get size() {
        return this.all.size
    }
}

// VS Code encodes everything but these, and decodes it again when parsing.
const encode = (s) =>
    encodeURIComponent(s)
        .replace(/[!'()*]/g, (c) => "%" + c.charCodeAt(0).toString(16).toUpperCase())
        .replace(/%2F/g, "/")

class Uri {
    constructor(scheme, path, query = "", fragment = "") {
        this.scheme = scheme
        this.authority = ""
        this.path = path
        this.query = query
        this.fragment = fragment
    }
    static file(p) {
        return new Uri("file", p)
    }
    static parse(s) {
        const m = /^([^:/?#]+):(?:\/\/([^/?#]*))?([^?#]*)(?:\?([^#]*))?(?:#(.*))?$/.exec(s)
        if (!m) {
            throw new Error("[UriError]: Scheme is missing")
        }
        const d = (x) => {
            try {
                return decodeURIComponent(x || "")
            } catch {
                return x || ""
            }
        }
        return new Uri(m[1], d(m[3]), d(m[4]), d(m[5]))
    }
    static joinPath(uri, ...parts) {
        return new Uri(uri.scheme, path.posix.join(uri.path, ...parts))
    }
    static from(c) {
        return new Uri(c.scheme, c.path, c.query, c.fragment)
    }
    get fsPath() {
        return this.path
    }
    with(c) {
        return new Uri(c.scheme ?? this.scheme, c.path ?? this.path, c.query ?? this.query, c.fragment ?? this.fragment)
    }
    toString(raw) {
        const e = raw ? (x) => x : encode
        return (
            this.scheme +
            "://" +
            e(this.path) +
            (this.query ? "?" + e(this.query) : "") +
            (this.fragment ? "#" + e(this.fragment) : "")
        )
    }
    toJSON() {
        return {scheme: this.scheme, path: this.path}
    }
}

class EventEmitter {
    constructor() {
        this.listeners = []
        this.event = (f, self, disposables) => {
            const g = self ? f.bind(self) : f
            this.listeners.push(g)
            const d = {dispose: () => (this.listeners = this.listeners.filter((x) => x !== g))}
            disposables?.push(d)
            return d
        }
    }
    fire(x) {
        for (const f of this.listeners.slice()) {
            try {
                f(x)
            } catch (e) {
                complain(e)
            }
        }
    }
    dispose() {
        this.listeners = []
    }
}

// ---- texts

const offsetAt = (text, p) => {
    let start = 0
    for (let i = 0; i < p.line; i++) {
        const n = text.indexOf("\n", start)
        if (n < 0) {
            return text.length
        }
        start = n + 1
    }
    const n = text.indexOf("\n", start)
    return Math.min(start + p.character, n < 0 ? text.length : n)
}

const positionAt = (text, offset) => {
    offset = Math.max(0, Math.min(offset, text.length))
    const before = text.slice(0, offset)
    return new Position(before.split("\n").length - 1, offset - (before.lastIndexOf("\n") + 1))
}

// Changes in coordinates of the text before; null if they overlap.
function change(text, ops) {
    ops = ops.map((o, i) => ({...o, i})).sort((a, b) => b.end - a.end || b.start - a.start || b.i - a.i)
    for (let i = 1; i < ops.length; i++) {
        if (ops[i].end > ops[i - 1].start) {
            return null
        }
    }
    const changes = []
    let now = text
    for (const o of ops) {
        if (o.start === o.end && o.text === "") {
            continue
        }
        changes.push({
            range: new Range(positionAt(text, o.start), positionAt(text, o.end)),
            rangeOffset: o.start,
            rangeLength: o.end - o.start,
            text: o.text,
        })
        now = now.slice(0, o.start) + o.text + now.slice(o.end)
    }
    return {text: now, changes}
}

// ---- one VS Code

let w
let sent = []
let complaints = []
let selected = []

function complain(e) {
    complaints.push(String((e && e.stack) || e))
}

process.on("unhandledRejection", (e) => {
    // What the daemon refused.
    if (!(e && e.refused)) {
        complain(e)
    }
})

class Document {
    constructor(uri, text) {
        this.uri = uri
        this.text = text
        this.version = 1
        this.isDirty = false
        this.isClosed = false
        this.isUntitled = false
        this.languageId = "plaintext"
        this.eol = 1
    }
    get fileName() {
        return this.uri.fsPath
    }
    get lineCount() {
        return this.text.split("\n").length
    }
    lineAt(l) {
        const n = typeof l === "object" ? l.line : l
        const lines = this.text.split("\n")
        if (!(n >= 0 && n < lines.length) || n !== Math.floor(n)) {
            throw new Error("Illegal value for `line`")
        }
        const range = new Range(n, 0, n, lines[n].length)
        const ws = /^\s*/.exec(lines[n])[0].length
        return {
            text: lines[n],
            lineNumber: n,
            range,
            rangeIncludingLineBreak: n + 1 < lines.length ? new Range(n, 0, n + 1, 0) : range,
            firstNonWhitespaceCharacterIndex: ws,
            isEmptyOrWhitespace: ws === lines[n].length,
        }
    }
    getText(range) {
        return range ? this.text.slice(this.offsetAt(range.start), this.offsetAt(range.end)) : this.text
    }
    offsetAt(p) {
        return offsetAt(this.text, this.validatePosition(p))
    }
    positionAt(o) {
        return positionAt(this.text, o)
    }
    validatePosition(p) {
        return positionAt(this.text, offsetAt(this.text, p))
    }
    validateRange(r) {
        return new Range(this.validatePosition(r.start), this.validatePosition(r.end))
    }
    save() {
        return request({kind: "save", doc: this})
    }
}

// To the window, which answers some time.
function request(r) {
    return new Promise((resolve) => w.toWindow.push({...r, resolve}))
}

function applyEdit(edit) {
    const all = []
    for (const [uri, edits] of edit.entries()) {
        const doc = w.documents.find((d) => d.uri.toString() === uri.toString())
        all.push(...edits.map((e) => ({doc, edit: e, version: doc?.version})))
    }
    return request({kind: "apply", all})
}

function textEditor(doc) {
    return {
        document: doc,
        selection: new Selection(0, 0, 0, 0),
        selections: [new Selection(0, 0, 0, 0)],
        visibleRanges: [],
        options: {},
        setDecorations(type, ranges) {
            w.decorations.push({
                path: doc.fileName,
                ranges: ranges.map((r) => r.range || r).map((r) => [r.start.line, r.start.character, r.end.line, r.end.character]),
            })
        },
        edit(f) {
            const edits = new WorkspaceEdit()
            f({
                replace: (r, t) => edits.replace(doc.uri, r instanceof Range ? r : new Range(r, r), t),
                insert: (p, t) => edits.insert(doc.uri, p, t),
                delete: (r) => edits.delete(doc.uri, r),
                setEndOfLine() {},
            })
            return applyEdit(edits)
        },
        revealRange() {},
    }
}

// What is not here does nothing.
function lenient(known) {
    return new Proxy(known, {
        get(t, name) {
            if (name in t || typeof name === "symbol" || name === "then") {
                return t[name]
            }
            if (/^on[A-Z]/.test(name)) {
                return (t[name] = new EventEmitter().event)
            }
            if (/^[A-Z]/.test(name)) {
                return (t[name] = lenient({}))
            }
            return () => lenient({dispose() {}})
        },
    })
}

function start() {
    w = {
        documents: [],
        editors: [],
        // What the window has, by document.
        window: new Map(),
        toWindow: [],
        toExtension: [],
        callbacks: new Map(),
        handlers: {},
        next: 1,
        decorations: [],
        commands: {},
        messages: [],
        refused: 0,
        emptyApplies: true,
        changed: new EventEmitter(),
        opened: new EventEmitter(),
        closed: new EventEmitter(),
        selection: new EventEmitter(),
    }
    sent = []
    complaints = []
    selected = []
    const message = (text) => {
        w.messages.push(String(text))
        return Promise.resolve(undefined)
    }
    const vscode = lenient({
        Position,
        Range,
        Selection,
        TextEdit,
        WorkspaceEdit,
        Uri,
        EventEmitter,
        Disposable: class {
            constructor(f) {
                this.dispose = f || (() => {})
            }
            static from(...all) {
                return new this(() => all.forEach((d) => d.dispose()))
            }
        },
        DecorationRangeBehavior: {OpenOpen: 0, ClosedClosed: 1, OpenClosed: 2, ClosedOpen: 3},
        OverviewRulerLane: {Left: 1, Center: 2, Right: 4, Full: 7},
        EndOfLine: {LF: 1, CRLF: 2},
        TextDocumentChangeReason: {Undo: 1, Redo: 2},
        window: lenient({
            get visibleTextEditors() {
                return w.editors
            },
            get activeTextEditor() {
                return w.editors[0]
            },
            createTextEditorDecorationType: () => ({key: "d", dispose() {}}),
            onDidChangeTextEditorSelection: w.selection.event,
            showErrorMessage: message,
            showWarningMessage: message,
            showInformationMessage: message,
        }),
        workspace: lenient({
            get textDocuments() {
                return w.documents.slice()
            },
            workspaceFolders: undefined,
            applyEdit,
            onDidChangeTextDocument: w.changed.event,
            onDidOpenTextDocument: w.opened.event,
            onDidCloseTextDocument: w.closed.event,
            getConfiguration: () => ({get: (_, d) => d, has: () => false}),
            asRelativePath: (u) => (u.fsPath || u),
        }),
        commands: lenient({
            registerCommand: (name, f) => {
                w.commands[name] = f
                return {dispose() {}}
            },
        }),
    })
    const connection = lenient({
        onNotification(m, f) {
            w.handlers[m.method || m] = f
            return {dispose() {}}
        },
        listen() {},
        sendRequest(m, params) {
            const id = w.next++
            sent.push(JSON.stringify({id, method: m.method || m, params}))
            const here = w
            return new Promise((resolve, reject) => here.callbacks.set(id, {resolve, reject}))
        },
        sendNotification(m, params) {
            sent.push(JSON.stringify({method: m.method || m, params}))
            return Promise.resolve()
        },
    })
    class Type {
        constructor(method) {
            this.method = method
        }
    }
    const rpc = lenient({
        createMessageConnection: () => connection,
        StreamMessageReader: class {},
        StreamMessageWriter: class {},
        RequestType: Type,
        RequestType0: Type,
        NotificationType: Type,
        NotificationType0: Type,
    })
    const process_ = {
        spawn: () => {
            const stream = lenient({on() {}, write() {}})
            return lenient({stdin: stream, stdout: stream, stderr: stream, pid: 1, on() {}, kill() {}})
        },
    }
    const modules = {
        vscode,
        "vscode-jsonrpc/node": rpc,
        "vscode-jsonrpc": rpc,
        "vscode-jsonrpc/node.js": rpc,
        child_process: process_,
        "node:child_process": process_,
    }
    const extension = load(SOURCE, modules, {})
    extension.activate({
        subscriptions: [],
        extensionPath: path.dirname(SOURCE),
        globalState: lenient({}),
        workspaceState: lenient({}),
        extensionUri: Uri.file(path.dirname(SOURCE)),
    })
}

const compiled = new Map()

function load(file, modules, cache) {
    if (cache[file]) {
        return cache[file].exports
    }
    if (!compiled.has(file)) {
        const {code} = esbuild.transformSync(fs.readFileSync(file, "utf8"), {
            loader: file.endsWith(".js") ? "js" : "ts",
            format: "cjs",
            target: "node22",
        })
        compiled.set(file, new Function("require", "module", "exports", "console", code))
    }
    const m = (cache[file] = {exports: {}})
    const require_ = (name) => {
        if (name in modules) {
            return modules[name]
        }
        if (name.startsWith(".")) {
            const base = path.resolve(path.dirname(file), name)
            const found = [base, base + ".ts", base + ".js", base.replace(/\.js$/, ".ts"), base + "/index.ts"].find(
                (f) => fs.existsSync(f) && fs.statSync(f).isFile(),
            )
            if (!found) {
                throw new Error(`no ${name}`)
            }
            return load(found, modules, cache)
        }
        return name === "async-mutex" ? tools(name) : require(name)
    }
    const quiet = {log() {}, error() {}, warn() {}, info() {}, debug() {}}
    compiled.get(file)(require_, m, m.exports, quiet)
    return m.exports
}

const documentAt = (p) => w.documents.find((d) => d.fileName === p)

// In the window: a change by the user or the extension.
function windowChange(doc, ops) {
    const state = w.window.get(doc)
    const r = change(state.text, ops)
    if (!r) {
        return false
    }
    if (r.changes.length > 0) {
        state.text = r.text
        state.version += 1
        w.toExtension.push({kind: "change", doc, text: r.text, version: state.version, changes: r.changes})
        if (!state.dirty) {
            state.dirty = true
            w.toExtension.push({kind: "dirty", doc, dirty: true})
        }
    }
    return true
}

// The window takes what the extension asked it for.
function windowStep() {
    const r = w.toWindow.shift()
    if (!r) {
        return
    }
    let result
    if (r.kind === "save") {
        const state = w.window.get(r.doc)
        result = !!state
        if (state && state.dirty) {
            state.dirty = false
            w.toExtension.push({kind: "dirty", doc: r.doc, dirty: false})
        }
    } else if (r.all.length === 0) {
        result = w.emptyApplies
    } else {
        const docs = new Set(r.all.map((e) => e.doc))
        result = r.all.every((e) => w.window.get(e.doc)?.version === e.version)
        for (const doc of result ? docs : []) {
            const text = w.window.get(doc).text
            const ops = r.all
                .filter((e) => e.doc === doc)
                .map(({edit}) => ({start: offsetAt(text, edit.range.start), end: offsetAt(text, edit.range.end), text: edit.newText}))
            result = windowChange(doc, ops) && result
        }
        if (!result) {
            w.refused += 1
        }
    }
    w.toExtension.push({kind: "answer", resolve: r.resolve, result})
}

// The extension learns what happened in the window.
function extensionStep() {
    const m = w.toExtension.shift()
    if (!m) {
        return
    }
    if (m.kind === "answer") {
        m.resolve(m.result)
    } else if (m.doc.isClosed) {
        return
    } else if (m.kind === "change") {
        m.doc.text = m.text
        m.doc.version = m.version
        w.changed.fire({document: m.doc, contentChanges: m.changes, reason: undefined})
    } else if (m.kind === "dirty") {
        m.doc.isDirty = m.dirty
        w.changed.fire({document: m.doc, contentChanges: [], reason: undefined})
    } else if (m.kind === "select") {
        const editor = w.editors.find((e) => e.document === m.doc)
        editor.selections = m.ranges.map((r) => new Selection(...r))
        editor.selection = editor.selections[0]
        selected.push({path: m.doc.fileName, ranges: m.ranges, text: m.doc.text})
        w.selection.fire({textEditor: editor, selections: editor.selections, kind: 1})
    }
}

const settle = async () => {
    for (let i = 0; i < 3; i++) {
        await new Promise(setImmediate)
    }
}

const actions = {
    reset(c) {
        start()
        w.emptyApplies = c.empty
    },
    open(c) {
        const doc = new Document(Uri.file(c.path), c.text)
        w.documents.push(doc)
        w.editors.push(textEditor(doc))
        w.window.set(doc, {text: c.text, version: 1, dirty: false})
        w.opened.fire(doc)
    },
    close(c) {
        const doc = documentAt(c.path)
        w.documents = w.documents.filter((d) => d !== doc)
        w.editors = w.editors.filter((e) => e.document !== doc)
        w.window.delete(doc)
        doc.isClosed = true
        w.closed.fire(doc)
    },
    type(c) {
        windowChange(documentAt(c.path), c.ops)
    },
    select(c) {
        w.toExtension.push({kind: "select", doc: documentAt(c.path), ranges: c.ranges})
    },
    window() {
        windowStep()
    },
    extension(c) {
        for (let i = 0; i < c.n; i++) {
            extensionStep()
        }
    },
    recv(c) {
        const m = c.msg
        if (m.method) {
            w.handlers[m.method]?.(m.params)
            return
        }
        const callback = w.callbacks.get(m.id)
        w.callbacks.delete(m.id)
        if (m.error) {
            callback?.reject(Object.assign(new Error(m.error.message), {refused: true}))
        } else {
            callback?.resolve(m.result)
        }
    },
    command(c) {
        w.commands[c.name]?.()
    },
}

async function serve() {
    const rl = require("readline").createInterface({input: process.stdin})
    for await (const line of rl) {
        const c = JSON.parse(line)
        let failed
        try {
            actions[c.do](c)
        } catch (e) {
            failed = String((e && e.stack) || e)
        }
        await settle()
        process.stdout.write(
            JSON.stringify({
                failed,
                sent,
                complaints,
                selected,
                messages: w?.messages ?? [],
                decorations: w?.decorations ?? [],
                refused: w?.refused ?? 0,
                docs: w
                    ? w.documents.map((d) => {
                          const text = w.window.get(d).text
                          return {path: d.fileName, text: text.toWellFormed(), broken: !text.isWellFormed()}
                      })
                    : [],
                toWindow: w?.toWindow.length ?? 0,
                toExtension: w?.toExtension.length ?? 0,
            }) + "\n",
        )
        sent = []
        complaints = []
        selected = []
        if (w) {
            w.messages = []
            w.decorations = []
        }
    }
}

serve()
