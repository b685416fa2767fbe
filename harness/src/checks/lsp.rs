//! C25: the language server. Drives the real server over its standard input
//! and output, and judges every answer against the text the client has.
use super::v1::v1_reads;
use super::Prop;
use crate::ctx::{Ctx, Data, Outcome};
use crate::gen::*;
use crate::rng::{mix, Rng};
use crate::work;
use crate::{bail, genv1};
use kdl::{KdlDocument, KdlError};
use miette::Severity;
use serde_json::{json, Value};
use std::collections::{BTreeMap, HashMap};
use std::io::{BufRead, BufReader, Read, Write};
use std::process::{Child, ChildStdin, Command, Stdio};
use std::sync::{Arc, Mutex};
use std::sync::mpsc::{Receiver, RecvTimeoutError};
use std::time::Duration;

struct Server {
    child: Child,
    stdin: ChildStdin,
    rx: Receiver<Value>,
    next: u64,
    got: HashMap<u64, Value>,
    other: Vec<Value>,
    said: Arc<Mutex<String>>,
}

enum Lost {
    /// it ended, or closed its output
    Died(String),
    /// alive but silent: nothing can be said
    Silent,
    /// its output is not the protocol
    Garbled(String),
}

impl Server {
    fn start(verif: &str) -> Server {
        let bin = std::env::var("LSP_BIN").unwrap_or_else(|_| format!("{verif}/target/lsp/release/kdl-lsp"));
        let mut child = Command::new(&bin)
            .env("RUST_BACKTRACE", "0")
            .env_remove("RUST_LOG")
            .stdin(Stdio::piped())
            .stdout(Stdio::piped())
            .stderr(Stdio::piped())
            .spawn()
            .unwrap_or_else(|e| panic!("HARNESS: cannot start {bin}: {e}"));
        let stdin = child.stdin.take().unwrap();
        let out = child.stdout.take().unwrap();
        let mut err = child.stderr.take().unwrap();
        let said = Arc::new(Mutex::new(String::new()));
        let log = said.clone();
        std::thread::spawn(move || {
            let mut b = [0; 4096];
            while let Ok(n) = err.read(&mut b) {
                if n == 0 {
                    return;
                }
                let mut l = log.lock().unwrap();
                if l.len() > 1 << 20 {
                    l.clear();
                }
                l.push_str(&String::from_utf8_lossy(&b[..n]));
            }
        });
        let (tx, rx) = std::sync::mpsc::channel();
        std::thread::spawn(move || {
            let mut out = BufReader::new(out);
            loop {
                let mut len = None;
                loop {
                    let mut l = String::new();
                    if out.read_line(&mut l).unwrap_or(0) == 0 {
                        return;
                    }
                    let l = l.trim_end();
                    if l.is_empty() {
                        break;
                    }
                    if let Some(n) = l.to_ascii_lowercase().strip_prefix("content-length:") {
                        len = n.trim().parse::<usize>().ok();
                    }
                }
                let mut b = vec![0; len.unwrap_or(0)];
                if out.read_exact(&mut b).is_err() {
                    return;
                }
                let v = serde_json::from_slice(&b).unwrap_or_else(|e| json!({"garbled": e.to_string()}));
                if tx.send(v).is_err() {
                    return;
                }
            }
        });
        Server { child, stdin, rx, next: 0, got: HashMap::new(), other: vec![], said }
    }
    /// Writes raw bytes; a closed pipe is noticed when an answer is missed.
    fn raw(&mut self, b: &[u8]) {
        let _ = self.stdin.write_all(b);
    }
    fn frame(v: &Value) -> Vec<u8> {
        let b = v.to_string();
        format!("Content-Length: {}\r\n\r\n{b}", b.len()).into_bytes()
    }
    fn notify(&mut self, out: &mut Vec<u8>, method: &str, params: Value) {
        out.extend(Server::frame(&json!({"jsonrpc": "2.0", "method": method, "params": params})));
    }
    fn request(&mut self, out: &mut Vec<u8>, method: &str, params: Value) -> u64 {
        self.next += 1;
        let id = self.next;
        let mut v = json!({"jsonrpc": "2.0", "id": id, "method": method});
        if !params.is_null() {
            v["params"] = params;
        }
        out.extend(Server::frame(&v));
        id
    }
    fn answer(&mut self, id: u64) -> Result<Value, Lost> {
        let mut waited = 0;
        loop {
            if let Some(v) = self.got.remove(&id) {
                return Ok(v);
            }
            match self.rx.recv_timeout(Duration::from_secs(if waited == 0 { 2 } else { 5 })) {
                Ok(v) if v.get("garbled").is_some() => return Err(Lost::Garbled(v.to_string())),
                Ok(v) => match (v.get("id").and_then(|i| i.as_u64()), v.get("method")) {
                    (Some(i), None) => {
                        if self.got.insert(i, v).is_some() {
                            return Err(Lost::Garbled(format!("two answers to request {i}")));
                        }
                    }
                    _ => self.other.push(v),
                },
                Err(RecvTimeoutError::Disconnected) => {
                    let st = self.child.wait().map(|s| s.to_string()).unwrap_or_default();
                    return Err(Lost::Died(st));
                }
                Err(RecvTimeoutError::Timeout) => {
                    // A server that panicked still waits for its next input
                    // before it ends: send it something to ignore, then see.
                    // Slowness alone decides nothing.
                    waited += 1;
                    if waited > 40 {
                        return Err(Lost::Silent);
                    }
                    let mut o = vec![];
                    self.notify(&mut o, "$/nothing", json!({}));
                    self.raw(&o);
                    std::thread::sleep(Duration::from_millis(300));
                    if let Ok(Some(st)) = self.child.try_wait() {
                        let said = self.said.lock().unwrap();
                        let said = said.rfind("panicked at").map(|i| said[i..].chars().take(300).collect()).unwrap_or(String::new());
                        return Err(Lost::Died(format!("{st}: {}", said.trim())));
                    }
                }
            }
        }
    }
    fn hello(&mut self) -> Result<Value, Lost> {
        let mut o = vec![];
        let id = self.request(&mut o, "initialize", json!({"capabilities": {}}));
        self.raw(&o);
        let v = self.answer(id)?;
        let mut o = vec![];
        self.notify(&mut o, "initialized", json!({}));
        self.raw(&o);
        Ok(v)
    }
}
impl Drop for Server {
    fn drop(&mut self) {
        let _ = self.child.kill();
        let _ = self.child.wait();
    }
}

thread_local! {
    static SERVER: std::cell::RefCell<Option<Server>> = const { std::cell::RefCell::new(None) };
}

/// Where a client finds a byte offset: lines end with \n, \r\n or \r, and
/// columns count UTF-16 code units. Within a \r\n, and past the end of the
/// line, several positions name the same place.
fn position(t: &str, at: usize) -> Vec<(u64, u64)> {
    let at = at.min(t.len());
    let (mut line, mut col) = (0, 0);
    let b = t.as_bytes();
    for (i, c) in t.char_indices() {
        if i >= at {
            break;
        }
        match c {
            '\r' if b.get(i + 1) == Some(&b'\n') => {
                if i + 1 == at {
                    return vec![(line, col), (line, col + 1), (line + 1, 0)];
                }
            }
            '\r' | '\n' => {
                line += 1;
                col = 0;
            }
            c => col += c.len_utf16() as u64,
        }
    }
    vec![(line, col)]
}

fn judge(text: Option<&str>, answer: &Value) -> Result<usize, (String, String)> {
    let bad = |k: &str, s: String| Err((k.to_string(), s));
    if let Some(e) = answer.get("error") {
        return bad("error-answer", format!("a diagnostic request is answered with {e}"));
    }
    let r = &answer["result"];
    if r["kind"] != "full" {
        return bad("report", format!("the report is {r}"));
    }
    let Some(items) = r["items"].as_array() else {
        return bad("report", format!("the report is {r}"));
    };
    let want: Vec<_> = match text.map(|t| t.parse::<KdlDocument>()) {
        None | Some(Ok(_)) => vec![],
        Some(Err(KdlError { diagnostics, .. })) => diagnostics,
    };
    if items.len() != want.len() {
        return bad(
            if want.is_empty() { "reported-for-good-text" } else { "number-of-diagnostics" },
            format!("{} diagnostics for a text with {}: {}", items.len(), want.len(), json!(items)),
        );
    }
    let t = text.unwrap_or("");
    let num = |v: &Value| v.as_u64().unwrap_or(u64::MAX);
    for (i, d) in items.iter().zip(&want) {
        let (a, b) = (d.span.offset(), d.span.offset() + d.span.len());
        for (end, at) in [("start", a), ("end", b)] {
            let p = &i["range"][end];
            let p = (num(&p["line"]), num(&p["character"]));
            let w = position(t, at);
            if !w.contains(&p) {
                return bad("position", format!("byte {at} of {} is reported as line {} character {}, not {:?}", t.len(), p.0, p.1, w));
            }
        }
        let sev = match d.severity {
            Severity::Error => 1,
            Severity::Warning => 2,
            Severity::Advice => 4,
        };
        if i["severity"] != json!(sev) {
            return bad("severity", format!("severity {} for {:?}", i["severity"], d.severity));
        }
        if i["message"] != json!(d.to_string()) {
            return bad("message", format!("message {} for {:?}", i["message"], d.to_string()));
        }
    }
    Ok(items.len())
}

fn any_text(r: &mut Rng) -> String {
    let doc = |r: &mut Rng| {
        let st = Style::random(r);
        Gen::document(r, st).0
    };
    let mut t = match r.below(10) {
        0 | 1 => doc(r),
        2..=4 => {
            let (a, b) = (doc(r), doc(r));
            mutate(r, &a, &b)
        }
        5 => {
            let n = r.range(1, 12);
            token_soup(r, n)
        }
        6 => string_soup(r),
        7 => genv1::document(r.next()).0,
        8 => {
            let a = doc(r);
            let b = genv1::document(r.next()).0;
            mutate(r, &b, &a)
        }
        _ => String::new(),
    };
    // things that shift lines and columns, then something wrong
    if r.p(2, 3) {
        let mut pre = String::new();
        for _ in 0..r.range(1, 6) {
            pre.push_str(*r.pick(&[
                "n\n", "n\r\n", "n\r", "n\u{85}", "n\u{b}", "n\u{c}", "n\u{2028}", "n\u{2029}", "n \"🎉\"; ", "n é; ", "/*\r\n*/ ", "/* 𝄞\r */ ", "n \"\"\"\n\u{1f600}\n\"\"\";",
                "\u{feff}", "// \u{10ffff}\r\n", "\r\r\n", "\n\r",
            ]));
        }
        t.insert_str(0, &pre);
    }
    if r.p(1, 3) {
        t.push_str(*r.pick(&["\n}", "\r\nn \"", " 1x", "\r(", "\u{2028}a=", "\u{b}{", "é=", " \"\\q🎉\" ", "\n#", "\rn 🎉 #x é", "\r\n\r\nn \"a\\\r\n"]));
    }
    t
}

enum Ask {
    Diagnostic(u64, String, Option<String>),
}

/// One editing session of one client, on a server that has served others.
fn session(ctx: &mut Ctx, seed: u64) -> Outcome {
    let verif = ctx.verif.clone();
    let mut r = Rng::new(mix(seed, 25));
    SERVER.with(|cell| {
        let mut slot = cell.borrow_mut();
        if r.p(1, 200) {
            *slot = None;
        }
        if slot.is_none() {
            let mut s = Server::start(&verif);
            match s.hello() {
                Ok(v) => {
                    let c = &v["result"]["capabilities"];
                    let sync = &c["textDocumentSync"];
                    let change = sync.get("change").unwrap_or(sync);
                    if change != &json!(1) || (sync.is_object() && sync["openClose"] != json!(true)) || c["diagnosticProvider"].is_null() {
                        bail!("capabilities", "the server does not announce full sync and diagnostics: {c}");
                    }
                    if !matches!(c.get("positionEncoding"), None | Some(Value::Null)) && c["positionEncoding"] != json!("utf-16") {
                        bail!("capabilities", "the server announces an encoding the client does not know: {c}");
                    }
                    ctx.count("servers_started");
                }
                Err(Lost::Died(s)) => bail!("died", "the server ended during initialize: {s}"),
                Err(Lost::Garbled(s)) => bail!("protocol", "{s}"),
                Err(Lost::Silent) => panic!("HARNESS: no answer to initialize"),
            }
            *slot = Some(s);
        }
        let s = slot.as_mut().unwrap();
        const URIS: [&str; 12] = [
            "file:///a.kdl", "file:///b/c.kdl", "file:///B/c.kdl", "file:///with%20space.kdl", "file:///%C3%A9.kdl", "untitled:Untitled-1", "file:///a.kdl.kdl", "inmemory://model/1", "untitled:///a.kdl", "file://host/a.kdl", "file:///a.kdl?v=2", "file:///a.kdl#L1",
        ];
        let mut state: BTreeMap<&str, String> = BTreeMap::new();
        let mut asked: Vec<Ask> = vec![];
        let mut out: Vec<u8> = vec![];
        let mut version = 1;
        let n = r.range(2, 10);
        // the client may send on without waiting for answers
        let pipelined = r.p(1, 2);
        let mut verdict = None;
        let first = if r.p(1, 2) { 7 } else { r.below(URIS.len()) };
        for step in 0..=n {
            let few = *r.pick(&[2, 2, 6, 12]);
            // few of them, so that they meet, but not always the same ones
            let uri = URIS[(first + r.below(few)) % URIS.len()];
            version += 1;
            let text = loop {
                let t = any_text(&mut r);
                // the v1 parser, another crate, panics on some texts (known finding)
                if v1_reads(&t).is_some() {
                    break t;
                }
                ctx.count("texts_the_v1_parser_panics_on");
            };
            let open = state.contains_key(uri);
            match r.below(8) {
                0..=2 if !open => {
                    s.notify(&mut out, "textDocument/didOpen", json!({"textDocument": {"uri": uri, "languageId": "kdl", "version": version, "text": text}}));
                    state.insert(uri, text);
                    ctx.count("opened");
                }
                0..=3 if open => {
                    let mut changes = vec![];
                    // several full changes in one notification apply in order
                    for _ in 0..if r.p(1, 6) { r.below(3) } else { 0 } {
                        changes.push(json!({"text": any_text(&mut r)}));
                    }
                    if changes.is_empty() && r.p(1, 30) {
                        ctx.count("changed_by_nothing");
                    } else {
                        changes.push(json!({"text": text}));
                        state.insert(uri, text);
                    }
                    ctx.count("changed");
                    s.notify(&mut out, "textDocument/didChange", json!({"textDocument": {"uri": uri, "version": version}, "contentChanges": changes}));
                }
                4 if open => {
                    let mut p = json!({"textDocument": {"uri": uri}});
                    if r.p(2, 3) {
                        p["text"] = json!(state[uri]);
                    }
                    s.notify(&mut out, "textDocument/didSave", p);
                    ctx.count("saved");
                }
                5 if open && r.p(1, 2) => {
                    s.notify(&mut out, "textDocument/didClose", json!({"textDocument": {"uri": uri}}));
                    state.remove(uri);
                    ctx.count("closed");
                }
                _ => {
                    let id = s.request(&mut out, "textDocument/diagnostic", json!({"textDocument": {"uri": uri}}));
                    asked.push(Ask::Diagnostic(id, uri.to_string(), state.get(uri).cloned()));
                }
            }
            if step == n {
                for u in URIS {
                    let id = s.request(&mut out, "textDocument/diagnostic", json!({"textDocument": {"uri": u}}));
                    asked.push(Ask::Diagnostic(id, u.to_string(), state.get(u).cloned()));
                }
                // leave nothing open for the next session
                for u in state.keys() {
                    s.notify(&mut out, "textDocument/didClose", json!({"textDocument": {"uri": u}}));
                }
            }
            if !pipelined || step == n || out.len() > 30_000 {
                // in pieces, as a pipe may deliver it
                let bytes = std::mem::take(&mut out);
                if r.p(1, 10) {
                    let mut i = 0;
                    while i < bytes.len() {
                        let k = r.range(1, bytes.len()).min(bytes.len() - i);
                        s.raw(&bytes[i..i + k]);
                        let _ = s.stdin.flush();
                        std::thread::yield_now();
                        i += k;
                    }
                } else {
                    s.raw(&bytes);
                }
                for Ask::Diagnostic(id, uri, text) in asked.drain(..) {
                    let v = match s.answer(id) {
                        Ok(v) => v,
                        // killed from outside (out of memory): nothing can be said
                        Err(Lost::Died(st)) if st.contains("SIGKILL") => panic!("HARNESS: server killed"),
                        Err(Lost::Died(st)) => {
                            verdict = Some(Outcome::Viol("died".into(), format!("the server ended ({st}) instead of answering about {uri} with {text:?}")));
                            break;
                        }
                        Err(Lost::Garbled(e)) => {
                            verdict = Some(Outcome::Viol("protocol".into(), e));
                            break;
                        }
                        Err(Lost::Silent) => panic!("HARNESS: no answer in 120 s (seed {seed})"),
                    };
                    match judge(text.as_deref(), &v) {
                        Ok(k) => {
                            ctx.count(match (&text, k) {
                                (None, _) => "answers_about_closed_documents",
                                (Some(_), 0) => "answers_about_good_documents",
                                _ => "answers_about_bad_documents",
                            });
                            ctx.add("diagnostics_compared", k as u64);
                        }
                        Err((k, e)) => {
                            verdict = Some(Outcome::Viol(k, format!("{uri} {}: {e}\n  text {text:?}", if pipelined { "pipelined" } else { "in turn" })));
                            break;
                        }
                    }
                }
                if verdict.is_some() {
                    break;
                }
            }
        }
        match verdict {
            Some(v) => {
                *slot = None;
                v
            }
            None => Outcome::Held(true),
        }
    })
}

/// One text, in a server of its own.
fn one_text(ctx: &mut Ctx, t: &str) -> Outcome {
    let mut s = Server::start(&ctx.verif);
    let lost = |l| match l {
        Lost::Died(s) => Outcome::Viol("died".into(), format!("the server ended: {s}")),
        Lost::Garbled(s) => Outcome::Viol("protocol".into(), s),
        Lost::Silent => panic!("HARNESS: no answer in 120 s"),
    };
    if let Err(l) = s.hello() {
        return lost(l);
    }
    let mut o = vec![];
    let uri = "file:///t.kdl";
    s.notify(&mut o, "textDocument/didOpen", json!({"textDocument": {"uri": uri, "languageId": "kdl", "version": 1, "text": t}}));
    let id = s.request(&mut o, "textDocument/diagnostic", json!({"textDocument": {"uri": uri}}));
    s.raw(&o);
    let v = match s.answer(id) {
        Ok(v) => v,
        Err(l) => return lost(l),
    };
    if v1_reads(t).is_none() {
        // nothing to compare with
        return Outcome::Held(true);
    }
    match judge(Some(t), &v) {
        Ok(n) => Outcome::Held(n > 0),
        Err((k, e)) => Outcome::Viol(k, e),
    }
}

fn c25(ctx: &mut Ctx) {
    ctx.max_viol = 3;
    if ctx.worker == 0 {
        let t = "(true";
        let data = Data::Text(t.into());
        ctx.publish("v1-parser-panic", &data);
        let o = one_text(ctx, t);
        ctx.settle("v1-parser-panic", data, 1, o);
    }
    let corp = work::corpus(ctx);
    for (i, (_, t)) in corp.iter().enumerate() {
        if ctx.mine(i) && (ctx.thorough || i % 8 < 2) && v1_reads(t).is_some() {
            let data = Data::Text(t.clone());
            ctx.publish("corpus", &data);
            let o = one_text(ctx, t);
            ctx.settle("corpus", data, crate::rng::hash_bytes(t.as_bytes()), o);
        }
    }
    let mut r = ctx.rng("sessions");
    for _ in 0..ctx.n(30_000, 600_000) {
        if ctx.stop() {
            return;
        }
        ctx.seeded("session", r.next(), session);
    }
    SERVER.with(|s| *s.borrow_mut() = None);
}

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "C25",
        rule: "Cases are editing sessions with the running server: documents opened, changed, saved and closed, several at a time, with diagnostics asked for in between, waiting for answers or not; texts are generated, mutated and broken ones in KDL v2 and v1, with every kind of line end and characters of every width before the error. Distinct by session.",
        run: c25,
        replay: |ctx, _, d| match d {
            Data::Seed(s) => session(ctx, *s),
            Data::Text(t) => one_text(ctx, t),
        },
    }]
}
