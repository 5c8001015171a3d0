//! Drives the server: polls its futures and receives what it sends to the client.
use crate::server::Backend;
use futures::Stream;
use std::collections::BTreeMap;
use std::future::Future;
use std::pin::{pin, Pin};
use std::sync::Arc;
use std::task::{Context, Poll, Wake, Waker};
use tower::Service;
use tower_lsp::lsp_types::*;
use tower_lsp::{ClientSocket, LanguageServer, LspService};

/// A notification of the client
pub enum Event {
    Open(Url, String),
    Change(Url, Vec<String>),
    Close(Url),
    Configure(Vec<String>),
}

/// Whether a task was woken since it ran last
struct Woken(std::sync::atomic::AtomicBool);
impl Wake for Woken {
    fn wake(self: Arc<Self>) {
        self.0.store(true, std::sync::atomic::Ordering::Relaxed)
    }
}
impl Woken {
    fn new() -> Arc<Woken> {
        Arc::new(Woken(true.into()))
    }
    fn get(&self) -> bool {
        self.0.load(std::sync::atomic::Ordering::Relaxed)
    }
    fn clear(&self) {
        self.0.store(false, std::sync::atomic::Ordering::Relaxed)
    }
}

struct Nothing;
impl Wake for Nothing {
    fn wake(self: Arc<Self>) {}
}

pub struct Server {
    service: LspService<Backend>,
    socket: ClientSocket,
    /// what was published last per file
    pub published: BTreeMap<String, PublishDiagnosticsParams>,
    pub other: usize,
}

fn receive_one(socket: &mut ClientSocket, cx: &mut Context<'_>, to: &mut BTreeMap<String, PublishDiagnosticsParams>, other: &mut usize) -> bool {
    let Poll::Ready(Some(r)) = Pin::new(&mut *socket).poll_next(cx) else { return false };
    if r.method() == "textDocument/publishDiagnostics" {
        let p: PublishDiagnosticsParams = serde_json::from_value(r.params().unwrap().clone()).unwrap();
        to.insert(p.uri.to_string(), p);
    } else {
        *other += 1;
    }
    true
}

fn receive(socket: &mut ClientSocket, cx: &mut Context<'_>, to: &mut BTreeMap<String, PublishDiagnosticsParams>, other: &mut usize) -> bool {
    let mut any = false;
    while receive_one(socket, cx, to, other) {
        any = true;
    }
    any
}

impl Server {
    pub fn new(includes: &[String]) -> Server {
        let (service, socket) = LspService::new(Backend::new);
        let mut s = Server { service, socket, published: BTreeMap::new(), other: 0 };
        let mut p = serde_json::Map::new();
        p.insert("capabilities".to_string(), serde_json::Value::Object(serde_json::Map::new()));
        let mut o = serde_json::Map::new();
        o.insert("includes".to_string(), serde_json::Value::Array(includes.iter().map(|i| serde_json::Value::String(i.clone())).collect()));
        p.insert("initializationOptions".to_string(), serde_json::Value::Object(o));
        let r = tower_lsp::jsonrpc::Request::build("initialize").params(serde_json::Value::Object(p)).id(1).finish();
        let f = s.service.call(r);
        let r = run(f, &mut s.socket, &mut s.published, &mut s.other);
        let r = match r {
            Some(Ok(Some(r))) => r.into_parts().1.ok(),
            _ => None,
        };
        let r: Option<InitializeResult> = r.and_then(|r| serde_json::from_value(r).ok());
        super::sx::check(r.is_some(), "the server initializes");
        let c = r.unwrap().capabilities;
        // what the client does depends on it: changes contain the full text
        let (open, change) = match c.text_document_sync {
            Some(TextDocumentSyncCapability::Kind(k)) => (true, k),
            Some(TextDocumentSyncCapability::Options(o)) => (o.open_close == Some(true), o.change.unwrap_or(TextDocumentSyncKind::NONE)),
            None => (false, TextDocumentSyncKind::NONE),
        };
        super::sx::check(open && change == TextDocumentSyncKind::FULL, "the server asks for opened, changed and closed documents with their full text");
        super::sx::check(!matches!(c.hover_provider, None | Some(HoverProviderCapability::Simple(false))), "the server offers hovers");
        super::sx::check(!matches!(c.document_symbol_provider, None | Some(OneOf::Left(false))), "the server offers document symbols");
        super::sx::check(!matches!(c.definition_provider, None | Some(OneOf::Left(false))), "the server offers definitions");
        s
    }

    pub fn open(&mut self, uri: &Url, text: String) {
        let p = DidOpenTextDocumentParams { text_document: TextDocumentItem { uri: uri.clone(), language_id: "dts".to_string(), version: 1, text } };
        let _ = run(self.service.inner().did_open(p), &mut self.socket, &mut self.published, &mut self.other);
    }
    pub fn change(&mut self, uri: &Url, texts: Vec<String>) {
        let p = DidChangeTextDocumentParams {
            text_document: VersionedTextDocumentIdentifier { uri: uri.clone(), version: 2 },
            content_changes: texts.into_iter().map(|text| TextDocumentContentChangeEvent { range: None, range_length: None, text }).collect(),
        };
        let _ = run(self.service.inner().did_change(p), &mut self.socket, &mut self.published, &mut self.other);
    }
    pub fn save(&mut self, uri: &Url) {
        let p = DidSaveTextDocumentParams { text_document: TextDocumentIdentifier { uri: uri.clone() }, text: None };
        let _ = run(self.service.inner().did_save(p), &mut self.socket, &mut self.published, &mut self.other);
    }
    pub fn close(&mut self, uri: &Url) {
        let p = DidCloseTextDocumentParams { text_document: TextDocumentIdentifier { uri: uri.clone() } };
        let _ = run(self.service.inner().did_close(p), &mut self.socket, &mut self.published, &mut self.other);
    }
    pub fn configure(&mut self, includes: &[String]) {
        let mut o = serde_json::Map::new();
        o.insert("includes".to_string(), serde_json::Value::Array(includes.iter().map(|i| serde_json::Value::String(i.clone())).collect()));
        let p = DidChangeConfigurationParams { settings: serde_json::Value::Object(o) };
        let _ = run(self.service.inner().did_change_configuration(p), &mut self.socket, &mut self.published, &mut self.other);
    }
    /// Handles the notifications as the server does: each handler begins when the notification arrives,
    /// and goes on when what it waits for has happened. `choose(n)` decides what happens next.
    pub fn concurrently(&mut self, events: Vec<Event>, mut choose: impl FnMut(usize) -> usize) {
        let inner = self.service.inner();
        let mut waiting: Vec<Pin<Box<dyn Future<Output = ()> + '_>>> = events
            .into_iter()
            .rev()
            .map(|e| match e {
                Event::Open(uri, text) => inner.did_open(DidOpenTextDocumentParams { text_document: TextDocumentItem { uri, language_id: "dts".to_string(), version: 1, text } }),
                Event::Change(uri, texts) => inner.did_change(DidChangeTextDocumentParams {
                    text_document: VersionedTextDocumentIdentifier { uri, version: 2 },
                    content_changes: texts.into_iter().map(|text| TextDocumentContentChangeEvent { range: None, range_length: None, text }).collect(),
                }),
                Event::Close(uri) => inner.did_close(DidCloseTextDocumentParams { text_document: TextDocumentIdentifier { uri } }),
                Event::Configure(includes) => {
                    let mut o = serde_json::Map::new();
                    o.insert("includes".to_string(), serde_json::Value::Array(includes.into_iter().map(serde_json::Value::String).collect()));
                    inner.did_change_configuration(DidChangeConfigurationParams { settings: serde_json::Value::Object(o) })
                }
            } as Pin<Box<dyn Future<Output = ()> + '_>>)
            .collect();
        let mut running: Vec<(Pin<Box<dyn Future<Output = ()> + '_>>, Arc<Woken>)> = vec![];
        let client = Woken::new();
        for _ in 0..1000 {
            // what can happen: a running handler goes on, the client receives a message, the next handler begins
            let ready: Vec<usize> = (0..running.len()).filter(|i| running[*i].1.get()).collect();
            let (receives, begins) = (client.get() as usize, (!waiting.is_empty()) as usize);
            let n = ready.len() + receives + begins;
            if n == 0 {
                break;
            }
            let c = if n == 1 { 0 } else { choose(n) };
            let i = if c < ready.len() {
                ready[c]
            } else if c < ready.len() + receives {
                let w = Waker::from(client.clone());
                client.clear();
                if receive_one(&mut self.socket, &mut Context::from_waker(&w), &mut self.published, &mut self.other) {
                    client.0.store(true, std::sync::atomic::Ordering::Relaxed);
                }
                continue;
            } else {
                running.push((waiting.pop().unwrap(), Woken::new()));
                running.len() - 1
            };
            let (f, woken) = &mut running[i];
            woken.clear();
            let w = Waker::from(woken.clone());
            if f.as_mut().poll(&mut Context::from_waker(&w)).is_ready() {
                drop(running.remove(i));
            }
        }
        super::sx::check(running.is_empty() && waiting.is_empty(), "the server handles every notification");
    }

    fn at(&self, uri: &Url, p: Position) -> TextDocumentPositionParams {
        TextDocumentPositionParams { text_document: TextDocumentIdentifier { uri: uri.clone() }, position: p }
    }
    pub fn definition(&mut self, uri: &Url, p: Position) -> Option<Location> {
        let p = GotoDefinitionParams { text_document_position_params: self.at(uri, p), work_done_progress_params: Default::default(), partial_result_params: Default::default() };
        match run(self.service.inner().goto_definition(p), &mut self.socket, &mut self.published, &mut self.other) {
            Some(Ok(Some(GotoDefinitionResponse::Scalar(l)))) => Some(l),
            Some(Ok(Some(GotoDefinitionResponse::Array(mut l)))) if l.len() == 1 => l.pop(),
            _ => None,
        }
    }
    pub fn hover(&mut self, uri: &Url, p: Position) -> Option<String> {
        let p = HoverParams { text_document_position_params: self.at(uri, p), work_done_progress_params: Default::default() };
        match run(self.service.inner().hover(p), &mut self.socket, &mut self.published, &mut self.other) {
            Some(Ok(Some(Hover { contents: HoverContents::Scalar(MarkedString::String(s)), .. }))) => Some(s),
            Some(Ok(Some(_))) => Some("?".to_string()),
            _ => None,
        }
    }
    pub fn symbols(&mut self, uri: &Url) -> Option<Vec<DocumentSymbol>> {
        let p = DocumentSymbolParams { text_document: TextDocumentIdentifier { uri: uri.clone() }, work_done_progress_params: Default::default(), partial_result_params: Default::default() };
        match run(self.service.inner().document_symbol(p), &mut self.socket, &mut self.published, &mut self.other) {
            Some(Ok(Some(DocumentSymbolResponse::Nested(s)))) => Some(s),
            _ => None,
        }
    }
}

fn run<F: Future>(f: F, socket: &mut ClientSocket, to: &mut BTreeMap<String, PublishDiagnosticsParams>, other: &mut usize) -> Option<F::Output> {
    let w = Waker::from(Arc::new(Nothing));
    let mut cx = Context::from_waker(&w);
    let mut f = pin!(f);
    let mut idle = 0;
    while idle < 3 {
        let r = f.as_mut().poll(&mut cx);
        let any = receive(socket, &mut cx, to, other);
        if let Poll::Ready(r) = r {
            return Some(r);
        }
        idle = if any { 0 } else { idle + 1 };
    }
    super::sx::check(false, "the server answers");
    None
}
