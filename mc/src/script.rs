//! Little programs run by middleware and handlers against the real Context, and their interpreter (the model).
use crate::common::*;
use crate::sut::{rid_of, trace_push, trace_take, Ev, METHODS};
use crate::wire::{self, Reply};
use async_trait::async_trait;
use hyper::{Body, Request, StatusCode};
use obsidian::context::Context;
use obsidian::middleware::Middleware;
use obsidian::router::{header::HeaderName, ContextResult, FormError, Response, Router};
use obsidian::{App, EndpointExecutor, ObsidianError};
use std::collections::{BTreeMap, HashMap};
use std::sync::Arc;

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum Act {
    Next,
    Yield,
    /// build a response from RESPS
    Build(usize),
    /// change the response in place, when there is one
    SetStatus(u16),
    AddHeader(usize),
    ClearResp,
    Put(u8, i64),
    Inc(u8),
    Rem(u8),
    See(u8),
    SeeResp,
    /// read and change the application state
    SeeState,
    IncState,
    PutState(i64),
    Fail(usize),
    /// after an error: go on with a fresh context and this response
    Recover(usize),
    Take,
    TakeDrop,
    Json,
    JsonTyped,
    Form,
    FormTyped,
    Query,
    QueryTyped,
    Param,
    ParamTyped,
    Head,
    /// every request header, in a canonical order, and the protocol version
    AllHead,
    SetReqHeader(usize),
    /// wait until released by the explorer
    Gate,
    Panic,
}
use Act::*;

pub type Script = Arc<Vec<Act>>;

pub const RESPS: &[(u16, &[(&str, &str)], &str)] = &[
    (200, &[], "r0"),
    (201, &[("x-a", "1")], "r1"),
    (404, &[("x-a", "2"), ("x-b", "3")], "r2 text"),
    (503, &[], ""),
    (200, &[("x-c", "4")], "r4 {\"k\": 1}"),
    (302, &[("location", "/elsewhere")], "moved"),
];

pub const HEADERS: &[(&str, &str)] = &[("x-m", "m0"), ("x-a", "m1"), ("x-c", "m2")];

pub const NERR: usize = 12;

pub fn make_err(k: usize) -> ObsidianError {
    match k {
        0 => ObsidianError::GeneralError("general".into()),
        1 => ObsidianError::ParamError("param text".into()),
        2 => ObsidianError::NoneError,
        3 => ObsidianError::FormError(FormError::Message("form text".into())),
        4 => ObsidianError::FormError(FormError::NoneError),
        5 => ObsidianError::JsonError(serde_json::from_str::<i32>("{").unwrap_err()),
        6 => ObsidianError::GeneralError("".into()),
        7 => ObsidianError::GeneralError("héllo 日本 \u{1f600}".into()),
        8 => ObsidianError::GeneralError("a\r\nb\n\nc\0d".into()),
        9 => ObsidianError::GeneralError("x".repeat(100_000)),
        10 => ObsidianError::from(serde_json::from_str::<String>("nope").unwrap_err()),
        _ => ObsidianError::from(FormError::Message("from form".into())),
    }
}

/// The message of each error, spelled out independently of the library.
/// which error it is, whatever its text
pub fn err_kind(e: &ObsidianError) -> &'static str {
    match e {
        ObsidianError::GeneralError(_) => "general",
        ObsidianError::ParamError(_) => "param",
        ObsidianError::JsonError(_) => "json",
        ObsidianError::FormError(FormError::NoneError) => "form none",
        ObsidianError::FormError(_) => "form",
        ObsidianError::NoneError => "none",
        #[allow(unreachable_patterns)]
        _ => "other",
    }
}

pub fn err_text(k: usize) -> String {
    match k {
        0 => "general".into(),
        1 => "param text".into(),
        2 => "Input should not be None".into(),
        3 => "form text".into(),
        4 => "Input should not be None".into(),
        5 => serde_json::from_str::<i32>("{").unwrap_err().to_string(),
        6 => "".into(),
        7 => "héllo 日本 \u{1f600}".into(),
        8 => "a\r\nb\n\nc\0d".into(),
        9 => "x".repeat(100_000),
        10 => serde_json::from_str::<String>("nope").unwrap_err().to_string(),
        _ => "from form".into(),
    }
}

struct S0(i64);
struct S1(i64);
struct S2(i64);

#[derive(Clone)]
pub struct State(pub i64, pub Vec<u8>);

fn put(c: &mut Context, t: u8, v: i64) {
    match t {
        0 => c.add(S0(v)),
        1 => c.add(S1(v)),
        _ => c.add(S2(v)),
    }
}
fn see(c: &Context, t: u8) -> Option<i64> {
    match t {
        0 => c.get::<S0>().map(|s| s.0),
        1 => c.get::<S1>().map(|s| s.0),
        _ => c.get::<S2>().map(|s| s.0),
    }
}
fn inc(c: &mut Context, t: u8) {
    match t {
        0 => c.get_mut::<S0>().map(|s| s.0 += 1),
        1 => c.get_mut::<S1>().map(|s| s.0 += 1),
        _ => c.get_mut::<S2>().map(|s| s.0 += 1),
    };
}
fn rem(c: &mut Context, t: u8) {
    match t {
        0 => drop(c.extensions_mut().remove::<S0>()),
        1 => drop(c.extensions_mut().remove::<S1>()),
        _ => drop(c.extensions_mut().remove::<S2>()),
    }
}

/// 1000 and more: a response of that status, less 1000
fn resp_parts(k: usize) -> (u16, &'static [(&'static str, &'static str)], &'static str) {
    match k {
        1204 | 1304 => (k as u16 - 1000, &[("x-a", "1")], ""),
        1000.. => (k as u16 - 1000, &[("x-a", "1")], "of a status"),
        _ => RESPS[k],
    }
}

pub fn resp(k: usize) -> Response {
    let (s, h, b) = resp_parts(k);
    let mut r = Response::new(b).with_status(StatusCode::from_u16(s).unwrap());
    for (n, v) in h {
        r = r.with_header_str(n, v);
    }
    r
}

#[derive(serde::Deserialize, serde::Serialize, Debug)]
struct Typed {
    id: i32,
    mode: String,
}

/// One Pending, immediately woken.
pub struct YieldOnce(pub bool);
impl std::future::Future for YieldOnce {
    type Output = ();
    fn poll(mut self: std::pin::Pin<&mut Self>, cx: &mut std::task::Context<'_>) -> std::task::Poll<()> {
        if self.0 {
            std::task::Poll::Ready(())
        } else {
            self.0 = true;
            cx.waker().wake_by_ref();
            std::task::Poll::Pending
        }
    }
}

fn show_bytes(b: &[u8]) -> String {
    if b.len() > 200 {
        format!("{} bytes #{:x}", b.len(), hash_of(&b))
    } else {
        format!("{:?}", String::from_utf8_lossy(b))
    }
}

pub async fn run(who: u32, script: Script, ctx: Context, ep: Option<EndpointExecutor<'_>>) -> ContextResult {
    let rid = rid_of(&ctx);
    let note = |s: String| trace_push(rid, Ev::Note(format!("{}:{}", who, s)));
    note("start".into());
    let mut ep = ep;
    let mut cur: ContextResult = Ok(ctx);
    for a in script.iter() {
        let mut c = match cur {
            Ok(c) => c,
            Err(e) => {
                if let Recover(k) = a {
                    let mut req = Request::new(Body::empty());
                    req.headers_mut().insert("x-rid", rid.into());
                    cur = Context::new(req, HashMap::new()).build(resp(*k)).ok();
                } else {
                    cur = Err(e);
                }
                continue;
            }
        };
        match a {
            Next => {
                let r = ep.take().expect("Next once, in middleware").next(c).await;
                note(match &r {
                    Ok(_) => "got ok".to_string(),
                    Err(e) => format!("got {} error {}", err_kind(e), show_bytes(e.to_string().as_bytes())),
                });
                cur = r;
                continue;
            }
            Yield => YieldOnce(false).await,
            Build(k) => {
                cur = c.build(resp(*k)).ok();
                continue;
            }
            SetStatus(s) => {
                if let Some(r) = c.response_mut() {
                    *r.status_mut() = StatusCode::from_u16(*s).unwrap();
                }
            }
            AddHeader(k) => {
                let (n, v) = HEADERS[*k];
                if let Some(r) = c.response_mut() {
                    let h = r.headers_mut();
                    h.get_or_insert_with(Vec::new).push((HeaderName::from_static(n), v));
                }
            }
            ClearResp => *c.response_mut() = None,
            Put(t, v) => put(&mut c, *t, *v),
            Inc(t) => inc(&mut c, *t),
            Rem(t) => rem(&mut c, *t),
            See(t) => note(format!("slot{} {:?}", t, see(&c, *t))),
            SeeResp => note(match c.response() {
                None => "no response".into(),
                Some(r) => format!(
                    "response {} {:?}",
                    r.status().as_u16(),
                    r.headers().clone().unwrap_or_default().iter().filter(|h| h.0.as_str().starts_with("x-")).map(|h| format!("{}={}", h.0, h.1)).collect::<Vec<_>>()
                ),
            }),
            SeeState => note(format!("state {:?}", c.get::<State>().map(|s| (s.0, s.1.len())))),
            IncState => {
                if let Some(s) = c.get_mut::<State>() {
                    s.0 += 1;
                    s.1.push(7);
                }
            }
            PutState(v) => c.add(State(*v, vec![])),
            Fail(k) => {
                cur = Err(make_err(*k));
                continue;
            }
            Recover(_) => {}
            Take => {
                let b = c.take_body();
                note(match hyper::body::to_bytes(b).await {
                    Ok(b) => format!("body {}", show_bytes(&b)),
                    Err(_) => "body error".into(),
                });
            }
            TakeDrop => drop(c.take_body()),
            Json => {
                let r = c.json::<serde_json::Value>().await;
                note(r.map(|v| format!("json {}", show_bytes(v.to_string().as_bytes()))).unwrap_or("json err".into()));
            }
            JsonTyped => {
                let r = c.json::<Typed>().await;
                note(r.map(|v| format!("jsont {:?}", v)).unwrap_or("jsont err".into()));
            }
            Form => {
                let r = c.form::<HashMap<String, Vec<String>>>().await;
                note(r.map(|m| format!("form {}", show_bytes(format!("{:?}", m.into_iter().collect::<BTreeMap<_, _>>()).as_bytes()))).unwrap_or("form err".into()));
            }
            FormTyped => {
                let r = c.form::<Typed>().await;
                note(r.map(|v| format!("formt {:?}", v)).unwrap_or("formt err".into()));
            }
            Query => {
                let r = c.query_params::<HashMap<String, Vec<String>>>();
                note(r.map(|m| format!("query {:?}", m.into_iter().collect::<BTreeMap<_, _>>())).unwrap_or("query err".into()));
            }
            QueryTyped => {
                let r = c.query_params::<Typed>();
                note(r.map(|v| format!("queryt {:?}", v)).unwrap_or("queryt err".into()));
            }
            Param => note(format!("param {:?} {:?}", c.param::<String>("id").ok(), c.param::<String>("none").ok())),
            ParamTyped => note(format!("paramt {:?} {:?}", c.param::<i32>("id").ok(), c.param::<i32>("none").ok())),
            Head => note(format!(
                "head {} {} {:?} {:?}",
                c.method(),
                c.uri(),
                c.headers().get("x-q").and_then(|v| v.to_str().ok()),
                c.headers().get("x-set").and_then(|v| v.to_str().ok())
            )),
            AllHead => {
                let mut v: Vec<String> = c.headers().iter().filter(|(k, _)| k.as_str() != "x-rid").map(|(k, v)| format!("{}: {}", k, String::from_utf8_lossy(v.as_bytes()))).collect();
                v.sort();
                note(format!("headers {:?}", v));
            }
            SetReqHeader(k) => {
                c.headers_mut().insert("x-set", (*k).into());
            }
            Gate => {
                let g = GateWait::arrive(rid);
                g.await;
                note("passed".into());
            }
            Panic => panic!("scripted panic"),
        }
        cur = Ok(c);
    }
    note("end".into());
    cur
}

#[derive(Default)]
pub struct GateState {
    pub arrived: usize,
    pub released: usize,
    pub dropped: usize,
    waker: Option<std::task::Waker>,
}

thread_local! {
    pub static GATES: std::cell::RefCell<HashMap<u32, GateState>> = std::cell::RefCell::new(HashMap::new());
}

pub fn gates_reset() {
    // wakers must not be dropped while the map is borrowed
    let old = GATES.with(|g| std::mem::take(&mut *g.borrow_mut()));
    drop(old);
}
pub fn gate_arrived(rid: u32) -> usize {
    GATES.with(|g| g.borrow().get(&rid).map_or(0, |s| s.arrived))
}
pub fn gate_dropped(rid: u32) -> usize {
    GATES.with(|g| g.borrow().get(&rid).map_or(0, |s| s.dropped))
}
pub fn gate_release(rid: u32) {
    let w = GATES.with(|g| {
        let mut g = g.borrow_mut();
        let s = g.entry(rid).or_default();
        s.released += 1;
        s.waker.take()
    });
    if let Some(w) = w {
        w.wake();
    }
}

struct GateWait {
    rid: u32,
    k: usize,
    done: bool,
}
impl GateWait {
    fn arrive(rid: u32) -> GateWait {
        let k = GATES.with(|g| {
            let mut g = g.borrow_mut();
            let s = g.entry(rid).or_default();
            s.arrived += 1;
            s.arrived
        });
        GateWait { rid, k, done: false }
    }
}
impl std::future::Future for GateWait {
    type Output = ();
    fn poll(mut self: std::pin::Pin<&mut Self>, cx: &mut std::task::Context<'_>) -> std::task::Poll<()> {
        let (rid, k) = (self.rid, self.k);
        let ready = GATES.with(|g| {
            let mut g = g.borrow_mut();
            let s = g.entry(rid).or_default();
            if s.released >= k {
                true
            } else {
                s.waker = Some(cx.waker().clone());
                false
            }
        });
        if ready {
            self.done = true;
            std::task::Poll::Ready(())
        } else {
            std::task::Poll::Pending
        }
    }
}
impl Drop for GateWait {
    fn drop(&mut self) {
        if !self.done {
            let _ = GATES.try_with(|g| {
                if let Ok(mut g) = g.try_borrow_mut() {
                    if let Some(s) = g.get_mut(&self.rid) {
                        s.dropped += 1;
                    }
                }
            });
        }
    }
}

pub struct ScriptMw {
    pub who: u32,
    pub script: Script,
}

#[async_trait]
impl Middleware for ScriptMw {
    async fn handle<'a>(&'a self, context: Context, ep: EndpointExecutor<'a>) -> ContextResult {
        run(self.who, self.script.clone(), context, Some(ep)).await
    }
}

// ---------------------------------------------------------------- model

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct MResp {
    pub status: u16,
    pub headers: Vec<(String, String)>,
    pub body: String,
}

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct MReq {
    pub method: u8,
    pub target: String,
    pub xq: Option<String>,
    pub body: Option<Vec<u8>>,
    pub extra: Vec<(String, String)>,
}

#[derive(Clone, Debug)]
pub struct MCtx {
    slots: [Option<i64>; 3],
    state: Option<(i64, usize)>,
    resp: Option<MResp>,
    body: Vec<u8>,
    id: Option<String>,
    req: Option<MReq>,
    xset: Option<String>,
}

/// Pairs of a form text, decoded by the documented rules (percent and plus, empty values dropped).
pub fn form_pairs(b: &[u8]) -> Vec<(String, String)> {
    fn dec(s: &[u8]) -> String {
        let mut out = vec![];
        let mut i = 0;
        while i < s.len() {
            let hex = |c: u8| (c as char).to_digit(16).map(|d| d as u8);
            if s[i] == b'+' {
                out.push(b' ');
            } else if s[i] == b'%' && i + 2 < s.len() && hex(s[i + 1]).is_some() && hex(s[i + 2]).is_some() {
                out.push(hex(s[i + 1]).unwrap() * 16 + hex(s[i + 2]).unwrap());
                i += 2;
            } else {
                out.push(s[i]);
            }
            i += 1;
        }
        String::from_utf8_lossy(&out).into_owned()
    }
    b.split(|c| *c == b'&')
        .filter(|p| !p.is_empty())
        .map(|p| match p.iter().position(|c| *c == b'=') {
            Some(k) => (dec(&p[..k]), dec(&p[k + 1..])),
            None => (dec(p), String::new()),
        })
        .filter(|(_, v)| !v.is_empty())
        .collect()
}

fn form_map(b: &[u8]) -> BTreeMap<String, Vec<String>> {
    let mut m: BTreeMap<String, Vec<String>> = BTreeMap::new();
    for (k, v) in form_pairs(b) {
        m.entry(k).or_default().push(v);
    }
    m
}

fn typed_of(b: &[u8]) -> Option<Typed> {
    let m = form_map(b);
    let id = m.get("id").and_then(|v| v[0].parse::<i32>().ok());
    let mode = m.get("mode").map(|v| v[0].clone());
    Some(Typed { id: id?, mode: mode? })
}

fn mresp(k: usize) -> MResp {
    let (s, h, b) = resp_parts(k);
    MResp { status: s, headers: h.iter().map(|(a, b)| (a.to_string(), b.to_string())).collect(), body: b.into() }
}

fn last_wins(h: &[(String, String)]) -> BTreeMap<String, String> {
    h.iter().cloned().collect()
}

pub type Trace = Vec<String>;

#[derive(Debug)]
enum Stop {
    /// which of the errors
    Err(usize),
    /// unwinding: nothing further runs
    Dead,
}

fn model_run(chain: &[(u32, Script)], i: usize, ctx: MCtx, tr: &mut Trace) -> Result<MCtx, Stop> {
    let (who, script) = &chain[i];
    tr.push(format!("{}:start", who));
    let mut cur: Result<MCtx, Stop> = Ok(ctx);
    for a in script.iter() {
        let mut c = match cur {
            Ok(c) => c,
            Err(Stop::Dead) => return cur,
            Err(e) => {
                cur = match a {
                    Recover(k) => Ok(MCtx { slots: [None; 3], state: None, resp: Some(mresp(*k)), body: vec![], id: None, req: None, xset: None }),
                    _ => Err(e),
                };
                continue;
            }
        };
        match a {
            Next => {
                let r = model_run(chain, i + 1, c, tr);
                tr.push(match &r {
                    Ok(_) => format!("{}:got ok", who),
                    Err(Stop::Err(k)) => format!("{}:got {} error {}", who, err_kind(&make_err(*k)), show_bytes(err_text(*k).as_bytes())),
                    Err(Stop::Dead) => return r,
                });
                cur = r;
                continue;
            }
            Yield => {}
            Build(k) => c.resp = Some(mresp(*k)),
            SetStatus(s) => {
                if let Some(r) = &mut c.resp {
                    r.status = *s;
                }
            }
            AddHeader(k) => {
                if let Some(r) = &mut c.resp {
                    r.headers.push((HEADERS[*k].0.into(), HEADERS[*k].1.into()));
                }
            }
            ClearResp => c.resp = None,
            Put(t, v) => c.slots[*t as usize] = Some(*v),
            Inc(t) => {
                if let Some(v) = &mut c.slots[*t as usize] {
                    *v += 1;
                }
            }
            Rem(t) => c.slots[*t as usize] = None,
            See(t) => tr.push(format!("{}:slot{} {:?}", who, t, c.slots[*t as usize])),
            SeeResp => tr.push(match &c.resp {
                None => format!("{}:no response", who),
                Some(r) => format!("{}:response {} {:?}", who, r.status, r.headers.iter().filter(|h| h.0.starts_with("x-")).map(|h| format!("{}={}", h.0, h.1)).collect::<Vec<_>>()),
            }),
            SeeState => tr.push(format!("{}:state {:?}", who, c.state)),
            IncState => {
                if let Some(s) = &mut c.state {
                    s.0 += 1;
                    s.1 += 1;
                }
            }
            PutState(v) => c.state = Some((*v, 0)),
            Fail(k) => {
                cur = Err(Stop::Err(*k));
                continue;
            }
            Recover(_) => {}
            Take => {
                let b = std::mem::take(&mut c.body);
                tr.push(format!("{}:body {}", who, show_bytes(&b)));
            }
            TakeDrop => c.body = vec![],
            Json => {
                let b = std::mem::take(&mut c.body);
                tr.push(match serde_json::from_slice::<serde_json::Value>(&b) {
                    Ok(v) => format!("{}:json {}", who, show_bytes(v.to_string().as_bytes())),
                    Err(_) => format!("{}:json err", who),
                });
            }
            JsonTyped => {
                let b = std::mem::take(&mut c.body);
                tr.push(match serde_json::from_slice::<Typed>(&b) {
                    Ok(v) => format!("{}:jsont {:?}", who, v),
                    Err(_) => format!("{}:jsont err", who),
                });
            }
            Form => {
                let b = std::mem::take(&mut c.body);
                tr.push(format!("{}:form {}", who, show_bytes(format!("{:?}", form_map(&b)).as_bytes())));
            }
            FormTyped => {
                let b = std::mem::take(&mut c.body);
                tr.push(match typed_of(&b) {
                    Some(t) => format!("{}:formt {:?}", who, t),
                    _ => format!("{}:formt err", who),
                });
            }
            Query => {
                let q = c.req.as_ref().and_then(|r| r.target.split_once('?').map(|x| x.1.to_string())).unwrap_or_default();
                tr.push(format!("{}:query {:?}", who, form_map(q.as_bytes())));
            }
            QueryTyped => {
                let q = c.req.as_ref().and_then(|r| r.target.split_once('?').map(|x| x.1.to_string())).unwrap_or_default();
                tr.push(match typed_of(q.as_bytes()) {
                    Some(t) => format!("{}:queryt {:?}", who, t),
                    _ => format!("{}:queryt err", who),
                });
            }
            Param => tr.push(format!("{}:param {:?} {:?}", who, c.id, None::<String>)),
            ParamTyped => tr.push(format!("{}:paramt {:?} {:?}", who, c.id.as_ref().and_then(|v| v.parse::<i32>().ok()), None::<i32>)),
            Head => tr.push(format!(
                "{}:head {} {} {:?} {:?}",
                who,
                c.req.as_ref().map(|r| METHODS[r.method as usize]).unwrap_or("GET"),
                c.req.as_ref().map(|r| r.target.clone()).unwrap_or("/".into()),
                c.req.as_ref().and_then(|r| r.xq.as_deref()),
                c.xset
            )),
            AllHead => {
                let mut v: Vec<String> = vec![];
                if let Some(r) = &c.req {
                    v.push("host: localhost".into());
                    v.extend(r.xq.iter().map(|x| format!("x-q: {}", x)));
                    v.extend(r.body.iter().map(|b| format!("content-length: {}", b.len())));
                    v.extend(r.extra.iter().map(|(k, x)| format!("{}: {}", k, x)));
                }
                v.extend(c.xset.iter().map(|x| format!("x-set: {}", x)));
                v.sort();
                tr.push(format!("{}:headers {:?}", who, v));
            }
            SetReqHeader(k) => c.xset = Some(k.to_string()),
            Gate => tr.push(format!("{}:passed", who)),
            Panic => return Err(Stop::Dead),
        }
        cur = Ok(c);
    }
    tr.push(format!("{}:end", who));
    cur
}

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct Expected {
    pub trace: Trace,
    pub status: u16,
    pub headers: BTreeMap<String, String>,
    pub body: String,
}

pub fn expect(chain: &Chain, req: &MReq) -> Expected {
    let mut tr = vec![];
    let ctx = MCtx { slots: [None; 3], state: chain.state.map(|v| (v, 0)), resp: None, body: req.body.clone().unwrap_or_default(), id: Some(chain.id_of(req)), req: Some(req.clone()), xset: None };
    let r = model_run(&chain.links(), 0, ctx, &mut tr);
    let (status, headers, body) = match r {
        Ok(c) => match c.resp {
            Some(r) => (r.status, last_wins(&r.headers), r.body),
            None => (200, BTreeMap::new(), String::new()),
        },
        Err(Stop::Err(k)) => (500, BTreeMap::new(), err_text(k)),
        // no reply at all
        Err(Stop::Dead) => (0, BTreeMap::new(), String::new()),
    };
    Expected { trace: tr, status, headers, body }
}

/// Middleware scripts outermost first, with the level each is registered at (0 root, 1 /a, 2 /a/b, 3 the handler's own path).
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct Chain {
    pub mws: Vec<(u8, Script)>,
    pub handler: Script,
    pub state: Option<i64>,
    /// handler and level 2-3 middleware live in a router mounted at /a/b
    pub mounted: bool,
    /// the logger at these positions (index into mws, or mws.len() for innermost), and the default constructor
    pub loggers: Vec<usize>,
    pub default_app: bool,
}

impl Chain {
    pub fn new(mws: Vec<(u8, Script)>, handler: Script) -> Chain {
        Chain { mws, handler, state: None, mounted: false, loggers: vec![], default_app: false }
    }
    fn links(&self) -> Vec<(u32, Script)> {
        let mut v: Vec<(u32, Script)> = self.mws.iter().enumerate().map(|(i, (_, s))| (i as u32, s.clone())).collect();
        v.push((99, self.handler.clone()));
        v
    }
    fn id_of(&self, req: &MReq) -> String {
        req.target.split('?').next().unwrap().rsplit('/').next().unwrap().trim_matches('/').to_string()
    }
    pub fn build(&self) -> App<State> {
        build_all(std::slice::from_ref(self))
    }

    fn install(&self, app: &mut App<State>, base: &str, root: bool) {
        let mut sub = Router::new();
        let n = self.mws.len();
        for i in 0..=n {
            let level = if i < n { self.mws[i].0 } else { 3 };
            for _ in self.loggers.iter().filter(|k| **k == i) {
                add_mw(app, &mut sub, self.mounted, level, base, obsidian::middleware::logger::Logger::new());
            }
            if i < n && (level > 0 || root) {
                add_mw(app, &mut sub, self.mounted, level, base, ScriptMw { who: i as u32, script: self.mws[i].1.clone() });
            }
        }
        let path = &if self.mounted { "/:id".to_string() } else { format!("{}/b/:id", base) };
        for m in 0..5 {
            let s = self.handler.clone();
            let h = move |ctx: Context| {
                let s = s.clone();
                async move { run(99, s, ctx, None).await }
            };
            match (self.mounted, m) {
                (true, 0) => sub.get(path, h),
                (true, 1) => sub.post(path, h),
                (true, 2) => sub.put(path, h),
                (true, 3) => sub.patch(path, h),
                (true, _) => sub.delete(path, h),
                (false, 0) => app.get(path, h),
                (false, 1) => app.post(path, h),
                (false, 2) => app.put(path, h),
                (false, 3) => app.patch(path, h),
                (false, _) => app.delete(path, h),
            }
        }
        if self.mounted {
            app.use_router(&format!("{}/b", base), sub);
        }
    }
}

pub const BASES: &[&str] = &["/a", "/r1", "/r2", "/r3", "/r4", "/r5", "/r6", "/r7", "/r8", "/r9", "/r10", "/r11"];

/// One application with a route per chain, at BASES[i]/b/:id. Root middleware, loggers and state are the first chain's; the others
/// have to list the same root middleware.
pub fn build_all(chains: &[Chain]) -> App<State> {
    let mut app: App<State> = if chains[0].default_app { App::default() } else { App::new() };
    if let Some(v) = chains[0].state {
        app.set_app_state(State(v, vec![]));
    }
    for (i, c) in chains.iter().enumerate() {
        c.install(&mut app, BASES[i], i == 0);
    }
    app
}

fn add_mw(app: &mut App<State>, sub: &mut Router, mounted: bool, level: u8, base: &str, m: impl Middleware) {
    match (level, mounted) {
        (0, _) => app.use_service(m),
        // when mounting at base/b nothing may be registered below it in the outer router, base itself is fine
        (1, _) => app.use_service_to(base, m),
        (2, false) => app.use_service_to(&format!("{}/b", base), m),
        (2, true) => sub.use_service(m),
        (_, false) => app.use_service_to(&format!("{}/b/:id", base), m),
        (_, true) => sub.use_service_to("/:id", m),
    }
}

pub fn sc(a: &[Act]) -> Script {
    Arc::new(a.to_vec())
}

pub fn get_req() -> MReq {
    MReq { method: 0, target: "/a/b/7".into(), xq: None, body: None, extra: vec![] }
}
pub fn post_req(body: &[u8]) -> MReq {
    MReq { method: 1, target: "/a/b/7?id=5&mode=q".into(), xq: Some("hq".into()), body: Some(body.to_vec()), extra: vec![] }
}

pub fn raw_req(r: &MReq, rid: usize) -> Vec<u8> {
    let rid = rid.to_string();
    let mut h = vec![("x-rid", rid.as_str())];
    if let Some(x) = &r.xq {
        h.push(("x-q", x));
    }
    h.extend(r.extra.iter().map(|(k, v)| (k.as_str(), v.as_str())));
    wire::req(METHODS[r.method as usize], &r.target, &h, r.body.as_deref())
}

/// Requests answered one after the other by a fresh server; every trace and reply observed.
pub fn observe(w: &mut W, chain: &Chain, reqs: &[MReq], one_conn: bool) -> Vec<(Trace, Reply)> {
    let _ = trace_take();
    let raw: Vec<Vec<u8>> = reqs.iter().enumerate().map(|(i, r)| raw_req(r, i)).collect();
    let replies = w.wire.serve(|| chain.build(), async |port| {
        let mut out = vec![];
        if one_conn {
            let mut c = wire::Conn::open(port).await;
            for r in &raw {
                c.send(r).await;
                out.push(c.recv(false).await);
            }
        } else {
            for r in &raw {
                out.push(wire::once(port, r, false).await);
            }
        }
        out
    });
    let tr = trace_take();
    replies
        .into_iter()
        .enumerate()
        .map(|(i, r)| {
            let t = tr.iter().filter(|x| x.0 as usize == i).filter_map(|x| if let Ev::Note(n) = &x.1 { Some(n.clone()) } else { None }).collect();
            (t, r)
        })
        .collect()
}

fn show_headers(r: &Reply) -> BTreeMap<String, Vec<String>> {
    let mut m: BTreeMap<String, Vec<String>> = BTreeMap::new();
    if let Reply::Full { headers, .. } = r {
        for (k, v) in headers.iter().filter(|(k, _)| k.starts_with("x-") || k == "location") {
            m.entry(k.clone()).or_default().push(v.clone());
        }
    }
    m
}

pub fn check_reply(e: &Expected, r: &Reply) -> Option<String> {
    if r.status() != e.status || r.body() != e.body.as_bytes() {
        return Some(format!("expected reply {} {}, got {}", e.status, show_bytes(e.body.as_bytes()), r.show()));
    }
    let want: BTreeMap<String, Vec<String>> = e.headers.iter().map(|(k, v)| (k.clone(), vec![v.clone()])).collect();
    if show_headers(r) != want {
        return Some(format!("expected headers {:?}, got {}", want, r.show()));
    }
    None
}

pub fn describe(chain: &Chain) -> String {
    format!(
        "middleware (level, script): {:?}{}\nhandler script: {:?}{}{}",
        chain.mws,
        if chain.mounted { " (levels 2-3 and the handler in a mounted router)" } else { "" },
        chain.handler,
        chain.state.map(|s| format!("\napplication state {}", s)).unwrap_or_default(),
        if chain.loggers.is_empty() && !chain.default_app { String::new() } else { format!("\nloggers before positions {:?}, App::default: {}", chain.loggers, chain.default_app) }
    )
}

/// Full comparison of one chain with the interpreter.
pub fn verify(w: &mut W, chain: &Chain, reqs: &[MReq], one_conn: bool) -> CaseResult {
    let got = observe(w, chain, reqs, one_conn);
    w.st.traces += 1;
    w.state(chain);
    for (i, (q, (t, r))) in reqs.iter().zip(&got).enumerate() {
        let e = expect(chain, q);
        w.st.evaluations += 1;
        w.st.transitions += e.trace.len() as u64;
        w.outcome(&e);
        let bad = if *t != e.trace { Some(format!("expected course {:?}\n     got course {:?}", e.trace, t)) } else { check_reply(&e, r) };
        if let Some(b) = bad {
            return Err(format!("{}\nrequest {} {:?}\n{}", describe(chain), i, q, b));
        }
    }
    w.sample(|| format!("{:?}", chain));
    Ok(())
}

pub fn nth<'a, T>(alpha: &'a [T], len: usize, mut i: u64) -> Vec<&'a T> {
    let k = alpha.len() as u64;
    (0..len)
        .map(|_| {
            let x = &alpha[(i % k) as usize];
            i /= k;
            x
        })
        .collect()
}

pub fn count(k: usize, len: usize) -> u64 {
    (k as u64).pow(len as u32)
}
