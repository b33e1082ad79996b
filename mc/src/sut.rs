//! Registration programs applied to the real library, and handlers/middleware that record what happens.
use async_trait::async_trait;
#[cfg(feature = "inproc")]
use hyper::Body;
use hyper::Method;
use obsidian::context::Context;
use obsidian::middleware::Middleware;
use obsidian::router::{ContextResult, Router};
use obsidian::{App, EndpointExecutor};
use std::cell::{Cell, RefCell};

pub const METHODS: [&str; 5] = ["GET", "POST", "PUT", "PATCH", "DELETE"];

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum Op {
    Route { m: u8, p: String, id: u32 },
    MwAt { p: String, id: u32 },
    Mw { id: u32 },
    Mount { p: String, ops: Vec<Op> },
    Scope { name: String, ops: Vec<Op> },
}

pub fn get(p: &str, id: u32) -> Op {
    Op::Route { m: 0, p: p.into(), id }
}
pub fn route(m: u8, p: &str, id: u32) -> Op {
    Op::Route { m, p: p.into(), id }
}
pub fn mw_at(p: &str, id: u32) -> Op {
    Op::MwAt { p: p.into(), id }
}

pub fn show_ops(ops: &[Op]) -> String {
    ops.iter()
        .map(|o| match o {
            Op::Route { m, p, id } => format!("{}({:?})=h{}", METHODS[*m as usize].to_lowercase(), p, id),
            Op::MwAt { p, id } => format!("use_service_to({:?})=m{}", p, id),
            Op::Mw { id } => format!("use_service()=m{}", id),
            Op::Mount { p, ops } => format!("use_router({:?}){{{}}}", p, show_ops(ops)),
            Op::Scope { name, ops } => format!("scope({:?}){{{}}}", name, show_ops(ops)),
        })
        .collect::<Vec<_>>()
        .join("; ")
}

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum Ev {
    Enter(u32),
    Exit(u32),
    Handler(u32),
    Params(Vec<(String, String)>),
    Note(String),
}

thread_local! {
    pub static TRACE: RefCell<Vec<(u32, Ev)>> = RefCell::new(vec![]);
    pub static PNAMES: Cell<&'static [&'static str]> = Cell::new(&[]);
}

pub fn trace_push(rid: u32, e: Ev) {
    TRACE.with(|t| t.borrow_mut().push((rid, e)));
}
pub fn trace_take() -> Vec<(u32, Ev)> {
    TRACE.with(|t| std::mem::take(&mut *t.borrow_mut()))
}

pub fn rid_of(ctx: &Context) -> u32 {
    ctx.headers().get("x-rid").and_then(|v| v.to_str().ok()).and_then(|s| s.parse().ok()).unwrap_or(0)
}

pub fn seen_params(ctx: &Context) -> Vec<(String, String)> {
    let mut v = vec![];
    for n in PNAMES.with(|p| p.get()) {
        if let Ok(s) = ctx.param::<String>(n) {
            v.push((n.to_string(), s));
        }
    }
    v
}

async fn handler_body(id: u32, ctx: Context) -> ContextResult {
    let rid = rid_of(&ctx);
    trace_push(rid, Ev::Handler(id));
    trace_push(rid, Ev::Params(seen_params(&ctx)));
    ctx.build(format!("h{}", id)).ok()
}

pub struct TraceMw(pub u32);

#[async_trait]
impl Middleware for TraceMw {
    async fn handle<'a>(&'a self, context: Context, ep: EndpointExecutor<'a>) -> ContextResult {
        let rid = rid_of(&context);
        trace_push(rid, Ev::Enter(self.0));
        let r = ep.next(context).await;
        trace_push(rid, Ev::Exit(self.0));
        r
    }
}

fn h(id: u32) -> impl obsidian::router::Handler {
    move |ctx: Context| handler_body(id, ctx)
}

pub fn apply_router(r: &mut Router, op: &Op) {
    match op {
        Op::Route { m, p, id } => match m {
            0 => r.get(p, h(*id)),
            1 => r.post(p, h(*id)),
            2 => r.put(p, h(*id)),
            3 => r.patch(p, h(*id)),
            _ => r.delete(p, h(*id)),
        },
        Op::MwAt { p, id } => r.use_service_to(p, TraceMw(*id)),
        Op::Mw { id } => r.use_service(TraceMw(*id)),
        Op::Mount { p, ops } => {
            let mut sub = Router::new();
            for o in ops {
                apply_router(&mut sub, o);
            }
            r.use_router(p, sub);
        }
        Op::Scope { name, ops } => {
            let mut sub = Router::new();
            for o in ops {
                apply_router(&mut sub, o);
            }
            r.use_router(&format!("/{}", name), sub);
        }
    }
}

pub fn apply_app<T: Clone + Send + Sync + 'static>(a: &mut App<T>, op: &Op) {
    match op {
        Op::Route { m, p, id } => match m {
            0 => a.get(p, h(*id)),
            1 => a.post(p, h(*id)),
            2 => a.put(p, h(*id)),
            3 => a.patch(p, h(*id)),
            _ => a.delete(p, h(*id)),
        },
        Op::MwAt { p, id } => a.use_service_to(p, TraceMw(*id)),
        Op::Mw { id } => a.use_service(TraceMw(*id)),
        Op::Mount { p, ops } => {
            let mut sub = Router::new();
            for o in ops {
                apply_router(&mut sub, o);
            }
            a.use_router(p, sub);
        }
        Op::Scope { name, ops } => a.scope(name, |r: &mut Router| {
            for o in ops {
                apply_router(r, o);
            }
        }),
    }
}

pub fn build_app(ops: &[Op]) -> App {
    let mut a: App = App::new();
    for o in ops {
        apply_app(&mut a, o);
    }
    a
}

/// What one request observably did.
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct Seen {
    /// None: 404
    pub handler: Option<u32>,
    pub params: Vec<(String, String)>,
    /// middleware in order of entry
    pub entered: Vec<u32>,
    /// anything that does not fit the normal shape (handler twice, exits not nested, wrong reply, ...)
    pub odd: Option<String>,
}

pub fn digest(events: &[Ev], reply_ok: Option<String>) -> Seen {
    let mut s = Seen { handler: None, params: vec![], entered: vec![], odd: None };
    let mut stack = vec![];
    for e in events {
        match e {
            Ev::Enter(m) => {
                s.entered.push(*m);
                stack.push(*m);
                if s.handler.is_some() {
                    s.odd = Some(format!("middleware m{} entered after the handler", m));
                }
            }
            Ev::Exit(m) => {
                if stack.pop() != Some(*m) {
                    s.odd = Some(format!("middleware exits not nested: {:?}", events));
                }
            }
            Ev::Handler(h) => {
                if s.handler.is_some() {
                    s.odd = Some("two handlers ran".into());
                }
                s.handler = Some(*h);
            }
            Ev::Params(p) => s.params = p.clone(),
            Ev::Note(_) => {}
        }
    }
    if !stack.is_empty() {
        s.odd = Some("a middleware was entered but never finished".into());
    }
    if let Some(body) = reply_ok {
        match s.handler {
            Some(h) if body == format!("200 h{}", h) => {}
            None if body.starts_with("404 ") => {}
            _ => s.odd = Some(format!("reply {:?} does not fit the handler that ran: {:?}", body, s.handler)),
        }
    }
    s.params.sort();
    s
}

pub fn noop_block<F: std::future::Future>(f: F) -> Option<F::Output> {
    use std::task::{Context as Cx, Poll, Waker};
    let mut f = Box::pin(f);
    let mut cx = Cx::from_waker(Waker::noop());
    for _ in 0..10_000 {
        if let Poll::Ready(v) = f.as_mut().poll(&mut cx) {
            return Some(v);
        }
    }
    None
}

#[cfg(feature = "inproc")]
pub fn dispatch(router: &Router, method: &Method, path: &str) -> Seen {
    let _ = trace_take();
    let mut odd = None;
    {
        if let Some(rv) = router.search_route(path) {
            if let Some(route) = rv.get_route(method) {
                let mut r = hyper::Request::new(Body::empty());
                *r.method_mut() = method.clone();
                let ctx = Context::new(r, rv.get_params().clone());
                let mws = &rv.get_middlewares()[..];
                match noop_block(EndpointExecutor::new(&route.handler, mws).next(ctx)) {
                    Some(Ok(ctx)) => {
                        if ctx.response().is_none() {
                            odd = Some("no response".to_string());
                        }
                    }
                    Some(Err(e)) => odd = Some(format!("error {}", e)),
                    None => odd = Some("never completes".to_string()),
                }
            }
        }
    }
    let ev: Vec<Ev> = trace_take().into_iter().map(|x| x.1).collect();
    let mut s = digest(&ev, None);
    if s.odd.is_none() {
        s.odd = odd;
    }
    s
}

pub fn m_of(i: u8) -> Method {
    Method::from_bytes(METHODS[i as usize].as_bytes()).unwrap()
}

/// Paths a raw HTTP/1.1 request line can carry.
pub fn wire_ok(p: &str) -> bool {
    p.starts_with('/') && p.bytes().all(|b| b > 0x20 && b < 0x7f && b != b'#' && b != b'?' && b != b'<' && b != b'>' && b != b'\\' && b != b'^' && b != b'`')
}

/// All requests against a served app built from `ops`.
pub fn wire_dispatch(w: &mut crate::common::W, ops: &[Op], reqs: &[(u8, String)]) -> Vec<Seen> {
    wire_dispatch_app(w, || build_app(ops), reqs)
}

pub fn wire_dispatch_app<T: Clone + Send + Sync + 'static>(w: &mut crate::common::W, mk: impl Fn() -> App<T>, reqs: &[(u8, String)]) -> Vec<Seen> {
    let raw: Vec<(Vec<u8>, bool)> = reqs
        .iter()
        .enumerate()
        .map(|(i, (m, p))| (crate::wire::req(METHODS[*m as usize], p, &[("x-rid", &i.to_string())], None), false))
        .collect();
    wire_raw(w, mk, &raw)
}

/// Requests as given, each carrying its index as x-rid.
pub fn wire_raw<T: Clone + Send + Sync + 'static>(w: &mut crate::common::W, mk: impl Fn() -> App<T>, raw: &[(Vec<u8>, bool)]) -> Vec<Seen> {
    wire_raw_on(w, mk, raw, false)
}

pub fn wire_raw_on<T: Clone + Send + Sync + 'static>(w: &mut crate::common::W, mk: impl Fn() -> App<T>, raw: &[(Vec<u8>, bool)], own_connections: bool) -> Vec<Seen> {
    let _ = trace_take();
    let replies = w.wire.serve(mk, async |port| {
        if own_connections {
            let mut v = vec![];
            for r in raw {
                v.push(crate::wire::once(port, &r.0, r.1).await);
            }
            v
        } else {
            crate::wire::batch(port, raw).await
        }
    });
    let tr = trace_take();
    let mut per: Vec<Vec<Ev>> = vec![vec![]; raw.len()];
    for (rid, e) in tr {
        per[rid as usize].push(e);
    }
    replies
        .iter()
        .zip(per)
        .map(|(r, ev)| digest(&ev, Some(format!("{} {}", r.status(), r.text()))))
        .collect()
}
