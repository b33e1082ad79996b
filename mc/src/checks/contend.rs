//! C19 on several threads: user code that does not suspend but simply takes its time (or is pre-empted), at every call the framework
//! makes into it, while other requests run on other threads. The real server runs on a multi-threaded runtime; the n-th call of a
//! request into user code is held until the explorer lets it go, so a schedule is the pair of places where two requests stand.
use crate::common::*;
use crate::wire::{self, Conn, Reply};
use async_trait::async_trait;
use obsidian::context::Context;
use obsidian::middleware::Middleware;
use obsidian::router::{Responder, Response};
use obsidian::{App, ContextResult, EndpointExecutor, ObsidianError};
use std::cell::RefCell;
use std::sync::mpsc::{channel, Receiver, RecvTimeoutError, Sender};
use std::sync::{Arc, Condvar, Mutex};
use std::time::Duration;

enum Event {
    Held(usize),
    Reply(usize, Reply),
}

#[derive(Default)]
struct Inner {
    /// hold the call with this many calls before it
    armed: Option<(usize, usize)>,
    /// panic in this call
    blow: Option<usize>,
    calls: usize,
    log: Option<Vec<&'static str>>,
    free: [bool; 3],
    tx: Option<Sender<Event>>,
}

#[derive(Default)]
pub struct Gates {
    m: Mutex<Inner>,
    c: Condvar,
}

impl Gates {
    fn pass(&self, name: &'static str) {
        let mut g = self.m.lock().unwrap_or_else(|e| e.into_inner());
        let n = g.calls;
        g.calls += 1;
        if let Some(l) = g.log.as_mut() {
            l.push(name);
        }
        if g.blow == Some(n) && !std::thread::panicking() {
            g.blow = None;
            drop(g);
            panic!("as asked, in {}", name);
        }
        match g.armed {
            Some((k, who)) if k == n => {
                g.armed = None;
                if let Some(t) = &g.tx {
                    let _ = t.send(Event::Held(who));
                }
                drop(g);
                let hold = || {
                    let mut g = self.m.lock().unwrap_or_else(|e| e.into_inner());
                    while !g.free[who] {
                        g = self.c.wait(g).unwrap_or_else(|e| e.into_inner());
                    }
                };
                // (a call made while a panic unwinds has to stay on its thread)
                if std::thread::panicking() {
                    hold()
                } else {
                    tokio::task::block_in_place(hold)
                }
            }
            _ => {}
        }
    }
    fn arm(&self, who: usize, k: Option<usize>) {
        let mut g = self.m.lock().unwrap_or_else(|e| e.into_inner());
        g.calls = 0;
        g.armed = k.map(|k| (k, who));
        g.free[who] = false;
    }
    fn free(&self, who: usize) {
        self.m.lock().unwrap_or_else(|e| e.into_inner()).free[who] = true;
        self.c.notify_all();
    }
}

thread_local! {
    static GATES: RefCell<Option<Arc<Gates>>> = RefCell::new(None);
}

/// a call from the framework into user code
fn call(name: &'static str) {
    if let Ok(Some(g)) = GATES.try_with(|g| g.borrow().clone()) {
        g.pass(name);
    }
}

#[derive(PartialEq)]
struct Conf(String);
impl Clone for Conf {
    fn clone(&self) -> Self {
        call("state clone");
        Conf(self.0.clone())
    }
}

/// context data
#[derive(Clone)]
struct Data(Vec<String>);
struct Dropped(#[allow(dead_code)] u32);
impl Drop for Dropped {
    fn drop(&mut self) {
        call("drop of context data")
    }
}

struct Parsed(String);
impl std::str::FromStr for Parsed {
    type Err = ();
    fn from_str(s: &str) -> Result<Self, ()> {
        call("FromStr");
        if s.starts_with("bad") {
            return Err(());
        }
        if s.starts_with("panic") {
            panic!("as asked");
        }
        Ok(Parsed(s.to_string()))
    }
}

#[derive(Debug)]
struct Fields(Vec<(String, String)>);
impl<'de> serde::Deserialize<'de> for Fields {
    fn deserialize<D: serde::Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
        struct V;
        impl<'de> serde::de::Visitor<'de> for V {
            type Value = Fields;
            fn expecting(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
                f.write_str("a map")
            }
            fn visit_map<A: serde::de::MapAccess<'de>>(self, mut m: A) -> Result<Fields, A::Error> {
                let mut v = vec![];
                call("visit_map");
                while let Some((k, x)) = m.next_entry::<String, String>()? {
                    call("map entry");
                    if k == "refuse" {
                        return Err(serde::de::Error::custom("refused"));
                    }
                    v.push((k, x));
                }
                v.sort();
                Ok(Fields(v))
            }
        }
        call("Deserialize");
        d.deserialize_map(V)
    }
}

struct Out(Vec<String>);
impl serde::Serialize for Out {
    fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        use serde::ser::SerializeSeq;
        call("Serialize");
        let mut q = s.serialize_seq(Some(self.0.len()))?;
        for x in &self.0 {
            q.serialize_element(x)?;
            call("Serialize element");
        }
        q.end()
    }
}

struct Resp(String);
impl Responder for Resp {
    fn respond_to(self) -> Response {
        call("Responder");
        Response::ok().set_body(self.0).set_header_str("x-resp", "1")
    }
}

struct Mark(&'static str);
#[async_trait]
impl Middleware for Mark {
    async fn handle<'a>(&'a self, mut context: Context, ep: EndpointExecutor<'a>) -> ContextResult {
        call("middleware");
        let mut t = context.get::<Data>().cloned().unwrap_or(Data(vec![]));
        t.0.push(self.0.into());
        context.add(t);
        let r = ep.next(context).await;
        call("middleware after");
        match r {
            Ok(mut c) => {
                if let Some(h) = c.response_mut().as_mut().map(|r| r.headers_mut()) {
                    h.get_or_insert_with(Vec::new).push((obsidian::header::HeaderName::from_static(self.0), "passed"));
                }
                Ok(c)
            }
            e => e,
        }
    }
}

fn text(c: &Context, extra: &str) -> String {
    let conf = c.get::<Conf>().map(|c| c.0.clone());
    format!("{} {:?} {:?} {} {:?}", c.uri(), conf, c.get::<Data>().map(|d| d.0.clone()), extra, ["t", "p", "*"].map(|k| c.param::<String>(k).ok()))
}

/// handler closures themselves are calls: what they do before their future is first polled
macro_rules! h {
    ($a:expr, $m:ident, $p:expr, |$c:ident| $e:expr) => {
        $a.$m($p, |$c: Context| {
            call("handler");
            async move {
                #[allow(unused_mut)]
                let mut $c = $c;
                call("handler polled");
                $e
            }
        })
    };
}

fn app(logger: bool) -> App<Conf> {
    let mut a: App<Conf> = if logger { App::default() } else { App::new() };
    a.set_app_state(Conf("conf".into()));
    a.use_service(Mark("x-root"));
    a.use_service_to("/a/:t", Mark("x-at"));
    h!(a, get, "/a/:t/:p", |c| {
        let p = c.param::<Parsed>("p")?;
        let t = text(&c, &p.0);
        c.build(t).ok()
    });
    h!(a, get, "/w/:t/*", |c| {
        c.add(Dropped(1));
        let t = text(&c, "wild");
        c.build(Resp(t)).ok()
    });
    h!(a, get, "/q/:t", |c| {
        let f = c.query_params::<Fields>()?;
        let t = text(&c, &format!("{:?}", f));
        c.build(t).ok()
    });
    h!(a, post, "/f/:t", |c| {
        let f = c.form::<Fields>().await?;
        let t = text(&c, &format!("{:?}", f));
        c.build(t).ok()
    });
    h!(a, post, "/j/:t", |c| {
        let f = c.json::<Fields>().await?;
        let t = text(&c, &format!("{:?}", f));
        c.build_json(Out(vec![t, "x".into()])).ok()
    });
    h!(a, get, "/e/:t", |c| {
        c.add(Dropped(2));
        Err(ObsidianError::GeneralError(text(&c, "failed")))
    });
    h!(a, get, "/n/:t", |c| Ok(c));
    h!(a, put, "/s/:t", |c| {
        let t = c.param::<String>("t")?;
        if let Some(s) = c.get_mut::<Conf>() {
            s.0 = format!("changed by {}", t);
        }
        let t = text(&c, "");
        c.build(t).ok()
    });
    h!(a, get, "/s/:t", |c| {
        let t = text(&c, "");
        c.build(t).ok()
    });
    a
}

#[derive(Clone, Copy)]
struct Kind {
    name: &'static str,
    method: &'static str,
    path: &'static str,
    body: &'static str,
}

const fn k(name: &'static str, method: &'static str, path: &'static str, body: &'static str) -> Kind {
    Kind { name, method, path, body }
}

/// $ stands for the request's own name
const KINDS: [Kind; 14] = [
    k("parameters", "GET", "/a/$/val$", ""),
    k("unreadable parameter", "GET", "/a/$/bad$", ""),
    k("panic in FromStr", "GET", "/a/$/panic$", ""),
    k("wildcard", "GET", "/w/$/x/$/y", ""),
    k("query", "GET", "/q/$?id=$&b=2", ""),
    k("refused query", "GET", "/q/$?id=$&refuse=1", ""),
    k("form", "POST", "/f/$", "id=$&z=1"),
    k("json", "POST", "/j/$", "{\"id\":\"$\",\"y\":\"1\"}"),
    k("refused json", "POST", "/j/$", "{\"id\":\"$\",\"refuse\":\"1\"}"),
    k("error", "GET", "/e/$", ""),
    k("no response", "GET", "/n/$", ""),
    k("state changed", "PUT", "/s/$", ""),
    k("state read", "GET", "/s/$", ""),
    k("nothing there", "GET", "/none/$", ""),
];

fn bytes(kd: &Kind, tag: &str) -> Vec<u8> {
    wire::req(kd.method, &kd.path.replace('$', tag), &[("x-tag", tag)], if kd.body.is_empty() { None } else { Some(kd.body.replace('$', tag)) }.as_ref().map(|s| s.as_bytes()))
}

struct Server {
    port: u16,
    gates: Arc<Gates>,
    rx: Receiver<Event>,
    tx: Sender<Event>,
    stop: Option<tokio::sync::oneshot::Sender<()>>,
    thread: Option<std::thread::JoinHandle<()>>,
}

impl Server {
    fn start(w: &mut W, logger: bool) -> Server {
        let gates: Arc<Gates> = Default::default();
        let (tx, rx) = channel();
        gates.m.lock().unwrap().tx = Some(tx.clone());
        for _ in 0..20 {
            let port = w.wire.next_port();
            let (stop, stopped) = tokio::sync::oneshot::channel::<()>();
            let g = gates.clone();
            let th = std::thread::spawn(move || {
                GATES.with(|x| *x.borrow_mut() = Some(g.clone()));
                let rt = tokio::runtime::Builder::new_multi_thread()
                    .worker_threads(3)
                    .enable_all()
                    .on_thread_start(move || GATES.with(|x| *x.borrow_mut() = Some(g.clone())))
                    .build()
                    .expect("runtime");
                rt.block_on(async {
                    tokio::select! {
                        _ = app(logger).listen(port) => {}
                        _ = stopped => {}
                    }
                });
                rt.shutdown_background();
            });
            let t0 = std::time::Instant::now();
            while !th.is_finished() && t0.elapsed() < Duration::from_secs(20) {
                if std::net::TcpStream::connect(("127.0.0.1", port)).is_ok() {
                    let s = Server { port, gates, rx, tx, stop: Some(stop), thread: Some(th) };
                    s.send(0, vec![wire::req("GET", "/none/first", &[], None)]);
                    let _ = s.next(20_000);
                    return s;
                }
                std::thread::sleep(Duration::from_millis(1));
            }
        }
        panic!("App::listen ended at once 20 times")
    }

    fn send(&self, who: usize, reqs: Vec<Vec<u8>>) {
        let (tx, port) = (self.tx.clone(), self.port);
        std::thread::spawn(move || {
            let rt = tokio::runtime::Builder::new_current_thread().enable_all().build().expect("runtime");
            rt.block_on(async {
                let mut c = Conn::open(port).await;
                for r in reqs {
                    c.send(&r).await;
                    let got = c.recv(false).await;
                    if !matches!(got, Reply::Full { .. }) {
                        c = Conn::open(port).await;
                    }
                    if tx.send(Event::Reply(who, got)).is_err() {
                        return;
                    }
                }
            });
        });
    }

    fn next(&self, ms: u64) -> Option<Event> {
        match self.rx.recv_timeout(Duration::from_millis(ms)) {
            Ok(e) => Some(e),
            Err(RecvTimeoutError::Timeout) => None,
            Err(_) => None,
        }
    }
}

impl Drop for Server {
    fn drop(&mut self) {
        self.gates.free(0);
        self.gates.free(1);
        if let Some(s) = self.stop.take() {
            let _ = s.send(());
        }
        if let Some(t) = self.thread.take() {
            let _ = t.join();
        }
    }
}

/// the calls a request makes into user code, and its reply, alone on a server
fn alone(w: &mut W, kd: &Kind, logger: bool, tags: &[&str]) -> Result<(Vec<&'static str>, Vec<Reply>), String> {
    let mut log = vec![];
    let mut rs = vec![];
    for (n, t) in tags.iter().enumerate() {
        let s = Server::start(w, logger);
        // (starting the server takes calls of its own)
        s.gates.m.lock().unwrap().log = Some(vec![]);
        s.gates.arm(0, None);
        s.send(0, vec![bytes(kd, t)]);
        match s.next(20_000) {
            Some(Event::Reply(_, r)) => rs.push(r),
            _ => return Err(format!("{} alone: no reply", kd.name)),
        }
        if n == 0 {
            std::thread::sleep(Duration::from_millis(3));
            log = s.gates.m.lock().unwrap().log.take().unwrap_or_default();
        }
    }
    Ok((log, rs))
}

/// A stands in its i-th call; B runs until its j-th call (or its end); then `first` is let go, then the other; then both kinds once more.
#[allow(clippy::too_many_arguments)]
fn pair(w: &mut W, s: &Server, ka: &Kind, kb: &Kind, i: usize, j: Option<usize>, first: usize, third: &Kind, want: &[Reply; 3], what: &str) -> CaseResult {
    while s.rx.try_recv().is_ok() {}
    s.gates.arm(0, Some(i));
    s.gates.arm(1, None);
    {
        let mut g = s.gates.m.lock().unwrap();
        g.armed = Some((i, 0));
        g.free = [false; 3];
    }
    let mut got: [Option<Reply>; 3] = [None, None, None];
    let mut held = [false; 3];
    let mut take = |e: Event, got: &mut [Option<Reply>; 3]| match e {
        Event::Held(x) => held[x] = true,
        Event::Reply(x, r) => got[x] = Some(r),
    };
    s.send(0, vec![bytes(ka, "A")]);
    match s.next(10_000) {
        Some(e) => take(e, &mut got),
        None => {
            s.gates.free(0);
            return Err(format!("{}: the first request neither reached its call nor was answered", what));
        }
    }
    s.gates.arm(1, j);
    s.send(1, vec![bytes(kb, "B")]);
    // B may have to wait for A where the framework calls user code under a lock: that alone is not wrong
    if let Some(e) = s.next(400) {
        take(e, &mut got)
    }
    // a third one passes both
    s.gates.arm(2, None);
    s.send(2, vec![bytes(third, "C")]);
    if let Some(e) = s.next(400) {
        take(e, &mut got)
    }
    for x in [first, 1 - first] {
        s.gates.m.lock().unwrap().armed = None;
        s.gates.free(x);
        let t0 = std::time::Instant::now();
        while got[x].is_none() && t0.elapsed() < Duration::from_millis(if x == first { 400 } else { 10_000 }) {
            if let Some(e) = s.next(100) {
                take(e, &mut got)
            }
        }
    }
    let t0 = std::time::Instant::now();
    while got.iter().any(|g| g.is_none()) && t0.elapsed() < Duration::from_secs(10) {
        if let Some(e) = s.next(100) {
            take(e, &mut got)
        }
    }
    w.st.transitions += 4;
    for x in 0..3 {
        w.st.evaluations += 1;
        match &got[x] {
            None => return Err(format!("{}: request {} is never answered", what, ["A", "B", "C"][x])),
            Some(r) if r.key() != want[x].key() => return Err(format!("{}: request {} expected {}, got {}", what, ["A", "B", "C"][x], want[x].show(), r.show())),
            Some(r) => w.outcome(&r.key()),
        }
    }
    Ok(())
}

/// every kind of request with its calls into user code and its replies under two names
fn solo(w: &mut W, logger: bool) -> Result<Vec<(Vec<&'static str>, Vec<Reply>)>, String> {
    KINDS.iter().map(|k| alone(w, k, logger, &["A", "B", "C"])).collect()
}

pub fn section_for(id: &'static str) -> Section {
    let n = KINDS.len() as u64;
    section("held inside user code on several threads", n, move |i, w| {
        let i = i as usize;
        let ka = KINDS[i];
        // what the loggers print must not matter
        let solos = solo(w, false)?;
        let log = &solos[i].0;
        let s = Server::start(w, id == "C20");
        for (b, kb) in KINDS.iter().enumerate() {
            let logb = &solos[b].0;
            for (p, at) in log.iter().enumerate() {
                for j in std::iter::once(None).chain((0..logb.len()).map(Some)) {
                    for first in 0..2 {
                        if j.is_none() && first == 1 {
                            continue;
                        }
                        let c = (i + b + p + j.unwrap_or(0)) % KINDS.len();
                        let third = KINDS[c];
                        let want = [solos[i].1[0].clone(), solos[b].1[1].clone(), solos[c].1[2].clone()];
                        let what = format!(
                            "{} (A) held in its call {} ({}) while {} (B) {}, then {} (C), {} let go first",
                            ka.name,
                            p,
                            at,
                            kb.name,
                            match j {
                                None => "runs".to_string(),
                                Some(j) => format!("gets to its call {} ({})", j, logb[j]),
                            },
                            third.name,
                            ["A", "B"][first]
                        );
                        pair(w, &s, &ka, kb, p, j, first, &third, &want, &what)?;
                        w.st.traces += 1;
                        w.state(&(i, b, p, j, first));
                        w.sample(|| what.clone());
                    }
                }
            }
        }
        Ok(())
    })
}

/// C21: a panic in every call into user code, once and several times in a row, then every kind of request as if nothing had happened.
pub fn panics() -> Section {
    let n = KINDS.len() as u64;
    section("panic in every call into user code", n, move |i, w| {
        let solos = solo(w, false)?;
        let kd = KINDS[i as usize];
        for times in [1, 4] {
            let s = Server::start(w, false);
            for p in 0..solos[i as usize].0.len() {
                for _ in 0..times {
                    while s.rx.try_recv().is_ok() {}
                    s.gates.arm(0, None);
                    s.gates.m.lock().unwrap().blow = Some(p);
                    s.send(0, vec![bytes(&kd, "A")]);
                    let what = format!("{} panicking in its call {} ({})", kd.name, p, solos[i as usize].0[p]);
                    match s.next(10_000) {
                        Some(Event::Reply(_, Reply::Timeout)) | None => return Err(format!("{}: neither answered nor dropped", what)),
                        _ => {}
                    }
                    s.gates.m.lock().unwrap().blow = None;
                }
                for (b, kb) in KINDS.iter().enumerate() {
                    s.send(1, vec![bytes(kb, "B")]);
                    match s.next(10_000) {
                        Some(Event::Reply(_, r)) if r.key() == solos[b].1[1].key() => {}
                        Some(Event::Reply(_, r)) => {
                            return Err(format!("after {} panicked {} times in its call {} ({}), {}: expected {}, got {}", kd.name, times, p, solos[i as usize].0[p], kb.name, solos[b].1[1].show(), r.show()))
                        }
                        _ => return Err(format!("after {} panicked in its call {} ({}), {}: no answer", kd.name, p, solos[i as usize].0[p], kb.name)),
                    }
                    w.st.evaluations += 1;
                }
                w.st.traces += 1;
                w.state(&(i, p, times));
                w.st.transitions += times as u64;
            }
        }
        Ok(())
    })
}
