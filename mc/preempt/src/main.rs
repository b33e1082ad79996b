//! C19 with one pre-emption anywhere: a request is held at every point of the library's code it passes (start of a basic block, access
//! to static memory), another one runs meanwhile, and both must be answered as alone.
//!
//! preempt OUT.json            all of it, on several processes, one per share of the schedules
//! preempt share N OF OUT      one share
//! preempt pair A B MODE OUT   the schedules of one pair of kinds alone (to replay)
use async_trait::async_trait;
use obsidian::context::Context;
use obsidian::middleware::Middleware;
use obsidian::router::{Responder, Response};
use obsidian::{App, ContextResult, EndpointExecutor, ObsidianError, StatusCode};
use std::io::{ErrorKind, Read, Write};
use std::net::TcpStream;
use std::sync::atomic::{AtomicU16, Ordering::SeqCst};
use std::time::{Duration, Instant};

// ------------------------------------------------------------------------------------------------ the application

#[derive(Clone)]
struct Conf(String);

#[derive(Clone)]
struct Data(Vec<String>);

#[derive(serde::Deserialize, Debug)]
#[allow(dead_code)]
struct Fields {
    id: String,
    b: Option<u32>,
}

#[derive(serde::Serialize)]
struct Out {
    text: String,
    list: Vec<u32>,
}

struct Resp(String);
impl Responder for Resp {
    fn respond_to(self) -> Response {
        Response::ok().with_status(StatusCode::ACCEPTED).set_body(self.0).set_header_str("x-resp", "1")
    }
}

struct Mark(&'static str);
#[async_trait]
impl Middleware for Mark {
    async fn handle<'a>(&'a self, mut context: Context, ep: EndpointExecutor<'a>) -> ContextResult {
        let mut t = context.get::<Data>().cloned().unwrap_or(Data(vec![]));
        t.0.push(self.0.into());
        context.add(t);
        let r = ep.next(context).await;
        match r {
            Ok(mut c) => {
                if let Some(h) = c.response_mut().as_mut().map(|r| r.headers_mut()) {
                    h.get_or_insert_with(Vec::new).push((obsidian::header::HeaderName::from_static(self.0), "passed"));
                }
                Ok(c)
            }
            e => e,
        }
    }
}

/// answers at once
struct Stop;
#[async_trait]
impl Middleware for Stop {
    async fn handle<'a>(&'a self, context: Context, _: EndpointExecutor<'a>) -> ContextResult {
        let t = text(&context, "stopped");
        context.build(t).with_status(StatusCode::FORBIDDEN).ok()
    }
}

fn text(c: &Context, extra: &str) -> String {
    let conf = c.get::<Conf>().map(|c| c.0.clone());
    let tag = c.headers().get("x-tag").and_then(|v| v.to_str().ok()).unwrap_or("").to_string();
    format!("{} {} {} {:?} {:?} {} {:?}", c.method(), c.uri(), tag, conf, c.get::<Data>().map(|d| d.0.clone()), extra, ["t", "p", "*"].map(|k| c.param::<String>(k).ok()))
}

fn app(logger: bool, dir: &str, me: String) -> App<Conf> {
    let mut a: App<Conf> = if logger { App::default() } else { App::new() };
    a.set_app_state(Conf("conf".into()));
    a.use_service(Mark("x-root"));
    a.use_service_to("/a/:t", Mark("x-at"));
    a.use_service_to("/stop/:t", Stop);
    a.get("/who", move |c: Context| {
        let me = me.clone();
        async move { c.build(me).ok() }
    });
    a.get("/a/:t/:p", |c: Context| async move {
        let p = c.param::<u64>("p")?;
        let t = text(&c, &p.to_string());
        c.build(t).ok()
    });
    a.get("/w/:t/*", |mut c: Context| async move {
        c.add(3u8);
        let t = text(&c, "wild");
        c.build(Resp(t)).with_header(obsidian::header::SERVER, "s").ok()
    });
    a.get("/q/:t", |mut c: Context| async move {
        let f = c.query_params::<Fields>()?;
        let t = text(&c, &format!("{:?}", f));
        c.build(t).ok()
    });
    a.post("/f/:t", |mut c: Context| async move {
        let f = c.form::<Fields>().await?;
        let t = text(&c, &format!("{:?}", f));
        c.build(t).ok()
    });
    a.post("/j/:t", |mut c: Context| async move {
        let f = c.json::<Fields>().await?;
        let t = text(&c, &format!("{:?}", f));
        c.build_json(Out { text: t, list: vec![1, 2] }).ok()
    });
    a.delete("/e/:t", |c: Context| async move { Err(ObsidianError::GeneralError(text(&c, "failed"))) });
    a.get("/n/:t", |c: Context| async move { Ok(c) });
    a.put("/s/:t", |mut c: Context| async move {
        let t = c.param::<String>("t")?;
        if let Some(s) = c.get_mut::<Conf>() {
            s.0 = format!("changed by {}", t);
        }
        let t = text(&c, "");
        c.build(t).ok()
    });
    a.patch("/s/:t", |c: Context| async move {
        let t = text(&c, "");
        c.build(t).with_status(StatusCode::CREATED).with_headers_str(vec![("x-a", "1"), ("x-b", "2")]).ok()
    });
    a.scope("/scope", |r| {
        r.use_service_to("/", Mark("x-scope"));
        r.get("/:t", |c: Context| async move {
            let t = text(&c, "scoped");
            c.build((StatusCode::ACCEPTED, t)).ok()
        });
    });
    a.get("/stop/:t", |c: Context| async move { c.build("never").ok() });
    let file = format!("{}/one.txt", dir);
    a.get("/file/:t", move |c: Context| {
        let file = file.clone();
        async move { c.build_file(&file).await.ok() }
    });
    a.use_static_to("/files", dir);
    a
}

struct Kind {
    name: &'static str,
    method: &'static str,
    path: &'static str,
    body: &'static str,
}

const fn k(name: &'static str, method: &'static str, path: &'static str, body: &'static str) -> Kind {
    Kind { name, method, path, body }
}

/// $ stands for the request's own name (digits), of the same length for all
const KINDS: [Kind; 20] = [
    k("parameters", "GET", "/a/$/1$", ""),
    k("unreadable parameter", "GET", "/a/$/x$", ""),
    k("wildcard", "GET", "/w/$/x/$/y", ""),
    k("query", "GET", "/q/$?id=$&b=2", ""),
    k("refused query", "GET", "/q/$?id=$&b=x", ""),
    k("form", "POST", "/f/$", "id=$&b=1"),
    k("refused form", "POST", "/f/$", "id=$&b=z"),
    k("json", "POST", "/j/$", "{\"id\":\"$\",\"b\":1}"),
    k("refused json", "POST", "/j/$", "{\"id\":\"$\",\"b\":\"1\"}"),
    k("error", "DELETE", "/e/$", ""),
    k("no response", "GET", "/n/$", ""),
    k("state changed", "PUT", "/s/$", ""),
    k("state read", "PATCH", "/s/$", ""),
    k("nothing there", "GET", "/none/$", ""),
    k("scope", "GET", "/scope/$", ""),
    k("stopped by a middleware", "GET", "/stop/$", ""),
    k("file", "GET", "/file/$", ""),
    k("static file", "GET", "/files/two.txt?$", ""),
    k("no static file", "GET", "/files/none$.txt", ""),
    k("other method", "POST", "/a/$/1$", ""),
];

fn bytes(kd: &Kind, tag: &str) -> Vec<u8> {
    let mut s = format!("{} {} HTTP/1.1\r\nhost: h\r\nx-tag: {}\r\n", kd.method, kd.path.replace('$', tag), tag);
    if !kd.body.is_empty() {
        let b = kd.body.replace('$', tag);
        s += &format!("content-length: {}\r\n\r\n{}", b.len(), b);
    } else {
        s += "\r\n";
    }
    s.into_bytes()
}

// ------------------------------------------------------------------------------------------------ the server and its clients

struct Server {
    port: u16,
    stop: Option<tokio::sync::oneshot::Sender<()>>,
    thread: Option<std::thread::JoinHandle<()>>,
}

impl Server {
    /// on a port that no other process of this run uses; who answers there is asked, as there may be other runs
    fn start(logger: bool, dir: &str) -> Server {
        for _ in 0..50 {
            let n = NEXT.fetch_add(1, SeqCst);
            let port = BASE.load(SeqCst) + n % 1400;
            if std::net::TcpListener::bind(("127.0.0.1", port)).is_err() {
                continue;
            }
            let me = format!("{} {}", std::process::id(), n);
            let (stop, stopped) = tokio::sync::oneshot::channel::<()>();
            let (dir, name) = (dir.to_string(), me.clone());
            let th = std::thread::spawn(move || {
                hold::serve();
                let rt = tokio::runtime::Builder::new_multi_thread().worker_threads(2).enable_all().on_thread_start(hold::serve).build().expect("runtime");
                rt.block_on(async {
                    tokio::select! {
                        _ = app(logger, &dir, name).listen(port) => {}
                        _ = stopped => {}
                    }
                });
                rt.shutdown_background();
            });
            let t0 = Instant::now();
            while !th.is_finished() && t0.elapsed() < Duration::from_secs(20) {
                if TcpStream::connect(("127.0.0.1", port)).is_ok() {
                    let mut c = Conn::new(port);
                    c.send(b"GET /who HTTP/1.1\r\nhost: h\r\n\r\n");
                    if c.wait(20_000).is_some_and(|r| r.ends_with(&me)) {
                        return Server { port, stop: Some(stop), thread: Some(th) };
                    }
                }
                std::thread::sleep(Duration::from_micros(200));
            }
        }
        panic!("App::listen ended at once 50 times")
    }
}

static BASE: AtomicU16 = AtomicU16::new(3000);
static NEXT: AtomicU16 = AtomicU16::new(0);

impl Drop for Server {
    fn drop(&mut self) {
        hold::free();
        if let Some(s) = self.stop.take() {
            let _ = s.send(());
        }
        if let Some(t) = self.thread.take() {
            let _ = t.join();
        }
    }
}

struct Conn {
    s: Option<TcpStream>,
    port: u16,
    buf: Vec<u8>,
}

impl Conn {
    fn new(port: u16) -> Conn {
        Conn { s: None, port, buf: vec![] }
    }
    fn send(&mut self, b: &[u8]) {
        self.buf.clear();
        if self.s.is_none() {
            let s = TcpStream::connect(("127.0.0.1", self.port)).expect("connect");
            s.set_nodelay(true).expect("nodelay");
            s.set_nonblocking(true).expect("nonblocking");
            self.s = Some(s);
        }
        let s = self.s.as_mut().unwrap();
        let t0 = Instant::now();
        let mut at = 0;
        while at < b.len() && t0.elapsed() < Duration::from_secs(10) {
            match s.write(&b[at..]) {
                Ok(n) => at += n,
                Err(e) if e.kind() == ErrorKind::WouldBlock => std::thread::yield_now(),
                Err(_) => break,
            }
        }
    }
    /// the whole reply, if it is there; the date is left out
    fn poll(&mut self) -> Option<String> {
        let s = self.s.as_mut()?;
        let mut b = [0; 8192];
        let ended = loop {
            match s.read(&mut b) {
                Ok(0) => break true,
                Ok(n) => self.buf.extend_from_slice(&b[..n]),
                Err(e) if e.kind() == ErrorKind::WouldBlock => break false,
                Err(_) => break true,
            }
        };
        let done = |b: &[u8]| -> Option<String> {
            let end = b.windows(4).position(|w| w == b"\r\n\r\n")? + 4;
            let head = String::from_utf8_lossy(&b[..end]).to_lowercase();
            let len = head.lines().find_map(|l| l.strip_prefix("content-length:")).map(|l| l.trim().parse::<usize>().unwrap_or(0));
            let body = &b[end..];
            let whole = match len {
                Some(n) => body.len() >= n,
                None if head.contains("transfer-encoding: chunked") => body.ends_with(b"0\r\n\r\n"),
                None => true,
            };
            if !whole {
                return None;
            }
            let body = match len {
                Some(_) => String::from_utf8_lossy(body).into_owned(),
                // where a stream is cut into chunks is of no interest
                None => {
                    let mut out = vec![];
                    let mut at = 0;
                    while let Some(n) = body[at..].windows(2).position(|w| w == b"\r\n") {
                        let size = usize::from_str_radix(&String::from_utf8_lossy(&body[at..at + n]), 16).unwrap_or(0);
                        at += n + 2;
                        if size == 0 || at + size > body.len() {
                            break;
                        }
                        out.extend_from_slice(&body[at..at + size]);
                        at += size + 2;
                    }
                    String::from_utf8_lossy(&out).into_owned()
                }
            };
            let head: Vec<&str> = head.lines().filter(|l| !l.starts_with("date:") && !l.is_empty()).collect();
            Some(format!("{}\n\n{}", head.join("\n"), body))
        };
        if let Some(r) = done(&self.buf) {
            if ended {
                self.s = None;
            }
            return Some(r);
        }
        if ended {
            self.s = None;
            return Some(format!("connection closed after {:?}", String::from_utf8_lossy(&self.buf)));
        }
        None
    }
    fn wait(&mut self, ms: u64) -> Option<String> {
        until(ms, || self.poll())
    }
}

fn until<T>(ms: u64, mut f: impl FnMut() -> Option<T>) -> Option<T> {
    let t0 = Instant::now();
    let mut n = 0;
    loop {
        if let Some(x) = f() {
            return Some(x);
        }
        n += 1;
        if n % 16 == 0 {
            if t0.elapsed() > Duration::from_millis(ms) {
                return None;
            }
            std::thread::sleep(Duration::from_micros(if n < 800 { 10 } else { 300 }));
        } else {
            std::thread::yield_now();
        }
    }
}

// ------------------------------------------------------------------------------------------------ the schedules

/// how often things happened
#[derive(Default)]
struct Count {
    schedules: u64,
    held: u64,
    waited: u64,
    points: u64,
}

#[derive(Clone, Copy, PartialEq)]
enum Mode {
    /// one application and two connections for all schedules, every request with a name of its own
    Fresh,
    /// likewise, but all requests of one side bear the same name
    Same,
    /// an application for each schedule, and the held request is its first
    Cold,
    /// as the first, but B is held as well, at each of its points, and A goes on first
    Both,
}
const MODES: [(Mode, &str); 4] = [(Mode::Fresh, "fresh names"), (Mode::Same, "the same names"), (Mode::Cold, "cold"), (Mode::Both, "both held")];

struct Explorer {
    dir: String,
    root: String,
    /// the reply of every kind alone, under the name 00000000
    solo: Vec<String>,
    next: u64,
    count: Count,
    deadline: Instant,
}

const MANY: u64 = 1 << 40;
const NAME: &str = "00000000";

impl Explorer {
    fn new() -> Explorer {
        let dir = std::env::var("MC_SCRATCH").unwrap_or_else(|_| format!("{}/preempt-{}.d", std::env::temp_dir().display(), std::process::id()));
        let dir = format!("{}/preempt-{}", dir, std::process::id());
        std::fs::create_dir_all(&dir).expect("scratch");
        // paths of static files are relative
        std::env::set_current_dir(&dir).expect("scratch");
        std::fs::create_dir_all("here").expect("scratch");
        let (dir, root) = ("here".to_string(), dir);
        std::fs::write(format!("{}/one.txt", dir), "the first file").expect("scratch");
        std::fs::write(format!("{}/two.txt", dir), "the second file\n".repeat(700)).expect("scratch");
        let limit = std::env::var("MC_PREEMPT_S").ok().and_then(|s| s.parse().ok()).unwrap_or(120);
        let mut e = Explorer { dir, root, solo: vec![], next: 1, count: Default::default(), deadline: Instant::now() + Duration::from_secs(limit) };
        e.solo = KINDS
            .iter()
            .map(|kd| {
                let s = Server::start(false, &e.dir);
                let mut c = Conn::new(s.port);
                c.send(&bytes(kd, NAME));
                c.wait(20_000).unwrap_or_else(|| panic!("{} alone: no reply", kd.name))
            })
            .collect();
        e
    }

    fn name(&mut self, mode: Mode, side: u64) -> String {
        self.next += 1;
        match mode {
            Mode::Fresh | Mode::Both => format!("{:08}", self.next),
            _ => format!("{:08}", 90_000_000 + side),
        }
    }

    /// the schedules in which A is held at some point and B runs meanwhile
    fn pair(&mut self, a: usize, b: usize, mode: Mode) -> Result<(), String> {
        let mut server = None;
        let mut conns = None;
        // the points differ a little from run to run; the longest counts
        let mut last = 8;
        let mut p = 0;
        while p < last {
            if server.is_none() || mode == Mode::Cold {
                drop(conns.take());
                drop(server.take());
                let s = Server::start(false, &self.dir);
                let (mut ca, mut cb) = (Conn::new(s.port), Conn::new(s.port));
                if mode != Mode::Cold {
                    for (c, kd) in [(&mut ca, &KINDS[a]), (&mut cb, &KINDS[b])] {
                        c.send(&bytes(kd, "88888888"));
                        c.wait(10_000);
                    }
                } else {
                    // the connections, not the requests
                    for c in [&mut ca, &mut cb] {
                        c.send(&bytes(&KINDS[13], "88888888"));
                        c.wait(10_000);
                    }
                }
                server = Some(s);
                conns = Some((ca, cb));
            }
            let (ca, cb) = conns.as_mut().unwrap();
            let (na, nb) = (self.name(mode, 1), self.name(mode, 2));
            if mode != Mode::Both {
                let n = self.one(a, b, mode, p, None, (ca, &na), (cb, &nb))?;
                last = last.max(n);
            } else {
                let (mut q, mut end) = (0, 1);
                while q < end && Instant::now() < self.deadline {
                    let (na, nb) = (self.name(mode, 1), self.name(mode, 2));
                    let (ca, cb) = conns.as_mut().unwrap();
                    let n = self.one(a, b, mode, p, Some(q), (ca, &na), (cb, &nb))?;
                    // (says how many points A has if A was not held, how many B has otherwise)
                    if n < MANY {
                        end = end.max(n);
                        last = last.max(p + 2);
                    } else {
                        last = last.max(n - MANY);
                        break;
                    }
                    q += 1;
                }
            }
            p += 1;
        }
        self.count.points = self.count.points.max(last);
        Ok(())
    }

    /// how many points A passed
    fn one(&mut self, a: usize, b: usize, mode: Mode, p: u64, q: Option<u64>, (ca, na): (&mut Conn, &str), (cb, nb): (&mut Conn, &str)) -> Result<u64, String> {
        let (ka, kb) = (&KINDS[a], &KINDS[b]);
        self.count.schedules += 1;
        hold::arm(Some(p));
        ca.send(&bytes(ka, na));
        let mut ra = None;
        let held = until(10_000, || {
            if hold::held() > 0 {
                return Some(true);
            }
            ra = ca.poll();
            ra.is_some().then_some(false)
        });
        let held = match held {
            Some(h) => h,
            None => return Err(format!("{} (A) is neither held at point {} nor answered", ka.name, p)),
        };
        let at = if held { hold::at() } else { "" };
        if held {
            self.count.held += 1;
        } else {
            // it may still be at what comes after the reply
            std::thread::sleep(Duration::from_millis(2));
            hold::disarm();
        }
        let mut n = hold::passed();
        let both = q.filter(|_| held);
        if let Some(q) = both {
            hold::again(q);
        }
        cb.send(&bytes(kb, nb));
        let mut rb = None;
        let ms = if self.count.waited < 20 { 400 } else { 60 };
        let b_held = until(ms, || {
            rb = cb.poll();
            (rb.is_some() || hold::held() > 1).then(|| rb.is_none())
        });
        if held && b_held.is_none() {
            // both may need the same lock for a moment
            self.count.waited += 1;
        }
        if q.is_some() {
            n = match (held, b_held) {
                (false, _) => n + MANY,
                (_, Some(true)) => q.unwrap() + 2,
                _ => hold::passed(),
            };
        }
        if b_held == Some(true) {
            hold::free_one();
            ra = ca.wait(ms);
            if ra.is_none() {
                self.count.waited += 1;
            }
        }
        hold::free();
        if ra.is_none() {
            ra = ca.wait(10_000);
        }
        if rb.is_none() {
            rb = cb.wait(10_000);
        }
        hold::disarm();
        if std::env::var_os("MC_TIMING").is_some() {
            eprintln!("{} {} {} passed {} {}", p, held, rb.is_some(), n, at);
        }
        let what = format!("{}: {} (A, named {}) held at point {} in {}, {} (B, named {}) runs{}, then A goes on", MODES.iter().find(|m| m.0 == mode).unwrap().1, ka.name, na, p, at, kb.name, nb, both.map_or(String::new(), |q| format!(" to its point {}", q)));
        for (who, k, name, r) in [("A", a, na, &ra), ("B", b, nb, &rb)] {
            let want = self.solo[k].replace(NAME, name);
            match r {
                None => return Err(format!("{}: {} is never answered", what, who)),
                Some(r) if *r != want => return Err(format!("{}: {} is answered\n{}\n-- and alone\n{}", what, who, r, want)),
                _ => {}
            }
        }
        // what is left behind
        for (c, k, side) in [(&mut *cb, a, "A"), (&mut *ca, b, "B")] {
            let name = self.name(mode, 3);
            let want = self.solo[k].replace(NAME, &name);
            c.send(&bytes(&KINDS[k], &name));
            match c.wait(10_000) {
                Some(r) if r == want => {}
                r => return Err(format!("{}, and then the kind of {} once more, named {}: answered\n{}\n-- and alone\n{}", what, side, name, r.unwrap_or("nothing".into()), want)),
            }
        }
        Ok(if held && q.is_none() { p + 2 } else { n })
    }
}

impl Drop for Explorer {
    fn drop(&mut self) {
        let _ = std::env::set_current_dir("/");
        let _ = std::fs::remove_dir_all(&self.root);
    }
}

/// pairs of kinds: all in the thorough tier; otherwise each kind with itself and with some others
fn jobs(thorough: bool) -> Vec<(usize, usize, usize)> {
    let n = KINDS.len();
    let with: [&[usize]; 3] = [&[0, 3, 7, 12], &[0, 5], &[0, 8]];
    let both = [0, 4, 9];
    let mut v = vec![];
    for a in 0..n {
        for (m, w) in with.iter().enumerate() {
            for b in 0..n {
                if thorough || w.contains(&((b + n - a) % n)) {
                    v.push((a, b, m));
                }
            }
        }
    }
    if thorough {
        for a in 0..n {
            v.extend(both.map(|d| (a, (a + d) % n, 3)));
        }
    }
    v
}

fn share(n: usize, of: usize, out: &str) -> i32 {
    BASE.store(4000 + 1400 * n as u16, SeqCst);
    let thorough = std::env::var("MC_TIER").as_deref() == Ok("thorough");
    let mut e = Explorer::new();
    let mut found = None;
    let all = jobs(thorough);
    let mut pairs = 0;
    for (a, b, m) in all.iter().copied().skip(n).step_by(of) {
        if Instant::now() > e.deadline {
            break;
        }
        let mut r = e.pair(a, b, MODES[m].0);
        if r.as_ref().is_err_and(|w| w.contains("nothing") || w.contains("never answered") || w.contains("neither held")) {
            // a reply that does not come in time has to stay away
            r = e.pair(a, b, MODES[m].0);
        }
        if let Err(what) = r {
            found = Some((a, b, m, what));
            break;
        }
        pairs += 1;
    }
    let j = serde_json::json!({
        "schedules": e.count.schedules, "held": e.count.held, "waited": e.count.waited, "points": e.count.points, "functions": hold::functions(), "pairs": pairs, "of": all.len(),
        "found": found.as_ref().map(|f| serde_json::json!({"pair": [f.0, f.1, f.2], "what": f.3})),
    });
    std::fs::write(out, j.to_string()).expect("result");
    found.is_some() as i32
}

fn drop_and_say(e: Explorer, r: Result<(), String>, t0: Instant, out: &str) {
    let said = format!("{} schedules, {} held, {} waited, {} points, {} functions of the library, {:?}\n", e.count.schedules, e.count.held, e.count.waited, e.count.points, hold::functions(), t0.elapsed());
    drop(e);
    let code = r.is_err() as i32;
    let _ = std::fs::write(out, said + &r.err().unwrap_or("held".into()));
    std::process::exit(code)
}

fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let args: Vec<String> = std::env::args().collect();
    let num = |i: usize| args[i].parse::<usize>().expect("number");
    let t0 = Instant::now();
    match args.get(1).map(|s| s.as_str()) {
        Some("share") => std::process::exit(share(num(2), num(3), &args[4])),
        Some("pair") => {
            let mut e = Explorer::new();
            let r = e.pair(num(2), num(3), MODES[num(4)].0);
            drop_and_say(e, r, t0, &args[5]);
        }
        Some(out) => {
            let of = std::thread::available_parallelism().map_or(4, |n| n.get().min(11));
            let exe = std::env::current_exe().expect("exe");
            let parts: Vec<String> = (0..of).map(|n| format!("{}.{}", out, n)).collect();
            let children: Vec<_> = (0..of).map(|n| std::process::Command::new(&exe).args(["share", &n.to_string(), &of.to_string(), &parts[n]]).stdout(std::process::Stdio::null()).stderr(std::process::Stdio::null()).spawn().expect("spawn")).collect();
            for mut c in children {
                let _ = c.wait();
            }
            let mut sum = [0u64; 7];
            let mut found = serde_json::Value::Null;
            let mut done = 0;
            for p in &parts {
                if let Some(j) = std::fs::read(p).ok().and_then(|b| serde_json::from_slice::<serde_json::Value>(&b).ok()) {
                    done += 1;
                    for (i, k) in ["schedules", "held", "waited"].iter().enumerate() {
                        sum[i] += j[k].as_u64().unwrap_or(0);
                    }
                    sum[3] = sum[3].max(j["points"].as_u64().unwrap_or(0));
                    sum[4] = j["functions"].as_u64().unwrap_or(0);
                    sum[5] += j["pairs"].as_u64().unwrap_or(0);
                    sum[6] = j["of"].as_u64().unwrap_or(0);
                    if found.is_null() {
                        found = j["found"].clone();
                    }
                }
                let _ = std::fs::remove_file(p);
            }
            let j = serde_json::json!({
                "schedules": sum[0], "held": sum[1], "b_waited_for_a": sum[2], "points_per_request_at_most": sum[3], "functions_of_the_library": sum[4], "kinds": KINDS.len(),
                "pairs_of_kinds": sum[5], "pairs_chosen": sum[6], "processes": of, "processes_done": done, "found": found, "wall_s": t0.elapsed().as_secs_f64(),
            });
            std::fs::write(out, j.to_string()).expect("result");
        }
        None => {
            eprintln!("usage: preempt OUT.json");
            std::process::exit(2)
        }
    }
}
