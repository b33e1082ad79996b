//! The guarantees about one request hold on every kind of route and for every kind of request: paths of every vocabulary word
//! as literal, parameter and wildcard, and any length of chain, number of filled slots, of parameters, of segments, of sibling routes, of headers
//! and of query pairs. One probe goes through all that a handler can do; each property judges its own part of the reply.
use super::names;
use crate::common::*;
use crate::sut::*;
use crate::wire;
use async_trait::async_trait;
use hyper::body::HttpBody;
use obsidian::context::Context;
use obsidian::middleware::Middleware;
use obsidian::router::Router;
use obsidian::{App, ContextResult, EndpointExecutor, ObsidianError, StatusCode};
use std::collections::{BTreeMap, HashMap};
use std::sync::Arc;

#[derive(Clone, Debug, PartialEq)]
struct Conf(Vec<u64>);
#[derive(Clone, Debug, PartialEq)]
struct One(u64);
#[derive(Clone, Debug, PartialEq)]
struct Two(String);
#[derive(Clone, Debug, PartialEq)]
struct Never;

type Multi = BTreeMap<String, Vec<String>>;

struct In(u8);
#[async_trait]
impl Middleware for In {
    async fn handle<'a>(&'a self, mut context: Context, ep: EndpointExecutor<'a>) -> ContextResult {
        let rid = rid_of(&context);
        trace_push(rid, Ev::Note(format!("in{} {:?}", self.0, context.get::<Conf>())));
        if self.0 == 1 {
            context.add(One(7));
        } else {
            context.add(Two("two".into()));
        }
        let r = ep.next(context).await;
        let how = match &r {
            Ok(c) => format!("{:?} {:?}", c.response().as_ref().map(|r| r.status().as_u16()), c.get::<Two>()),
            Err(e) => e.to_string(),
        };
        trace_push(rid, Ev::Note(format!("out{} {}", self.0, how)));
        r
    }
}

/// fills as many further slots
struct Load(usize);
#[derive(Clone, Debug, PartialEq)]
struct Many<const N: usize>(usize);
#[async_trait]
impl Middleware for Load {
    async fn handle<'a>(&'a self, mut context: Context, ep: EndpointExecutor<'a>) -> ContextResult {
        macro_rules! ten {
            ($($d:literal)*) => { $(
                if self.0 > $d * 10 { context.add(Many::<{ $d * 10 }>($d)); }
                if self.0 > $d * 10 + 1 { context.add(Many::<{ $d * 10 + 1 }>($d)); }
                if self.0 > $d * 10 + 2 { context.add(Many::<{ $d * 10 + 2 }>($d)); }
                if self.0 > $d * 10 + 3 { context.add(Many::<{ $d * 10 + 3 }>($d)); }
                if self.0 > $d * 10 + 4 { context.add(Many::<{ $d * 10 + 4 }>($d)); }
                if self.0 > $d * 10 + 5 { context.add(Many::<{ $d * 10 + 5 }>($d)); }
                if self.0 > $d * 10 + 6 { context.add(Many::<{ $d * 10 + 6 }>($d)); }
                if self.0 > $d * 10 + 7 { context.add(Many::<{ $d * 10 + 7 }>($d)); }
                if self.0 > $d * 10 + 8 { context.add(Many::<{ $d * 10 + 8 }>($d)); }
                if self.0 > $d * 10 + 9 { context.add(Many::<{ $d * 10 + 9 }>($d)); }
            )* };
        }
        ten!(0 1 2 3 4 5 6 7 8 9 10 11 12 13);
        ep.next(context).await
    }
}

struct Pass;
#[async_trait]
impl Middleware for Pass {
    async fn handle<'a>(&'a self, context: Context, ep: EndpointExecutor<'a>) -> ContextResult {
        ep.next(context).await
    }
}

fn said<T: std::fmt::Debug>(r: Result<T, ObsidianError>) -> String {
    match r {
        Ok(v) => format!("{:?}", v),
        Err(_) => "refused".into(),
    }
}

async fn rest(c: &mut Context) -> Vec<u8> {
    let mut b = c.take_body();
    let mut v = vec![];
    while let Some(Ok(x)) = b.data().await {
        v.extend_from_slice(&x);
    }
    v
}

async fn probe(mut c: Context) -> ContextResult {
    let rid = rid_of(&c);
    let mut o = format!("C18 {:?}\n", c.get::<Conf>());
    if let Some(s) = c.get_mut::<Conf>() {
        s.0.push(rid as u64);
    }
    o += &format!("C22 {:?} {:?} {:?}\n", c.get::<One>(), c.get::<Two>(), c.get::<Never>());
    o += &format!("C03 {:?} {:?} {:?}\n", c.param::<String>("v").ok(), c.param::<String>("w").ok(), c.param::<String>("*").ok());
    o += &format!("C13 {}\n", said(c.query_params::<Multi>()));
    let read = match c.method().as_str() {
        "POST" => said(c.json::<serde_json::Value>().await),
        "PUT" => said(c.form::<Multi>().await),
        _ => format!("{:?}", rest(&mut c).await),
    };
    o += &format!("C12 {}\n", read);
    o += &format!("C15 {:?}\n", rest(&mut c).await);
    trace_push(rid, Ev::Note(format!("h {}", o)));
    c.build(o).with_status(StatusCode::CREATED).with_header_str("x-probe", "set").ok()
}

async fn fails(c: Context) -> ContextResult {
    trace_push(rid_of(&c), Ev::Note("h fails".into()));
    Err(ObsidianError::GeneralError("the probe says no: é".into()))
}

async fn builds_nothing(c: Context) -> ContextResult {
    trace_push(rid_of(&c), Ev::Note("h nothing".into()));
    Ok(c)
}

/// which of the three handlers a route has
#[derive(Clone, Copy, Debug, PartialEq)]
enum Does {
    Probe,
    Fails,
    Nothing,
}

struct Case {
    what: String,
    routes: Vec<(String, Does)>,
    /// further middleware at the root and at a path
    more: (usize, Vec<(String, usize)>),
    slots: usize,
    mount: Option<&'static str>,
    /// method, path with query, headers, what answers
    reqs: Vec<(u8, String, Vec<(String, String)>, Does, Multi)>,
}

fn app(k: &Case, logger: bool) -> App<Conf> {
    let mut a: App<Conf> = if logger { App::default() } else { App::new() };
    a.set_app_state(Conf(vec![1, 2]));
    if k.slots > 0 {
        a.use_service(Load(k.slots));
    }
    a.use_service(In(1));
    for _ in 0..k.more.0 {
        a.use_service(Pass);
    }
    a.use_service(In(2));
    macro_rules! fill {
        ($r:expr) => {{
            for (p, d) in &k.routes {
                macro_rules! all {
                    ($h:expr) => {{
                        $r.get(p, $h);
                        $r.post(p, $h);
                        $r.put(p, $h);
                        $r.patch(p, $h);
                        $r.delete(p, $h);
                    }};
                }
                match d {
                    Does::Probe => all!(probe),
                    Does::Fails => all!(fails),
                    Does::Nothing => all!(builds_nothing),
                }
            }
            for (p, n) in &k.more.1 {
                for _ in 0..*n {
                    $r.use_service_to(p, Pass);
                }
            }
        }};
    }
    match k.mount {
        None => fill!(a),
        Some(at) => {
            let mut r = Router::new();
            fill!(r);
            a.use_router(at, r);
        }
    }
    a
}

fn body_of(m: u8) -> (&'static [u8], &'static str) {
    match METHODS[m as usize] {
        "POST" => (b"{\"k\":[1,\"\\u00e9\"],\"e\":null}", "Object {\"e\": Null, \"k\": Array [Number(1), String(\"é\")]}"),
        "PUT" => (b"k=1&l=%C3%A9&k=2", "{\"k\": [\"1\", \"2\"], \"l\": [\"é\"]}"),
        "PATCH" => (b"\x00\xffraw", "[0, 255, 114, 97, 119]"),
        _ => (b"", "[]"),
    }
}

fn plain(m: u8, p: &str, d: Does) -> (u8, String, Vec<(String, String)>, Does, Multi) {
    (m, format!("{}?q=1&r=%20x&q=2", p), vec![], d, [("q".to_string(), vec!["1".to_string(), "2".into()]), ("r".into(), vec![" x".into()])].into_iter().collect())
}

fn everything(p: &str, d: Does) -> Vec<(u8, String, Vec<(String, String)>, Does, Multi)> {
    (0..5).map(|m| plain(m, p, d)).collect()
}

fn cases(t: Tier) -> Vec<Case> {
    let mut v = vec![];
    let none = (0, vec![]);
    let words: Vec<String> = names::vocabulary(t).into_iter().filter(|w| !w.starts_with(':') && wire_ok(&format!("/{}", w))).collect();
    for (b, ws) in words.chunks(60).enumerate() {
        let mut routes: Vec<(String, Does)> = vec![];
        let mut reqs = vec![];
        for (i, w) in ws.iter().enumerate() {
            let d = [Does::Probe, Does::Probe, Does::Fails, Does::Probe, Does::Nothing][(b + i) % 5];
            routes.push((format!("/{}", w), d));
            routes.push((format!("/{}/in/{}", w, w), Does::Probe));
            reqs.push(plain(((b + i) % 5) as u8, &format!("/{}", w), d));
            reqs.push(plain(((b + i + 1) % 5) as u8, &format!("/{}/in/{}", w, w), Does::Probe));
            reqs.push(plain(((b + i + 2) % 5) as u8, &format!("/kp/{}/x/{}", w, w), Does::Probe));
            reqs.push(plain(((b + i + 3) % 5) as u8, &format!("/kw/a/{}/b/{}", w, w), Does::Probe));
            reqs.push(plain(((b + i) % 5) as u8, &format!("/kf/{}", w), Does::Fails));
            reqs.push(plain(((b + i + 4) % 5) as u8, &format!("/kn/{}", w), Does::Nothing));
            // as a query pair, as a header value
            let mut r = plain((i % 5) as u8, "/kq", Does::Probe);
            r.2.push(("x-word".into(), w.clone()));
            r.2.push(("user-agent".into(), w.clone()));
            if !w.contains(['%', '+', '&', '=', ';', '"', '<', '>', '#', '?']) {
                r.1 += &format!("&{}=1&w={}", w, w);
                r.4.entry(w.clone()).or_default().push("1".into());
                r.4.entry("w".into()).or_default().push(w.clone());
            }
            reqs.push(r);
        }
        routes.extend([("/kp/:v/x/:w".to_string(), Does::Probe), ("/kw/*".into(), Does::Probe), ("/kf/:v".into(), Does::Fails), ("/kn/:v".into(), Does::Nothing), ("/kq".into(), Does::Probe)]);
        v.push(Case { what: format!("words {:?} to {:?}", ws[0], ws[ws.len() - 1]), routes, more: none.clone(), slots: 0, mount: None, reqs });
    }
    let upto = |n: usize, extra: &[usize]| crate::dict::sizes((0..=n).chain(extra.iter().cloned()).collect(), 1100);
    let three = |p: &str| vec![(format!("{}/p", p), Does::Probe), (format!("{}/f", p), Does::Fails), (format!("{}/n", p), Does::Nothing)];
    let ask = |p: &str| -> Vec<_> { three(p).iter().flat_map(|(p, d)| everything(p, *d)).collect() };
    for n in upto(70, &[100, 101, 127, 128, 129, 199, 200, 201, 255, 256, 257]) {
        v.push(Case { what: format!("{} more middleware at the root", n), routes: three(""), more: (n, vec![]), slots: 0, mount: None, reqs: ask("") });
        v.push(Case { what: format!("{} more middleware on the way", n), routes: three("/a/b"), more: (0, vec![("/a".into(), n / 3), ("/a/b".into(), n / 3), ("/a/b/p".into(), n - n / 3 * 2), ("/a/b/f".into(), n)]), slots: 0, mount: Some("/m"), reqs: ask("/m/a/b") });
    }
    for n in (1..=40).chain([63, 64, 65, 99, 100, 101, 127, 128, 129, 140]) {
        v.push(Case { what: format!("{} more slots filled", n), routes: three(""), more: (0, vec![("/p".into(), n % 3)]), slots: n, mount: None, reqs: ask("") });
    }
    for n in upto(40, &[50, 63, 64, 65, 100]) {
        let pat: String = (0..n).map(|i| format!("/:p{}", i)).collect();
        let path: String = (0..n).map(|i| format!("/v{}", i)).collect();
        v.push(Case { what: format!("{} parameters", n), routes: three(&pat), more: none.clone(), slots: 0, mount: None, reqs: ask(&path) });
        v.push(Case { what: format!("{} segments", n), routes: three(&path), more: none.clone(), slots: 0, mount: Some("/m"), reqs: ask(&format!("/m{}", path)) });
        v.push(Case { what: format!("{} segments below a wildcard", n), routes: vec![("/kw/*".into(), Does::Probe), ("/wf/*".into(), Does::Fails), ("/wn/*".into(), Does::Nothing)], more: none.clone(), slots: 0, mount: None, reqs: [("/kw", Does::Probe), ("/wf", Does::Fails), ("/wn", Does::Nothing)].iter().flat_map(|(p, d)| everything(&format!("{}{}/z", p, path), *d)).collect() });
    }
    // long texts: the HTTP layer takes 65 534 bytes of target
    for n in crate::dict::sizes(vec![1, 100, 200, 255, 256, 257, 511, 512, 513, 1000, 1023, 1024, 1025, 2047, 2048, 2049, 4095, 4096, 4097, 8000, 8191, 8192, 8193, 10_000, 16_383, 16_384, 16_385, 30_000, 32_767, 32_768, 32_769, 60_000], 60_000) {
        let long = "ab/c"[..2].repeat(n / 2 + 1)[..n].to_string();
        let mut reqs = vec![plain(1, &format!("/kp/{}/x/y", long), Does::Probe), plain(2, &format!("/kp/x/x/{}", long), Does::Probe), plain(3, &format!("/kw/{}", long), Does::Probe), plain(0, &format!("/kw/{}z", "a/".repeat(n / 2)), Does::Probe), plain(4, &format!("/kf/{}", long), Does::Fails), plain(1, &format!("/kn/{}", long), Does::Nothing)];
        for m in 0..5 {
            let mut r = plain(m, "/kq", Does::Probe);
            r.1 += &format!("&long={}", long);
            r.4.entry("long".into()).or_default().push(long.clone());
            reqs.push(r);
            let mut r = plain(m, "/kq", Does::Probe);
            r.2.push(("x-long".into(), long.clone()));
            reqs.push(r);
        }
        v.push(Case { what: format!("texts of {} characters", n), routes: vec![("/kp/:v/x/:w".to_string(), Does::Probe), ("/kw/*".into(), Does::Probe), ("/kf/:v".into(), Does::Fails), ("/kn/:v".into(), Does::Nothing), ("/kq".into(), Does::Probe)], more: none.clone(), slots: 0, mount: None, reqs });
    }
    for n in upto(20, &[31, 32, 33, 63, 64, 65, 99, 100, 101, 127, 128, 129, 255, 256, 257]) {
        let routes: Vec<(String, Does)> = (0..n).map(|i| (format!("/s{}", i), [Does::Probe, Does::Fails, Does::Nothing][i % 3])).chain(three("/t")).collect();
        let mut reqs = ask("/t");
        for i in [0, 1, 2, n / 2, n.saturating_sub(3), n.saturating_sub(2), n.saturating_sub(1)] {
            if i < n {
                reqs.push(plain((i % 5) as u8, &format!("/s{}", i), routes[i].1));
            }
        }
        v.push(Case { what: format!("{} other routes", n), routes, more: none.clone(), slots: 0, mount: None, reqs });
        // the HTTP layer takes up to 100 headers
        if n < 90 {
            let h: Vec<(String, String)> = (0..n).map(|i| (format!("x-h{}", i), format!("v{}", i))).collect();
            let reqs = ask("").into_iter().map(|mut r| { r.2 = h.clone(); r }).collect();
            v.push(Case { what: format!("{} more headers", n), routes: three(""), more: none.clone(), slots: 0, mount: None, reqs });
        }
        let reqs = ask("")
            .into_iter()
            .map(|mut r| {
                for i in 0..n {
                    r.1 += &format!("&k{}={}", i / 2, i);
                    r.4.entry(format!("k{}", i / 2)).or_default().push(i.to_string());
                }
                r
            })
            .collect();
        v.push(Case { what: format!("{} more query pairs", n), routes: three(""), more: none.clone(), slots: 0, mount: None, reqs });
    }
    v
}

/// what the routes of the vocabulary and of the long texts bind
fn params_of(p: &str) -> String {
    let p = p.split('?').next().unwrap();
    let some = |x: &str| format!("{:?}", Some(x.to_string()));
    let mut s: Vec<&str> = p.split('/').skip(1).collect();
    match s[0] {
        "kp" if s.len() == 4 => format!("{} {} None", some(s[1]), some(s[3])),
        "kw" if s.len() > 1 => {
            s.remove(0);
            s.retain(|x| !x.is_empty());
            format!("None None {}", some(&s.join("/")))
        }
        _ => "None None None".into(),
    }
}

pub const IDS: &[&str] = &["C03", "C07", "C10", "C11", "C12", "C13", "C15", "C18", "C20", "C22"];

pub fn section_for(t: Tier, id: &'static str) -> Section {
    let cs = Arc::new(cases(t));
    section("everything a request can do, on every kind of route", cs.len() as u64, move |i, w| run(&cs[i as usize], i, w, id))
}

fn run(k: &Case, i: u64, w: &mut W, id: &str) -> CaseResult {
    let raw: Vec<(Vec<u8>, bool)> = k
        .reqs
        .iter()
        .enumerate()
        .map(|(j, (m, p, hs, _, _))| {
            let rid = j.to_string();
            let mut h: Vec<(&str, &str)> = vec![("x-rid", &rid)];
            h.extend(hs.iter().map(|(a, b)| (&a[..], &b[..])));
            let b = body_of(*m).0;
            (wire::req(METHODS[*m as usize], p, &h, if b.is_empty() { None } else { Some(b) }), false)
        })
        .collect();
    let _ = trace_take();
    let rs = w.wire.serve(|| app(k, id == "C20"), async |p| wire::batch(p, &raw).await);
    let mut by: HashMap<u32, Vec<String>> = HashMap::new();
    for (rid, e) in trace_take() {
        if let Ev::Note(n) = e {
            by.entry(rid).or_default().push(n);
        }
    }
    w.st.traces += 1;
    w.st.transitions += k.routes.len() as u64;
    w.state(&(i, &k.what));
    let conf = format!("{:?}", Some(Conf(vec![1, 2])));
    let two = format!("{:?}", Some(Two("two".into())));
    for (j, (m, p, _, d, q)) in k.reqs.iter().enumerate() {
        let r = &rs[j];
        let notes = by.remove(&(j as u32)).unwrap_or_default();
        let has = |x: &str| notes.iter().any(|n| n.starts_with(x));
        // which handler runs is the routing properties' business
        if !has("h ") && id != "C20" && id != "C07" {
            continue;
        }
        w.st.evaluations += 1;
        let lines = [
            format!("C18 {}", conf),
            format!("C22 {:?} {} None", Some(One(7)), two),
            format!("C03 {}", params_of(p)),
            format!("C13 {:?}", q),
            format!("C12 {}", body_of(*m).1),
            "C15 []".to_string(),
        ];
        let (h, back, status, body) = match d {
            Does::Probe => (format!("h {}\n", lines.join("\n")), format!("Some(201) {}", two), 201, format!("{}\n", lines.join("\n"))),
            Does::Fails => ("h fails".into(), "the probe says no: é".into(), 500, "the probe says no: é".to_string()),
            Does::Nothing => ("h nothing".into(), format!("None {}", two), 200, String::new()),
        };
        let course = vec![format!("in1 {}", conf), format!("in2 {}", conf), h, format!("out2 {}", back), format!("out1 {}", back)];
        let own: Vec<&str> = notes.iter().filter_map(|n| n.strip_prefix("h ")).collect();
        let line = |x: &str| own.first().and_then(|o| o.lines().find(|l| l.starts_with(x)).map(|l| l.to_string()));
        let expected_line = lines.iter().find(|l| l.starts_with(id)).cloned();
        let headers = r.header_all("x-probe") == ["set"] && r.header_all("content-type") == ["text/plain; charset=utf-8"];
        let marks = |v: &[String]| -> Vec<String> { v.iter().map(|n| n.split(' ').next().unwrap().to_string()).collect() };
        let ok = match id {
            "C20" => notes == course && r.status() == status && r.text() == body && (*d != Does::Probe || headers),
            "C07" => marks(&notes) == marks(&course) && (has("out1 ") == (r.status() != 0)) && notes.iter().zip(&course).all(|(a, b)| !a.starts_with("out") || a == b),
            "C10" => *d != Does::Probe || (r.status() == 201 && headers && own.first() == Some(&&r.text()[..])),
            "C11" => *d == Does::Probe || (r.status() == status && r.text() == body),
            "C18" => notes.iter().filter(|n| n.starts_with("in")).all(|n| n.ends_with(&conf)) && (*d != Does::Probe || line(id) == expected_line),
            "C22" => (*d != Does::Probe || line(id) == expected_line) && (*d == Does::Fails || notes.iter().filter(|n| n.starts_with("out")).all(|n| n.ends_with(&two))),
            _ => *d != Does::Probe || line(id) == expected_line,
        };
        w.outcome(&(status, d_name(*d), own.first().map(|x| x.len())));
        if !ok {
            return Err(format!("{}: {} {} (the handler {:?}): expected {} {:?} {:?}, got {} with {:?}", k.what, METHODS[*m as usize], p, d, status, body, course, r.show(), notes));
        }
    }
    w.sample(|| format!("{}: {} requests", k.what, k.reqs.len()));
    Ok(())
}

fn d_name(d: Does) -> u8 {
    d as u8
}
