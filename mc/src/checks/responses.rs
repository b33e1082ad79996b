//! C10: programs of response-building calls, decoded from the request path by one handler, against a record of the last values set.
use crate::common::*;
use crate::wire::{self, Reply};
use obsidian::context::Context;
use obsidian::header::{self, HeaderName};
use obsidian::router::{ContextResult, Responder, Response};
use obsidian::{App, StatusCode};
use serde::ser::{Error as _, Serializer};
use serde::Serialize;
use std::collections::{BTreeMap, HashMap};
use std::sync::OnceLock;

pub const TEXTS: &[&str] = &["", "plain", "é日本\u{1f600}", "a\r\nb\0c\n\n", "{\"looks\": \"like json\"}", "<p>&amp;</p>", " lead and trail \t"];

fn big() -> &'static str {
    static B: OnceLock<&'static str> = OnceLock::new();
    B.get_or_init(|| Box::leak((0..150_000).map(|i| char::from(b'a' + (i % 23) as u8)).collect::<String>().into_boxed_str()))
}

fn text(k: usize) -> &'static str {
    if k < TEXTS.len() {
        TEXTS[k]
    } else {
        big()
    }
}
const NTEXT: usize = 8;

fn files() -> &'static (String, String) {
    static F: OnceLock<(String, String)> = OnceLock::new();
    F.get_or_init(|| {
        let d = std::env::var("MC_SCRATCH").unwrap_or_else(|_| format!("{}/mc-scratch-{}", std::env::temp_dir().display(), std::process::id()));
        let _ = std::fs::create_dir_all(&d);
        let f = format!("{}/c10.bin", d);
        std::fs::write(&f, FILE).unwrap();
        (f, format!("{}/absent", d))
    })
}
const FILE: &[u8] = b"file \xff\x00 content\r\n";

pub fn cleanup() {
    if std::env::var_os("MC_SCRATCH").is_none() {
        let _ = std::fs::remove_dir_all(format!("{}/mc-scratch-{}", std::env::temp_dir().display(), std::process::id()));
    }
}

#[derive(Serialize, Clone)]
struct Person {
    name: String,
    age: i8,
    tags: Vec<Option<String>>,
    score: f64,
}

struct Bad;
impl Serialize for Bad {
    fn serialize<S: Serializer>(&self, _s: S) -> Result<S::Ok, S::Error> {
        Err(S::Error::custom("cannot do it"))
    }
}
#[derive(Serialize)]
struct BadInside {
    first: i32,
    second: Bad,
}

const NJSON: usize = 14;

fn person() -> Person {
    Person { name: "J\"ü\\n\u{7}".into(), age: -27, tags: vec![Some("a".into()), None], score: 1.5 }
}

/// The reference text, written out by hand.
fn json_text(k: usize) -> Option<String> {
    Some(
        match k {
            0 => "{\"name\":\"J\\\"ü\\\\n\\u0007\",\"age\":-27,\"tags\":[\"a\",null],\"score\":1.5}",
            1 => "\"text\"",
            2 => "42",
            3 => "null",
            4 => "[]",
            5 => "{\"a\":[1,2,{\"b\":true}]}",
            6 => "[1,2,255]",
            7 => "-9223372036854775808",
            8 => "18446744073709551615",
            9 => "{\"1\":\"int key\"}",
            10 => "\"é日本\u{1f600}\"",
            _ => return None,
        }
        .to_string(),
    )
}

macro_rules! with_json {
    ($k:expr, $f:expr) => {
        match $k {
            0 => $f(&person() as &dyn ErasedJson),
            1 => $f(&"text"),
            2 => $f(&42u8),
            3 => $f(&None::<i32>),
            4 => $f(&Vec::<String>::new()),
            5 => $f(&serde_json::json!({"a": [1, 2, {"b": true}]})),
            6 => $f(&vec![1u8, 2, 255]),
            7 => $f(&i64::MIN),
            8 => $f(&u64::MAX),
            9 => $f(&HashMap::from([(1i32, "int key")])),
            10 => $f(&"é日本\u{1f600}".to_string()),
            11 => $f(&Bad),
            12 => $f(&BadInside { first: 1, second: Bad }),
            _ => $f(&HashMap::from([(vec![1u8], "bad key")])),
        }
    };
}

trait ErasedJson {
    fn on_response(&self, r: Response) -> Response;
    fn on_ctx(&self, c: Context) -> obsidian::context::ResponseBuilder;
}
impl<T: Serialize> ErasedJson for T {
    fn on_response(&self, r: Response) -> Response {
        r.json(self)
    }
    fn on_ctx(&self, c: Context) -> obsidian::context::ResponseBuilder {
        c.build_json(self)
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Base {
    Owned(usize),
    Str(usize),
    Unit,
    StStr(u16, usize),
    StOwned(u16, usize),
    StUnit(u16),
    StBytes(u16),
    Bytes,
    Status(u16),
    SomeOwned(usize),
    NoneOwned,
    SomeStr(usize),
    NoneStr,
    New(usize),
    NewOwned(usize),
    NewBytes,
    Okay,
    Created,
    Ise,
    // Responder methods
    StrWithStatus(u16),
    OwnedWithHeader,
    UnitWithHeaders,
    StrWithHeadersStr,
    BytesWithStatus(u16),
    ResponseTwice,
    // context builders
    CtxJson(usize),
    CtxFile(bool),
}
use Base::*;

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum R {
    SetStatus(u16),
    WithStatus(u16),
    StatusMut(u16),
    Body(usize),
    BodyOwned(usize),
    BodyUnit,
    BodyBytes,
    SetHeader,
    WithHeader,
    SetHeaderStr,
    WithHeaderStr,
    SetHeaders,
    WithHeaders,
    WithHeadersRepeated,
    SetHeadersStr,
    WithHeadersStr,
    WithNone,
    Ct,
    CtHeader,
    CtHeaderStr,
    Html(usize),
    Json(usize),
    PushHeader,
    DropHeaders,
    Cookie,
    Cookie2,
    File(bool),
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum B {
    Status(u16),
    Header,
    HeaderStr,
    Headers,
    HeadersStr,
    CtHeader,
    NoHeaders,
}

fn st(s: u16) -> StatusCode {
    StatusCode::from_u16(s).unwrap()
}
fn hn(s: &'static str) -> HeaderName {
    HeaderName::from_static(s)
}

fn base_response(b: Base) -> Response {
    match b {
        Owned(k) => text(k).to_string().respond_to(),
        Str(k) => text(k).respond_to(),
        Unit => ().respond_to(),
        StStr(s, k) => (st(s), text(k)).respond_to(),
        StOwned(s, k) => (st(s), text(k).to_string()).respond_to(),
        StUnit(s) => (st(s), ()).respond_to(),
        StBytes(s) => (st(s), vec![1u8, 255]).respond_to(),
        Bytes => vec![0u8, 7].respond_to(),
        Status(s) => st(s).respond_to(),
        SomeOwned(k) => Some(text(k).to_string()).respond_to(),
        NoneOwned => None::<String>.respond_to(),
        SomeStr(k) => Some(text(k)).respond_to(),
        NoneStr => None::<&'static str>.respond_to(),
        New(k) => Response::new(text(k)),
        NewOwned(k) => Response::new(text(k).to_string()),
        NewBytes => Response::new(vec![9u8]),
        Okay => Response::ok(),
        Created => Response::created(),
        Ise => Response::internal_server_error(),
        StrWithStatus(s) => Responder::with_status(text(1), st(s)),
        OwnedWithHeader => Responder::with_header(text(1).to_string(), hn("x-a"), "base"),
        UnitWithHeaders => Responder::with_headers((), vec![(hn("x-a"), "b1"), (hn("x-b"), "b2")]),
        StrWithHeadersStr => Responder::with_headers_str(text(2), vec![("X-A", "b3"), ("x-a", "b4")]),
        BytesWithStatus(s) => Responder::with_status(vec![3u8], st(s)),
        ResponseTwice => Response::new(text(1)).respond_to().respond_to(),
        CtxJson(_) | CtxFile(_) => unreachable!("context builders have no response stage"),
    }
}

async fn base_builder(c: Context, b: Base) -> obsidian::context::ResponseBuilder {
    match b {
        Owned(k) => c.build(text(k).to_string()),
        Str(k) => c.build(text(k)),
        Unit => c.build(()),
        StStr(s, k) => c.build((st(s), text(k))),
        StOwned(s, k) => c.build((st(s), text(k).to_string())),
        StUnit(s) => c.build((st(s), ())),
        StBytes(s) => c.build((st(s), vec![1u8, 255])),
        Bytes => c.build(vec![0u8, 7]),
        Status(s) => c.build(st(s)),
        SomeOwned(k) => c.build(Some(text(k).to_string())),
        NoneOwned => c.build(None::<String>),
        SomeStr(k) => c.build(Some(text(k))),
        NoneStr => c.build(None::<&'static str>),
        CtxJson(k) => with_json!(k, |j: &dyn ErasedJson| j.on_ctx(c)),
        CtxFile(ok) => c.build_file(if ok { &files().0 } else { &files().1 }).await,
        o => c.build(base_response(o)),
    }
}

async fn apply_r(mut r: Response, op: R) -> Response {
    match op {
        R::SetStatus(s) => r.set_status(st(s)),
        R::WithStatus(s) => Response::with_status(r, st(s)),
        R::StatusMut(s) => {
            *r.status_mut() = st(s);
            r
        }
        R::Body(k) => r.set_body(text(k)),
        R::BodyOwned(k) => r.set_body(text(k).to_string()),
        R::BodyUnit => r.set_body(()),
        R::BodyBytes => r.set_body(vec![8u8, 0]),
        R::SetHeader => r.set_header(hn("x-a"), "1"),
        R::WithHeader => Response::with_header(r, hn("x-b"), "2"),
        R::SetHeaderStr => r.set_header_str("X-A", "3"),
        R::WithHeaderStr => r.with_header_str("x-c", "4"),
        R::SetHeaders => r.set_headers(vec![(hn("x-a"), "5"), (hn("x-b"), "6")]),
        R::WithHeaders => Response::with_headers(r, vec![(hn("x-c"), "7"), (hn("x-a"), "")]),
        R::WithHeadersRepeated => Response::with_headers(r, vec![(hn("x-b"), "8"), (hn("x-b"), "9")]),
        R::SetHeadersStr => r.set_headers_str(vec![("X-C", "10"), ("x-A", "11")]),
        R::WithHeadersStr => Response::with_headers_str(r, vec![("x-b", "12"), ("X-B", "13")]),
        R::WithNone => Response::with_headers_str(r.set_headers(vec![]), vec![]),
        R::Ct => r.set_content_type("application/xml"),
        R::CtHeader => r.set_header(header::CONTENT_TYPE, "image/png"),
        R::CtHeaderStr => r.set_headers_str(vec![("Content-Type", "text/csv")]),
        R::Html(k) => r.html(text(k)),
        R::Json(k) => with_json!(k, |j: &dyn ErasedJson| j.on_response(r)),
        R::PushHeader => {
            r.headers_mut().get_or_insert_with(Vec::new).push((hn("x-d"), "14"));
            r
        }
        R::DropHeaders => {
            *r.headers_mut() = None;
            r
        }
        R::Cookie => r.set_header(header::SET_COOKIE, "a=1"),
        R::Cookie2 => r.set_header(header::SET_COOKIE, "b=2; Path=/"),
        R::File(ok) => r.file(if ok { &files().0 } else { &files().1 }).await,
    }
}

fn apply_b(r: obsidian::context::ResponseBuilder, op: B) -> obsidian::context::ResponseBuilder {
    match op {
        B::Status(s) => r.with_status(st(s)),
        B::Header => r.with_header(hn("x-a"), "20"),
        B::HeaderStr => r.with_header_str("X-B", "21"),
        B::Headers => r.with_headers(vec![(hn("x-a"), "22"), (hn("x-e"), "23"), (hn("x-e"), "24")]),
        B::HeadersStr => r.with_headers_str(vec![("x-C", "25"), ("X-d", "26")]),
        B::CtHeader => r.with_header(header::CONTENT_TYPE, "application/pdf"),
        B::NoHeaders => r.with_headers(vec![]).with_headers_str(vec![]),
    }
}

// ---------------------------------------------------------------- the record

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
enum MBody {
    Is(Vec<u8>),
    Any,
}

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
struct Rec {
    status: u16,
    body: MBody,
    headers: BTreeMap<&'static str, &'static str>,
    /// None: left to the framework
    ct: Option<&'static str>,
}

impl Rec {
    fn h(&mut self, k: &'static str, v: &'static str) {
        self.headers.insert(k, v);
    }
    fn text(&mut self, k: usize) {
        self.body = MBody::Is(text(k).as_bytes().to_vec());
    }
    fn json(&mut self, k: usize) {
        self.ct = Some("application/json");
        match json_text(k) {
            Some(t) => self.body = MBody::Is(t.into_bytes()),
            None => {
                self.body = MBody::Any;
                self.status = 500;
            }
        }
    }
    fn file(&mut self, ok: bool) {
        if ok {
            self.body = MBody::Is(FILE.to_vec());
        } else {
            self.body = MBody::Any;
            self.status = 404;
        }
    }
}

fn rec_base(b: Base) -> Rec {
    let mut r = Rec { status: 200, body: MBody::Is(vec![]), headers: BTreeMap::new(), ct: None };
    match b {
        Owned(k) | Str(k) | SomeOwned(k) | SomeStr(k) | New(k) | NewOwned(k) => r.text(k),
        Unit | Okay => {}
        StStr(s, k) | StOwned(s, k) => {
            r.status = s;
            r.text(k);
        }
        StUnit(s) | Status(s) => r.status = s,
        StBytes(s) => {
            r.status = s;
            r.body = MBody::Is(b"[1,255]".to_vec());
        }
        Bytes => r.body = MBody::Is(b"[0,7]".to_vec()),
        NoneOwned | NoneStr => {
            r.status = 404;
            r.body = MBody::Any;
        }
        NewBytes => r.body = MBody::Is(b"[9]".to_vec()),
        Created => r.status = 201,
        Ise => r.status = 500,
        StrWithStatus(s) => {
            r.status = s;
            r.text(1);
        }
        OwnedWithHeader => {
            r.text(1);
            r.h("x-a", "base");
        }
        UnitWithHeaders => {
            r.h("x-a", "b1");
            r.h("x-b", "b2");
        }
        StrWithHeadersStr => {
            r.text(2);
            r.h("x-a", "b4");
        }
        BytesWithStatus(s) => {
            r.status = s;
            r.body = MBody::Is(b"[3]".to_vec());
        }
        ResponseTwice => r.text(1),
        CtxJson(k) => r.json(k),
        CtxFile(ok) => r.file(ok),
    }
    r
}

fn rec_r(r: &mut Rec, op: R) {
    match op {
        R::SetStatus(s) | R::WithStatus(s) | R::StatusMut(s) => r.status = s,
        R::Body(k) | R::BodyOwned(k) => r.text(k),
        R::BodyUnit => r.body = MBody::Is(vec![]),
        R::BodyBytes => r.body = MBody::Is(b"[8,0]".to_vec()),
        R::SetHeader => r.h("x-a", "1"),
        R::WithHeader => r.h("x-b", "2"),
        R::SetHeaderStr => r.h("x-a", "3"),
        R::WithHeaderStr => r.h("x-c", "4"),
        R::SetHeaders => {
            r.h("x-a", "5");
            r.h("x-b", "6");
        }
        R::WithHeaders => {
            r.h("x-c", "7");
            r.h("x-a", "");
        }
        R::WithHeadersRepeated => r.h("x-b", "9"),
        R::SetHeadersStr => {
            r.h("x-c", "10");
            r.h("x-a", "11");
        }
        R::WithHeadersStr => r.h("x-b", "13"),
        R::WithNone => {}
        R::Ct => r.ct = Some("application/xml"),
        R::CtHeader => r.ct = Some("image/png"),
        R::CtHeaderStr => r.ct = Some("text/csv"),
        R::Html(k) => {
            r.ct = Some("text/html");
            r.text(k);
        }
        R::Json(k) => r.json(k),
        R::PushHeader => r.h("x-d", "14"),
        R::DropHeaders => {
            r.headers.clear();
            r.ct = None;
        }
        R::Cookie => r.h("set-cookie", "a=1"),
        R::Cookie2 => r.h("set-cookie", "b=2; Path=/"),
        R::File(ok) => r.file(ok),
    }
}

fn rec_b(r: &mut Rec, op: B) {
    match op {
        B::Status(s) => r.status = s,
        B::Header => r.h("x-a", "20"),
        B::HeaderStr => r.h("x-b", "21"),
        B::Headers => {
            r.h("x-a", "22");
            r.h("x-e", "24");
        }
        B::HeadersStr => {
            r.h("x-c", "25");
            r.h("x-d", "26");
        }
        B::CtHeader => r.ct = Some("application/pdf"),
        B::NoHeaders => {}
    }
}

fn compare(r: &Rec, got: &Reply) -> Option<String> {
    let hs = match got {
        Reply::Full { headers, .. } => headers,
        _ => return Some("no reply".into()),
    };
    if got.status() != r.status {
        return Some(format!("expected status {}", r.status));
    }
    if let (MBody::Is(b), false) = (&r.body, r.status == 204 || r.status == 304) {
        if got.body() != &b[..] {
            return Some(format!("expected body {:?} ({} bytes)", String::from_utf8_lossy(&b[..b.len().min(200)]), b.len()));
        }
    }
    for (k, v) in &r.headers {
        let all = got.header_all(k);
        if all.len() != 1 || all[0] != *v {
            return Some(format!("expected {}: {} exactly once", k, v));
        }
    }
    for (k, _) in hs {
        if (k.starts_with("x-") || k == "set-cookie") && !r.headers.contains_key(k.as_str()) {
            return Some(format!("unexpected header {}", k));
        }
    }
    if let Some(ct) = r.ct {
        let all = got.header_all("content-type");
        if all.len() != 1 || !(all[0] == ct || (ct != "image/png" && ct != "application/pdf" && all[0].starts_with(&format!("{};", ct)))) {
            return Some(format!("expected content-type: {} exactly once", ct));
        }
    }
    None
}

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct Prog {
    base: Base,
    rs: Vec<R>,
    bs: Vec<B>,
    /// put into the context's response slot instead of through the builder
    raw: bool,
}

async fn exec(c: Context, p: &Prog) -> ContextResult {
    if p.raw {
        let mut c = c;
        let mut r = base_response(p.base);
        for o in &p.rs {
            r = apply_r(r, *o).await;
        }
        *c.response_mut() = Some(r);
        return Ok(c);
    }
    let mut b = if p.rs.is_empty() {
        base_builder(c, p.base).await
    } else {
        let mut r = base_response(p.base);
        for o in &p.rs {
            r = apply_r(r, *o).await;
        }
        c.build(r)
    };
    for o in &p.bs {
        b = apply_b(b, *o);
    }
    b.ok()
}

fn check_progs(w: &mut W, progs: Vec<Prog>) -> CaseResult {
    let progs = std::sync::Arc::new(progs);
    let reqs: Vec<(Vec<u8>, bool)> = (0..progs.len()).map(|i| (wire::req("GET", &format!("/p/{}", i), &[], None), false)).collect();
    let ps = progs.clone();
    let replies = w.wire.serve(
        move || {
            let ps = ps.clone();
            let mut a: App = App::new();
            a.get("/p/:n", move |c: Context| {
                let ps = ps.clone();
                async move {
                    let n: usize = c.param("n")?;
                    exec(c, &ps[n]).await
                }
            });
            a
        },
        async |port| wire::batch(port, &reqs).await,
    );
    for (p, got) in progs.iter().zip(&replies) {
        let mut r = rec_base(p.base);
        for o in &p.rs {
            rec_r(&mut r, *o);
        }
        for o in &p.bs {
            rec_b(&mut r, *o);
        }
        w.st.evaluations += 1;
        w.st.transitions += 1 + (p.rs.len() + p.bs.len()) as u64;
        w.state(&r);
        w.outcome(&got.key());
        if let Some(e) = compare(&r, got) {
            return Err(format!("program {:?}: {}, got {}", p, e, got.show()));
        }
    }
    w.st.traces += progs.len() as u64;
    w.sample(|| format!("{:?}", progs.last()));
    Ok(())
}

const RS: &[R] = &[
    R::SetStatus(201),
    R::WithStatus(404),
    R::StatusMut(503),
    R::Body(1),
    R::BodyOwned(2),
    R::BodyUnit,
    R::BodyBytes,
    R::SetHeader,
    R::WithHeader,
    R::SetHeaderStr,
    R::WithHeaderStr,
    R::SetHeaders,
    R::WithHeaders,
    R::WithHeadersRepeated,
    R::SetHeadersStr,
    R::WithHeadersStr,
    R::WithNone,
    R::Ct,
    R::CtHeader,
    R::CtHeaderStr,
    R::Html(5),
    R::Json(0),
    R::Json(12),
    R::PushHeader,
    R::DropHeaders,
    R::Cookie,
    R::Cookie2,
    R::File(true),
    R::File(false),
];

const BS: &[B] = &[B::Status(202), B::Status(500), B::Header, B::HeaderStr, B::Headers, B::HeadersStr, B::CtHeader, B::NoHeaders];

fn rbases() -> Vec<Base> {
    vec![
        Owned(1), Str(2), Unit, StStr(201, 1), StOwned(404, 3), StUnit(202), StBytes(203), Bytes, Status(418), SomeOwned(1), NoneOwned, SomeStr(2), NoneStr, New(1), NewOwned(2),
        NewBytes, Okay, Created, Ise, StrWithStatus(409), OwnedWithHeader, UnitWithHeaders, StrWithHeadersStr, BytesWithStatus(201), ResponseTwice,
    ]
}

fn seqs<T: Copy>(a: &[T], max: usize) -> Vec<Vec<T>> {
    let mut all = vec![vec![]];
    let mut last: Vec<Vec<T>> = vec![vec![]];
    for _ in 0..max {
        last = last.iter().flat_map(|p| a.iter().map(move |x| { let mut q = p.clone(); q.push(*x); q })).collect();
        all.extend(last.clone());
    }
    all
}

pub fn c10(t: Tier) -> Check {
    let mut s = vec![];
    // bases x builder calls
    let mut bases = rbases();
    bases.extend((0..NJSON).map(CtxJson));
    bases.extend([CtxFile(true), CtxFile(false)]);
    let nb = t.pick(3, 4);
    s.push(section("builder calls after every base", bases.len() as u64, move |i, w| {
        let bs = seqs(BS, nb);
        let progs = bs.into_iter().map(|b| Prog { base: bases[i as usize], rs: vec![], bs: b, raw: false }).collect();
        check_progs(w, progs)
    }));
    // response calls of length 2 (all), then builder calls
    let rb = rbases();
    let nr = RS.len();
    let nbq = t.pick(1, 2);
    s.push(section("two response calls, then builder calls", (rb.len() * nr) as u64, move |i, w| {
        let (b, r) = (rb[i as usize / nr], RS[i as usize % nr]);
        let bs = seqs(BS, nbq);
        let mut progs = vec![];
        for bq in &bs {
            progs.push(Prog { base: b, rs: vec![r], bs: bq.clone(), raw: false });
            for r2 in RS {
                progs.push(Prog { base: b, rs: vec![r, *r2], bs: bq.clone(), raw: false });
            }
        }
        for r2 in RS {
            progs.push(Prog { base: b, rs: vec![r, *r2], bs: vec![], raw: true });
        }
        check_progs(w, progs)
    }));
    let rb = t.pick(vec![Owned(1), Unit, StStr(201, 1), NoneStr, New(1), Created, UnitWithHeaders], rbases());
    s.push(section("three response calls", (rb.len() * nr) as u64, move |i, w| {
        let (b, r) = (rb[i as usize / nr], RS[i as usize % nr]);
        let mut progs = vec![];
        for a in RS {
            for c in RS {
                progs.push(Prog { base: b, rs: vec![r, *a, *c], bs: vec![], raw: false });
                if t == Tier::Thorough {
                    progs.extend(BS.iter().map(|x| Prog { base: b, rs: vec![r, *a, *c], bs: vec![*x], raw: false }));
                }
            }
        }
        check_progs(w, progs)
    }));
    if t == Tier::Thorough {
        let few = [Owned(1), Unit, Created, UnitWithHeaders];
        s.push(section("four response calls", (few.len() * nr * nr) as u64, move |i, w| {
            let (b, k) = (few[i as usize / (nr * nr)], i as usize % (nr * nr));
            let mut progs = vec![];
            for a in RS {
                for c in RS {
                    progs.push(Prog { base: b, rs: vec![RS[k / nr], RS[k % nr], *a, *c], bs: vec![], raw: false });
                }
            }
            check_progs(w, progs)
        }));
    }
    // every status through every way of setting one
    s.push(section("every status", 800, |i, w| {
        let c = 200 + i as u16;
        let mut progs = vec![];
        for b in [Status(c), StStr(c, 1), StOwned(c, 2), StUnit(c), StBytes(c), StrWithStatus(c), BytesWithStatus(c)] {
            progs.push(Prog { base: b, rs: vec![], bs: vec![], raw: false });
            progs.push(Prog { base: b, rs: vec![R::SetHeader], bs: vec![B::Header], raw: false });
        }
        for b in [Owned(1), Unit, Okay, Created, NoneOwned, CtxJson(1)] {
            progs.push(Prog { base: b, rs: vec![], bs: vec![B::Status(c)], raw: false });
        }
        for r in [R::SetStatus(c), R::WithStatus(c), R::StatusMut(c)] {
            progs.push(Prog { base: New(1), rs: vec![r], bs: vec![], raw: false });
            progs.push(Prog { base: New(1), rs: vec![r, R::Json(0)], bs: vec![], raw: true });
        }
        check_progs(w, progs)
    }));
    // every text and every JSON value through every way of setting a body
    s.push(section("every text", NTEXT as u64, |i, w| {
        let k = i as usize;
        let mut progs = vec![];
        for b in [Owned(k), Str(k), StStr(200, k), StOwned(404, k), SomeOwned(k), SomeStr(k), New(k), NewOwned(k)] {
            for r in seqs(&[R::SetHeader, R::Ct, R::SetStatus(400)], 1) {
                for bs in seqs(BS, 1) {
                    progs.push(Prog { base: b, rs: r.clone(), bs, raw: false });
                }
            }
        }
        for r in [R::Body(k), R::BodyOwned(k), R::Html(k)] {
            for r2 in RS {
                progs.push(Prog { base: Unit, rs: vec![r, *r2], bs: vec![], raw: false });
                progs.push(Prog { base: Str(2), rs: vec![*r2, r], bs: vec![], raw: false });
            }
        }
        check_progs(w, progs)
    }));
    s.push(section("every JSON value", NJSON as u64, |i, w| {
        let k = i as usize;
        let mut progs = vec![];
        for b in rbases() {
            for bs in seqs(BS, 1) {
                progs.push(Prog { base: b, rs: vec![R::Json(k)], bs, raw: false });
            }
            for r2 in RS {
                progs.push(Prog { base: b, rs: vec![R::Json(k), *r2], bs: vec![], raw: false });
                progs.push(Prog { base: b, rs: vec![*r2, R::Json(k)], bs: vec![], raw: false });
            }
        }
        check_progs(w, progs)
    }));
    // body sizes around buffer boundaries
    s.push(section("body sizes", t.pick(60, 200), |i, w| {
        let sizes: Vec<usize> = (0..40).map(|k| (i as usize) * 40 + k).chain(crate::dict::sizes(vec![1023, 1024, 1025, 4095, 4096, 4097, 8191, 8192, 8193, 16384, 65535, 65536, 65537, 262144], 1 << 20)).collect();
        let sz = std::sync::Arc::new(sizes.clone());
        let reqs: Vec<(Vec<u8>, bool)> = (0..sizes.len()).map(|i| (wire::req("GET", &format!("/p/{}", i), &[], None), false)).collect();
        let rs = w.wire.serve(
            move || {
                let sz = sz.clone();
                let mut a: App = App::new();
                a.get("/p/:n", move |c: Context| {
                    let sz = sz.clone();
                    async move {
                        let n: usize = c.param("n")?;
                        let body: String = (0..sz[n]).map(|k| char::from(b'!' + (k % 89) as u8)).collect();
                        c.build(body).ok()
                    }
                });
                a
            },
            async |p| wire::batch(p, &reqs).await,
        );
        for (r, n) in rs.iter().zip(&sizes) {
            w.st.evaluations += 1;
            w.state(n);
            let ok = r.status() == 200 && r.body().len() == *n && r.body().iter().enumerate().all(|(k, b)| *b == b'!' + (k % 89) as u8);
            if !ok {
                return Err(format!("text of {} bytes came back wrong: {}", n, r.show()));
            }
        }
        w.st.traces += rs.len() as u64;
        Ok(())
    }));
    s.extend(more(t));
    Check {
        id: "C10",
        level: "model_checking",
        rule: "programs of response-building calls: status, body and headers received equal a record of the last values set".into(),
        assumptions: vec![
            "header names and values are legal; framing headers (content-length, transfer-encoding, connection) are left to the HTTP layer".into(),
            "1xx statuses are not final replies; 204 and 304 carry no body".into(),
            "a content type nobody asked for is not constrained".into(),
        ],
        sections: s,
    }
}

// ---------------------------------------------------------------- further alphabets

/// Names a handler may set; framing and hop-by-hop names belong to the HTTP layer.
const NAMES: &[&str] = &[
    "accept-ranges", "access-control-allow-credentials", "access-control-allow-headers", "access-control-allow-methods", "access-control-allow-origin", "access-control-expose-headers", "access-control-max-age", "age", "allow", "alt-svc",
    "authorization", "cache-control", "content-disposition", "content-encoding", "content-language", "content-location", "content-range", "content-security-policy", "content-security-policy-report-only", "content-type", "cookie", "date", "etag",
    "expires", "last-modified", "link", "location", "origin", "pragma", "proxy-authenticate", "public-key-pins", "range", "referer", "referrer-policy", "refresh", "retry-after", "sec-websocket-accept", "sec-websocket-protocol", "server",
    "set-cookie", "strict-transport-security", "user-agent", "vary", "via", "warning", "www-authenticate", "x-content-type-options", "x-dns-prefetch-control", "x-frame-options", "x-xss-protection", "x-request-id", "x", "x-a", "a_b", "a.b", "a~b",
    "1", "x--", "content-typ", "content-types", "x-content-type", "etag2", "server-timing", "accept", "host", "if-match", "accept-charset", "dnt", "from", "expect",
];

const VALUES: &[&str] = &[
    "", "v", "V", "a b", "a, b", "a;b=c", "\"q\"", "W/\"x\"", "a\tb", "0", "-1", "none", "null", "text/html; charset=utf-8", "Thu, 01 Jan 1970 00:00:00 GMT", "/path?x=1&y=2#z", "https://example.org/a%20b", "*", "a,b,,c", "=", ":", "::", "a: b", "{}", "~!@#$%^&*()",
];

fn leak(s: String) -> &'static str {
    Box::leak(s.into_boxed_str())
}

type Maker = std::sync::Arc<dyn Fn(Context) -> std::pin::Pin<Box<dyn std::future::Future<Output = ContextResult> + Send>> + Send + Sync>;

fn maker<F: std::future::Future<Output = ContextResult> + Send + 'static>(f: impl Fn(Context) -> F + Send + Sync + 'static) -> Maker {
    std::sync::Arc::new(move |c| Box::pin(f(c)))
}

struct Want {
    name: String,
    make: Maker,
    status: u16,
    body: Vec<u8>,
    headers: Vec<(String, String)>,
}

fn check_wants(w: &mut W, wants: Vec<Want>) -> CaseResult {
    let ms: std::sync::Arc<Vec<Maker>> = std::sync::Arc::new(wants.iter().map(|x| x.make.clone()).collect());
    let reqs: Vec<(Vec<u8>, bool)> = (0..wants.len()).map(|i| (wire::req("GET", &format!("/p/{}", i), &[], None), false)).collect();
    let rs = w.wire.serve(
        move || {
            let ms = ms.clone();
            let mut a: App = App::new();
            a.get("/p/:n", move |c: Context| {
                let ms = ms.clone();
                async move {
                    let n: usize = c.param("n")?;
                    ms[n](c).await
                }
            });
            a
        },
        async |p| wire::batch(p, &reqs).await,
    );
    for (x, r) in wants.iter().zip(&rs) {
        w.st.evaluations += 1;
        w.st.transitions += 1;
        w.state(&(x.status, &x.body, &x.headers));
        w.outcome(&r.key());
        let mut bad = r.status() != x.status || r.body() != &x.body[..];
        for (k, v) in &x.headers {
            let all = r.header_all(k);
            bad |= all.len() != 1 || all[0] != *v;
        }
        if bad {
            return Err(format!("{}: expected {} {:?} {:?} ({} bytes), got {}", x.name, x.status, x.headers.iter().take(8).collect::<Vec<_>>(), String::from_utf8_lossy(&x.body[..x.body.len().min(200)]), x.body.len(), r.show()));
        }
    }
    w.st.traces += wants.len() as u64;
    Ok(())
}

/// the same headers through every way of setting them
fn header_ways(hs: &[(&'static str, &'static str)]) -> Vec<Want> {
    let mut v = vec![];
    let want: BTreeMap<String, String> = hs.iter().map(|(k, v)| (k.to_lowercase(), v.trim().to_string())).collect();
    let named: Vec<(HeaderName, &'static str)> = hs.iter().map(|(k, x)| (HeaderName::from_bytes(k.as_bytes()).unwrap(), *x)).collect();
    let (hs, named) = (std::sync::Arc::new(hs.to_vec()), std::sync::Arc::new(named));
    for way in 0..10 {
        let (h, n) = (hs.clone(), named.clone());
        let make = maker(move |c: Context| {
            let (h, n) = (h.clone(), n.clone());
            async move {
                match way {
                    0 => n.iter().fold(c.build(()), |b, (k, v)| b.with_header(k.clone(), v)).ok(),
                    1 => h.iter().fold(c.build(()), |b, (k, v)| b.with_header_str(k, v)).ok(),
                    2 => c.build(()).with_headers(n.to_vec()).ok(),
                    3 => c.build(()).with_headers_str(h.to_vec()).ok(),
                    4 => c.build(n.iter().fold(Response::ok(), |b, (k, v)| b.set_header(k.clone(), v))).ok(),
                    5 => c.build(h.iter().fold(Response::new(()), |b, (k, v)| b.set_header_str(k, v))).ok(),
                    6 => c.build(Response::ok().set_headers(n.to_vec())).ok(),
                    7 => c.build(Response::ok().set_headers_str(h.to_vec())).ok(),
                    8 => c.build(Responder::with_headers_str((), h.to_vec())).ok(),
                    _ => {
                        let mut c = c.build(()).ok()?;
                        *c.response_mut().as_mut().unwrap().headers_mut() = Some(n.to_vec());
                        Ok(c)
                    }
                }
            }
        });
        v.push(Want { name: format!("headers {:?} set by way {}", hs.iter().take(12).collect::<Vec<_>>(), way), make, status: 200, body: vec![], headers: want.iter().map(|(k, v)| (k.clone(), v.clone())).collect() });
    }
    v
}

fn text_ways(s: &str) -> Vec<Want> {
    let st = leak(s.to_string());
    (0..12)
        .map(|way| {
            let make = maker(move |c: Context| async move {
                match way {
                    0 => c.build(st).ok(),
                    1 => c.build(st.to_string()).ok(),
                    2 => c.build(Some(st)).ok(),
                    3 => c.build(Some(st.to_string())).ok(),
                    4 => c.build((StatusCode::OK, st)).ok(),
                    5 => c.build((StatusCode::OK, st.to_string())).ok(),
                    6 => c.build(Response::new(st)).ok(),
                    7 => c.build(Response::new(st.to_string())).ok(),
                    8 => c.build(Response::ok().set_body(st)).ok(),
                    9 => c.build(Response::ok().set_body("old").set_body(st.to_string())).ok(),
                    10 => c.build(Response::ok().html(st)).ok(),
                    _ => c.build(Responder::with_status(st, StatusCode::OK)).ok(),
                }
            });
            Want { name: format!("text {:?} ({} bytes) by way {}", st.chars().take(60).collect::<String>(), st.len(), way), make, status: 200, body: st.as_bytes().to_vec(), headers: vec![] }
        })
        .collect()
}

#[derive(Serialize)]
struct UnitS;
#[derive(Serialize)]
struct TupS(i32, String);
#[derive(Serialize)]
struct NewS(Vec<u8>);
#[derive(Serialize)]
enum En {
    U,
    N(i32),
    T(i32, bool),
    S { a: Option<i32> },
}
#[derive(Serialize)]
#[serde(rename_all = "camelCase")]
struct Opts {
    #[serde(skip_serializing_if = "Option::is_none")]
    gone: Option<i32>,
    kept_null: Option<i32>,
    #[serde(flatten)]
    more: BTreeMap<String, i32>,
}
#[derive(Serialize)]
struct Deep {
    next: Option<Box<Deep>>,
}

fn json_wants(k: usize) -> Vec<Want> {
    fn two<T: Serialize + Clone + Send + Sync + 'static>(v: T, text: &str) -> Vec<Want> {
        three(move || v.clone(), text)
    }
    fn three<T: Serialize + Send + Sync + 'static>(v: impl Fn() -> T + Send + Sync + 'static, text: &str) -> Vec<Want> {
        let v = std::sync::Arc::new(v);
        (0..5)
            .map(|way| {
                let v = v.clone();
                let make = maker(move |c: Context| {
                    let v = v();
                    async move {
                        match way {
                            0 => c.build_json(v).ok(),
                            1 => c.build(Response::ok().json(v)).ok(),
                            2 => c.build_json(&v).ok(),
                            3 => c.build(Response::ok().set_body("old").set_content_type("text/html").json(v)).ok(),
                            _ => c.build(Response::created().json(v)).with_status(StatusCode::OK).ok(),
                        }
                    }
                });
                Want { name: format!("JSON {} by way {}", text.chars().take(80).collect::<String>(), way), make, status: 200, body: text.as_bytes().to_vec(), headers: vec![("content-type".into(), "application/json".into())] }
            })
            .collect()
    }
    match k {
        0 => three(|| UnitS, "null"),
        1 => three(|| TupS(1, "a".into()), "[1,\"a\"]"),
        2 => three(|| NewS(vec![1, 2]), "[1,2]"),
        3 => three(|| vec![En::U, En::N(1), En::T(2, true), En::S { a: None }, En::S { a: Some(3) }], "[\"U\",{\"N\":1},{\"T\":[2,true]},{\"S\":{\"a\":null}},{\"S\":{\"a\":3}}]"),
        4 => three(|| Opts { gone: None, kept_null: None, more: BTreeMap::from([("x".to_string(), 1), ("y".to_string(), 2)]) }, "{\"keptNull\":null,\"x\":1,\"y\":2}"),
        5 => two(f64::NAN, "null"),
        6 => two(f64::INFINITY, "null"),
        7 => two(vec![0.1f64, -0.0, 1e300, 5e-324, 3.0], "[0.1,-0.0,1e+300,5e-324,3.0]"),
        8 => two(vec![0.1f32, 16777216.0], "[0.1,16777216.0]"),
        9 => two(i128::MIN, "-170141183460469231731687303715884105728"),
        10 => two(u128::MAX, "340282366920938463463374607431768211455"),
        11 => two((), "null"),
        12 => two(((), (1, "a"), [true, false]), "[null,[1,\"a\"],[true,false]]"),
        13 => two("<script>&'\"\\/ \u{2028}\u{2029}\u{feff}\u{7f}".to_string(), "\"<script>&'\\\"\\\\/ \u{2028}\u{2029}\u{feff}\u{7f}\""),
        14 => two((0..32u8).map(|b| b as char).collect::<String>(), "\"\\u0000\\u0001\\u0002\\u0003\\u0004\\u0005\\u0006\\u0007\\b\\t\\n\\u000b\\f\\r\\u000e\\u000f\\u0010\\u0011\\u0012\\u0013\\u0014\\u0015\\u0016\\u0017\\u0018\\u0019\\u001a\\u001b\\u001c\\u001d\\u001e\\u001f\""),
        15 => two('é', "\"é\""),
        16 => two(BTreeMap::from([(true, 1), (false, 2)]), "{\"false\":2,\"true\":1}"),
        17 => two(BTreeMap::from([("", 1), ("a\"b", 2), ("é", 3)]), "{\"\":1,\"a\\\"b\":2,\"é\":3}"),
        18 => two(vec![vec![vec![0u8; 3]; 2]; 2], "[[[0,0,0],[0,0,0]],[[0,0,0],[0,0,0]]]"),
        19 => two(Some(Some(None::<i32>)), "null"),
        20 => two(Ok::<i32, String>(1), "{\"Ok\":1}"),
        21 => two(std::time::Duration::from_millis(1500), "{\"secs\":1,\"nanos\":500000000}"),
        22 => two("", "\"\""),
        23 => two(serde_json::Value::Null, "null"),
        24 => two(serde_json::json!({"a": {"b": {"c": [1, [2, [3]]]}}}), "{\"a\":{\"b\":{\"c\":[1,[2,[3]]]}}}"),
        25 => two(false, "false"),
        26 => two(String::from("text"), "\"text\""),
        27 => two("{\"already\": \"json\"}", "\"{\\\"already\\\": \\\"json\\\"}\""),
        28 => {
            let deep = || (0..120).fold(Deep { next: None }, |d, _| Deep { next: Some(Box::new(d)) });
            let text = format!("{}{{\"next\":null}}{}", "{\"next\":".repeat(120), "}".repeat(120));
            three(deep, &text)
        }
        29 => two((0..20_000u32).collect::<Vec<_>>(), &format!("[{}]", (0..20_000).map(|i| i.to_string()).collect::<Vec<_>>().join(","))),
        30 => two("z".repeat(2_000_000), &format!("\"{}\"", "z".repeat(2_000_000))),
        31 => two((0..300).map(|i| (format!("key{:03}", i), i)).collect::<BTreeMap<_, _>>(), &format!("{{{}}}", (0..300).map(|i| format!("\"key{:03}\":{}", i, i)).collect::<Vec<_>>().join(","))),
        32 => two([i8::MIN as i64, i16::MIN as i64, i32::MIN as i64, i64::MAX, 9007199254740993], "[-128,-32768,-2147483648,9223372036854775807,9007199254740993]"),
        _ => two(std::net::Ipv4Addr::new(1, 2, 3, 4), "\"1.2.3.4\""),
    }
}
const NJSON2: usize = 34;

fn more(t: Tier) -> Vec<Section> {
    let mut v = vec![];
    let n = NAMES.len() as u64;
    v.push(section("every header name with every value", n, |i, w| {
        let name = NAMES[i as usize];
        let mut ws = vec![];
        let up = leak(name.to_uppercase());
        for x in VALUES {
            ws.extend(header_ways(&[(name, x)]));
        }
        ws.extend(header_ways(&[(up, "1")]));
        ws.extend(header_ways(&[(up, "1"), (name, "2")]));
        ws.extend(header_ways(&[(name, "1"), (up, "2"), ("x-other", "3"), (name, "4")]));
        check_wants(w, ws)
    }));
    v.push(section("every two header names", n * n, move |i, w| {
        let (a, b) = (NAMES[(i % n) as usize], NAMES[(i / n) as usize]);
        check_wants(w, header_ways(&[(a, "first"), (b, "second")]))
    }));
    v.push(section("many headers", t.pick(90, 250), |i, w| {
        let k = i as usize + 1;
        let names: Vec<(&'static str, &'static str)> = (0..k).map(|j| (leak(format!("x-h{}", j)), leak(format!("v{}", j)))).collect();
        let twice: Vec<(&'static str, &'static str)> = names.iter().cloned().chain(names.iter().step_by(2).map(|(n, _)| (*n, "again"))).collect();
        let mut ws = header_ways(&names);
        ws.extend(header_ways(&twice));
        check_wants(w, ws)
    }));
    let lens = crate::dict::sizes(vec![1, 63, 64, 65, 127, 128, 129, 255, 256, 257, 1000, 1023, 1024, 1025, 4096, 8000], 8000);
    v.push(section("long header values", lens.len() as u64, move |i, w| {
        let s = leak("v".repeat(lens[i as usize]));
        check_wants(w, header_ways(&[("x-long", s), ("etag", s)]))
    }));
    v.push(section("texts of single characters", 0x300 / 16, |i, w| {
        let mut ws = vec![];
        for c in (i as u32 * 16..i as u32 * 16 + 16).filter_map(char::from_u32) {
            ws.extend(text_ways(&c.to_string()));
            ws.extend(text_ways(&format!("a{}", c)));
            ws.extend(text_ways(&format!("{}a", c)));
        }
        check_wants(w, ws)
    }));
    let odd: Vec<String> = odd_texts();
    v.push(section("odd texts", odd.len() as u64, move |i, w| check_wants(w, text_ways(&odd[i as usize]))));
    let sizes: Vec<usize> = crate::dict::sizes(t.pick(vec![1 << 20, (1 << 20) + 1, 2_000_000, 4 << 20, (4 << 20) + 1, 8_388_609, 10_000_001, 16_777_217], vec![1 << 20, (1 << 20) + 1, 2_000_000, 4 << 20, (4 << 20) + 1, 8_388_609, 10_000_001, 16_777_217, 33_554_433, 67_108_865]), 32 << 20);
    v.push(section("very large texts", sizes.len() as u64 * 12, move |i, w| {
        let mut ws = text_ways(&"0123456789abcdef-".repeat(sizes[i as usize / 12] / 17 + 1)[..sizes[i as usize / 12]]);
        let one = ws.swap_remove(i as usize % 12);
        check_wants(w, vec![one])
    }));
    v.push(section("further JSON values", NJSON2 as u64, |i, w| check_wants(w, json_wants(i as usize))));
    // the request around a program of builder calls must not matter
    let vs = super::surround::variants();
    let methods = ["GET", "POST", "PUT", "PATCH", "DELETE"];
    v.push(section("what surrounds a request", vs.len() as u64, move |i, w| {
        let (vn, mk) = &vs[i as usize];
        let mut progs: Vec<Prog> = vec![];
        for b in rbases().into_iter().chain([CtxJson(0), CtxJson(11), CtxFile(true), CtxFile(false), Str(7)]) {
            progs.push(Prog { base: b, rs: vec![], bs: vec![], raw: false });
            progs.push(Prog { base: b, rs: vec![], bs: vec![B::Status(202), B::Headers, B::CtHeader], raw: false });
        }
        for r in RS {
            progs.push(Prog { base: Unit, rs: vec![*r], bs: vec![B::HeadersStr], raw: false });
        }
        let progs = std::sync::Arc::new(progs);
        let ps = progs.clone();
        let mut reqs = vec![];
        for m in methods {
            for k in 0..progs.len() {
                reqs.push((mk(m, &format!("/p/{}", k), "1"), false));
            }
        }
        let own = vn.contains("body") || vn.contains("1.0");
        let rs = w.wire.serve(
            move || {
                let h = |ps: std::sync::Arc<Vec<Prog>>| move |c: Context| {
                    let ps = ps.clone();
                    async move {
                        let n: usize = c.param("n")?;
                        exec(c, &ps[n]).await
                    }
                };
                let mut a: App = App::new();
                a.get("/p/:n", h(ps.clone()));
                a.post("/p/:n", h(ps.clone()));
                a.put("/p/:n", h(ps.clone()));
                a.patch("/p/:n", h(ps.clone()));
                a.delete("/p/:n", h(ps.clone()));
                a
            },
            async |port| {
                if own {
                    let mut out = vec![];
                    for r in &reqs {
                        out.push(wire::once(port, &r.0, false).await);
                    }
                    out
                } else {
                    wire::batch(port, &reqs).await
                }
            },
        );
        w.st.traces += 1;
        for (j, got) in rs.iter().enumerate() {
            let p = &progs[j % progs.len()];
            let mut r = rec_base(p.base);
            p.rs.iter().for_each(|o| rec_r(&mut r, *o));
            p.bs.iter().for_each(|o| rec_b(&mut r, *o));
            w.st.evaluations += 1;
            w.st.transitions += 1;
            w.state(&(i, j));
            if let Some(e) = compare(&r, got) {
                return Err(format!("{} {}: program {:?}: {}, got {}", methods[j / progs.len()], vn, p, e, got.show()));
            }
        }
        Ok(())
    }));
    v
}

const ODD: &[&str] = &[
        "\u{feff}bom", "\u{feff}", "a\u{feff}", "\u{ffff}", "\u{10ffff}", "\u{e000}", "\u{2028}", "\u{200d}", "e\u{301}", "\u{e9}", "null", "None", "true", "0", "\"\"", "[]", "{}", "<!doctype html><p>x", "<?xml version=\"1.0\"?>", "\n", "\r\n", "a\n", "a\r\n", "\r", "a\r", "\t", " ", "  ", "\0", "\0\0",
        "HTTP/1.1 200 OK\r\n\r\n", "0\r\n\r\n", "5\r\nhello\r\n0\r\n\r\n", "%20", "&amp;", "\\n", "\\u0000", "'", "\"", "\\", "$1", "{}{:?}", "%s%d%n", "\u{1b}[31mred", "NaN", "undefined", "text/html", "404 Not Found", "Not Found", "data:text/plain,x", "a\u{0}b", "\u{7f}", "\u{80}", "\u{ff}",
    ];

/// Texts something might treat specially, also as an error's message.
pub fn odd_texts() -> Vec<String> {
    let mut v: Vec<String> = ODD.iter().map(|x| x.to_string()).collect();
    for st in 100..=599u16 {
        if st % 100 <= 31 || st == 451 || st == 499 {
            v.push(st.to_string());
            v.push(format!("{} x", st));
            v.push(format!("{}: y", st));
        }
    }
    for w in ["OK", "ok", "error", "Error", "Error: x", "error: x", "Internal Server Error", "internal error", "Bad Request", "Unauthorized", "Forbidden", "not found", "File not found", "Method Not Allowed", "Conflict", "Gone", "Unprocessable Entity", "Too Many Requests", "timeout", "Timeout", "timed out", "connection reset", "broken pipe", "EOF", "parse error", "invalid digit found in string", "missing field `id`", "missing field id", "panic", "secret", "password", "password=x", "token=abc", "Bearer abc", "/etc/passwd", "src/main.rs:1:2", "at line 1 column 2", "x at line 1 column 2", "stack backtrace:\n  0: a", "a: b", "a: b: c", "a\nb", "a\n\nb", "\na", "{\"error\":\"x\"}", "{\"status\":404}", "<b>x</b>", "<script>alert(1)</script>", "x;y", "x, y", "a\tb", " a", "a ", "Redirect", "302 /x", "Location: /x", "http://x/y", "/x", "Input should not be None", "None", "empty", "unknown", "redirect:/x", "status:404", "warning: x", "debug", "retry", "ignore", "skip", "abort", "cancelled", "closed"] {
        v.push(w.to_string());
    }
    v.extend(crate::dict::words());
    v.extend(crate::dict::new_words().into_iter().flat_map(|w| [format!("{} a", w), format!("a {}", w), format!("a{}b", w), format!("{}{}", w, w), w.to_uppercase()]));
    let mut seen = std::collections::BTreeSet::new();
    v.retain(|x| seen.insert(x.clone()));
    v
}
