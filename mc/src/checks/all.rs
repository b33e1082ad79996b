//! One application with something of everything, and requests to it by property: what is repeated under other clocks and under
//! contention.
use crate::script::{make_err, NERR};
use crate::sut::METHODS;
use async_trait::async_trait;
use hyper::body::HttpBody;
use obsidian::context::Context;
use obsidian::middleware::Middleware;
use obsidian::router::{Response, Router};
use obsidian::{header, App, ContextResult, EndpointExecutor, ObsidianError, StatusCode};
use std::collections::BTreeMap;

#[derive(Clone, Debug, PartialEq)]
pub struct Conf(pub String);
#[derive(Clone, Debug, PartialEq, Default)]
pub struct Trail(pub Vec<String>);

/// adds its name to the trail on the way in, and to the response's header on the way out
pub struct Mark(pub &'static str);
#[async_trait]
impl Middleware for Mark {
    async fn handle<'a>(&'a self, mut context: Context, ep: EndpointExecutor<'a>) -> ContextResult {
        let mut t = context.get::<Trail>().cloned().unwrap_or_default();
        t.0.push(self.0.into());
        context.add(t);
        let mut c = ep.next(context).await?;
        if let Some(r) = c.response_mut().as_mut() {
            let h = r.headers_mut();
            h.get_or_insert_with(Vec::new).push((header::HeaderName::from_static("x-out"), self.0));
        }
        Ok(c)
    }
}

pub fn say(c: Context, what: &str) -> ContextResult {
    let ps: Vec<String> = ["a", "b", "c", "*"].iter().map(|k| format!("{:?}", c.param::<String>(k).ok())).collect();
    let t = format!("{} {} {} {} {:?} {:?}", what, c.method(), c.uri(), ps.join(" "), c.get::<Conf>(), c.get::<Trail>());
    c.build(t).ok()
}

macro_rules! says {
    ($r:expr, $m:ident, $p:expr, $what:expr) => {
        $r.$m($p, |c: Context| async move { say(c, $what) })
    };
}

type Multi = BTreeMap<String, Vec<String>>;

#[derive(serde::Deserialize, Debug)]
#[allow(dead_code)]
struct Typed {
    n: i64,
    s: String,
    o: Option<bool>,
    l: Vec<u32>,
}

pub fn typed<T: std::fmt::Debug>(r: Result<T, ObsidianError>) -> String {
    match r {
        Ok(v) => format!("{:?}", v),
        Err(_) => "refused".into(),
    }
}

pub fn app(logger: bool) -> App<Conf> {
    let mut a: App<Conf> = if logger { App::default() } else { App::new() };
    a.set_app_state(Conf("conf".into()));
    a.use_service(Mark("root"));
    says!(a, get, "/r/lit", "lit");
    says!(a, post, "/r/lit", "lit-post");
    says!(a, delete, "/r/lit", "lit-delete");
    says!(a, get, "/v/:a", "one");
    says!(a, put, "/v/:a", "one-put");
    says!(a, get, "/v/:a/x", "one-x");
    says!(a, get, "/r/lit/:b", "lit-one");
    says!(a, get, "/v/:a/x/:c", "three");
    says!(a, get, "/w/*", "wild");
    says!(a, get, "/w/x/y", "wild-lit");
    says!(a, get, "/w/x/*", "wild-x");
    says!(a, post, "/w/x/*", "wild-x-post");
    says!(a, get, "/", "root");
    a.use_service_to("/w/x", Mark("wx"));
    a.use_service_to("/v/:a", Mark("ra"));
    a.use_service_to("/r/lit", Mark("rlit"));
    let mut m = Router::new();
    m.use_service(Mark("m"));
    says!(m, get, "/", "m-root");
    says!(m, get, "/in/:b", "m-in");
    says!(m, patch, "/in/:b", "m-in-patch");
    says!(m, get, "/t/*", "m-wild");
    a.use_router("/mnt/:a", m);
    a.scope("/sc", |s| {
        s.use_service(Mark("sc"));
        says!(s, get, "/in", "sc-in");
        let mut d = Router::new();
        says!(d, get, "/:a", "sc-deep");
        s.use_router("/deep", d);
    });
    a.get("/p/int/:a", |c: Context| async move {
        let t = typed(c.param::<i32>("a"));
        c.build(t).ok()
    });
    a.get("/p/char/:a", |c: Context| async move {
        let t = typed(c.param::<bool>("a"));
        c.build(t).ok()
    });
    a.get("/q/map", |mut c: Context| async move {
        let t = typed(c.query_params::<Multi>());
        c.build(t).ok()
    });
    a.get("/q/typed", |mut c: Context| async move {
        let t = typed(c.query_params::<Typed>());
        c.build(t).ok()
    });
    a.post("/b/form", |mut c: Context| async move {
        let t = typed(c.form::<Multi>().await);
        c.build(t).ok()
    });
    a.post("/b/typed", |mut c: Context| async move {
        let t = typed(c.form::<Typed>().await);
        c.build(t).ok()
    });
    a.post("/b/json", |mut c: Context| async move {
        let t = typed(c.json::<serde_json::Value>().await);
        c.build(t).ok()
    });
    a.post("/b/raw", |mut c: Context| async move {
        let mut b = c.take_body();
        let mut v = vec![];
        while let Some(x) = b.data().await {
            match x {
                Ok(x) => v.extend_from_slice(&x),
                Err(_) => return c.build("refused").ok(),
            }
        }
        let t = format!("{:?}", v);
        c.build(t).ok()
    });
    a.get("/o/headers", |c: Context| async move {
        c.build("h").with_status(StatusCode::CREATED).with_header(header::SERVER, "srv").with_header_str("x-one", "1").with_headers_str(vec![("x-two", "2"), ("x-three", "3")]).ok()
    });
    a.get("/o/json", |c: Context| async move { c.build_json(serde_json::json!({"a": [1, 2, {"b": null}]})).ok() });
    a.get("/o/html", |c: Context| async move { c.build(Response::ok().html("<b>x</b>").set_content_type("text/html; charset=utf-8")).ok() });
    a.get("/o/none", |c: Context| async move { c.build(None::<String>).ok() });
    a.get("/o/some", |c: Context| async move { c.build(Some("some")).ok() });
    a.get("/o/status", |c: Context| async move { c.build((StatusCode::IM_A_TEAPOT, "tea")).ok() });
    a.get("/o/plain-status", |c: Context| async move { c.build(StatusCode::NO_CONTENT).ok() });
    a.get("/o/redirect", |c: Context| async move { c.build(Response::ok().set_status(StatusCode::FOUND).set_header(header::LOCATION, "/r/lit")).ok() });
    a.get("/o/nothing", |c: Context| async move { Ok(c) });
    a.get("/e/:k", |c: Context| async move {
        let k = c.param::<usize>("k")?;
        Err(make_err(k))
    });
    a.get("/panics", |c: Context| async move {
        if true {
            panic!("as asked")
        }
        Ok(c)
    });
    a.use_static_to("/files", "stat");
    a.use_static("stat");
    a.get("/file", |c: Context| async move { c.build_file("stat/one.txt").await.ok() });
    a.get("/file-missing", |c: Context| async move { c.build(Response::ok().file("stat/none").await).ok() });
    a
}

/// the files below the working directory that the application serves; `v` varies their content
pub fn files(v: u32) {
    for (n, len) in [("one.txt", 20usize), ("two.html", 4096), ("sub/three.bin", 70_000), ("empty.css", 0)] {
        let p = format!("stat/{}", n);
        let _ = std::fs::create_dir_all(std::path::Path::new(&p).parent().unwrap());
        let c: Vec<u8> = (0..len).map(|i| b'a' + ((i as u32 * 7 + v * 3 + (i as u32 >> 6)) % 26) as u8).collect();
        std::fs::write(p, c).expect("scratch file");
    }
}

pub struct Ask {
    pub method: &'static str,
    pub path: String,
    pub body: Option<Vec<u8>>,
}

impl Ask {
    pub fn bytes(&self) -> Vec<u8> {
        crate::wire::req(self.method, &self.path, &[], self.body.as_deref())
    }
    pub fn show(&self) -> String {
        format!("{} {} {:?}", self.method, self.path, self.body.as_ref().map(|b| String::from_utf8_lossy(b).into_owned()))
    }
    pub fn head(&self) -> bool {
        self.method == "HEAD"
    }
}

fn gets(v: &mut Vec<Ask>, l: &[&str]) {
    v.extend(l.iter().map(|p| Ask { method: "GET", path: p.to_string(), body: None }));
}

/// what concerns the property, and a little of everything for the ones about everything
pub fn asks(id: &str) -> Vec<Ask> {
    let mut v = vec![];
    let has = |ids: &[&str]| ids.contains(&id) || ["C19", "C20", "C21", "C23", "*"].contains(&id);
    if has(&["C01"]) {
        gets(&mut v, &["/", "/r/lit", "/r/lit/", "//r//lit", "/v/other", "/r/lit/x", "/v/other/x", "/r/lit/z", "/v/x/x/z", "/r/lit/x/z", "/w/x/y", "/w/x/z", "/w/z"]);
    }
    if has(&["C02"]) {
        gets(&mut v, &["/v/v1", "/v/v2/x", "/r/lit/v3", "/v/v4/x/v6", "/mnt/v7/in/v8", "/v/%41", "/sc/deep/v9"]);
    }
    if has(&["C03"]) {
        gets(&mut v, &["/w/q", "/w/q/r/s/t", "/w/x/y/z", "/w/x/q", "/w", "/mnt/u/t/1/2/3", "/w/a%20b"]);
    }
    if has(&["C04"]) {
        gets(&mut v, &["/nowhere", "/r", "/r/a/b", "/v", "/v/a/b", "/sc", "/sc/in/x", "/mnt", "/mnt/a/b", "/r/a/b/c/d", "/o"]);
    }
    if has(&["C06"]) {
        gets(&mut v, &["/mnt/v", "/mnt/v/in/w", "/mnt/v/t/w", "/mnt/v/nowhere", "/sc/in", "/sc/deep/x", "/sc/deep"]);
        v.push(Ask { method: "PATCH", path: "/mnt/v/in/w".into(), body: None });
    }
    if has(&["C07", "C08"]) {
        gets(&mut v, &["/r/lit", "/v/v", "/v/v/x", "/w/x/y", "/w/x/z", "/w/z", "/mnt/v/in/w", "/sc/in", "/sc/deep/x", "/o/some"]);
    }
    if has(&["C09"]) {
        for p in ["/r/lit", "/v/v", "/w/x/z", "/mnt/v/in/w"] {
            v.extend(METHODS.iter().map(|m| Ask { method: m, path: p.into(), body: None }));
        }
    }
    if has(&["C10"]) {
        gets(&mut v, &["/o/headers", "/o/json", "/o/html", "/o/none", "/o/some", "/o/status", "/o/plain-status", "/o/redirect"]);
    }
    if has(&["C11"]) {
        gets(&mut v, &["/o/nothing", "/e/x", "/o/some", "/e/-1"]);
        v.extend((0..NERR).map(|k| Ask { method: "GET", path: format!("/e/{}", k), body: None }));
    }
    if has(&["C13"]) {
        gets(&mut v, &["/p/int/5", "/p/int/-7", "/p/int/x", "/p/int/99999999999", "/p/char/true", "/p/char/x"]);
    }
    if has(&["C14"]) {
        gets(&mut v, &["/q/map?a=1&b=2&a=3", "/q/map?a=%20x+y", "/q/map?", "/q/map", "/q/typed?n=-4&s=x&l=1&l=2", "/q/typed?n=-4&s=x&o=true&l=1", "/q/typed?n=x", "/q/map?a=%ff"]);
    }
    if has(&["C12", "C15"]) {
        for (p, b) in [
            ("/b/form", &b"a=1&b=2&a=3"[..]),
            ("/b/form", b"a=%20x+y"),
            ("/b/form", b""),
            ("/b/typed", b"n=1&s=x&l=3&l=4"),
            ("/b/typed", b"n=x&s=x&l=3"),
            ("/b/json", b"{\"a\":[1,2,3.5],\"b\":null}"),
            ("/b/json", b"[1,"),
            ("/b/json", b""),
            ("/b/raw", b"\x00\x01\xff"),
            ("/b/raw", b""),
        ] {
            v.push(Ask { method: "POST", path: p.into(), body: Some(b.to_vec()) });
        }
        v.push(Ask { method: "POST", path: "/b/raw".into(), body: Some((0..100_000u32).map(|i| (i % 251) as u8).collect()) });
    }
    if has(&["C16", "C17"]) {
        gets(
            &mut v,
            &["/files/one.txt", "/files/two.html", "/files/sub/three.bin", "/files/empty.css", "/stat/one.txt", "/stat/sub/three.bin", "/files/none", "/files/sub", "/files/../Cargo.toml", "/files/%2e%2e/x", "/file", "/file-missing"],
        );
    }
    if has(&["C18"]) {
        gets(&mut v, &["/r/lit", "/w/x/y", "/mnt/v/in/w", "/"]);
    }
    v
}

/// the replies of a server used for nothing else
pub async fn fresh_replies(port: u16, asks: &[Ask]) -> Vec<crate::wire::Reply> {
    let mut v = vec![];
    for a in asks {
        v.push(crate::wire::once(port, &a.bytes(), a.head()).await);
    }
    v
}
