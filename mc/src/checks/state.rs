//! C18, second part: the state on every kind of route, in every surrounding, over long histories and many connections, for many types.
use super::surround;
use crate::common::*;
use crate::sut::*;
use crate::wire::{self, Reply};
use async_trait::async_trait;
use obsidian::context::Context;
use obsidian::middleware::Middleware;
use obsidian::router::Router;
use obsidian::{App, ContextResult, EndpointExecutor};
use std::fmt::Debug;
use std::sync::Arc;

#[derive(Clone, Debug, PartialEq)]
struct Cfg {
    name: String,
    list: Vec<u64>,
    nested: Option<Box<Cfg>>,
}

fn cfg() -> Cfg {
    Cfg { name: "conf".into(), list: vec![1, 2, 3], nested: Some(Box::new(Cfg { name: "in".into(), list: vec![], nested: None })) }
}

/// everything a request may do to its copy; each leaves its mark, which must not be seen elsewhere
fn spoil(c: &mut Context, how: usize) {
    match how % 5 {
        0 => {
            if let Some(s) = c.get_mut::<Cfg>() {
                s.name.push('!');
                s.list.push(9);
                s.nested = None;
            }
        }
        1 => c.add(Cfg { name: "other".into(), list: vec![], nested: None }),
        2 => drop(c.extensions_mut().remove::<Cfg>()),
        3 => c.extensions_mut().clear(),
        _ => {
            if let Some(s) = c.get_mut::<Cfg>() {
                s.list.clear();
            }
        }
    }
}

struct Peek(&'static str);
#[async_trait]
impl Middleware for Peek {
    async fn handle<'a>(&'a self, context: Context, ep: EndpointExecutor<'a>) -> ContextResult {
        trace_push(rid_of(&context), Ev::Note(format!("{} {}", self.0, context.get::<Cfg>() == Some(&cfg()))));
        ep.next(context).await
    }
}

/// spoils its copy before going on: seen further in in the same request only
struct Spoiler;
#[async_trait]
impl Middleware for Spoiler {
    async fn handle<'a>(&'a self, mut context: Context, ep: EndpointExecutor<'a>) -> ContextResult {
        trace_push(rid_of(&context), Ev::Note(format!("spoiler {}", context.get::<Cfg>() == Some(&cfg()))));
        context.add(Cfg { name: "spoilt".into(), list: vec![], nested: None });
        ep.next(context).await
    }
}

const PATHS: &[(&str, &[&str])] = &[
    ("/", &["root"]),
    ("/a", &["root", "a"]),
    ("/a/b/c", &["root", "a"]),
    ("/p/one", &["root", "px"]),
    ("/p/one/q/two", &["root", "px"]),
    ("/w/x/y/z", &["root", "w"]),
    ("/m", &["root", "m"]),
    ("/m/x/1", &["root", "m"]),
    ("/m/n/deep", &["root", "m", "n"]),
    ("/s/y", &["root"]),
    ("/static/f", &["root"]),
    ("/none/at/all", &[]),
];

fn app() -> App<Cfg> {
    let h = |mut c: Context| async move {
        let rid = rid_of(&c);
        trace_push(rid, Ev::Note(format!("handler {}", c.get::<Cfg>() == Some(&cfg()))));
        spoil(&mut c, rid as usize);
        if rid % 7 == 3 {
            let _: i32 = c.param("absent")?;
        }
        if rid % 11 == 5 {
            return Ok(c);
        }
        c.build("ok").ok()
    };
    macro_rules! all {
        ($r:expr, $p:expr) => {
            $r.get($p, h);
            $r.post($p, h);
            $r.put($p, h);
            $r.patch($p, h);
            $r.delete($p, h);
        };
    }
    let mut a: App<Cfg> = App::new();
    a.set_app_state(Cfg { name: "early".into(), list: vec![], nested: None });
    a.use_service(Peek("root"));
    all!(a, "/");
    all!(a, "/a");
    all!(a, "/a/b/c");
    a.use_service_to("/a", Peek("a"));
    all!(a, "/p/:x");
    all!(a, "/p/:x/q/:y");
    a.use_service_to("/p/:x", Peek("px"));
    all!(a, "/w/*");
    a.use_service_to("/w", Peek("w"));
    let mut n = Router::new();
    all!(n, "/deep");
    n.use_service(Peek("n"));
    let mut m = Router::new();
    all!(m, "/");
    all!(m, "/x/:id");
    m.use_service(Peek("m"));
    m.use_router("/n", n);
    a.use_router("/m", m);
    a.scope("s", |r: &mut Router| {
        all!(r, "/y");
    });
    a.set_app_state(cfg());
    a.use_service_to("/spoilt", Spoiler);
    all!(a, "/spoilt/x");
    all!(a, "/static/f");
    a
}

fn check(w: &mut W, how: &str, reqs: &[(u8, usize)], replies: &[Reply], rid0: usize, tr: &[(u32, Ev)]) -> CaseResult {
    use std::collections::HashMap;
    let mut by: HashMap<u32, Vec<&str>> = HashMap::new();
    for (rid, e) in tr {
        if let Ev::Note(n) = e {
            by.entry(*rid).or_default().push(n);
        }
    }
    for (j, (m, p)) in reqs.iter().enumerate() {
        let rid = rid0 + j;
        let (path, mws) = PATHS[*p];
        let mut want: Vec<String> = mws.iter().map(|x| format!("{} true", x)).collect();
        if path != "/none/at/all" {
            want.push("handler true".into());
        }
        let status = if path == "/none/at/all" { 404 } else if rid % 7 == 3 { 500 } else { 200 };
        let got: Vec<String> = by.get(&(rid as u32)).map(|v| v.iter().map(|s| s.to_string()).collect()).unwrap_or_default();
        w.st.evaluations += 1;
        w.outcome(&(&got, status));
        if got != want || replies[j].status() != status {
            return Err(format!("{}: request {} {} {}: who finds the configured state: expected {} {:?}, got {} {:?}", how, rid, METHODS[*m as usize], path, status, want, replies[j].status(), got));
        }
    }
    Ok(())
}

pub fn sections(t: Tier) -> Vec<Section> {
    let mut out = vec![];
    let vs = Arc::new(surround::variants());
    let nv = vs.len() as u64;
    out.push(section("what surrounds a request", nv, move |i, w| {
        let (vn, mk) = &vs[i as usize];
        let reqs: Vec<(u8, usize)> = (0..PATHS.len()).flat_map(|p| (0..5u8).map(move |m| (m, p))).collect();
        let raw: Vec<Vec<u8>> = reqs.iter().enumerate().map(|(j, r)| mk(METHODS[r.0 as usize], PATHS[r.1].0, &j.to_string())).collect();
        let _ = trace_take();
        // a body nobody reads may end the connection after the reply
        let apart = vn.contains("body");
        let rs = w.wire.serve(app, async |p| {
            let mut v = vec![];
            let mut c = wire::Conn::open(p).await;
            for r in &raw {
                if apart {
                    c = wire::Conn::open(p).await;
                }
                c.send(r).await;
                v.push(c.recv(false).await);
            }
            v
        });
        let tr = trace_take();
        w.st.traces += 1;
        w.st.transitions += reqs.len() as u64;
        w.state(&(1, i));
        check(w, vn, &reqs, &rs, 0, &tr)
    }));
    // every request directly after every other, on one connection, on a fresh one each, and changing between two
    out.push(section("every request after every other", 3, |i, w| {
        let base: Vec<(u8, usize)> = (0..PATHS.len()).flat_map(|p| [(0u8, p), (1, p), (4, p)]).collect();
        let reqs: Vec<(u8, usize)> = surround::all_pairs_order(base.len()).into_iter().map(|j| base[j]).collect();
        let _ = trace_take();
        let rs = w.wire.serve(app, async |p| {
            let mut v = vec![];
            let mut cs = vec![wire::Conn::open(p).await, wire::Conn::open(p).await];
            for (j, r) in reqs.iter().enumerate() {
                let k = if i == 2 { (j / 3) % 2 } else { 0 };
                if i == 1 {
                    cs[0] = wire::Conn::open(p).await;
                }
                cs[k].send(&wire::req(METHODS[r.0 as usize], PATHS[r.1].0, &[("x-rid", &j.to_string())], None)).await;
                v.push(cs[k].recv(false).await);
            }
            v
        });
        let tr = trace_take();
        w.st.traces += 1;
        w.st.transitions += reqs.len() as u64;
        w.state(&(2, i));
        check(w, "one after the other", &reqs, &rs, 0, &tr)
    }));
    // many connections open at once, several rounds over all of them; and many requests on one
    let many = t.pick(300usize, 1000);
    out.push(section("many connections, many requests", 4, move |i, w| {
        let np = PATHS.len() - 1;
        let _ = trace_take();
        let reqs: Vec<(u8, usize)> = (0..if i < 2 { many * 4 } else { many * 20 }).map(|j| ((j % 5) as u8, (j / 5 + j / 300) % np)).collect();
        let rs = w.wire.serve(app, async |p| {
            let mut v = vec![];
            if i < 2 {
                let mut cs = vec![];
                for (j, r) in reqs.iter().enumerate() {
                    let k = if i == 0 { j % many } else { j / 4 };
                    while cs.len() <= k {
                        cs.push(wire::Conn::open(p).await);
                    }
                    cs[k].send(&wire::req(METHODS[r.0 as usize], PATHS[r.1].0, &[("x-rid", &j.to_string())], None)).await;
                    v.push(cs[k].recv(false).await);
                }
            } else {
                let per = if i == 2 { 1 } else { 25 };
                let mut c = wire::Conn::open(p).await;
                for (q, g) in reqs.chunks(per).enumerate() {
                    let b: Vec<u8> = g.iter().enumerate().flat_map(|(k, r)| wire::req(METHODS[r.0 as usize], PATHS[r.1].0, &[("x-rid", &(q * per + k).to_string())], None)).collect();
                    c.send(&b).await;
                    for _ in g {
                        v.push(c.recv(false).await);
                    }
                }
            }
            v
        });
        let tr = trace_take();
        w.st.traces += 1;
        w.st.transitions += reqs.len() as u64;
        w.state(&(3, i));
        check(w, ["many connections in rotation", "one connection after the other", "many requests on one connection", "many pipelined requests"][i as usize], &reqs, &rs, 0, &tr)
    }));
    // a middleware that replaces the state on one route: nobody else sees it
    out.push(section("beside a route that replaces the state", 64, |i, w| {
        let _ = trace_take();
        let pat: Vec<bool> = (0..6).map(|b| i >> b & 1 == 1).collect();
        let rs = w.wire.serve(app, async |p| {
            let mut v = vec![];
            let mut c = wire::Conn::open(p).await;
            for (j, s) in pat.iter().enumerate() {
                c.send(&wire::req("GET", if *s { "/spoilt/x" } else { "/a" }, &[("x-rid", &j.to_string())], None)).await;
                v.push(c.recv(false).await);
            }
            v
        });
        let tr = trace_take();
        w.st.traces += 1;
        w.st.transitions += 6;
        w.state(&(4, i));
        for (j, s) in pat.iter().enumerate() {
            let got: Vec<String> = tr.iter().filter(|e| e.0 as usize == j).filter_map(|e| if let Ev::Note(n) = &e.1 { Some(n.clone()) } else { None }).collect();
            let want: &[&str] = if *s { &["root true", "spoiler true", "handler false"] } else { &["root true", "a true", "handler true"] };
            w.st.evaluations += 1;
            if got != want {
                return Err(format!("requests (to the replacing route?) {:?}: request {}: expected {:?}, got {:?} ({})", pat, j, want, got, rs[j].show()));
            }
        }
        Ok(())
    }));
    out.push(section("state of many types", NTYPES, |i, w| types(i, w)));
    out
}

fn one_type<T: Clone + Send + Sync + Debug + PartialEq + 'static>(w: &mut W, what: &str, first: T, last: T, change: fn(&mut T)) -> CaseResult {
    for sets in 0..4usize {
        let (f2, l2) = (first.clone(), last.clone());
        let mk = move || {
            let mut a: App<T> = if sets % 2 == 0 { App::new() } else { App::default() };
            if sets == 1 || sets == 3 {
                a.set_app_state(f2.clone());
            }
            a.get("/:n", move |mut c: Context| async move {
                let seen = format!("{:?}", c.get::<T>());
                if let Some(s) = c.get_mut::<T>() {
                    change(s);
                }
                let after = format!("{:?}", c.get::<T>());
                let taken = if c.headers().get("x-take").is_some() { c.extensions_mut().remove::<T>().is_some() } else { false };
                c.build(format!("{} {} {}", seen, after, taken)).ok()
            });
            if sets == 2 || sets == 3 {
                a.set_app_state(l2.clone());
            }
            a
        };
        let start = match sets {
            0 => None,
            1 => Some(first.clone()),
            _ => Some(last.clone()),
        };
        let changed = start.clone().map(|mut s| {
            change(&mut s);
            s
        });
        let reqs: Vec<(Vec<u8>, bool)> = (0..6).map(|j| (if j % 3 == 1 { wire::req("GET", "/1", &[("x-take", "1")], None) } else { wire::req("GET", "/1", &[], None) }, false)).collect();
        let rs = w.wire.serve(mk, async |p| {
            let mut v = wire::batch(p, &reqs).await;
            for r in &reqs {
                v.push(wire::once(p, &r.0, false).await);
            }
            v
        });
        w.st.traces += 1;
        w.st.transitions += rs.len() as u64;
        w.state(&(what, sets));
        for (j, r) in rs.iter().enumerate() {
            let want = format!("{:?} {:?} {}", start, changed, j % 3 == 1 && start.is_some());
            w.st.evaluations += 1;
            w.outcome(&want);
            if r.status() != 200 || r.text() != want {
                return Err(format!("state of type {}, configured {}: request {}: expected {}, got {}", what, ["never", "before the routes", "after the routes", "before and after the routes"][sets], j, want, r.show()));
            }
        }
    }
    Ok(())
}

#[derive(Clone, Debug, PartialEq)]
struct Unit;
#[derive(Clone, Debug, PartialEq)]
struct Pair(u8, String);
#[derive(Clone, Debug, PartialEq)]
enum Mode {
    Off,
    On { level: u32, tags: Vec<String> },
}
#[derive(Clone, Debug, PartialEq)]
struct Gen<T>(T);
#[repr(align(128))]
#[derive(Clone, Debug, PartialEq)]
struct Wide([u64; 16]);

const NTYPES: u64 = 28;

fn types(i: u64, w: &mut W) -> CaseResult {
    use std::collections::{BTreeMap, BTreeSet, HashMap, VecDeque};
    match i {
        0 => one_type(w, "()", (), (), |_| ()),
        1 => one_type(w, "bool", false, true, |b| *b = !*b),
        2 => one_type(w, "u8", 0u8, 255, |b| *b = b.wrapping_add(1)),
        3 => one_type(w, "i64", -1i64, i64::MAX, |b| *b = b.wrapping_add(1)),
        4 => one_type(w, "u128", 0u128, u128::MAX, |b| *b = b.wrapping_add(1)),
        5 => one_type(w, "f64", 0.5f64, -0.0, |b| *b += 1.0),
        6 => one_type(w, "char", 'a', 'é', |b| *b = 'z'),
        7 => one_type(w, "String", String::new(), "x".repeat(5000), |b| b.push('!')),
        8 => one_type(w, "&'static str", "one", "two", |b| *b = "three"),
        9 => one_type(w, "Vec<u8>", vec![], vec![7u8; 3000], |b| b.push(1)),
        10 => one_type(w, "Vec<String>", vec!["a".to_string()], vec![], |b| b.push("c".into())),
        11 => one_type(w, "Option<i32>", Some(1), None::<i32>, |b| *b = Some(9)),
        12 => one_type(w, "Option<String>", None::<String>, Some("s".into()), |b| *b = None),
        13 => one_type(w, "HashMap", HashMap::new(), [(1, 2)].into_iter().collect::<HashMap<i32, i32>>(), |b| { b.clear(); b.insert(3, 4); }),
        14 => one_type(w, "BTreeMap", BTreeMap::new(), [("k".to_string(), vec![1])].into_iter().collect::<BTreeMap<String, Vec<i32>>>(), |b| { b.insert("z".into(), vec![]); }),
        15 => one_type(w, "BTreeSet", BTreeSet::new(), (0..50).collect::<BTreeSet<i32>>(), |b| { b.remove(&3); }),
        16 => one_type(w, "VecDeque", VecDeque::new(), (0..5).collect::<VecDeque<i32>>(), |b| { b.pop_front(); }),
        17 => one_type(w, "tuple", (1, "a".to_string()), (2, "b".to_string()), |b| b.1.push('!')),
        18 => one_type(w, "array", [0u8; 40], [9u8; 40], |b| b[0] = 1),
        19 => one_type(w, "unit structure", Unit, Unit, |_| ()),
        20 => one_type(w, "tuple structure", Pair(1, "x".into()), Pair(2, "y".into()), |b| b.0 += 1),
        21 => one_type(w, "enumeration", Mode::Off, Mode::On { level: 3, tags: vec!["t".into()] }, |b| if let Mode::On { tags, .. } = b { tags.push("u".into()) }),
        22 => one_type(w, "generic structure", Gen(vec![1, 2]), Gen(vec![3]), |b| b.0.push(4)),
        23 => one_type(w, "aligned structure", Wide([0; 16]), Wide([5; 16]), |b| b.0[15] += 1),
        24 => one_type(w, "boxed", Box::new(1u64), Box::new(2u64), |b| **b += 1),
        25 => one_type(w, "Arc<str>", Arc::<str>::from("one"), Arc::<str>::from("two"), |b| *b = Arc::from("three")),
        26 => one_type(w, "Arc of a structure", Arc::new(Pair(1, "x".into())), Arc::new(Pair(2, "y".into())), |b| Arc::make_mut(b).0 += 1),
        _ => one_type(w, "large", vec![vec![0u64; 100]; 10], vec![vec![1u64; 1000]; 30], |b| b[0][0] += 1),
    }
}
