//! C01-C06, C08, C09: registration programs x requests against the segment-tree model or against each other.
use super::families::*;
use super::names;
use crate::common::*;
use crate::mass::{self, Mass, DEEP};
use crate::model::{self, Hit, Node};
use crate::sut::*;
use std::collections::BTreeSet;
use std::sync::Arc;

type Aspect = fn(&Seen, &Option<Hit>) -> Option<String>;

fn a_handler(s: &Seen, h: &Option<Hit>) -> Option<String> {
    if let Some(o) = &s.odd {
        return Some(o.clone());
    }
    let want = h.as_ref().map(|h| h.handler);
    if s.handler != want {
        let f = |x: Option<u32>| x.map(|i| format!("h{}", i)).unwrap_or("404".into());
        return Some(format!("handler: expected {}, got {}", f(want), f(s.handler)));
    }
    None
}

fn a_params(s: &Seen, h: &Option<Hit>) -> Option<String> {
    match h {
        Some(h) if s.handler == Some(h.handler) => {
            let names = PNAMES.with(|p| p.get());
            let mut want: Vec<(String, String)> = h.params.iter().filter(|(k, _)| names.contains(&k.as_str())).cloned().collect();
            want.sort();
            if s.params != want {
                return Some(format!("parameters: expected {:?}, got {:?}", want, s.params));
            }
            None
        }
        _ => None, // which handler runs is C01's business
    }
}

fn a_mws(s: &Seen, h: &Option<Hit>) -> Option<String> {
    match h {
        Some(h) => {
            if s.handler.is_some() && s.handler != Some(h.handler) {
                return None;
            }
            if s.entered != h.mws {
                return Some(format!("middleware: expected {:?}, ran {:?}", h.mws, s.entered));
            }
            s.odd.clone()
        }
        None => {
            if s.handler.is_none() && !s.entered.is_empty() {
                return Some(format!("middleware {:?} ran for an unmatched request", s.entered));
            }
            None
        }
    }
}

fn compare(w: &mut W, ops: &[Op], node: &Node, m: &Mass, reqs: &[(u8, String)], aspect: Aspect) -> CaseResult {
    let seen = m.ask(w, reqs);
    compare_seen(w, ops, node, &seen, reqs, aspect)
}

fn compare_seen(w: &mut W, ops: &[Op], node: &Node, seen: &[Option<Seen>], reqs: &[(u8, String)], aspect: Aspect) -> CaseResult {
    for (r, s) in reqs.iter().zip(seen) {
        let s = match s {
            Some(s) => s,
            None => continue,
        };
        let hit = node.lookup(r.0, &r.1);
        w.st.evaluations += 1;
        w.outcome(&(&s.handler, &s.params, &s.entered));
        if let Some(d) = aspect(s, &hit) {
            return Err(format!("registrations: {}\nrequest: {} {}\n{}", show_ops(ops), METHODS[r.0 as usize], r.1, d));
        }
    }
    Ok(())
}

/// All sequences over `alphabet` up to `depth`; job = first two operations.
fn sequences(name: &str, alphabet: Vec<Op>, depth: usize, reqs: Vec<(u8, String)>, names: &'static [&'static str], aspect: Aspect) -> Section {
    let k = alphabet.len() as u64;
    let depth = if DEEP { depth } else { depth.min(2) };
    let alphabet = Arc::new(alphabet);
    let reqs = Arc::new(reqs);
    section(&format!("{} (depth {}, {} registrations, {} requests)", name, depth, k, reqs.len()), k * k, move |idx, w| {
        PNAMES.with(|p| p.set(names));
        let (i, j) = ((idx / k) as usize, (idx % k) as usize);
        let mut ops = vec![];
        let a = &alphabet;
        let mut node = Node::default();
        let m0 = Mass::new();
        let m = step(w, &m0, &mut node, &a[i]);
        ops.push(a[i].clone());
        let m = match m {
            Some(m) => m,
            None => return Ok(()),
        };
        if j == 0 {
            visit(w, &ops, &node, &m, &reqs, aspect)?;
        }
        if depth >= 2 {
            dfs(w, &mut ops, &node, &m, &a[j], a, depth - 1, &reqs, aspect)?;
        }
        Ok(())
    })
}

/// Applies to both; None when either side rejects (accept/reject agreement is C05's business).
fn step(w: &mut W, m: &Mass, node: &mut Node, op: &Op) -> Option<Mass> {
    w.st.transitions += 1;
    let real = m.extend(op);
    let model = node.apply(op);
    match (real, model) {
        (Ok(r), Ok(())) => Some(r),
        _ => None,
    }
}

fn visit(w: &mut W, ops: &[Op], node: &Node, m: &Mass, reqs: &[(u8, String)], aspect: Aspect) -> CaseResult {
    w.state(&node.canon());
    w.st.traces += 1;
    w.sample(|| format!("{} -> {} requests", show_ops(ops), reqs.len()));
    compare(w, ops, node, m, reqs, aspect)
}

#[allow(clippy::too_many_arguments)]
fn dfs(w: &mut W, ops: &mut Vec<Op>, node: &Node, m: &Mass, op: &Op, a: &[Op], left: usize, reqs: &[(u8, String)], aspect: Aspect) -> CaseResult {
    let mut n2 = node.clone();
    if let Some(m2) = step(w, m, &mut n2, op) {
        ops.push(op.clone());
        visit(w, ops, &n2, &m2, reqs, aspect)?;
        if left > 1 {
            for o in a {
                dfs(w, ops, &n2, &m2, o, a, left - 1, reqs, aspect)?;
            }
        }
        ops.pop();
    }
    Ok(())
}

/// Explicit programs, in-process and over the wire.
fn programs(name: &str, progs: Vec<(String, Program)>, names: &'static [&'static str], aspect: Aspect, wire: bool) -> Section {
    let progs = Arc::new(progs);
    let n = progs.len() as u64;
    section(&format!("{}{}", name, if wire { " over the wire" } else { "" }), n, move |i, w| {
        PNAMES.with(|p| p.set(names));
        let (pn, p) = &progs[i as usize];
        let node = match model::run(&p.ops) {
            Ok(n) => n,
            Err(e) => panic!("program {} rejected by the model: {:?}", pn, e),
        };
        w.st.transitions += p.ops.len() as u64;
        w.state(&node.canon());
        w.sample(|| format!("{}: {} registrations, {} requests", pn, p.ops.len(), p.reqs.len()));
        if wire {
            if may_panic(|| drop(build_app(&p.ops))).is_err() {
                return Ok(());
            }
            let reqs: Vec<(u8, String)> = p.reqs.iter().filter(|r| wire_ok(&r.1)).cloned().collect();
            let seen: Vec<Option<Seen>> = wire_dispatch(w, &p.ops, &reqs).into_iter().map(Some).collect();
            w.st.traces += 1;
            compare_seen(w, &p.ops, &node, &seen, &reqs, aspect).map_err(|e| format!("[{}] {}", pn, e))
        } else {
            let m = match mass::build(&p.ops) {
                Ok(m) => m,
                Err(_) => return Ok(()),
            };
            w.st.traces += 1;
            compare(w, &p.ops, &node, &m, &p.reqs, aspect).map_err(|e| format!("[{}] {}", pn, e))
        }
    })
}

/// The vocabulary, in-process and over the wire (there every `stride`-th program).
fn vocabulary(t: Tier, aspect: Aspect, wire: bool) -> Section {
    let progs = names::named(t);
    let stride = 1;
    let _ = wire;
    let progs = Arc::new(progs.into_iter().enumerate().filter(|(i, _)| i % stride == 0).map(|x| x.1).collect::<Vec<_>>());
    let n = progs.len() as u64;
    section(&format!("vocabulary of segment texts{}", if wire { " over the wire" } else { "" }), n, move |i, w| {
        let c = &progs[i as usize];
        PNAMES.with(|p| p.set(c.params));
        let p = &c.program;
        let node = match model::run(&p.ops) {
            Ok(n) => n,
            Err(_) => return Ok(()),
        };
        w.st.transitions += p.ops.len() as u64;
        w.state(&node.canon());
        if wire {
            if may_panic(|| drop(build_app(&p.ops))).is_err() {
                return Ok(());
            }
            let reqs: Vec<(u8, String)> = p.reqs.iter().filter(|r| wire_ok(&r.1)).cloned().collect();
            let seen: Vec<Option<Seen>> = wire_dispatch(w, &p.ops, &reqs).into_iter().map(Some).collect();
            w.st.traces += 1;
            compare_seen(w, &p.ops, &node, &seen, &reqs, aspect).map_err(|e| format!("[{}] {}", c.name, e))
        } else {
            let m = match mass::build(&p.ops) {
                Ok(m) => m,
                Err(_) => return Ok(()),
            };
            w.st.traces += 1;
            compare(w, &p.ops, &node, &m, &p.reqs, aspect).map_err(|e| format!("[{}] {}", c.name, e))
        }
    })
}

/// All pairs (and triples) of an alphabet as wire programs.
fn combos(alphabet: &[Op], k: usize, reqs: &[(u8, String)]) -> Vec<(String, Program)> {
    let mut v = vec![];
    let n = alphabet.len();
    let mut idx = vec![0usize; k];
    loop {
        let ops: Vec<Op> = idx.iter().map(|i| alphabet[*i].clone()).collect();
        if model::run(&ops).is_ok() {
            v.push((format!("{:?}", idx), Program { ops, reqs: reqs.to_vec() }));
        }
        let mut c = k;
        loop {
            if c == 0 {
                return v;
            }
            c -= 1;
            idx[c] += 1;
            if idx[c] < n {
                break;
            }
            idx[c] = 0;
        }
    }
}

fn routes(ps: &[&str]) -> Vec<Op> {
    ps.iter().enumerate().map(|(i, p)| get(p, i as u32 + 1)).collect()
}

fn mws(ps: &[&str]) -> Vec<Op> {
    ps.iter().enumerate().map(|(i, p)| mw_at(p, i as u32 + 501)).collect()
}

fn reqs_of(alpha: &[Op], near: bool) -> Vec<(u8, String)> {
    gets(requests_for(&paths_of(alpha), near))
}

const XY: &[&str] = &["x", "y", "z", "b", "id"];

fn alpha_static() -> Vec<Op> {
    let mut v = routes(&["/", "/a", "/ab", "/abc", "/abd", "/b", "/a/b", "/a/c", "/ab/c", "/a/bc", "/a/b/c", "/a/*", "/ab/*", "/*", "/a/b/*"]);
    v.push(mw_at("/a", 501));
    v
}

fn alpha_params() -> Vec<Op> {
    let mut v = routes(&["/:x", "/:x/b", "/:x/:y", "/:x/*", "/a", "/a/:x", "/a/:y", "/a/:x/b", "/a/:x/*", "/ab", "/ab/:x", "/a:b", "/ac/b", "/a/b", "/*", "/b/:z/b/:x"]);
    v.push(mw_at("/:x", 501));
    v.push(mw_at("/a", 502));
    v
}

fn alpha_odd() -> Vec<Op> {
    let mut v = routes(&["/é", "/è", "/éa", "/éa/b", "/é/b", "/日本/語", "/日/本語", "/日本", "/a:x", "/a:y", "/a", "/:x:y", "/a.b", "/a-b", "/A", "/%61", "/a//b"]);
    v.push(get("/é/*", 40));
    v.push(get("/日/:x", 41));
    v
}

pub fn c01(t: Tier) -> Check {
    let s = alpha_static();
    let p = alpha_params();
    let o = alpha_odd();
    let mut deep_paths = paths_of(&s);
    deep_paths.push("/a/b/c/d".into());
    let three = t.pick(3, 4);
    let mut sections = vec![
        sequences("literal and wildcard routes", s.clone(), t.pick(4, 5), reqs_of(&s, true), XY, a_handler),
        sequences("parameter routes", p.clone(), t.pick(4, 5), reqs_of(&p, true), XY, a_handler),
        sequences("unusual characters", o.clone(), three, reqs_of(&o, true), XY, a_handler),
    ];
    let mm: Vec<Op> = ["/", "/a", "/a/b", "/a/*", "/*", "/ab"].iter().enumerate().flat_map(|(i, p)| vec![route(0, p, 1 + i as u32), route(1, p, 21 + i as u32), mw_at(p, 501 + i as u32)]).collect();
    let mut rq = reqs_of(&mm, true);
    let posts: Vec<(u8, String)> = rq.iter().map(|r| (1u8, r.1.clone())).collect();
    rq.extend(posts);
    sections.push(sequences("methods and middleware-only paths", mm.clone(), t.pick(4, 5), rq.clone(), XY, a_handler));
    let lad = ladders(t.pick(12, 28));
    sections.push(programs("size ladders", lad.clone(), LADDER_PARAMS, a_handler, false));
    sections.push(programs("size ladders", lad, LADDER_PARAMS, a_handler, true));
    sections.push(programs("large sizes", tall(&tall_sizes(t)), tall_params(), a_handler, false));
    sections.push(programs("large sizes", tall(&t.pick(vec![33, 65, 129, 257], tall_sizes(t))), tall_params(), a_handler, true));
    sections.push(programs("pairs of literal and wildcard routes", combos(&s, 2, &reqs_of(&s, true)), XY, a_handler, true));
    sections.push(programs("pairs of parameter routes", combos(&p, 2, &reqs_of(&p, true)), XY, a_handler, true));
    sections.push(programs("pairs with methods", combos(&mm, 2, &rq), XY, a_handler, true));
    sections.push(vocabulary(t, a_handler, false));
    sections.push(vocabulary(t, a_handler, true));
    sections.extend(super::surround::sections(t, a_handler));
    Check {
        id: "C01",
        level: "model_checking",
        rule: "every registration sequence over the alphabets up to the stated depth (accepted prefixes extended, rejected ones cut), every request derived from the alphabet (instances, near misses: merged/split/cut/extended/dropped segments); states = distinct registration trees, transitions = registrations applied, traces = programs replayed on the real router or server and compared request by request with the segment-tree model; distinct_outcomes = distinct (handler, params, middleware) observations".into(),
        assumptions: base_assumptions(),
        sections,
    }
}

fn base_assumptions() -> Vec<String> {
    vec![
        "paths, names and values outside the alphabets and ladders are not explored".into(),
        "the in-process driver composes Router::search_route, get_route, get_middlewares, get_params and EndpointExecutor as App::listen does; the wire sections run App::listen itself".into(),
    ]
}

/// Programs of two registrations whose segments are every ordered pair of short words.
fn word_pairs() -> Vec<(String, String)> {
    let l = names::short_list();
    l.iter().flat_map(|a| l.iter().map(move |b| (a.clone(), b.clone()))).collect()
}

fn pair_programs(a: &str, b: &str) -> Vec<Vec<Op>> {
    let sub = || vec![get("/", 21), get("/z", 22)];
    vec![
        vec![get(&format!("/{}", a), 1), get(&format!("/{}", b), 2)],
        vec![get(&format!("/k/{}", a), 1), get(&format!("/k/{}/k", b), 2)],
        vec![get(&format!("/{}/k", a), 1), mw_at(&format!("/{}", b), 502)],
        vec![get(&format!("/:{}", a), 1), get(&format!("/:{}", b), 2)],
        vec![get(&format!("/k/:{}/k", a), 1), get(&format!("/k/:{}", b), 2)],
        vec![mw_at(&format!("/:{}", a), 501), get(&format!("/{}/x", b), 2)],
        vec![Op::Mount { p: format!("/{}", a), ops: sub() }, get(&format!("/{}/x", b), 2)],
        vec![Op::Scope { name: a.to_string(), ops: sub() }, Op::Mount { p: format!("/k/{}", b), ops: sub() }],
        vec![get(&format!("/k{}", a), 1), get(&format!("/k{}", b), 2)],
        vec![get(&format!("/{}", a), 1), route(1, &format!("/{}", b), 2)],
    ]
}

// ---------------------------------------------------------------- C02

fn perms(n: usize) -> Vec<Vec<usize>> {
    if n == 0 {
        return vec![vec![]];
    }
    let mut v = vec![];
    for p in perms(n - 1) {
        for i in 0..=p.len() {
            let mut q = p.clone();
            q.insert(i, n - 1);
            v.push(q);
        }
    }
    v
}

fn subsets(n: usize, k: usize) -> Vec<Vec<usize>> {
    fn go(start: usize, n: usize, k: usize, cur: &mut Vec<usize>, out: &mut Vec<Vec<usize>>) {
        if cur.len() == k {
            out.push(cur.clone());
            return;
        }
        for i in start..n {
            cur.push(i);
            go(i + 1, n, k, cur, out);
            cur.pop();
        }
    }
    let mut out = vec![];
    go(0, n, k, &mut vec![], &mut out);
    out
}

fn order_section(name: &str, alphabet: Vec<Op>, k: usize, reqs: Vec<(u8, String)>, names: &'static [&'static str]) -> Section {
    let k = if DEEP { k } else { k.min(2) };
    let subs = subsets(alphabet.len(), k);
    let n = subs.len() as u64;
    let ps = perms(k);
    section(&format!("{}: all orders of {} of {} registrations, {} requests", name, k, alphabet.len(), reqs.len()), n, move |i, w| {
        PNAMES.with(|p| p.set(names));
        let sub = &subs[i as usize];
        let mut first: Option<(Vec<Op>, Option<Vec<Option<Seen>>>)> = None;
        for p in &ps {
            let ops: Vec<Op> = p.iter().map(|x| alphabet[sub[*x]].clone()).collect();
            w.st.transitions += ops.len() as u64;
            let res = match mass::build(&ops) {
                Ok(m) => Some(
                    m.ask(w, &reqs)
                        .into_iter()
                        .map(|s| {
                            s.map(|mut s| {
                                s.entered.sort();
                                s
                            })
                        })
                        .collect::<Vec<_>>(),
                ),
                Err(_) => None,
            };
            w.st.traces += 1;
            w.st.evaluations += reqs.len() as u64;
            match &first {
                None => {
                    w.state(&(sub, res.is_some()));
                    if let Some(r) = &res {
                        for s in r.iter().flatten() {
                            w.outcome(&(&s.handler, &s.params, &s.entered));
                        }
                    }
                    first = Some((ops, res));
                }
                Some((o1, r1)) => {
                    if r1.is_some() != res.is_some() {
                        let v = |x: bool| if x { "accepted" } else { "rejected" };
                        return Err(format!("order decides acceptance:\n  {} : {}\n  {} : {}", show_ops(o1), v(r1.is_some()), show_ops(&ops), v(res.is_some())));
                    }
                    if let (Some(a), Some(b)) = (r1, &res) {
                        for (k, (x, y)) in a.iter().zip(b).enumerate() {
                            if x != y {
                                return Err(format!("order decides routing of {} {}:\n  {} : {:?}\n  {} : {:?}", METHODS[reqs[k].0 as usize], reqs[k].1, show_ops(o1), x, show_ops(&ops), y));
                            }
                        }
                    }
                }
            }
        }
        w.sample(|| format!("{} in {} orders", show_ops(&sub.iter().map(|x| alphabet[*x].clone()).collect::<Vec<_>>()), ps.len()));
        Ok(())
    })
}

fn order_wire(name: &str, alphabet: Vec<Op>, k: usize, reqs: Vec<(u8, String)>, names: &'static [&'static str]) -> Section {
    let subs = subsets(alphabet.len(), k);
    let n = subs.len() as u64;
    let ps = perms(k);
    section(&format!("{} over the wire: all orders of {} of {}", name, k, alphabet.len()), n, move |i, w| {
        PNAMES.with(|p| p.set(names));
        let sub = &subs[i as usize];
        let reqs: Vec<(u8, String)> = reqs.iter().filter(|r| wire_ok(&r.1)).cloned().collect();
        let mut first: Option<(Vec<Op>, Option<Vec<Seen>>)> = None;
        for p in &ps {
            let ops: Vec<Op> = p.iter().map(|x| alphabet[sub[*x]].clone()).collect();
            w.st.transitions += ops.len() as u64;
            let ok = may_panic(|| drop(build_app(&ops))).is_ok();
            let res = if ok {
                Some(wire_dispatch(w, &ops, &reqs).into_iter().map(|mut s| { s.entered.sort(); s }).collect::<Vec<_>>())
            } else {
                None
            };
            w.st.traces += 1;
            w.st.evaluations += reqs.len() as u64;
            match &first {
                None => first = Some((ops, res)),
                Some((o1, r1)) => {
                    if *r1 != res {
                        let q = match (r1, &res) {
                            (Some(a), Some(b)) => a.iter().zip(b).position(|(x, y)| x != y).map(|k| format!("{} {}: {:?} / {:?}", METHODS[reqs[k].0 as usize], reqs[k].1, a[k], b[k])),
                            _ => None,
                        };
                        return Err(format!("order matters:\n  {}\n  {}\n{}", show_ops(o1), show_ops(&ops), q.unwrap_or("accepted in one order only".into())));
                    }
                }
            }
        }
        Ok(())
    })
}

/// Large collections in several systematic orders.
fn order_large(progs: Vec<(String, Program)>) -> Section {
    let progs: Arc<Vec<(String, Program)>> = Arc::new(progs.into_iter().filter(|(_, p)| p.ops.iter().all(|o| matches!(o, Op::Route { .. } | Op::MwAt { .. })) && p.ops.len() > 2).collect());
    section("large sizes in systematic orders", progs.len() as u64, move |i, w| {
        PNAMES.with(|p| p.set(tall_params()));
        let (name, p) = &progs[i as usize];
        let n = p.ops.len();
        let mut orders: Vec<(String, Vec<usize>)> = vec![("as listed".into(), (0..n).collect()), ("reversed".into(), (0..n).rev().collect())];
        for k in [n / 3, n / 2, n - 1] {
            orders.push((format!("rotated by {}", k), (0..n).map(|j| (j + k) % n).collect()));
        }
        orders.push(("even, then odd".into(), (0..n).step_by(2).chain((1..n).step_by(2)).collect()));
        orders.push(("odd reversed, then even".into(), (0..n).rev().filter(|j| j % 2 == 1).chain((0..n).step_by(2)).collect()));
        orders.push(("from the middle outwards".into(), { let mut v: Vec<usize> = (0..n).collect(); v.sort_by_key(|j| (*j as i64 - n as i64 / 2).abs()); v }));
        orders.push(("from the ends inwards".into(), { let mut v: Vec<usize> = (0..n).collect(); v.sort_by_key(|j| -(*j as i64 - n as i64 / 2).abs()); v }));
        for m in [7usize, 13, 31] {
            let mut v: Vec<usize> = (0..n).collect();
            v.sort_by_key(|j| ((j * m) % n, *j));
            orders.push((format!("by {} times the index", m), v));
        }
        let mut first: Option<Vec<Option<Seen>>> = None;
        for (on, o) in &orders {
            let ops: Vec<Op> = o.iter().map(|j| p.ops[*j].clone()).collect();
            w.st.traces += 1;
            w.st.transitions += n as u64;
            w.state(&(i, on));
            let m = mass::build(&ops);
            let got: Option<Vec<Option<Seen>>> = m.ok().map(|m| m.ask(w, &p.reqs).into_iter().map(|s| s.map(|mut s| { s.entered.sort(); s })).collect());
            let got = match got {
                Some(g) => g,
                // accepted as listed (the generator only makes accepted programs), so refused only in this order; C05 covers refusal as such
                None if first.is_none() => return Ok(()),
                None => return Err(format!("[{}] accepted as listed, rejected {}", name, on)),
            };
            w.st.evaluations += p.reqs.len() as u64;
            match &first {
                None => first = Some(got),
                Some(f) => {
                    if let Some(k) = (0..got.len()).find(|k| f[*k] != got[*k]) {
                        return Err(format!("[{}] order decides routing of {}: as listed {:?}, {} {:?}", name, p.reqs[k].1, f[k], on, got[k]));
                    }
                }
            }
        }
        Ok(())
    })
}

pub fn c02(t: Tier) -> Check {
    let mut s = alpha_static();
    s.extend(mws(&["/ab", "/a/b", "/a/*", "/", "/*"]).into_iter().enumerate().map(|(i, o)| match o {
        Op::MwAt { p, .. } => mw_at(&p, 600 + i as u32),
        o => o,
    }));
    s.push(route(1, "/a", 71));
    s.push(route(1, "/a/b", 72));
    s.push(route(0, "/a", 73)); // duplicate of an existing one
    let mut p = alpha_params();
    p.extend([mw_at("/a/:x", 610), mw_at("/ab/:x", 611), mw_at("/:x/b", 612), route(1, "/a/:x", 74), route(1, "/:x", 75)]);
    let o = alpha_odd();
    let mut rs = reqs_of(&s, true);
    rs.extend([(1, "/a".to_string()), (1, "/a/b".to_string()), (1, "/ab".to_string())]);
    let mut rp = reqs_of(&p, true);
    rp.extend([(1, "/a/zz".to_string()), (1, "/zz".to_string()), (1, "/a/b".to_string())]);
    let mut sections = vec![];
    for k in 2..=t.pick(4, 5) {
        sections.push(order_section("literal", s.clone(), k, rs.clone(), XY));
        sections.push(order_section("parameters", p.clone(), k, rp.clone(), XY));
    }
    for k in 2..=t.pick(3, 4) {
        sections.push(order_section("unusual characters", o.clone(), k, reqs_of(&o, true), XY));
    }
    // larger collections: a chosen set, all orders
    let chain: Vec<Op> = routes(&["/a", "/aa", "/aaa", "/aaaa", "/aaaaa", "/aaaaaa", "/aaaaaaa"]);
    let fan: Vec<Op> = routes(&["/abc", "/abd", "/abe", "/a", "/ab", "/abc/d", "/b"]);
    let deep: Vec<Op> = routes(&["/a", "/a/b", "/a/b/c", "/a/b/*", "/a/*", "/*", "/ab"]);
    let par: Vec<Op> = routes(&["/u", "/u/:id", "/u/:id/x", "/us", "/us/:id", "/u/:id/x/*", "/user"]);
    for (n, f) in [("prefix chain", chain), ("fan", fan), ("nested wildcards", deep), ("users", par)] {
        let rq = reqs_of(&f, true);
        sections.push(order_section(n, f, 7, rq, XY));
    }
    // several middlewares on one path, next to registrations that split or extend it
    let pile: Vec<Op> = vec![get("/ab", 1), mw_at("/ab", 601), mw_at("/ab", 602), mw_at("/ab", 603), get("/ac", 2), get("/a", 3), mw_at("/a", 604), mw_at("/a", 605), get("/abd", 4), get("/ab/c", 5), mw_at("/", 606)];
    let pile2: Vec<Op> = vec![get("/u/:id", 1), mw_at("/u/:id", 601), mw_at("/u/:id", 602), get("/u/*", 2), mw_at("/u/*", 603), mw_at("/u/*", 604), get("/u", 3), mw_at("/us", 605), mw_at("/us", 606), get("/us/a", 4), get("/user", 5)];
    for k in 3..=t.pick(5, 6) {
        for (n, f) in [("several middlewares on one path", &pile), ("several middlewares on parameters and wildcards", &pile2)] {
            sections.push(order_section(n, f.clone(), k, reqs_of(f, true), XY));
        }
    }
    let words = names::short_list();
    sections.push(section("pairs of segment texts in both orders", (words.len() * words.len()) as u64, move |i, w| {
        let n = words.len() as u64;
        let (a, b) = (&words[(i / n) as usize], &words[(i % n) as usize]);
        if a > b {
            return Ok(());
        }
        PNAMES.with(|p| p.set(&["a", "b", "x", "id", "ID", "Id", "i"]));
        for ops in pair_programs(a, b).into_iter().filter(|o| !o.iter().any(|x| matches!(x, Op::Mount { .. } | Op::Scope { .. }))) {
            let mut back = ops.clone();
            back.reverse();
            let ps: Vec<String> = paths_of(&ops);
            let mut rq: Vec<String> = vec!["/".into(), "/v".into(), "/v/k".into(), "/v/x".into(), "/k/v".into(), "/k/v/k".into()];
            rq.extend(ps.iter().cloned());
            rq.extend(ps.iter().map(|p| p.to_lowercase()));
            rq.extend(ps.iter().map(|p| p.to_uppercase()));
            rq.extend(ps.iter().map(|p| format!("{}/x", p)));
            rq.extend(ps.iter().map(|p| format!("{}x", p)));
            let rq = gets(rq);
            w.st.traces += 2;
            w.st.transitions += 4;
            w.state(&(&ops[0], &ops[1]));
            let (x, y) = (mass::build(&ops), mass::build(&back));
            match (x, y) {
                (Ok(x), Ok(y)) => {
                    let (x, y) = (x.ask(w, &rq), y.ask(w, &rq));
                    w.st.evaluations += rq.len() as u64;
                    if let Some(k) = (0..rq.len()).find(|k| x[*k] != y[*k]) {
                        return Err(format!("order decides routing of {}:\n  {} : {:?}\n  {} : {:?}", rq[k].1, show_ops(&ops), x[k], show_ops(&back), y[k]));
                    }
                }
                (Err(_), Err(_)) => {}
                (x, _) => return Err(format!("order decides acceptance:\n  {} : {}", show_ops(if x.is_ok() { &ops } else { &back }), "accepted, the reverse rejected")),
            }
        }
        Ok(())
    }));
    sections.push(order_large(tall(&t.pick(vec![10, 16, 17, 32, 33, 64, 65, 100, 129, 257], tall_sizes(t)))));
    sections.push(order_wire("literal", s, 2, rs, XY));
    sections.push(order_wire("parameters", p, 2, rp, XY));
    Check {
        id: "C02",
        level: "model_checking",
        rule: "every k-subset of the registration alphabets, every permutation of it, every request of the alphabet: acceptance and outcomes must agree between permutations (metamorphic, no model)".into(),
        assumptions: base_assumptions(),
        sections,
    }
}

// ---------------------------------------------------------------- C03

pub fn c03(t: Tier) -> Check {
    use crate::checks::params;
    let mut sections = vec![];
    let p = alpha_params();
    sections.push(sequences("parameter routes", p.clone(), t.pick(3, 4), reqs_of(&p, true), XY, a_params));
    // every pattern of literal/parameter segments up to length n, all pairs of them, distinct values per segment
    let n = t.pick(5, 7);
    let mut pats: Vec<String> = vec![];
    for len in 1..=n {
        for mask in 0..(1u32 << len) {
            let s: Vec<String> = (0..len).map(|i| if mask >> i & 1 == 1 { format!(":{}", ["x", "id", "i", "idx", "y", "z", "b"][i]) } else { ["a", "ab", "b", "a", "abc", "c", "d"][i].to_string() }).collect();
            pats.push(format!("/{}", s.join("/")));
        }
    }
    let names: &'static [&'static str] = &["x", "id", "i", "idx", "y", "z", "b", "", ":x", "X"];
    let vals: Vec<&str> = vec!["v0", "1", ":x", "id", "%20", "a%2Fb", "~", "..", ".", "a", "é", "x=y", "*", "+", "0", "a;b,c@d"];
    let mut progs = vec![];
    for (i, pt) in pats.iter().enumerate() {
        let mut reqs = vec![];
        for (vi, _) in vals.iter().enumerate() {
            let s: Vec<String> = model::segs(pt).iter().enumerate().map(|(k, s)| if s.starts_with(':') { vals[(vi + k) % vals.len()].to_string() } else { s.to_string() }).collect();
            let path = format!("/{}", s.join("/"));
            reqs.push((0u8, format!("{}/", path)));
            reqs.push((0u8, path));
        }
        let mut ops = vec![get(pt, 1), mw_at(pt, 501)];
        progs.push((pt.clone(), Program { ops: ops.clone(), reqs: reqs.clone() }));
        ops.push(get(&format!("{}/*", pt), 2));
        let r2: Vec<(u8, String)> = reqs.iter().map(|r| (0, format!("{}/tail/more", r.1.trim_end_matches('/')))).collect();
        progs.push((format!("{} + wildcard below", pt), Program { ops, reqs: reqs.iter().cloned().chain(r2).collect() }));
        let j = (i * 7 + 3) % pats.len();
        let ops = vec![get(pt, 1), get(&pats[j], 2)];
        if model::run(&ops).is_ok() {
            let mut rr = reqs.clone();
            rr.extend(gets(requests_for(&[pats[j].clone()], false)));
            progs.push((format!("{} + {}", pt, pats[j]), Program { ops, reqs: rr }));
        }
        let ops = vec![Op::Mount { p: pt.clone(), ops: vec![get("/", 1), get("/leaf", 2), get("/m/:k", 3)] }];
        let mut rr = reqs.clone();
        rr.extend(reqs.iter().map(|r| (0, format!("{}/leaf", r.1.trim_end_matches('/')))));
        rr.extend(reqs.iter().map(|r| (0, format!("{}/m/kk", r.1.trim_end_matches('/')))));
        progs.push((format!("mounted at {}", pt), Program { ops, reqs: rr }));
    }
    sections.push(programs("every literal/parameter pattern", progs.clone(), names, a_params, false));
    sections.push(programs("every literal/parameter pattern", progs, names, a_params, true));
    sections.push(programs("size ladders", ladders(t.pick(14, 30)), LADDER_PARAMS, a_params, false));
    sections.push(programs("size ladders", ladders(t.pick(10, 30)), LADDER_PARAMS, a_params, true));
    sections.push(programs("large sizes", tall(&tall_sizes(t)), tall_params(), a_params, false));
    sections.push(programs("large sizes", tall(&t.pick(vec![33, 65, 129, 257], tall_sizes(t))), tall_params(), a_params, true));
    // long values
    let mut lv = vec![];
    for l in crate::dict::sizes(vec![1usize, 16, 64, 127, 128, 255, 256, 257, 1000, 1024, 4096, 8000, 20000], 20000) {
        let v = "v".repeat(l);
        lv.push((format!("value of {} bytes", l), Program { ops: vec![get("/p/:x/q/:y", 1), get("/p/:x", 2)], reqs: gets(vec![format!("/p/{}/q/{}w", v, v), format!("/p/{}", v), format!("/p/1/q/{}", v)]) }));
    }
    sections.push(programs("long values", lv.clone(), names, a_params, false));
    sections.push(programs("long values", lv, names, a_params, true));
    // abandoned branches must not leave parameters behind
    let ab = ["/a/:x/b", "/a/*", "/*", "/a/:x/c/:y", "/b/:z/:id", "/b/*", "/a/:x/c/*"];
    let abr = routes(&ab);
    let rq = reqs_of(&abr, true);
    sections.push(sequences("abandoned branches", abr.clone(), t.pick(4, 5), rq.clone(), XY, a_params));
    sections.push(programs("abandoned branches, pairs", combos(&abr, 2, &rq), XY, a_params, true));
    sections.extend(params::typed(t));
    sections.push(vocabulary(t, a_params, false));
    sections.push(vocabulary(t, a_params, true));
    sections.extend(super::surround::sections(t, a_params));
    Check {
        id: "C03",
        level: "model_checking",
        rule: "every literal/parameter pattern up to the length bound, alone, with companions, mounted and with wildcard below; parameter names incl. prefixes of each other; values incl. odd texts and long ones; typed access for 14 target types x all value texts; compared with the segment-tree model / an independent parser table".into(),
        assumptions: base_assumptions(),
        sections,
    }
}

// ---------------------------------------------------------------- C04

fn decorate(s: &[&str], lead: usize, seps: &[usize], trail: usize) -> String {
    let mut p = "/".repeat(lead);
    for (i, x) in s.iter().enumerate() {
        if i > 0 {
            p.push_str(&"/".repeat(seps[(i - 1) % seps.len()]));
        }
        p.push_str(x);
    }
    p.push_str(&"/".repeat(trail));
    p
}

fn decorations(n: usize) -> Vec<(usize, Vec<usize>, usize)> {
    let mut v = vec![];
    let seps: Vec<Vec<usize>> = if n < 2 {
        vec![vec![1]]
    } else if n == 2 {
        vec![vec![1], vec![2], vec![3]]
    } else {
        vec![vec![1, 1], vec![2, 1], vec![1, 2], vec![3, 2]]
    };
    for lead in 0..=3 {
        for s in &seps {
            for trail in [0usize, 1, 2, 3] {
                v.push((lead, s.clone(), trail));
            }
        }
    }
    v
}

fn deco_all(p: &str) -> Vec<String> {
    let s = model::segs(p);
    let mut v: Vec<String> = decorations(s.len()).iter().map(|(l, m, t)| decorate(&s, *l, m, *t)).collect();
    v.dedup();
    v
}

const STYLES: usize = 10;
fn style(p: &str, k: usize) -> String {
    let s = model::segs(p);
    let n = s.len().max(1) - 1;
    let one = vec![1usize; n];
    let with = |at: usize, w: usize| { let mut v = vec![1usize; n]; if n > 0 { v[at.min(n - 1)] = w; } v };
    match k {
        0 => decorate(&s, 1, &one, 1),
        1 => decorate(&s, 1, &one, 3),
        2 => decorate(&s, 0, &one, 0),
        3 => decorate(&s, 2, &one, 0),
        4 => decorate(&s, 1, &vec![2; n], 0),
        5 => decorate(&s, 1, &with(0, 2), 0),
        6 => decorate(&s, 1, &with(n, 3), 1),
        7 => decorate(&s, 0, &with(n / 2, 2), 2),
        8 => decorate(&s, 4, &vec![3; n], 4),
        _ => decorate(&s, 300, &vec![300; n.min(10)].into_iter().chain(vec![1; n - n.min(10)]).collect::<Vec<_>>(), 300),
    }
}
fn style_ops(ops: &[Op], k: usize) -> Vec<Op> {
    ops.iter()
        .enumerate()
        .map(|(i, o)| {
            // one style for all, or a different one for each
            let k = if k < STYLES { k } else { (i * 3 + k) % STYLES };
            match o {
                Op::Route { m, p, id } => Op::Route { m: *m, p: style(p, k), id: *id },
                Op::MwAt { p, id } => Op::MwAt { p: style(p, k), id: *id },
                Op::Mount { p, ops } => Op::Mount { p: style(p, k), ops: style_ops(ops, k) },
                Op::Scope { name, ops } => Op::Scope { name: style(name, k), ops: style_ops(ops, k) },
                o => o.clone(),
            }
        })
        .collect()
}
type Whole = (String, Vec<Op>, Vec<Op>, Vec<(u8, String)>, Vec<(u8, String)>);
fn whole_programs(t: Tier) -> Arc<Vec<Whole>> {
    let mut base: Vec<(String, Vec<Op>, Vec<(u8, String)>)> = super::surround::op_sets().into_iter().map(|(n, o)| { let r = reqs_of(&o, true); (n.to_string(), o, r) }).collect();
    let (s, p) = (alpha_static(), alpha_params());
    for (a, few) in [(s, ["/a/b", "/a", "/ab", "/a/b/c", "/a/b/c/d", "/b/q", "/abc"]), (p, ["/a/b", "/zz/b", "/a/zz/b", "/zz/a", "/a/b/c", "/ab/q", "/b/q/b/r"])] {
        for (n, c) in combos(&a, 2, &gets(few.iter().map(|x| x.to_string()).collect())).into_iter().chain(if t == Tier::Thorough { combos(&a, 3, &gets(few.iter().map(|x| x.to_string()).collect())) } else { vec![] }) {
            base.push((n, c.ops, c.reqs));
        }
    }
    for (n, p) in tall(&t.pick(vec![16, 33, 65], vec![16, 33, 65, 129, 257])) {
        base.push((n, p.ops, p.reqs.into_iter().take(40).collect()));
    }
    let mut v = vec![];
    for (n, ops, reqs) in base {
        for k in 0..STYLES + 3 {
            let mut plain = vec![];
            let mut deco = vec![];
            for (j, r) in reqs.iter().enumerate() {
                // the same style, and another one
                for q in [k % STYLES, (k + j) % STYLES] {
                    plain.push(r.clone());
                    deco.push((r.0, style(&r.1, q)));
                }
            }
            v.push((format!("{}, style {}", n, k), ops.clone(), style_ops(&ops, k), plain, deco));
        }
    }
    Arc::new(v)
}

pub fn c04(t: Tier) -> Check {
    let pats: Vec<&'static str> = vec!["/", "/a", "/a/b", "/a/:x", "/a/*", "/:x", "/*", "/:x/b", "/a/b/c", "/a/:x/*"];
    let mut progs: Vec<(String, Vec<Op>, Vec<Op>, Vec<(u8, String)>, Vec<(u8, String)>)> = vec![];
    for p in &pats {
        let base_reqs: Vec<String> = requests_for(&[p.to_string(), "/q".into()], false);
        let mut plain = vec![];
        let mut deco = vec![];
        for r in &base_reqs {
            for d in deco_all(r) {
                plain.push((0u8, r.clone()));
                deco.push((0u8, d));
            }
        }
        let forms = deco_all(p);
        for (k, f) in forms.iter().enumerate() {
            let mwform = &forms[(k * 5 + 3) % forms.len()];
            let a = vec![get(p, 1), mw_at(p, 501), Op::Mw { id: 502 }];
            let b = vec![get(f, 1), mw_at(mwform, 501), Op::Mw { id: 502 }];
            progs.push((format!("route {:?} mw {:?}", f, mwform), a, b, plain.clone(), deco.clone()));
            let a = vec![mw_at(p, 501), get(p, 1), route(1, p, 2), get("/q", 3)];
            let b = vec![mw_at(f, 501), get(mwform, 1), route(1, f, 2), get("q//", 3)];
            progs.push((format!("mw first {:?} then {:?}", f, mwform), a, b, plain.clone(), deco.clone()));
        }
        if !p.contains('*') && *p != "/" {
            for f in &forms {
                for inner in ["/", "/b", "/b/:y", "/*"] {
                    let rq: Vec<String> = requests_for(&[format!("{}/{}", p, inner), p.to_string()], false);
                    let mut plain = vec![];
                    let mut deco = vec![];
                    for r in &rq {
                        for d in deco_all(r).into_iter().step_by(3) {
                            plain.push((0u8, r.clone()));
                            deco.push((0u8, d));
                        }
                    }
                    for fi in deco_all(inner).into_iter().step_by(t.pick(3, 1)) {
                        let sub = |x: &str| vec![get(x, 1), mw_at(x, 501), Op::Mw { id: 502 }];
                        progs.push((format!("mount {:?} of {:?}", f, fi), vec![Op::Mount { p: p.to_string(), ops: sub(inner) }], vec![Op::Mount { p: f.clone(), ops: sub(&fi) }], plain.clone(), deco.clone()));
                        if fi == inner {
                            progs.push((format!("scope {:?}", f), vec![Op::Mount { p: p.to_string(), ops: sub(inner) }], vec![Op::Scope { name: f.clone(), ops: sub(&fi) }], plain.clone(), deco.clone()));
                        }
                    }
                }
            }
        }
    }
    // depth ladders with decoration at one gap
    for d in 2..=t.pick(12, 30) {
        let segs: Vec<String> = (0..d).map(|i| format!("s{}", i)).collect();
        let refs: Vec<&str> = segs.iter().map(|s| s.as_str()).collect();
        let p = format!("/{}", segs.join("/"));
        let mut plain = vec![];
        let mut deco = vec![];
        for gap in 0..d - 1 {
            for w in [2usize, 3, 5, 9] {
                let mut seps = vec![1; d - 1];
                seps[gap] = w;
                plain.push((0u8, p.clone()));
                deco.push((0u8, decorate(&refs, 1, &seps, 0)));
            }
        }
        for n in [1usize, 2, 5, 40] {
            plain.push((0, p.clone()));
            deco.push((0, format!("{}{}", p, "/".repeat(n))));
            plain.push((0, p.clone()));
            deco.push((0, format!("{}{}", "/".repeat(n), &p)));
        }
        let a = vec![get(&p, 1), mw_at(&p, 501)];
        for gap in 0..d - 1 {
            let mut seps = vec![1; d - 1];
            seps[gap] = 2;
            let b = vec![get(&decorate(&refs, 1, &seps, 0), 1), mw_at(&decorate(&refs, 2, &[1], 1), 501)];
            progs.push((format!("depth {} gap {}", d, gap), a.clone(), b, plain.clone(), deco.clone()));
        }
    }
    let progs = Arc::new(progs);
    let run = move |progs: &Vec<(String, Vec<Op>, Vec<Op>, Vec<(u8, String)>, Vec<(u8, String)>)>, i: u64, w: &mut W, wire: bool| -> CaseResult {
        PNAMES.with(|p| p.set(XY));
        let (n, a, b, plain, deco) = &progs[i as usize];
        w.st.transitions += (a.len() + b.len()) as u64;
        w.st.traces += 2;
        let keep: Vec<usize> = (0..deco.len()).filter(|k| !wire || (wire_ok(&deco[*k].1) && wire_ok(&plain[*k].1))).collect();
        let rp: Vec<(u8, String)> = keep.iter().map(|k| plain[*k].clone()).collect();
        let rd: Vec<(u8, String)> = keep.iter().map(|k| deco[*k].clone()).collect();
        let (oka, okb) = (mass::build(a), mass::build(b));
        let (sa, sb, sc): (Vec<Option<Seen>>, Vec<Option<Seen>>, Vec<Option<Seen>>) = match (oka, okb) {
            (Ok(ma), Ok(mb)) => {
                if wire {
                    (
                        wire_dispatch(w, a, &rp).into_iter().map(Some).collect(),
                        wire_dispatch(w, b, &rd).into_iter().map(Some).collect(),
                        wire_dispatch(w, a, &rd).into_iter().map(Some).collect(),
                    )
                } else {
                    (ma.ask(w, &rp), mb.ask(w, &rd), ma.ask(w, &rd))
                }
            }
            (Err(_), Err(_)) => return Ok(()),
            (x, _) => return Err(format!("[{}] accepted only {}: {} / {}", n, if x.is_ok() { "without extra slashes" } else { "with extra slashes" }, show_ops(a), show_ops(b))),
        };
        w.state(&(n, a, b));
        w.st.evaluations += 2 * rp.len() as u64;
        for k in 0..rp.len() {
            if let Some(s) = &sa[k] {
                w.outcome(&(&s.handler, &s.params, &s.entered, n));
            }
            for (s, ops) in [(&sb[k], b), (&sc[k], a)] {
                if sa[k].is_some() && s.is_some() && &sa[k] != s {
                    return Err(format!("[{}] slashes matter:\n  {} : {} -> {:?}\n  {} : {} -> {:?}", n, show_ops(a), rp[k].1, sa[k], show_ops(ops), rd[k].1, s));
                }
            }
        }
        w.sample(|| format!("{}: {} == {}", n, show_ops(a), show_ops(b)));
        Ok(())
    };
    let n = progs.len() as u64;
    let (p1, p2) = (progs.clone(), progs);
    let wholes = whole_programs(t);
    let nw = wholes.len() as u64;
    let (w1, w2) = (wholes.clone(), wholes);
    let wire_stride = t.pick(3u64, 1);
    let mut sections = vec![
        section("whole applications in every style", nw, move |i, w| run(&w1, i, w, false)),
        section("whole applications in every style over the wire", nw / wire_stride, move |i, w| run(&w2, i * wire_stride, w, true)),
        section("decorated registrations and requests", n, move |i, w| run(&p1, i, w, false)),
        section("decorated registrations and requests over the wire", n, move |i, w| run(&p2, i, w, true)),
    ];
    sections.extend(crate::checks::statics::slash_sections(t));
    Check {
        id: "C04",
        level: "model_checking",
        rule: "every pattern x every decoration of the registered path, middleware path and mount path (0-3 leading, 1-3 between, 0-3 trailing slashes) x every decoration of every request; compared with the undecorated program on the real code (metamorphic)".into(),
        assumptions: base_assumptions(),
        sections,
    }
}

// ---------------------------------------------------------------- C05

pub fn c05(t: Tier) -> Check {
    fn verdicts(name: &str, alphabet: Vec<Op>, depth: usize) -> Section {
        let k = alphabet.len() as u64;
        let a = Arc::new(alphabet);
        section(&format!("{} (depth {}, {} registrations)", name, depth, k), k * k, move |idx, w| {
            let (i, j) = ((idx / k) as usize, (idx % k) as usize);
            fn go(w: &mut W, ops: &mut Vec<Op>, node: &Node, m: &Mass, op: &Op, a: &[Op], left: usize, forced: Option<usize>) -> CaseResult {
                let mut n2 = node.clone();
                let model = n2.apply(op);
                let real = m.extend(op);
                w.st.transitions += 1;
                w.st.evaluations += 1;
                ops.push(op.clone());
                w.outcome(&(&model, op));
                let r = match (&model, &real) {
                    (Ok(()), Err(e)) => Err(format!("registrations: {}\nthe last one must be accepted but panics: {}", show_ops(ops), e)),
                    (Err(e), Ok(_)) => Err(format!("registrations: {}\nthe last one must be rejected ({:?}) but is accepted", show_ops(ops), e)),
                    _ => Ok(()),
                };
                r?;
                if let Ok(m2) = real {
                    w.state(&n2.canon());
                    w.st.traces += 1;
                    if left > 1 {
                        match forced {
                            Some(j) => go(w, ops, &n2, &m2, &a[j], a, left - 1, None)?,
                            None => {
                                for o in a {
                                    go(w, ops, &n2, &m2, o, a, left - 1, None)?;
                                }
                            }
                        }
                    }
                }
                ops.pop();
                Ok(())
            }
            go(w, &mut vec![], &Node::default(), &Mass::new(), &a[i], &a, depth, Some(j))
        })
    }
    let wide = |p: &[&str]| -> Vec<Op> { p.iter().enumerate().map(|(i, p)| get(p, i as u32)).collect() };
    let mut a1 = wide(&["/", "/a", "/ab", "/abc", "/b", "/a/b", "/ab/b", "/:x", "/:y", "/a/:x", "/a/:y", "/ab/:x", "/*", "/a/*", "/a/b/*", "/a/:x/*", "/a:x", "/a:y", "/a/b:x", "/:x/a", "/:x/:y", "/:x/*"]);
    a1.extend(mws(&["/", "/a", "/a/:x", "/:x", "/*", "/ab", "/a/*"]));
    a1.extend([route(1, "/", 90), route(1, "/a", 91), route(4, "/a/:x", 92), route(3, "/*", 93)]);
    a1.push(Op::Mw { id: 700 });
    let mut bad = wide(&["/a*", "/*a", "/**", "/*/a", "/a/*/b", "/a/b*c/d", "/*/*", "/a/x*", "/é*", "/:*", "/:x*", "*", "a*b", "/*/"]);
    bad.extend(mws(&["/a*", "/*/b", "/**", "/b/*x", "/a/*/c"]));
    for p in ["/a*", "/*/b", "/**", "/m*"] {
        bad.push(Op::Mount { p: p.into(), ops: vec![get("/z", 1)] });
    }
    let mut a2 = a1.clone();
    a2.extend(bad.clone());
    let mounts: Vec<Op> = ["/", "/a", "/ab", "/a/b", "/:x", "/a/:x", ""]
        .iter()
        .flat_map(|p| {
            vec![
                Op::Mount { p: p.to_string(), ops: vec![get("/b", 1)] },
                Op::Mount { p: p.to_string(), ops: vec![Op::Mw { id: 1 }] },
                Op::Mount { p: p.to_string(), ops: vec![get("/:x", 1), get("/", 2)] },
                Op::Scope { name: p.trim_start_matches('/').to_string(), ops: vec![get("/*", 1)] },
            ]
        })
        .collect();
    let mut a3 = wide(&["/", "/a", "/ab", "/a/b", "/a/:x", "/:x", "/*", "/a/*", "/abc", "/a/b/c", "/a/b/:x"]);
    a3.extend(mounts.clone());
    a3.extend([mw_at("/a", 500), mw_at("/a/b", 501), Op::Mw { id: 502 }, mw_at("/", 503)]);
    a3.push(Op::Mount { p: "/a".into(), ops: vec![get("/d", 1), get("/d", 2)] });
    a3.push(Op::Mount { p: "/a".into(), ops: vec![get("/:x", 1), get("/d", 2)] });
    a3.push(Op::Mount { p: "/c".into(), ops: vec![] });
    a3.push(Op::Mount { p: "/c".into(), ops: vec![get("/d", 7)] });
    let odd = { let mut v = alpha_odd(); v.extend(wide(&["/é:x", "/éb", "/é/:y", "/日:本", "/日/:y", "/:é", "/:x"])); v };
    let mut sections = vec![
        verdicts("routes, middleware and malformed paths", a2, t.pick(4, 5)),
        verdicts("routes and middleware", a1, t.pick(4, 5)),
        verdicts("mounts", a3, t.pick(4, 5)),
        verdicts("unusual characters", odd, t.pick(4, 5)),
        verdicts("prefix relations", wide(&["/u", "/us", "/use", "/u/:i", "/us/:i", "/u/s", "/u/*", "/us/*", "/user", "/u/:i/s", "/u:i", "/u/s/:i"]), t.pick(5, 6)),
    ];
    // method tables: all pairs/triples of (method, path)
    let mm: Vec<Op> = ["/", "/a", "/:x", "/*", "/a/:x"].iter().enumerate().flat_map(|(i, p)| (0..5u8).map(move |m| route(m, p, (i * 5 + m as usize) as u32))).collect();
    sections.push(verdicts("methods", mm, t.pick(4, 5)));
    // every set of methods on one path, in two orders, then every method once more
    let places: Vec<Box<dyn Fn(Vec<Op>) -> Vec<Op> + Send + Sync>> = vec![Box::new(|o| o), Box::new(|o| vec![Op::Mount { p: "/m".into(), ops: o }]), Box::new(|o| vec![Op::Scope { name: "s".into(), ops: o }])];
    let at = ["/", "/a", "/:x", "/*", "/a/:x", "/a/*", "/a/b/c", "/:x/:y", "/é"];
    let np = (places.len() * at.len()) as u64;
    let with = [None, Some("mw before"), Some("mw after"), Some("neighbours")];
    sections.push(section("every set of methods, then every method again", np * 32 * 4, move |idx, w| {
        let (pl, rest) = ((idx % np) as usize, idx / np);
        let (place, p) = (&places[pl / at.len()], at[pl % at.len()]);
        let (set, with) = ((rest % 32) as u8, with[(rest / 32) as usize]);
        for rev in [false, true] {
            let mut ops: Vec<Op> = vec![];
            if with == Some("mw before") {
                ops.push(mw_at(p, 900));
            }
            let mut ms: Vec<u8> = (0..5).filter(|m| set >> m & 1 == 1).collect();
            if rev {
                ms.reverse();
            }
            ops.extend(ms.iter().map(|m| route(*m, p, *m as u32)));
            if with == Some("mw after") {
                ops.push(mw_at(p, 900));
            }
            if with == Some("neighbours") {
                for q in ["/a", "/a/b", "/ab"] {
                    if model::run(&[ops.clone(), vec![route(1, q, 800)]].concat()).is_ok() {
                        ops.push(route(1, q, 800));
                    }
                }
            }
            let all = place(ops.clone());
            mass::build(&all).map_err(|(k, e)| format!("registration {} of: {}\nmust be accepted but panics: {}", k, show_ops(&all), e))?;
            w.state(&model::run(&all).unwrap().canon());
            w.st.traces += 1;
            w.st.transitions += ops.len() as u64;
            for again in 0..5u8 {
                let all = place([ops.clone(), vec![route(again, p, 77)]].concat());
                let (want, got) = (model::run(&all).is_ok(), mass::build(&all).is_ok());
                w.st.transitions += 1;
                w.st.evaluations += 1;
                if want != got {
                    return Err(format!("registrations {}\nthe last must be {}", show_ops(&all), if want { "accepted" } else { "rejected" }));
                }
            }
        }
        Ok(())
    }));
    // every accepted ladder program must be accepted, and each of its routes be a duplicate afterwards
    let lad = Arc::new(ladders(t.pick(16, 32)));
    let n = lad.len() as u64;
    sections.push(section("size ladders: acceptance, then every repetition rejected", n, move |i, w| {
        let (name, p) = &lad[i as usize];
        let m = mass::build(&p.ops).map_err(|(k, e)| format!("[{}] registration {} of: {}\nmust be accepted but panics: {}", name, k, show_ops(&p.ops), e))?;
        w.st.traces += 1;
        w.st.transitions += p.ops.len() as u64;
        let node = model::run(&p.ops).unwrap();
        w.state(&node.canon());
        for o in &p.ops {
            let mut n2 = node.clone();
            let want = n2.apply(o).is_ok();
            let got = m.extend(o).is_ok();
            w.st.transitions += 1;
            w.st.evaluations += 1;
            if want != got {
                return Err(format!("[{}] after {}\nrepeating {} must be {}", name, show_ops(&p.ops), show_ops(&[o.clone()]), if want { "accepted" } else { "rejected" }));
            }
            // a parameter beside the last literal segment of this path must be rejected, a longer literal accepted
            if let Op::Route { p: path, .. } = o {
                let mut s: Vec<String> = model::segs(path).iter().map(|x| x.to_string()).collect();
                if let Some(l) = s.pop() {
                    for alt in [":other".to_string(), format!("{}~", l), format!("{}~", &l[..l.len().min(1)]), "*".to_string()] {
                        let mut q = s.clone();
                        q.push(alt);
                        let op = route(4, &format!("/{}", q.join("/")), 9999);
                        let mut n2 = node.clone();
                        let want = n2.apply(&op).is_ok();
                        let got = m.extend(&op).is_ok();
                        w.st.transitions += 1;
                        w.st.evaluations += 1;
                        if want != got {
                            return Err(format!("[{}] after {}\n{} must be {}", name, show_ops(&p.ops), show_ops(&[op]), if want { "accepted" } else { "rejected" }));
                        }
                    }
                }
            }
        }
        Ok(())
    }));
    let tl = Arc::new(tall(&t.pick(vec![16, 32, 33, 64, 65, 100, 128, 129, 256, 257], tall_sizes(t))));
    let n = tl.len() as u64;
    sections.push(section("large sizes: acceptance, then repetitions and neighbours", n, move |i, w| {
        let (name, p) = &tl[i as usize];
        let m = mass::build(&p.ops).map_err(|(k, e)| format!("[{}] registration {}, {}, must be accepted but panics: {}", name, k, show_ops(&p.ops[k..=k]), e))?;
        w.st.traces += 1;
        w.st.transitions += p.ops.len() as u64;
        let node = model::run(&p.ops).unwrap();
        w.state(&node.canon());
        let step = (p.ops.len() / 6).max(1);
        for o in p.ops.iter().step_by(step).chain(p.ops.last()) {
            let mut more = vec![o.clone()];
            if let Op::Route { p: path, .. } | Op::MwAt { p: path, .. } = o {
                let s: Vec<String> = model::segs(path).iter().map(|x| x.to_string()).collect();
                for at in [0, s.len() / 2, s.len().max(1) - 1] {
                    if at >= s.len() {
                        continue;
                    }
                    for alt in [":other".to_string(), format!("{}~", s[at]), "*".to_string(), format!("{}*", s[at])] {
                        let mut q = s.clone();
                        q[at] = alt;
                        more.push(route(4, &format!("/{}", q.join("/")), 9999));
                        q.truncate(at + 1);
                        more.push(mw_at(&format!("/{}", q.join("/")), 9999));
                        more.push(Op::Mount { p: format!("/{}", q.join("/")), ops: vec![get("/new", 9999)] });
                    }
                }
            }
            for op in more {
                // a mount at or under `*` is left open
                if matches!(&op, Op::Mount { p, .. } if p.contains('*')) {
                    continue;
                }
                let mut n2 = node.clone();
                let want = n2.apply(&op).is_ok();
                let got = m.extend(&op).is_ok();
                w.st.transitions += 1;
                w.st.evaluations += 1;
                if want != got {
                    return Err(format!("[{}] after its {} registrations, {} must be {}", name, p.ops.len(), show_ops(&[op]), if want { "accepted" } else { "rejected" }));
                }
            }
        }
        Ok(())
    }));
    let pairs = word_pairs();
    let np = pairs.len() as u64;
    sections.push(section("all pairs of segment texts", np, move |i, w| {
        let (a, b) = &pairs[i as usize];
        for ops in pair_programs(a, b) {
            let want = model::run(&ops);
            let got = mass::build(&ops);
            w.st.transitions += 2;
            w.st.traces += 1;
            w.st.evaluations += 1;
            w.state(&ops);
            match (&want, &got) {
                (Ok(_), Err((k, e))) => return Err(format!("registrations: {}\nmust be accepted, but number {} panics: {}", show_ops(&ops), k, e)),
                (Err((k, why)), Ok(_)) => return Err(format!("registrations: {}\nnumber {} must be rejected ({:?})", show_ops(&ops), k, why)),
                _ => {}
            }
        }
        Ok(())
    }));
    let voc = Arc::new(names::named(t));
    let nv = voc.len() as u64;
    sections.push(section("vocabulary of segment texts", nv, move |i, w| {
        let c = &voc[i as usize];
        let want = model::run(&c.program.ops).map(|_| ()).map_err(|e| e.0);
        let got = mass::build(&c.program.ops).map(|_| ()).map_err(|e| e.0);
        w.st.transitions += c.program.ops.len() as u64;
        w.st.traces += 1;
        w.st.evaluations += 1;
        w.state(&c.name);
        if want != got {
            return Err(format!("[{}] registrations: {}\nexpected {:?}, got {:?} (Err: number of the rejected registration)", c.name, show_ops(&c.program.ops), want, got));
        }
        Ok(())
    }));
    // the App front end
    let app_alpha: Vec<Op> = {
        let mut v = wide(&["/", "/a", "/ab", "/:x", "/a/:x", "/*", "/a*", "/*/b", "/a/b"]);
        v.extend(mws(&["/a", "/a*", "/:x"]));
        v.extend(mounts.into_iter().step_by(3));
        v.push(route(1, "/a", 91));
        v.push(route(4, "/a", 92));
        v.push(route(2, "/a", 93));
        v.push(route(3, "/a", 94));
        v
    };
    let k = app_alpha.len() as u64;
    sections.push(section("App front end, all triples", k * k * k, move |idx, w| {
        let ops = vec![app_alpha[(idx / k / k) as usize].clone(), app_alpha[(idx / k % k) as usize].clone(), app_alpha[(idx % k) as usize].clone()];
        let want = model::run(&ops).is_ok();
        let got = may_panic(|| drop(build_app(&ops)));
        w.st.transitions += 3;
        w.st.traces += 1;
        w.st.evaluations += 1;
        if want != got.is_ok() {
            return Err(format!("App registrations: {}\nmust be {}: {:?}", show_ops(&ops), if want { "accepted" } else { "rejected" }, got));
        }
        Ok(())
    }));
    Check {
        id: "C05",
        level: "model_checking",
        rule: "every registration sequence over the alphabets (well-formed, conflicting and malformed routes, middleware and mounts) up to the stated depth, extended while accepted; verdict of each step (panic or not) compared with the accept/reject model".into(),
        assumptions: vec!["a rejection is a panic of the registration call; state after a rejected call is not examined".into()],
        sections,
    }
}

// ---------------------------------------------------------------- C06

pub fn c06(t: Tier) -> Check {
    let mut a = routes(&["/", "/a", "/ab", "/a/b", "/a/*", "/a/b/c", "/*"]);
    a.extend(mws(&["/", "/a", "/ab", "/a/b", "/a/*", "/a/b/c", "/b", "/*"]));
    a.push(Op::Mw { id: 600 });
    let mut b = routes(&["/:x", "/a/:x", "/a/:x/b", "/:x/b", "/ab/:x", "/a"]);
    b.extend(mws(&["/:x", "/a/:x", "/a/:x/b", "/a", "/ab", "/:x/b", "/ab/:x"]));
    b.push(Op::Mw { id: 600 });
    let mut c = routes(&["/u/:id", "/us", "/u/p", "/u/*", "/up/p"]);
    c.extend(mws(&["/u", "/us", "/up", "/u/:id", "/u/p", "/u/*"]));
    c.push(Op::Mount { p: "/m".into(), ops: vec![Op::Mw { id: 700 }, get("/a", 70), mw_at("/a", 701), get("/*", 71), get("/", 72)] });
    c.push(Op::Mount { p: "/u/q".into(), ops: vec![Op::Mw { id: 710 }, get("/a", 73), Op::Mount { p: "/r".into(), ops: vec![Op::Mw { id: 711 }, get("/a", 74), mw_at("/", 712)] }] });
    c.push(mw_at("/m/a", 720));
    c.push(mw_at("/u/q/r", 721));
    let rc = reqs_of(&c, true);
    let mut sections = vec![
        sequences("literal and wildcard", a.clone(), t.pick(4, 5), reqs_of(&a, true), XY, a_mws),
        sequences("parameters", b.clone(), t.pick(4, 5), reqs_of(&b, true), XY, a_mws),
        sequences("mounts", c.clone(), t.pick(3, 5), rc.clone(), XY, a_mws),
        programs("size ladders", ladders(t.pick(14, 40)), LADDER_PARAMS, a_mws, false),
        programs("size ladders", ladders(t.pick(12, 40)), LADDER_PARAMS, a_mws, true),
        programs("large sizes", tall(&tall_sizes(t)), tall_params(), a_mws, false),
        programs("large sizes", tall(&t.pick(vec![33, 65, 129, 257], tall_sizes(t))), tall_params(), a_mws, true),
        programs("pairs of literal and wildcard", combos(&a, 2, &reqs_of(&a, true)), XY, a_mws, true),
        programs("pairs of parameters", combos(&b, 2, &reqs_of(&b, true)), XY, a_mws, true),
        programs("pairs with mounts", combos(&c, 2, &rc), XY, a_mws, true),
    ];
    // k middleware at each of several levels, every count vector
    let lv = ["", "/a", "/a/b", "/a/b/c"];
    let m = t.pick(3u32, 5);
    let base = m + 1;
    let mut progs = vec![];
    for code in 0..base.pow(4) {
        for order in 0..3 {
            let cnt: Vec<u32> = (0..4).map(|i| code / base.pow(i) % base).collect();
            let mut ops = vec![];
            for (i, c) in cnt.iter().enumerate() {
                for k in 0..*c {
                    ops.push(if i == 0 { Op::Mw { id: 1000 + k } } else { mw_at(lv[i], 1000 + 100 * i as u32 + k) });
                }
            }
            let r = vec![get("/a", 1), get("/a/b", 2), get("/a/b/c", 3), get("/a/b/c/*", 4), get("/ab", 5)];
            match order {
                0 => ops.extend(r),
                1 => { let mut x = r; x.extend(ops); ops = x }
                _ => { let cut = ops.len() / 2; let tail = ops.split_off(cut); ops.extend(r); ops.extend(tail); }
            }
            let reqs = gets(["/", "/a", "/a/b", "/a/b/c", "/a/b/c/d", "/ab", "/abc", "/a/c"].iter().map(|s| s.to_string()).collect());
            progs.push((format!("counts {:?} order {}", cnt, order), Program { ops, reqs }));
        }
    }
    sections.push(programs("count vectors", progs, XY, a_mws, false));
    sections.push(vocabulary(t, a_mws, false));
    sections.push(vocabulary(t, a_mws, true));
    sections.extend(super::surround::sections(t, a_mws));
    Check {
        id: "C06",
        level: "model_checking",
        rule: "every sequence of routes, middleware placements and mounts over the alphabets up to the stated depth x every request incl. near misses; the ordered list of middleware entered is compared with the model; plus count vectors and size ladders".into(),
        assumptions: base_assumptions(),
        sections,
    }
}

// ---------------------------------------------------------------- C08

fn pre(p: &str, q: &str) -> String {
    format!("{}/{}", p, q)
}

/// The same program with every mount dissolved into prefixed registrations.
pub fn flatten(prefix: &str, ops: &[Op]) -> Vec<Op> {
    let mut v = vec![];
    for o in ops {
        match o {
            Op::Route { m, p, id } => v.push(route(*m, &pre(prefix, p), *id)),
            Op::MwAt { p, id } => v.push(mw_at(&pre(prefix, p), *id)),
            Op::Mw { id } => v.push(if prefix.is_empty() { Op::Mw { id: *id } } else { mw_at(prefix, *id) }),
            Op::Mount { p, ops } => v.extend(flatten(&pre(prefix, p), ops)),
            Op::Scope { name, ops } => v.extend(flatten(&pre(prefix, name), ops)),
        }
    }
    v
}

pub fn c08(t: Tier) -> Check {
    type Case = (Vec<Op>, Vec<Op>);
    let mut cases: Vec<Case> = vec![];
    let inner: Vec<Op> = {
        let mut v = routes(&["/", "/a", "/b", "/a/b", "/:x", "/a/:x", "/*", "/a/*", "/ab"]);
        v.extend(mws(&["/", "/a", "/:x", "/*"]));
        v.push(Op::Mw { id: 600 });
        v.push(route(1, "/a", 61));
        v.push(Op::Mount { p: "/n".into(), ops: vec![get("/", 30), get("/a", 31), get("/:y", 32), Op::Mw { id: 630 }].into_iter().take(2).chain([Op::Mw { id: 630 }]).collect() });
        v.push(Op::Scope { name: "s".into(), ops: vec![get("/:y", 33), mw_at("/:y", 631), Op::Mw { id: 632 }] });
        v
    };
    let prefixes = ["/p", "/p/q", "/:v", "/p/:v", "p", "/ab", "/p/q/r", "/:v/p"];
    let outer_before: Vec<Vec<Op>> = vec![vec![], vec![get("/", 80)], vec![get("/pa", 81)], vec![Op::Mw { id: 680 }], vec![get("/p/z", 82)], vec![get("/*", 83)], vec![get("/a", 84), mw_at("/a", 681)], vec![get("/pq/:k", 85)]];
    let outer_after: Vec<Vec<Op>> = vec![vec![], vec![get("/p/c", 90)], vec![mw_at("/p", 690)], vec![get("/pz", 91)], vec![Op::Mw { id: 691 }], vec![get("/p/q/c", 92), mw_at("/p/q/a", 692)], vec![Op::Mount { p: "/o".into(), ops: vec![get("/a", 93), Op::Mw { id: 693 }] }], vec![mw_at("/p/a", 694)]];
    let n = inner.len();
    for i in 0..n {
        for j in 0..=n {
            let mut sub = vec![inner[i].clone()];
            if j < n {
                sub.push(inner[j].clone());
            }
            if model::run(&sub).is_err() {
                continue;
            }
            for p in prefixes {
                for (bi, b) in outer_before.iter().enumerate() {
                    for (ai, a) in outer_after.iter().enumerate() {
                        if t == Tier::Quick && bi != 0 && ai != 0 && (bi + ai + i + j) % 3 != 0 {
                            continue;
                        }
                        let mut ops = b.clone();
                        ops.push(Op::Mount { p: p.to_string(), ops: sub.clone() });
                        ops.extend(a.clone());
                        cases.push((ops.clone(), flatten("", &ops)));
                    }
                }
            }
        }
    }
    // three-op sub routers, three levels of nesting
    let lvl: Vec<Vec<Op>> = {
        let mut v = vec![];
        for i in 0..n {
            for j in 0..n {
                for k in 0..n {
                    if t == Tier::Quick && (i + 2 * j + 3 * k) % 4 != 0 {
                        continue;
                    }
                    let sub = vec![inner[i].clone(), inner[j].clone(), inner[k].clone()];
                    if model::run(&sub).is_ok() {
                        v.push(sub);
                    }
                }
            }
        }
        v
    };
    for sub in &lvl {
        for (p1, p2, p3) in [("/p", "/q", "/r"), ("/p", "/:v", "/q"), ("/x1", "/x", "/x"), ("/a", "/a", "/a")] {
            let m3 = vec![Op::Mount { p: p3.into(), ops: sub.clone() }, Op::Mw { id: 803 }, get("/side", 95)];
            let m2 = vec![get("/s2", 96), Op::Mount { p: p2.into(), ops: m3 }];
            let m1 = vec![Op::Mw { id: 801 }, Op::Mount { p: p1.into(), ops: m2 }, mw_at(p1, 802)];
            cases.push((m1.clone(), flatten("", &m1)));
        }
    }
    // several mounts next to each other whose prefixes share characters, in every order
    let names = ["/p", "/pa", "/pab", "/q", "/p2"];
    for perm in perms(t.pick(4, 5)) {
        for s in 0..inner.len() {
            let ops: Vec<Op> = perm
                .iter()
                .enumerate()
                .map(|(k, i)| Op::Mount { p: names[*i].into(), ops: vec![inner[(s + k) % n].clone(), get("/z", 40 + *i as u32), Op::Mw { id: 650 + *i as u32 }] })
                .collect();
            if model::run(&ops).is_ok() {
                cases.push((ops.clone(), flatten("", &ops)));
            }
        }
    }
    // nothing is lost when a mount meets existing registrations: accepted => equal to flattened, else rejected
    for p in ["/", "", "//", "/p", "/p/a", "/:v"] {
        for b in &outer_before {
            for i in 0..n {
                for mounts in 1..=2 {
                    let mut ops = b.clone();
                    for k in 0..mounts {
                        ops.push(Op::Mount { p: p.to_string(), ops: vec![inner[(i + k * 5) % n].clone()] });
                    }
                    cases.push((ops.clone(), flatten("", &ops)));
                }
            }
        }
    }
    // depth ladder
    for d in 1..=t.pick(12, 30) {
        let mut cur = vec![get("/leaf", 1), get("/w/*", 2), get("/q/:x", 3), Op::Mw { id: 700 }, get("/", 4)];
        for k in 0..d {
            cur = vec![Op::Mount { p: format!("/n{}", k), ops: cur }, Op::Mw { id: 701 + k as u32 }, get("/side", 10 + k as u32)];
        }
        cases.push((cur.clone(), flatten("", &cur)));
        let wide: Vec<Op> = (0..d).map(|k| Op::Mount { p: format!("/n{}", "n".repeat(k)), ops: vec![get("/a", k as u32), Op::Mw { id: 700 + k as u32 }, get("/b/:x", 100 + k as u32)] }).collect();
        cases.push((wide.clone(), flatten("", &wide)));
    }
    for (n, p) in tall(&t.pick(vec![16, 33, 64, 129], vec![16, 33, 64, 129, 257, 513])) {
        if n.contains("mount") || n.contains("scopes") {
            cases.push((p.ops.clone(), flatten("", &p.ops)));
        }
    }
    // a fan of paths in the sub-router, with a wildcard registered before, among or after them
    for d in (0..=t.pick(24u32, 70)).chain(crate::dict::sizes(vec![33, 65], 300).into_iter().map(|x| x as u32)) {
        let alpha: Vec<char> = "kbzaYMcx0_qdvNeR9-hgAfUiTwjSlBmnCoDpErFsGtHuIJKLOPQVWXZ12345678~".chars().collect();
        let fan: Vec<String> = (0..d).map(|i| alpha.get(i as usize).map(|c| c.to_string()).unwrap_or_else(|| char::from_u32(0x4e00 + i).unwrap().to_string())).collect();
        for at in BTreeSet::from([0, 1.min(d), d / 2, d]) {
            for kind in 0..3 {
                let mut sub: Vec<Op> = fan.iter().enumerate().map(|(i, s)| get(&if kind == 1 { format!("/{}/:v", s) } else { format!("/{}", s) }, i as u32)).collect();
                sub.insert(at as usize, get("/*", 9000));
                if kind == 2 {
                    sub.push(Op::Mw { id: 700 });
                    sub.push(mw_at(&format!("/{}", fan.last().map(|x| &x[..]).unwrap_or("k")), 701));
                }
                let p = ["/m", "/", "/m/:p", "/m/n"][(d as usize + at as usize + kind) % 4];
                let nested = vec![Op::Mount { p: p.into(), ops: sub }];
                cases.push((nested.clone(), flatten("", &nested)));
            }
        }
    }
    // a rich sub-router root: any number of router-wide middleware x any set of methods x anything below
    for k in (0..=t.pick(4u32, 8)).chain([9, 17, 33]) {
        for set in 0..32u32 {
            if k > 4 && set.count_ones() > 1 && set != 31 {
                continue;
            }
            let below: Vec<Vec<Op>> = vec![
                vec![],
                vec![get("/a", 70), mw_at("/a", 570)],
                vec![get("/:x", 71)],
                vec![get("/*", 72), mw_at("/*", 572)],
                vec![mw_at("/b", 573), mw_at("/b", 574), mw_at("/b", 575)],
                vec![Op::Mount { p: "/n".into(), ops: vec![Op::Mw { id: 576 }, Op::Mw { id: 577 }, route(1, "/", 73), get("/k", 74)] }],
                vec![Op::Scope { name: "s".into(), ops: vec![Op::Mw { id: 578 }, Op::Mw { id: 579 }, Op::Mw { id: 580 }] }],
            ];
            for (bi, b) in below.iter().enumerate() {
                let mut sub: Vec<Op> = b.clone();
                for m in 0..5u8 {
                    if set >> m & 1 == 1 {
                        sub.push(route(m, "/", 10 + m as u32));
                    }
                }
                for j in 0..k {
                    // before, among and after
                    let at = (j as usize * 3 + bi) % (sub.len() + 1);
                    sub.insert(at, Op::Mw { id: 600 + j });
                }
                let p = ["/m", "/m/n", "/:p", "/", "/m/:p"][(k as usize + set as usize + bi) % 5];
                let nested = vec![Op::Mount { p: p.into(), ops: sub.clone() }];
                if model::run(&nested).is_ok() {
                    cases.push((nested.clone(), flatten("", &nested)));
                }
                if bi % 2 == 0 {
                    let nested = vec![Op::Scope { name: "sc".into(), ops: sub }, get("/other", 90), mw_at("/other", 590), mw_at("/", 591)];
                    if model::run(&nested).is_ok() {
                        cases.push((nested.clone(), flatten("", &nested)));
                    }
                }
            }
        }
    }
    let before_words = cases.len() as u64;
    for c in names::named(t) {
        if c.program.ops.iter().any(|o| matches!(o, Op::Mount { .. } | Op::Scope { .. })) && model::run(&c.program.ops).is_ok() {
            cases.push((c.program.ops.clone(), flatten("", &c.program.ops)));
        }
    }
    let cases = Arc::new(cases);
    fn run(cases: &[Case], i: u64, w: &mut W, wire: bool) -> CaseResult {
        PNAMES.with(|p| p.set(&["x", "y", "v", "k", "z"]));
        let (nested, flat) = &cases[i as usize];
        w.st.transitions += (nested.len() + flat.len()) as u64;
        let rn = mass::build(nested);
        let mn = match rn {
            Ok(m) => m,
            Err((_, e)) => {
                // full effect or rejected; wrongly rejected programs are C05's business, but a program that the
                // documented rules accept must not be refused here either
                if model::run(nested).is_ok() {
                    return Err(format!("mount refused although nothing conflicts: {}\n{}", show_ops(nested), e));
                }
                w.outcome(&"rejected");
                return Ok(());
            }
        };
        let mf = match mass::build(flat) {
            Ok(m) => m,
            Err((k, e)) => return Err(format!("mounted form accepted: {}\nbut the flattened form is rejected at registration {}: {}\n{}", show_ops(nested), k, show_ops(flat), e)),
        };
        let mut paths: BTreeSet<String> = BTreeSet::new();
        for q in requests_for(&paths_of(flat), flat.len() < 8) {
            paths.insert(q);
        }
        let mut reqs = gets(paths.into_iter().collect());
        let used: BTreeSet<u8> = flat.iter().filter_map(|o| if let Op::Route { m, .. } = o { Some(*m) } else { None }).chain([1u8]).collect();
        for p in paths_of(flat) {
            for m in &used {
                if *m != 0 {
                    reqs.push((*m, p.clone()));
                }
            }
        }
        if wire {
            reqs.retain(|r| wire_ok(&r.1));
        }
        w.state(&flat);
        w.st.traces += 2;
        w.st.evaluations += reqs.len() as u64;
        let (a, b): (Vec<Option<Seen>>, Vec<Option<Seen>>) = if wire {
            let a = wire_dispatch(w, nested, &reqs).into_iter().map(Some).collect();
            let b = wire_dispatch(w, flat, &reqs).into_iter().map(Some).collect();
            (a, b)
        } else {
            (mn.ask(w, &reqs), mf.ask(w, &reqs))
        };
        for k in 0..reqs.len() {
            if let Some(s) = &a[k] {
                w.outcome(&(&s.handler, &s.params, &s.entered));
            }
            if a[k] != b[k] {
                return Err(format!("{} {} differs\n  mounted:   {}\n    -> {:?}\n  flattened: {}\n    -> {:?}", METHODS[reqs[k].0 as usize], reqs[k].1, show_ops(nested), a[k], show_ops(flat), b[k]));
            }
        }
        w.sample(|| format!("{} == {}", show_ops(nested), show_ops(flat)));
        Ok(())
    }
    let n = cases.len() as u64;
    let (c1, c2, c3) = (cases.clone(), cases.clone(), cases);
    let stride = t.pick(7u64, 1);
    let mut sections = vec![
        section("nested == flattened", n, move |i, w| run(&c1, i, w, false)),
        section("nested == flattened over the wire (App::scope/use_router)", before_words / stride, move |i, w| run(&c2, i * stride, w, true)),
        section("nested == flattened over the wire, segment texts", n - before_words, move |i, w| run(&c3, before_words + i, w, true)),
    ];
    sections.extend(crate::checks::statics::mount_sections(t));
    Check {
        id: "C08",
        level: "model_checking",
        rule: "every sub-router program over the alphabet (up to 3 registrations, 3 nesting levels) x mount prefix x outer registrations before and after; the real mounted application is compared request by request with the real flattened one (metamorphic); a mount is either equal to its flattened form or rejected".into(),
        assumptions: base_assumptions(),
        sections,
    }
}

// ---------------------------------------------------------------- C09

pub fn c09(t: Tier) -> Check {
    let mut sections = vec![];
    // arrangements: every ordered subset of the five methods
    let mut arr: Vec<Vec<u8>> = vec![];
    fn go(cur: &mut Vec<u8>, out: &mut Vec<Vec<u8>>) {
        out.push(cur.clone());
        for m in 0..5u8 {
            if !cur.contains(&m) {
                cur.push(m);
                go(cur, out);
                cur.pop();
            }
        }
    }
    go(&mut vec![], &mut arr);
    let pats = ["/", "/a", "/a/b", "/:x", "/*", "/a/:x", "/a/*"];
    let mut meths: Vec<&'static str> = vec!["GET", "POST", "PUT", "PATCH", "DELETE", "HEAD", "OPTIONS", "TRACE", "FOO", "get", "GETT", "GE", "PROPFIND"];
    // every registered method name (CONNECT opens a tunnel and is left out), other spellings of the usual ones, and the names the code mentions
    meths.extend("QUERY SEARCH REPORT COPY MOVE LOCK UNLOCK MKCOL MKCALENDAR MKACTIVITY MKREDIRECTREF MKWORKSPACE PROPPATCH LINK UNLINK BIND REBIND UNBIND ACL CHECKIN CHECKOUT UNCHECKOUT UPDATE UPDATEREDIRECTREF LABEL MERGE ORDERPATCH BASELINE-CONTROL VERSION-CONTROL PURGE VIEW BREW NOTIFY SUBSCRIBE UNSUBSCRIBE SOURCE post put patch delete head options Get Post Put Patch Delete POS PUTT PATCHES DELETED GET_ GET- XGET P".split(' '));
    meths.extend(crate::dict::new_words().into_iter().filter(|w| w.len() < 30 && w.bytes().all(|b| b.is_ascii_alphanumeric() || b == b'-' || b == b'_') && w != "CONNECT" && w != "PRI").take(40).map(|w| &*Box::leak(w.into_boxed_str())));
    let np = pats.len() as u64;
    let na = arr.len() as u64;
    let variants = 4u64;
    let arr = Arc::new(arr);
    let a2 = arr.clone();
    sections.push(section("ordered method subsets x patterns x request methods over the wire", na * np * variants, move |i, w| {
        let (ai, pi, var) = ((i / variants / np) as usize, (i / variants % np) as usize, i % variants);
        let p = pats[pi];
        let mut ops: Vec<Op> = a2[ai].iter().map(|m| route(*m, p, 10 + *m as u32)).collect();
        match var {
            1 => {
                // a neighbour whose methods are the complement
                for m in 0..5u8 {
                    if !a2[ai].contains(&m) {
                        ops.push(route(m, "/a/b/c", 20 + m as u32));
                    }
                }
            }
            2 => {
                ops.insert(0, mw_at(p, 500));
                ops.insert(0, Op::Mw { id: 501 });
            }
            3 => {
                // the same table under a mount, with a second table elsewhere
                let inner = ops.clone();
                ops = vec![Op::Mount { p: "/m".into(), ops: inner }, route(0, "/mm", 30)];
            }
            _ => {}
        }
        let node = match model::run(&ops) {
            Ok(n) => n,
            Err(_) => return Ok(()),
        };
        if may_panic(|| drop(build_app(&ops))).is_err() {
            return Ok(());
        }
        w.state(&node.canon());
        w.st.transitions += ops.len() as u64;
        let mut paths: Vec<String> = instances(p, &["zz"], &["w"]);
        if var == 3 {
            paths = paths.iter().map(|q| format!("/m{}", q)).collect();
        }
        if var == 1 {
            paths.push("/a/b/c".into());
        }
        let mut raw = vec![];
        let mut what = vec![];
        for q in &paths {
            for m in &meths {
                raw.push((crate::wire::req(m, q, &[("x-rid", &raw.len().to_string())], None), *m == "HEAD"));
                what.push((*m, q.clone()));
            }
        }
        let _ = trace_take();
        let replies = w.wire.serve(|| build_app(&ops), async |port| crate::wire::batch(port, &raw).await);
        let tr = trace_take();
        w.st.traces += 1;
        for (k, r) in replies.iter().enumerate() {
            let (m, q) = &what[k];
            w.st.evaluations += 1;
            let hit = METHODS.iter().position(|x| x == m).and_then(|mi| node.lookup(mi as u8, q));
            let ev: Vec<&Ev> = tr.iter().filter(|(rid, _)| *rid == k as u32).map(|x| &x.1).collect();
            w.outcome(&(m, hit.as_ref().map(|h| h.handler), r.status()));
            let bad = match &hit {
                Some(h) => r.status() != 200 || (*m != "HEAD" && r.text() != format!("h{}", h.handler)) || !ev.iter().any(|e| **e == Ev::Handler(h.handler)) || ev.iter().filter(|e| matches!(e, Ev::Handler(_))).count() != 1,
                None => r.status() != 404 || !ev.is_empty(),
            };
            if bad {
                return Err(format!("registrations: {}\n{} {}: expected {}, got {} with events {:?}", show_ops(&ops), m, q, hit.map(|h| format!("h{}", h.handler)).unwrap_or("404 and nothing run".into()), r.show(), ev));
            }
        }
        w.sample(|| format!("{} x {:?}", show_ops(&ops), meths));
        Ok(())
    }));
    let mm: Vec<Op> = ["/a", "/:x", "/*", "/a/b"].iter().enumerate().flat_map(|(i, p)| (0..5u8).map(move |m| route(m, p, (i * 5 + m as usize) as u32 + 1))).collect();
    let mut rq = vec![];
    for m in 0..5u8 {
        for p in ["/a", "/zz", "/a/b", "/a/zz", "/"] {
            rq.push((m, p.to_string()));
        }
    }
    sections.push(sequences("method tables across paths", mm, t.pick(4, 6), rq, XY, a_handler));
    // paths which share the text of a segment, and so the stretch of the table it is kept in
    let mm: Vec<Op> = ["/ab", "/abc", "/abd", "/a"].iter().enumerate().flat_map(|(i, p)| (0..5u8).map(move |m| route(m, p, (i * 5 + m as usize) as u32 + 1))).collect();
    let mut rq = vec![];
    for m in 0..5u8 {
        for p in ["/ab", "/abc", "/abd", "/a", "/abe", "/"] {
            rq.push((m, p.to_string()));
        }
    }
    sections.push(sequences("method tables across paths that share text", mm, t.pick(3, 5), rq, XY, a_handler));
    sections.extend(super::surround::sections(t, a_handler));
    Check {
        id: "C09",
        level: "model_checking",
        rule: "every ordered subset of the five methods on each pattern (alone, with a complementary neighbour, with middleware, mounted) x about 90 request methods and spellings over the real server; every sequence of (method, path) registrations up to the depth in-process; compared with a method table".into(),
        assumptions: base_assumptions(),
        sections,
    }
}
