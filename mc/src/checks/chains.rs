//! Middleware chains running little programs: C07, C11, C15, C18, C20, C22.
use crate::common::*;
use crate::script::Act::*;
use crate::script::*;
use crate::sut::{rid_of, trace_push, trace_take, Ev};
use crate::wire;
use std::sync::Arc;
use async_trait::async_trait;
use obsidian::context::Context;
use obsidian::middleware::Middleware;
use obsidian::router::ContextResult;
use obsidian::{App, EndpointExecutor, ObsidianError};

fn behaviours() -> Vec<Vec<Act>> {
    vec![
        vec![Next],
        vec![Build(1)],
        vec![Fail(0)],
        vec![],
        vec![Next, Build(2)],
        vec![Next, Fail(1)],
        vec![Next, Recover(4)],
        vec![SeeResp, Next, SeeResp, SetStatus(202), AddHeader(0), AddHeader(1)],
        vec![Build(5), Next],
        vec![Yield, Next, Yield],
        vec![Next, ClearResp],
        vec![Put(0, 1), See(0), Next, See(0), Inc(0)],
    ]
}

fn outcomes() -> Vec<Vec<Act>> {
    vec![
        vec![Build(0)],
        vec![Build(2), See(0), Inc(0)],
        vec![],
        vec![Fail(2)],
        vec![Yield, Build(1), Yield],
        vec![SeeResp, SetStatus(418)],
        vec![Take, Yield, Fail(7)],
        vec![Build(3), Build(4)],
    ]
}

fn scripts(v: Vec<Vec<Act>>) -> Vec<Script> {
    v.iter().map(|a| sc(a)).collect()
}

/// All non-decreasing level assignments of length n.
fn placements(n: usize) -> Vec<Vec<u8>> {
    let mut v = vec![vec![]];
    for _ in 0..n {
        v = v.iter().flat_map(|p: &Vec<u8>| (p.last().cloned().unwrap_or(0)..4).map(move |l| { let mut q = p.clone(); q.push(l); q })).collect();
    }
    v
}

fn chain_of(mws: &[&Script], levels: &[u8], h: &Script, mounted: bool) -> Chain {
    let mut c = Chain::new(mws.iter().zip(levels).map(|(s, l)| (*l, (*s).clone())).collect(), h.clone());
    c.mounted = mounted;
    c
}

/// every behaviour assignment x handler outcome x (levels, mounted) of the list
fn chain_section(name: &str, n: usize, beh: Vec<Script>, hs: Vec<Script>, pl: Vec<(Vec<u8>, bool)>, reqs: Vec<MReq>) -> Section {
    let total = count(beh.len(), n) * hs.len() as u64 * pl.len() as u64;
    section(name, total, move |i, w| {
        let (h, i) = (i as usize % hs.len(), i / hs.len() as u64);
        let (p, i) = (i as usize % pl.len(), i / pl.len() as u64);
        let c = chain_of(&nth(&beh, n, i), &pl[p].0, &hs[h], pl[p].1);
        verify(w, &c, &reqs, true)
    })
}

fn both(p: Vec<Vec<u8>>) -> Vec<(Vec<u8>, bool)> {
    p.into_iter().flat_map(|l| [(l.clone(), false), (l, true)]).collect()
}

fn few(n: usize) -> Vec<(Vec<u8>, bool)> {
    let spread: Vec<u8> = (0..n).map(|i| (i * 4 / n.max(1)) as u8).collect();
    vec![(vec![0; n], false), (vec![3; n], false), (spread.clone(), false), (spread, true)]
}

pub fn c07(t: Tier) -> Check {
    let beh = || scripts(behaviours());
    let out = || scripts(outcomes());
    let twice = vec![get_req(), get_req()];
    let one = vec![get_req()];
    let mut s = vec![];
    for n in 0..=2 {
        s.push(chain_section(&format!("chains of {} at every placement", n), n, beh(), out(), both(placements(n)), twice.clone()));
    }
    s.push(chain_section("chains of 3", 3, beh(), out(), t.pick(few(3), both(placements(3))), twice.clone()));
    s.push(chain_section("chains of 4", 4, beh(), out(), t.pick(vec![few(4)[2].clone()], few(4)), one.clone()));
    if t == Tier::Thorough {
        s.push(chain_section("chains of 5", 5, beh(), out()[..6].to_vec(), vec![few(5)[2].clone()], one.clone()));
    }
    // long chains: one odd link among passing ones, at every position
    let beh2 = beh();
    let outs = out();
    let long = t.pick(24u64, 200);
    let (nb, no) = (beh2.len() as u64, outs.len() as u64);
    s.push(section("one odd link in a long chain", long * nb * no, move |i, w| {
        let (b, i) = ((i % nb) as usize, i / nb);
        let (h, pos) = ((i % no) as usize, (i / no) as usize);
        let pass = sc(&[Next]);
        let mws: Vec<&Script> = (0..long as usize).map(|k| if k == pos { &beh2[b] } else { &pass }).collect();
        let levels: Vec<u8> = (0..mws.len()).map(|k| (k * 4 / mws.len()) as u8).collect();
        verify(w, &chain_of(&mws, &levels, &outs[h], pos % 2 == 0), &one, true)
    }));
    s.push(length_section("C07", t));
    s.push(status_section("C07", t));
    s.extend(noise_sections(t, "C07"));
    Check {
        id: "C07",
        level: "model_checking",
        rule: "chain of scripted middleware and handler: observed course (enter, result of next, data seen, leave) and reply equal those of the chain interpreter".into(),
        assumptions: vec!["a middleware calls next at most once (the executor is consumed by the call)".into()],
        sections: s,
    }
}

/// lengths of chains around every likely limit; the odd links sit first, second, in the middle, and last
fn length_section(id: &str, t: Tier) -> Section {
    let lens: Vec<usize> = crate::dict::sizes(t.pick(vec![15, 16, 17, 31, 32, 33, 49, 50, 51, 63, 64, 65, 99, 100, 101, 127, 128, 129, 199, 200, 201, 255, 256, 257, 300, 500, 501, 511, 512, 513], vec![15, 16, 17, 31, 32, 33, 49, 50, 51, 63, 64, 65, 99, 100, 101, 127, 128, 129, 199, 200, 201, 255, 256, 257, 300, 500, 501, 511, 512, 513, 700, 999, 1000, 1001, 1023, 1024, 1025, 1500, 2000, 2001]), 1100);
    let odd: Vec<Vec<Act>> = match id {
        "C11" => vec![vec![Next], vec![Fail(7)], vec![Next, Fail(1)], vec![Next, Recover(4)], vec![]],
        "C22" => vec![vec![Next], vec![Put(0, 1), Next, See(0)], vec![See(0), Next, Inc(0), See(0)]],
        _ => vec![vec![Next], vec![Build(1)], vec![Fail(0)], vec![SeeResp, Next, SetStatus(202), AddHeader(0)], vec![Next, Fail(1)], vec![Next, Build(2)], vec![Put(0, 1), Next, See(0)]],
    };
    let hs: Vec<Vec<Act>> = match id {
        "C11" => vec![vec![Build(2)], vec![], vec![Fail(2)]],
        "C22" => vec![vec![See(0), Put(0, 5), Put(1, 6), Build(0)]],
        _ => vec![vec![Build(2), See(0)], vec![Fail(2)]],
    };
    let logged = id == "C20";
    let total = lens.len() * odd.len() * hs.len() * 4 * 2;
    section("chains of every likely limit", total as u64, move |i, w| {
        let i = i as usize;
        let (flat, i) = (i % 2 == 0, i / 2);
        let (at, i) = (i % 4, i / 4);
        let (h, i) = (&hs[i % hs.len()], i / hs.len());
        let (o, n) = (&odd[i % odd.len()], lens[i / odd.len()]);
        let pos = [0, 1, n / 2, n - 1][at];
        let mws: Vec<(u8, Script)> = (0..n).map(|k| (if flat { 0 } else { (k * 4 / n) as u8 }, if k == pos { sc(o) } else { sc(&[Next]) })).collect();
        let mut c = Chain::new(mws, sc(h));
        c.mounted = !flat;
        if logged {
            c.loggers = vec![pos];
        }
        verify(w, &c, &[get_req()], true)
    })
}

/// responses of every status, made by the handler or a middleware, met by what other links do with responses
fn status_section(id: &str, t: Tier) -> Section {
    let all: Vec<usize> = t.pick((200..=599).collect(), (200..=999).collect());
    let after: Vec<Vec<Act>> = vec![vec![SeeResp], vec![Build(2)], vec![Fail(1)], vec![ClearResp], vec![AddHeader(0), SeeResp], vec![SetStatus(203)], vec![Yield, See(0), SeeResp]];
    let logged = id == "C20";
    section("responses of every status", all.len() as u64, move |i, w| {
        let s = 1000 + all[i as usize];
        for (k, a) in after.iter().enumerate() {
            let mut back = vec![Put(0, 4), Next];
            back.extend(a.iter().cloned());
            let outer = sc(&[Next, SeeResp, See(0)]);
            let mid = sc(&back);
            for (mws, h) in [
                (vec![outer.clone(), mid.clone()], sc(&[Build(s), See(0)])),
                (vec![outer.clone(), mid.clone(), sc(&[Build(s)])], sc(&[Build(0)])),
                (vec![outer.clone(), sc(&[Build(s), SeeResp, Next, SeeResp]), mid.clone()], sc(&[SeeResp, Build(4)])),
                (vec![outer.clone(), sc(&[Build(s), Next]), mid.clone()], sc(&[SeeResp])),
                (vec![outer.clone(), sc(&[Next, Build(s)]), mid.clone()], sc(&[Fail(3)])),
                (vec![outer.clone(), sc(&[Next, Recover(s)]), mid.clone()], sc(&[Fail(3)])),
                (vec![outer.clone(), mid.clone()], sc(&[Build(s), Fail(2)])),
                (vec![outer.clone(), mid.clone()], sc(&[Build(s), Build(0), SeeResp, Build(s), SeeResp])),
            ] {
                let n = mws.len();
                let mut c = Chain::new(mws.into_iter().enumerate().map(|(j, m)| ((j * 4 / n) as u8, m)).collect(), h);
                c.mounted = k % 2 == 0;
                if logged {
                    c.loggers = (0..=n).collect();
                    c.default_app = k % 2 == 1;
                }
                verify(w, &c, &[get_req()], true)?;
            }
        }
        Ok(())
    })
}

// ---------------------------------------------------------------- C11

/// What surrounds a request (headers, queries, method, body) must not change what the chain does with it.
fn noise_sections(t: Tier, id: &str) -> Vec<Section> {
    let around = |before: &[Act], after: &[Act]| -> Script {
        let mut v = vec![AllHead];
        v.extend_from_slice(before);
        v.push(Next);
        v.extend_from_slice(after);
        v.push(AllHead);
        sc(&v)
    };
    let h = |a: &[Act]| -> Script {
        let mut v = a.to_vec();
        v.push(AllHead);
        sc(&v)
    };
    let two = |m: Vec<Script>, h: Script| {
        let n = m.len();
        Chain::new(m.into_iter().enumerate().map(|(i, s)| (if n == 1 { 2 } else { (i * 4 / n) as u8 }, s)).collect(), h)
    };
    let mut chains: Vec<Chain> = match id {
        "C07" => vec![
            two(vec![around(&[Put(0, 1)], &[See(0)]), around(&[Yield], &[SeeResp])], h(&[Build(2), Head])),
            two(vec![around(&[], &[Recover(4)]), around(&[], &[])], h(&[Fail(0)])),
            two(vec![around(&[], &[SeeResp, SetStatus(202), AddHeader(0)]), sc(&[AllHead, Build(1)])], h(&[Build(0)])),
            two(vec![around(&[Build(5)], &[Build(2)]), around(&[], &[Fail(1)])], h(&[])),
        ],
        "C11" => (0..NERR).map(|k| two(vec![around(&[], &[])], h(&[Fail(k)]))).chain([two(vec![around(&[], &[])], h(&[])), two(vec![around(&[], &[Fail(2)]), around(&[], &[])], h(&[Build(1)])), two(vec![sc(&[Fail(0)])], h(&[])), two(vec![], h(&[])), two(vec![], sc(&[Fail(0)]))]).collect(),
        "C15" => {
            let reads = [Take, Json, JsonTyped, Form, FormTyped];
            let mut v = vec![];
            for a in &reads {
                for b in &reads {
                    v.push(two(vec![around(&[], &[b.clone()])], h(&[Query, a.clone(), Param, Head, Build(0)])));
                    v.push(two(vec![around(&[a.clone()], &[])], h(&[b.clone(), Query, Build(0)])));
                }
            }
            v
        }
        "C22" => vec![
            two(vec![around(&[Put(0, 1)], &[See(0), See(1)]), around(&[See(0), Put(1, 2)], &[Inc(0), See(1)])], h(&[See(0), Inc(1), Put(2, 3), See(2), Build(2)])),
            two(vec![around(&[See(0), See(1), See(2)], &[See(0), See(1), See(2)])], h(&[Put(0, 9), Build(0)])),
        ],
        _ => vec![
            two(vec![around(&[Put(0, 1)], &[See(0)]), around(&[], &[SeeResp])], h(&[Build(2), Head, Query])),
            two(vec![around(&[], &[])], h(&[Fail(0)])),
            two(vec![around(&[], &[])], h(&[])),
            two(vec![around(&[SetReqHeader(2)], &[Head])], h(&[Form, Build(1), See(0)])),
            two(vec![around(&[Head], &[])], h(&[Json, Build(5)])),
            two(vec![around(&[Take], &[])], h(&[Take, Build(4)])),
        ],
    };
    if id == "C20" {
        let mut v = vec![];
        for c in &chains {
            for l in subsets(c.mws.len() + 1) {
                for d in [false, true] {
                    let mut c = c.clone();
                    c.loggers = l.clone();
                    c.default_app = d;
                    v.push(c);
                }
            }
        }
        chains = v;
    }
    let mounted: Vec<Chain> = chains.iter().map(|c| { let mut c = c.clone(); c.mounted = true; c.state = Some(4); c }).collect();
    chains.extend(mounted);
    // surroundings: each header alone, groups of neighbours, all at once; queries; methods with and without body
    let noise = super::surround::noise();
    let one = |k: &str, v: &str| vec![(k.to_string(), v.to_string())];
    let mut extras: Vec<Vec<(String, String)>> = noise.iter().map(|(k, v)| one(k, v)).collect();
    // (the HTTP layer takes a hundred)
    let plain: Vec<(String, String)> = noise.iter().filter(|x| x.1.is_ascii() && x.0 != "expect").map(|(k, v)| (k.to_string(), v.to_string())).collect();
    extras.extend(plain.chunks(80).map(|x| x.to_vec()));
    for (k, v) in [("x-long", "v".repeat(t.pick(4000, 30000))), ("x-bytes", "h\u{e9}\u{4e2d}".to_string()), ("cookie", "a=b;c ".repeat(200) + "d")] {
        extras.push(one(k, &v));
    }
    extras.push((0..60).map(|i| (format!("x-n{}", i), i.to_string())).collect());
    extras.push((0..60).map(|i| ("x-same".to_string(), i.to_string())).collect());
    let np = noise.len().min(200) as u64;
    let names: Vec<&str> = noise.iter().map(|x| x.0).collect::<std::collections::BTreeSet<_>>().into_iter().collect();
    extras.extend(crate::dict::headers(&names));
    let (nc, ne) = (chains.len() as u64, extras.len() as u64);
    let (chains, extras) = (std::sync::Arc::new(chains), std::sync::Arc::new(extras));
    let (chains2, extras2) = (chains.clone(), extras.clone());
    let mut out = vec![section("surrounding headers", nc * ne, move |i, w| {
        let (c, e) = (&chains[(i % nc) as usize], &extras[(i / nc) as usize]);
        let mut reqs = vec![];
        for (m, b) in [(0, None), (1, Some(&b"id=1&mode=a+b"[..])), (2, Some(&b"{\"id\": 2, \"mode\": \"x\"}"[..])), (4, None), (3, Some(&b"\x00\xff"[..])), (0, Some(&b"id=3&mode=z"[..])), (4, Some(&b"{\"id\": 2, \"mode\": \"y\"}"[..]))] {
            reqs.push(MReq { method: m, target: "/a/b/7?id=5&mode=q".into(), xq: None, body: b.map(|b| b.to_vec()), extra: e.clone() });
        }
        verify(w, c, &reqs, true)
    })];
    // pairs of headers, on the first chains
    if t == Tier::Thorough {
        let nc = nc.min(12);
        let k = np;
        out.push(section("surrounding pairs of headers", nc * k * k, move |i, w| {
            let (c, i) = (&chains2[(i % nc) as usize], i / nc);
            let mut e = extras2[(i % k) as usize].clone();
            e.extend(extras2[(i / k) as usize].iter().cloned());
            let reqs = vec![MReq { method: 0, target: "/a/b/7?id=5&mode=q".into(), xq: None, body: None, extra: e.clone() }, MReq { method: 1, target: "/a/b/7?id=5&mode=q".into(), xq: None, body: Some(b"id=1&mode=c".to_vec()), extra: e }];
            verify(w, c, &reqs, true)
        }));
    }
    out
}

fn c11_errors(t: Tier) -> Vec<Section> {
    let mut v = vec![];
    let maxn = t.pick(3usize, 4);
    for n in 0..=maxn {
        // where: handler, or before/after next in middleware k
        let spots = 1 + 2 * n as u64;
        let pl = if n <= 2 || t == Tier::Thorough { both(placements(n)) } else { few(n) };
        let np = pl.len() as u64;
        v.push(section(&format!("every error at every position, {} middleware", n), spots * NERR as u64 * 2 * np, move |i, w| {
            let (k, i) = ((i % NERR as u64) as usize, i / NERR as u64);
            let (spot, i) = (i % spots, i / spots);
            let (with_resp, p) = (i % 2 == 1, (i / 2) as usize);
            let mut mws: Vec<Script> = vec![];
            for j in 0..n as u64 {
                mws.push(sc(&if spot == 1 + 2 * j {
                    if with_resp { vec![Build(1), Fail(k)] } else { vec![Fail(k)] }
                } else if spot == 2 + 2 * j {
                    vec![Next, Yield, Fail(k)]
                } else if with_resp {
                    vec![Build(5), Next]
                } else {
                    vec![Yield, Next]
                }));
            }
            let h = sc(&match (spot == 0, with_resp) {
                (true, true) => vec![Build(2), Yield, Fail(k)],
                (true, false) => vec![Fail(k)],
                (false, true) => vec![Build(4)],
                (false, false) => vec![],
            });
            let refs: Vec<&Script> = mws.iter().collect();
            let c = chain_of(&refs, &pl[p].0, &h, pl[p].1);
            verify(w, &c, &[get_req(), post_req(b"x=1"), get_req()], true)
        }));
    }
    v
}

/// Handlers that let an accessor's error escape with `?`, at every position; the reply must carry that error's message.
struct AccMw(usize, bool, u32);

#[async_trait]
impl Middleware for AccMw {
    async fn handle<'a>(&'a self, mut context: Context, ep: EndpointExecutor<'a>) -> ContextResult {
        let rid = rid_of(&context);
        if !self.1 {
            accessor(self.0, &mut context, rid).await?;
            return ep.next(context).await;
        }
        let mut c = ep.next(context).await?;
        accessor(self.0, &mut c, rid).await?;
        Ok(c)
    }
}

#[derive(serde::Deserialize, Debug)]
#[allow(dead_code)]
struct Strict {
    id: i32,
    list: Vec<u8>,
}

const NACC: usize = 8;

async fn accessor(k: usize, c: &mut Context, rid: u32) -> Result<(), ObsidianError> {
    let r: Result<(), ObsidianError> = match k {
        0 => c.param::<i32>("word").map(|_| ()),
        1 => c.param::<i32>("absent").map(|_| ()),
        2 => c.query_params::<Strict>().map(|_| ()),
        3 => c.json::<Strict>().await.map(|_| ()),
        4 => c.form::<Strict>().await.map(|_| ()),
        5 => c.json::<serde_json::Value>().await.map(|_| ()),
        6 => c.query_params::<std::collections::HashMap<String, Vec<i32>>>().map(|_| ()),
        _ => c.form::<Vec<i32>>().await.map(|_| ()),
    };
    if let Err(e) = &r {
        trace_push(rid, Ev::Note(e.to_string()));
    }
    r
}

fn c11_accessors() -> Section {
    let bodies: Vec<&[u8]> = vec![b"", b"id=1", b"id=x&list=1", b"{\"id\":1", b"{\"id\":\"a\",\"list\":[]}", b"id=1&list=300", b"\xff\xfe"];
    let targets = ["/e/w", "/e/w?id=x", "/e/w?id=1&list=999", "/e/w?a=z"];
    section("errors of request accessors", NACC as u64 * 5, move |i, w| {
        let (k, spot) = (i as usize % NACC, i / NACC as u64);
        let mk = move || {
            let mut a: App = App::new();
            if spot == 1 || spot == 2 {
                a.use_service(AccMw(k, spot == 2, 0));
            }
            if spot >= 3 {
                a.use_service_to("/e/:word", AccMw(k, spot == 4, 1));
            }
            a.post("/e/:word", move |mut c: Context| async move {
                let rid = rid_of(&c);
                if spot == 0 {
                    accessor(k, &mut c, rid).await?;
                }
                c.build("fine").ok()
            });
            a
        };
        let mut reqs = vec![];
        let mut desc = vec![];
        for (ti, t) in targets.iter().enumerate() {
            for (bi, b) in bodies.iter().enumerate() {
                reqs.push((wire::req("POST", t, &[("x-rid", &reqs.len().to_string())], Some(b)), false));
                desc.push((ti, bi));
            }
        }
        let _ = trace_take();
        let rs = w.wire.serve(mk, async |p| wire::batch(p, &reqs).await);
        let tr = trace_take();
        let mut errs = 0;
        for (j, r) in rs.iter().enumerate() {
            let notes: Vec<&String> = tr.iter().filter(|x| x.0 as usize == j).filter_map(|x| if let Ev::Note(n) = &x.1 { Some(n) } else { None }).collect();
            let (ws, wb) = match notes.first() {
                Some(n) => (500, n.as_bytes().to_vec()),
                None => (200, b"fine".to_vec()),
            };
            errs += (ws == 500) as u64;
            w.st.evaluations += 1;
            w.outcome(&(k, &wb));
            if r.status() != ws || r.body() != &wb[..] {
                return Err(format!("accessor {} at spot {}, POST {} body {:?}: expected {} {:?}, got {}", k, spot, targets[desc[j].0], String::from_utf8_lossy(bodies[desc[j].1]), ws, String::from_utf8_lossy(&wb), r.show()));
            }
        }
        w.st.traces += 1;
        w.st.transitions += rs.len() as u64;
        w.state(&(k, spot));
        if errs == 0 {
            return Err(format!("accessor {} never failed on hostile input at spot {}", k, spot));
        }
        Ok(())
    })
}

/// Standard errors flowing into the framework's error type through `?`.
fn c11_no_response(t: Tier) -> Section {
    // chains whose every link passes or not, handler that builds nothing: status 200 and empty body
    let links: Vec<Script> = scripts(vec![vec![Next], vec![], vec![Yield, Next, Yield], vec![Next, ClearResp], vec![Build(2), Next, ClearResp], vec![Build(2), ClearResp]]);
    let n = t.pick(4usize, 6);
    let total = count(links.len(), n) * 2;
    section("nothing built anywhere", total, move |i, w| {
        let (m, i) = (i % 2 == 1, i / 2);
        let mws = nth(&links, n, i);
        let levels: Vec<u8> = (0..n).map(|k| (k * 4 / n) as u8).collect();
        verify(w, &chain_of(&mws, &levels, &sc(&[]), m), &[get_req(), post_req(b"abc")], true)
    })
}

/// A text as the message of each kind of error that carries one.
fn text_err(kind: usize, m: &str) -> ObsidianError {
    use obsidian::router::FormError;
    match kind {
        0 => ObsidianError::GeneralError(m.into()),
        1 => ObsidianError::ParamError(m.into()),
        2 => ObsidianError::FormError(FormError::Message(m.into())),
        3 => FormError::Message(m.into()).into(),
        _ => <serde_json::Error as serde::de::Error>::custom(m).into(),
    }
}

fn text_want(kind: usize, m: &str) -> String {
    match kind {
        4 => <serde_json::Error as serde::de::Error>::custom(m).to_string(),
        _ => m.to_string(),
    }
}

struct TextMw(Arc<Vec<String>>, &'static str, bool);

fn text_of(c: &Context, texts: &[String]) -> Option<(usize, String)> {
    let h = c.headers().get("x-text")?.to_str().ok()?;
    let mut it = h.split(' ');
    let (k, i): (usize, usize) = (it.next()?.parse().ok()?, it.next()?.parse().ok()?);
    Some((k, texts[i].clone()))
}

#[async_trait]
impl Middleware for TextMw {
    async fn handle<'a>(&'a self, context: Context, ep: EndpointExecutor<'a>) -> ContextResult {
        let mine = context.uri().path() == self.1;
        let err = text_of(&context, &self.0).filter(|_| mine);
        match err {
            Some((k, m)) if !self.2 => Err(text_err(k, &m)),
            Some((k, m)) => {
                ep.next(context).await?;
                Err(text_err(k, &m))
            }
            None => ep.next(context).await,
        }
    }
}

/// Every message of a large vocabulary, in every kind of error, raised by a handler, a middleware before it and one behind it.
fn c11_texts(t: Tier) -> Section {
    let mut texts: Vec<String> = super::responses::odd_texts();
    texts.extend((0u32..t.pick(0x180, 0x400)).filter_map(char::from_u32).flat_map(|c| [c.to_string(), format!("a{}b", c)]));
    texts.extend(super::names::vocabulary(t));
    for n in crate::dict::sizes(vec![1, 15, 16, 31, 32, 63, 64, 65, 100, 127, 128, 129, 199, 200, 201, 255, 256, 257, 500, 511, 512, 513, 999, 1000, 1001, 1023, 1024, 1025, 2047, 2048, 2049, 4095, 4096, 4097, 8191, 8192, 8193, 16384, 16385, 65535, 65536, 65537, 1 << 20], 4 << 20) {
        texts.push("m".repeat(n));
        texts.push("é".repeat(n / 2 + 1));
        texts.push("a b\n".repeat(n / 4 + 1));
    }
    let texts = Arc::new(texts);
    let per = 48u64;
    let n = (texts.len() as u64 + per - 1) / per;
    section("every message in every kind of error", n, move |i, w| {
        let lo = (i * per) as usize;
        let hi = (lo + per as usize).min(texts.len());
        let tx = texts.clone();
        let mk = move || {
            let mut a: App = App::new();
            a.use_service(TextMw(tx.clone(), "/mw/root", false));
            a.use_service_to("/mw/before", TextMw(tx.clone(), "/mw/before", false));
            a.use_service_to("/mw/behind", TextMw(tx.clone(), "/mw/behind", true));
            let t2 = tx.clone();
            a.get("/h", move |c: Context| {
                let e = text_of(&c, &t2).map(|(k, m)| text_err(k, &m));
                async move { e.map_or_else(|| c.build("none").ok(), Err) }
            });
            let t3 = tx.clone();
            a.get("/built", move |c: Context| {
                let e = text_of(&c, &t3).map(|(k, m)| text_err(k, &m));
                async move {
                    let c = c.build("built").with_status(obsidian::StatusCode::ACCEPTED).ok()?;
                    e.map_or_else(|| Ok(c), Err)
                }
            });
            for p in ["/mw/root", "/mw/before", "/mw/behind"] {
                a.get(p, |c: Context| async move { c.build("fine").with_status(obsidian::StatusCode::CREATED).ok() });
            }
            a
        };
        let mut reqs = vec![];
        let mut want = vec![];
        for at in lo..hi {
            for k in 0..5 {
                for p in ["/h", "/built", "/mw/root", "/mw/before", "/mw/behind"] {
                    reqs.push((wire::req("GET", p, &[("x-text", &format!("{} {}", k, at))], None), false));
                    want.push((k, at, p));
                }
            }
        }
        let rs = w.wire.serve(mk, async |p| wire::batch(p, &reqs).await);
        w.st.traces += 1;
        w.state(&i);
        for ((k, at, p), r) in want.iter().zip(&rs) {
            w.st.transitions += 1;
            w.st.evaluations += 1;
            w.outcome(&r.key());
            let m = text_want(*k, &texts[*at]);
            if r.status() != 500 || r.body() != m.as_bytes() {
                return Err(format!("GET {} ends in an error of kind {} (0 general, 1 param, 2 form, 3 form converted, 4 json converted) with message {:?}: expected 500 with that message, got {}", p, k, m.chars().take(200).collect::<String>(), r.show()));
            }
        }
        Ok(())
    })
}

pub fn c11(t: Tier) -> Check {
    let mut s = c11_errors(t);
    s.push(c11_texts(t));
    s.push(c11_accessors());
    s.push(c11_no_response(t));
    s.push(chain_section("outcomes through transforming links", 2, scripts(behaviours()), scripts((0..NERR).map(|k| vec![Fail(k)]).chain((0..RESPS.len()).map(|k| vec![Build(k)])).collect()), few(2), vec![get_req()]));
    s.push(length_section("C11", t));
    s.push(status_section("C11", t));
    s.extend(noise_sections(t, "C11"));
    Check {
        id: "C11",
        level: "model_checking",
        rule: "error anywhere: 500 with the error's own text; no response: 200 and empty body; response: as built; compared with the chain interpreter".into(),
        assumptions: vec![],
        sections: s,
    }
}

// ---------------------------------------------------------------- C15

fn body_acts() -> Vec<Vec<Act>> {
    vec![
        vec![],
        vec![Take],
        vec![TakeDrop],
        vec![Json],
        vec![JsonTyped],
        vec![Form],
        vec![FormTyped],
        vec![Query],
        vec![QueryTyped],
        vec![Param],
        vec![ParamTyped],
        vec![Head],
        vec![SetReqHeader(3)],
    ]
}

fn body_reqs(big: usize) -> Vec<MReq> {
    let mut v: Vec<MReq> = vec![
        post_req(b""),
        post_req(b"{\"id\": 4, \"mode\": \"edit\"}"),
        post_req(b"id=4&mode=edit&mode=x+y%21&list=1&list=2"),
        post_req(b"[1, 2, \"\xc3\xa9\"]"),
        post_req(b"\xff\x00&=&%zz"),
    ];
    let mut f = b"id=9&mode=".to_vec();
    f.resize(big, b'z');
    v.push(post_req(&f));
    v.push(get_req());
    let mut p = post_req(b"\"text\"");
    p.method = 2;
    v.push(p);
    // queries and parameters that do not decode
    for (target, body) in [("/a/b/7?id=x&mode=q", &b"id=4&mode=edit"[..]), ("/a/b/zz", b"{\"id\": 4, \"mode\": \"edit\"}"), ("/a/b/zz?id=1", b"{\"id\": \"4\", \"mode\": \"edit\"}"), ("/a/b/300?mode=%zz&id=5000000000", b"id=x&mode=edit")] {
        let mut p = post_req(body);
        p.target = target.into();
        v.push(p);
    }
    v
}

/// m0 before, m1 before, handler, m1 after, m0 after
fn spread_section(name: &str, acts: Vec<Vec<Act>>, per: [usize; 5], state: Option<i64>, reqs: Vec<MReq>, two_conns: bool) -> Section {
    let slots: usize = per.iter().sum();
    let total = count(acts.len(), slots);
    section(name, total, move |i, w| {
        let a = nth(&acts, slots, i);
        let mut at = 0;
        let mut part = |n: usize| -> Vec<Act> {
            let v = a[at..at + n].iter().flat_map(|x| x.iter().cloned()).collect();
            at += n;
            v
        };
        let (b0, b1, h, a1, a0) = (part(per[0]), part(per[1]), part(per[2]), part(per[3]), part(per[4]));
        let wrap = |b: Vec<Act>, a: Vec<Act>| {
            let mut v = b;
            v.push(Next);
            v.extend(a);
            sc(&v)
        };
        let mut hs = h;
        hs.push(Build(0));
        let mut c = Chain::new(vec![(0, wrap(b0, a0)), (2, wrap(b1, a1))], sc(&hs));
        c.state = state;
        c.mounted = i % 2 == 1;
        verify(w, &c, &reqs, !two_conns)
    })
}

pub fn c15(t: Tier) -> Check {
    let reading = || body_acts().into_iter().filter(|a| a.iter().all(|x| !matches!(x, Query | Param | ParamTyped | SetReqHeader(_)))).collect::<Vec<_>>();
    let mut s = vec![spread_section("one access at each of five points", t.pick(reading(), body_acts()), [1, 1, 1, 1, 1], None, body_reqs(5000), false)];
    s.push(spread_section("three accesses in the handler", body_acts(), [0, 0, 3, 0, 0], None, body_reqs(5000), false));
    // large bodies: one that nobody reads makes the HTTP layer close the connection, so something reads it first
    let reads = [Take, Json, JsonTyped, Form, FormTyped];
    let first = reads.clone();
    let acts = body_acts();
    s.push(section("large bodies", 25 * count(acts.len(), 2), move |i, w| {
        let (f, i) = (i % 25, i / 25);
        let a = nth(&acts, 2, i);
        let (f, at) = (f as usize % 5, f / 5);
        let mut h = vec![first[f].clone()];
        h.extend(a[0].iter().cloned());
        h.extend(a[1].iter().cloned());
        h.push(Build(0));
        let c = Chain::new(vec![(at.min(3) as u8, if at == 4 { sc(&[first[f].clone(), Next]) } else { sc(&[Yield, Next]) })], sc(&h));
        let mut big = b"id=9&mode=".to_vec();
        big.resize(300_000, b'z');
        let mut j = b"{\"id\": 3, \"mode\": \"".to_vec();
        j.resize(200_000, b'y');
        j.extend_from_slice(b"\"}");
        verify(w, &c, &[post_req(&big), post_req(&j), post_req(b"id=1&mode=z")], true)
    }));
    // what the first read makes of a content must not matter to the next one
    s.push(section("every content, read twice", 25 * 6, move |i, w| {
        let (r, group) = (i as usize % 25, i / 25);
        let (one, two) = (reads[r % 5].clone(), reads[r / 5].clone());
        let c = if i % 2 == 0 { Chain::new(vec![], sc(&[one, two, Build(0)])) } else { Chain::new(vec![(0, sc(&[one, Next]))], sc(&[two, Build(0)])) };
        let bytes = || 0..=255u8;
        let contents: Vec<Vec<u8>> = match group {
            0 => bytes().map(|b| vec![b]).collect(),
            1 => bytes().map(|b| vec![b, b'x', b'=', b'1']).collect(),
            2 => bytes().map(|b| vec![b'i', b'd', b'=', b'4', b'&', b'm', b'o', b'd', b'e', b'=', b]).collect(),
            3 => bytes().map(|b| [&b"{\"id\": 4, \"mode\": \""[..], &[b], b"\"}"].concat()).collect(),
            4 => [
                "null", "true", "false", "0", "-1", "1e3", "1e999", "\"\"", "\"a\"", "[]", "{}", "[[]]", "[1", "{\"id\"", "{\"id\":}", "nul", "<html></html>", "<?xml version=\"1.0\"?><a/>", "--x\r\n\r\n--x--\r\n", "%PDF-1.4", "id", "id=", "=", "&", "&&", "id=1&id=2",
                "id=1;mode=2", "?id=1&mode=a", "#id=1", "/a/b", "http://x/?id=1&mode=a", "\u{feff}{\"id\": 4, \"mode\": \"edit\"}", "\u{feff}id=4&mode=edit", " {\"id\": 4, \"mode\": \"edit\"}", "{\"id\": 4, \"mode\": \"edit\"} ", "{\"id\": 4, \"mode\": \"edit\"}x",
                "{\"id\": 4, \"mode\": \"edit\"}{\"id\": 5}", "id=4&mode=edit\r\n", "id=4&mode=edit\0", "\r\n", "\n", " ", "\t", "\0", "\0\0\0\0", "GET / HTTP/1.1\r\nhost: h\r\n\r\n", "0\r\n\r\n", "5\r\nhello\r\n0\r\n\r\n", "// id=1", "/* */{}", "{\"id\": 04}", "id=%34&mode=%65", "id=4&mode=%",
                "id=4&mode=%4", "id=4&mode=+", "data:text/plain,x", "eyJpZCI6NH0=", "\x1f\u{8b}", "PK\x03\x04", "\x7fELF", "#!/bin/sh", "'id'=1", "{'id': 4}", "{id: 4}", "id: 4\nmode: edit", "id,mode\n4,edit", "undefined", "NaN", "Infinity", "4", "4 5",
            ]
            .iter()
            .map(|x| x.as_bytes().to_vec())
            .collect(),
            _ => (1..260).chain([511, 512, 513, 1023, 1024, 1025, 4095, 4096, 4097, 8191, 8192, 8193, 16384, 65535, 65536]).map(|n| vec![[b'{', b'7', b'a', b'<', b'"'][n % 5]; n]).collect(),
        };
        let reqs: Vec<MReq> = contents.iter().map(|b| post_req(b)).collect();
        verify(w, &c, &reqs, true)
    }));
    s.push(spread_section("two in a middleware, two in the handler", t.pick(reading(), body_acts()), [0, 2, 2, 0, 0], None, body_reqs(5000), false));
    s.push(spread_section("accesses on the way out", body_acts(), [1, 0, 0, 1, 1], None, body_reqs(5000), true));
    if t == Tier::Thorough {
        s.push(spread_section("five accesses in the handler", body_acts(), [0, 0, 5, 0, 0], None, body_reqs(3000), false));
        s.push(spread_section("six reads spread", reading(), [1, 1, 2, 1, 1], None, body_reqs(2000)[..5].to_vec(), false));
    }
    // the body must reach the first reader whatever was called (and suspended) before it
    s.extend(noise_sections(t, "C15"));
    Check {
        id: "C15",
        level: "model_checking",
        rule: "accessor programs: what each access returns equals the interpreter's (first body read gets all, later ones an empty body, other accessors unaffected)".into(),
        assumptions: vec!["reading an empty body as JSON is a decoding error, as for any empty text".into()],
        sections: s,
    }
}

// ---------------------------------------------------------------- C22

pub fn c22(t: Tier) -> Check {
    let sees = [See(0), See(1), See(2)];
    let with_see = |a: &[Act]| {
        let mut v = a.to_vec();
        v.extend(sees.iter().cloned());
        v
    };
    let acts: Vec<Vec<Act>> = vec![
        with_see(&[]),
        with_see(&[Put(0, 1)]),
        with_see(&[Put(0, 2)]),
        with_see(&[Put(1, 3)]),
        with_see(&[Inc(0)]),
        with_see(&[Inc(1), Yield]),
        with_see(&[Rem(0)]),
        with_see(&[Take, Head]),
    ];
    let reqs = vec![get_req(), post_req(b"id=1&mode=x"), get_req()];
    let mut s = vec![
        spread_section("one operation at each of five points", acts.clone(), [1, 1, 1, 1, 1], None, reqs.clone(), false),
        spread_section("two at the inner points", acts[..7].to_vec(), [0, 1, 2, 2, 0], Some(5), reqs[..2].to_vec(), false),
        spread_section("two on the way in and out of the outer", acts.clone(), [2, 0, 0, 0, 2], None, reqs.clone(), true),
    ];
    if t == Tier::Thorough {
        s.push(spread_section("seven operations", acts[..7].to_vec(), [1, 1, 2, 1, 2], Some(5), reqs[..2].to_vec(), false));
        s.push(spread_section("eight operations over one type and its neighbour", vec![acts[1].clone(), acts[2].clone(), acts[3].clone(), acts[4].clone(), acts[6].clone()], [2, 1, 2, 1, 2], None, reqs[..2].to_vec(), false));
    }
    // behaviours that replace the context or the response must not disturb the slots
    let data: Vec<Script> = scripts(vec![
        vec![Put(0, 1), Next, See(0), See(1)],
        vec![See(0), See(1), Inc(0), Next, Inc(1), See(0), See(1)],
        vec![Put(1, 7), Next, Recover(4), See(0), See(1)],
        vec![Next, Build(2), See(0), Put(0, 9)],
        vec![Rem(1), Next, Inc(0), See(0)],
        vec![Put(0, 4), Build(1), See(0)],
        vec![SeeState, IncState, Next, SeeState, See(0)],
    ]);
    let hs: Vec<Script> = scripts(vec![
        vec![See(0), See(1), Build(0)],
        vec![Inc(0), Put(1, 2), Build(2), Build(1)],
        vec![Put(0, 5), Fail(0)],
        vec![Put(2, 1), See(2)],
        vec![SeeState, PutState(3), SeeState, See(0), Build(0), See(0)],
    ]);
    for n in [3usize, t.pick(4, 5)] {
        let (data, hs) = (data.clone(), hs.clone());
        let total = count(data.len(), n) * hs.len() as u64;
        let reqs = reqs.clone();
        s.push(section(&format!("data through chains of {}", n), total, move |i, w| {
            let (h, i) = (i as usize % hs.len(), i / hs.len() as u64);
            let mws = nth(&data, n, i);
            let levels: Vec<u8> = (0..n).map(|k| (k * 4 / n) as u8).collect();
            let mut c = chain_of(&mws, &levels, &hs[h], i % 3 == 1);
            c.state = if i % 2 == 0 { Some(1) } else { None };
            verify(w, &c, &reqs[..2], i % 5 != 0)
        }));
    }
    s.extend(super::slots::sections(t));
    s.push(length_section("C22", t));
    s.push(status_section("C22", t));
    s.extend(noise_sections(t, "C22"));
    Check {
        id: "C22",
        level: "model_checking",
        rule: "slot programs over middleware and handler: every value seen equals the interpreter's store; later requests start empty".into(),
        assumptions: vec![],
        sections: s,
    }
}

// ---------------------------------------------------------------- C20

fn subsets(n: usize) -> Vec<Vec<usize>> {
    (0..1usize << n).map(|m| (0..n).filter(|k| m >> k & 1 == 1).collect()).collect()
}

/// Text a logger may cut, pad or decode for its lines: characters of every width at every offset, plain and escaped, wherever a request
/// carries text.
fn text_section(t: Tier) -> Section {
    let chars: [(&str, &[u8]); 7] = [("x", b"x"), ("2 bytes", "\u{e9}".as_bytes()), ("3 bytes", "\u{65e5}".as_bytes()), ("4 bytes", "\u{1f600}".as_bytes()), ("joined", "e\u{301}".as_bytes()), ("not UTF-8", b"\xff"), ("an escape", b"\x1b[31m")];
    let most = t.pick(270usize, 1100);
    section("text of every length and width", chars.len() as u64 * 4 * 4, move |i, w| {
        let (cn, c) = &chars[i as usize % 7];
        let (offset, place) = ((i / 7 % 4) as usize, i / 28);
        let mk = |loggers: u8| {
            let mut a: App = if loggers & 1 == 1 { App::default() } else { App::new() };
            if loggers & 2 == 2 {
                a.use_service(obsidian::middleware::logger::Logger::new());
                a.use_service_to("/p/:v", obsidian::middleware::logger::Logger::new());
                a.use_service_to("/q", obsidian::middleware::logger::Logger::new());
            }
            a.get("/p/:v", |c: Context| async move {
                let v: String = c.param("v")?;
                c.build(v).with_status(obsidian::StatusCode::ACCEPTED).ok()
            });
            a.get("/q", |mut c: Context| async move {
                let v: std::collections::BTreeMap<String, String> = c.query_params()?;
                c.build(format!("{:?}", v)).with_status(obsidian::StatusCode::CREATED).ok()
            });
            a.get("/h", |c: Context| async move {
                let v = c.headers().get("x-t").map(|v| v.as_bytes().to_vec()).unwrap_or_default();
                c.build(format!("{:02x?}", v)).ok()
            });
            a.get("/e/:v", |c: Context| async move { Err::<Context, ObsidianError>(ObsidianError::GeneralError(c.param::<String>("v")?)) });
            a
        };
        let mut reqs = vec![];
        let lens: Vec<usize> = (0..=40).chain((41..most).filter(|n| n % 3 == 0 || n % 64 < 2 || n % 50 < 2)).collect();
        for n in lens {
            let mut text = vec![b'a'; offset];
            for _ in 0..n {
                text.extend_from_slice(c);
            }
            let esc: String = text.iter().map(|b| if b.is_ascii_alphanumeric() { (*b as char).to_string() } else { format!("%{:02x}", b) }).collect();
            reqs.push((
                match place {
                    0 => wire::req("GET", &format!("/p/{}", esc), &[], None),
                    1 => wire::req("GET", &format!("/q?v={}&{}=1", esc, esc), &[], None),
                    2 => {
                        if text.contains(&0x1b) {
                            continue;
                        }
                        let mut r = b"GET /h HTTP/1.1\r\nhost: t\r\nx-t: ".to_vec();
                        r.extend_from_slice(&text);
                        r.extend_from_slice(b"\r\nuser-agent: ");
                        r.extend_from_slice(&text);
                        r.extend_from_slice(b"\r\n\r\n");
                        r
                    }
                    _ => wire::req("GET", &format!("/e/{}", esc), &[], None),
                },
                false,
            ));
        }
        let mut all = vec![];
        for l in 0..4u8 {
            all.push(w.wire.serve(|| mk(l), async |p| wire::batch(p, &reqs).await));
            w.st.traces += 1;
            w.st.transitions += reqs.len() as u64;
        }
        w.state(&i);
        for l in 1..4 {
            for (k, (a, b)) in all[0].iter().zip(&all[l]).enumerate() {
                w.st.evaluations += 1;
                w.outcome(&a.key());
                if a.key() != b.key() {
                    return Err(format!("{} times {} after {} letters, request {:?}: without logger {}, with loggers {} {}", k, cn, offset, String::from_utf8_lossy(&reqs[k].0).chars().take(120).collect::<String>(), a.show(), l, b.show()));
                }
            }
        }
        Ok(())
    })
}

pub fn c20(t: Tier) -> Check {
    let beh = scripts(behaviours());
    let outs: Vec<Script> = scripts(outcomes().into_iter().chain((0..NERR).map(|k| vec![Fail(k)])).chain((0..RESPS.len()).map(|k| vec![Build(k)])).collect());
    let mut s = vec![];
    let reqs = || {
        let mut v = vec![get_req(), post_req(b"{\"a\": \"\xff\"}")];
        let mut p = post_req(&[b'x'; 20_000]);
        p.xq = Some("b\u{e9}t%00{}{:?}".replace('\u{e9}', "e"));
        p.target = "/a/b/%7B%7D%00{}".replace("{}", "x") + "?q={:?}%s".replace("{:?}", "%7B").as_str();
        v.push(p);
        v.push(get_req());
        v
    };
    for n in 0..=t.pick(2usize, 3) {
        let pl: Vec<(Vec<u8>, bool)> = if n == 0 { vec![(vec![], false), (vec![], true)] } else { few(n) };
        let subs = subsets(n + 1);
        let (beh, outs) = (beh.clone(), if n >= 2 { outs[..10].to_vec() } else { outs.clone() });
        let total = count(beh.len(), n) * outs.len() as u64 * pl.len() as u64 * subs.len() as u64 * 2;
        s.push(section(&format!("logger at every position of chains of {}", n), total, move |i, w| {
            let (d, i) = (i % 2 == 1, i / 2);
            let (o, i) = (i as usize % outs.len(), i / outs.len() as u64);
            let (p, i) = (i as usize % pl.len(), i / pl.len() as u64);
            let (sb, i) = (i as usize % subs.len(), i / subs.len() as u64);
            let mut c = chain_of(&nth(&beh, n, i), &pl[p].0, &outs[o], pl[p].1);
            c.loggers = subs[sb].clone();
            c.default_app = d;
            let q = reqs();
            verify(w, &c, if n >= 2 { &q[..2] } else { &q }, true)
        }));
    }
    // statuses no final reply can have: whatever the HTTP layer makes of them, the logger must not change it
    s.push(section("informational statuses", 100, |i, w| {
        let st = obsidian::StatusCode::from_u16(100 + i as u16).unwrap();
        let mk = |loggers: u8| {
            let mut a: App = if loggers & 1 == 1 { App::default() } else { App::new() };
            if loggers & 2 == 2 {
                a.use_service_to("/a", obsidian::middleware::logger::Logger::new());
                a.use_service_to("/a/b", obsidian::middleware::logger::Logger::new());
            }
            a.get("/a/b", move |c: Context| async move { c.build("x").with_status(st).ok() });
            a.get("/a/c", move |c: Context| async move { c.build("").with_status(st).ok() });
            a
        };
        let mut all = vec![];
        for l in 0..4u8 {
            all.push(w.wire.serve(|| mk(l), async |p| {
                let mut v = vec![];
                for t in ["/a/b", "/a/c"] {
                    v.push(wire::once(p, &wire::req("GET", t, &[("connection", "close")], None), false).await);
                }
                v
            }));
            w.st.traces += 1;
            w.st.transitions += 2;
        }
        w.state(&i);
        for l in 1..4 {
            for (a, b) in all[0].iter().zip(&all[l]) {
                w.st.evaluations += 1;
                w.outcome(&a.key());
                if a.key() != b.key() {
                    return Err(format!("a handler answering status {}: without logger {}, with loggers {} {}", st, a.show(), l, b.show()));
                }
            }
        }
        Ok(())
    }));
    // body and data programs under several loggers
    let acts: Vec<Vec<Act>> = body_acts().into_iter().chain(vec![vec![Put(0, 1), See(0)], vec![Inc(0), See(0)], vec![SeeState, IncState, SeeState], vec![SeeResp]]).collect();
    let total = count(acts.len(), 3) * 4;
    s.push(section("accessors and data under the logger", total, move |i, w| {
        let (m, i) = (i % 4, i / 4);
        let a = nth(&acts, 3, i);
        let mut mid = a[0].clone();
        mid.push(Next);
        mid.extend(a[2].iter().cloned());
        let mut h = a[1].clone();
        h.push(Build(2));
        let mut c = Chain::new(vec![(m as u8, sc(&mid))], sc(&h));
        c.loggers = if m % 2 == 0 { vec![0, 1] } else { vec![1, 1] };
        c.default_app = m >= 2;
        c.state = Some(3);
        c.mounted = m == 3;
        verify(w, &c, &body_reqs(3000), true)
    }));
    // duplicates of the logger and unmatched requests
    s.push(section("requests nothing matches", 64, |i, w| {
        let one = |loggers: bool| {
            let mut a: App = if loggers { App::default() } else { App::new() };
            if loggers {
                for _ in 0..i % 4 {
                    a.use_service(obsidian::middleware::logger::Logger::new());
                }
                a.use_service_to("/a", obsidian::middleware::logger::Logger::new());
            }
            a.get("/a/b", |c: Context| async move { c.build("x").with_status(obsidian::StatusCode::ACCEPTED).ok() });
            if i & 4 != 0 {
                a.get("/a/*", |c: Context| async move { c.build("wild").ok() });
            }
            if i & 8 != 0 {
                a.post("/", |_c: Context| async move { Err(ObsidianError::NoneError) });
            }
            a
        };
        let mut reqs = vec![];
        for p in ["/", "/a", "/a/b", "/a/b/c", "/ab", "/a/c", "/zz", "*", "/a?b"] {
            for m in ["GET", "POST", "OPTIONS", "BREW", "HEAD"] {
                reqs.push((wire::req(m, p, &[], None), m == "HEAD"));
            }
        }
        let with = w.wire.serve(|| one(true), async |p| wire::batch(p, &reqs).await);
        let without = w.wire.serve(|| one(false), async |p| wire::batch(p, &reqs).await);
        w.st.traces += 2;
        w.state(&i);
        for (k, (a, b)) in with.iter().zip(&without).enumerate() {
            w.st.evaluations += 1;
            w.st.transitions += 1;
            w.outcome(&a.key());
            // a middleware at /a counts as something registered there; only that path may be answered differently
            let line = String::from_utf8_lossy(&reqs[k].0).into_owned();
            if line.split(' ').nth(1).map_or(false, |p| p == "/a" || p == "/a?b") {
                continue;
            }
            if a.key() != b.key() {
                return Err(format!("configuration {}: {:?}: without logger {}, with loggers {}", i, line, b.show(), a.show()));
            }
        }
        Ok(())
    }));
    s.push(length_section("C20", t));
    s.push(status_section("C20", t));
    s.push(text_section(t));
    s.extend(noise_sections(t, "C20"));
    Check {
        id: "C20",
        level: "model_checking",
        rule: "chains with the logger at every subset of positions: course and reply equal those of the interpreter, which knows no logger".into(),
        assumptions: vec!["what is printed is not judged: the property is about the requests' outcomes".into()],
        sections: s,
    }
}

// ---------------------------------------------------------------- C18

#[derive(Clone, PartialEq, Debug)]
struct Other(i64);

/// One request's program: letters acted on by the middleware before next, the handler, and the middleware after.
const PROGS: &[(&str, &str, &str)] = &[("", "s", ""), ("", "i", ""), ("i", "s", "s"), ("", "p", "s"), ("r", "s", "s"), ("", "f", "")];

fn act_state(who: &str, letters: &str, c: &mut Context) -> bool {
    let rid = rid_of(c);
    for l in letters.chars() {
        match l {
            'i' => {
                if let Some(s) = c.get_mut::<State>() {
                    s.0 += 1;
                    s.1.push(1);
                }
            }
            'p' => c.add(State(77, vec![1, 2, 3])),
            'r' => drop(c.extensions_mut().remove::<State>()),
            'f' => return false,
            _ => {}
        }
    }
    trace_push(rid, Ev::Note(format!("{} {:?} {:?}", who, c.get::<State>().map(|s| (s.0, s.1.len())), c.get::<Other>())));
    true
}

struct StateMw(&'static str);

fn prog_of(c: &Context) -> usize {
    c.headers().get("x-q").and_then(|v| v.to_str().ok()).and_then(|s| s.parse().ok()).unwrap_or(0)
}

#[async_trait]
impl Middleware for StateMw {
    async fn handle<'a>(&'a self, mut context: Context, ep: EndpointExecutor<'a>) -> ContextResult {
        let p = PROGS[prog_of(&context)];
        trace_push(rid_of(&context), Ev::Note(format!("{} first {:?}", self.0, context.get::<State>().map(|s| (s.0, s.1.len())))));
        act_state(self.0, p.0, &mut context);
        let mut c = ep.next(context).await?;
        act_state(self.0, p.2, &mut c);
        Ok(c)
    }
}

fn state_app(sets: &[i64]) -> App<State> {
    let mut a: App<State> = App::new();
    // set before, between and after registrations
    if let Some(v) = sets.first() {
        a.set_app_state(State(*v, vec![]));
    }
    a.use_service(StateMw("root"));
    let h = |mut c: Context| async move {
        let p = PROGS[prog_of(&c)];
        if !act_state("handler", p.1, &mut c) {
            return Err(ObsidianError::NoneError);
        }
        c.build("ok").ok()
    };
    a.get("/s/:id", h);
    a.use_service_to("/s/:id", StateMw("leaf"));
    for v in sets.iter().skip(1) {
        a.set_app_state(State(*v, vec![]));
    }
    let mut sub = obsidian::router::Router::new();
    sub.get("/x", h);
    sub.use_service(StateMw("leaf"));
    a.use_router("/m", sub);
    a
}

fn state_expect(start: Option<i64>, prog: usize) -> Vec<String> {
    let p = PROGS[prog];
    let mut st = start.map(|v| (v, 0usize));
    let mut tr = vec![];
    let act = |who: &str, letters: &str, st: &mut Option<(i64, usize)>, tr: &mut Vec<String>| -> bool {
        for l in letters.chars() {
            match l {
                'i' => {
                    if let Some(s) = st {
                        s.0 += 1;
                        s.1 += 1;
                    }
                }
                'p' => *st = Some((77, 3)),
                'r' => *st = None,
                'f' => return false,
                _ => {}
            }
        }
        tr.push(format!("{} {:?} {:?}", who, st, None::<Other>));
        true
    };
    for m in ["root", "leaf"] {
        tr.push(format!("{} first {:?}", m, st));
        act(m, p.0, &mut st, &mut tr);
    }
    if act("handler", p.1, &mut st, &mut tr) {
        act("leaf", p.2, &mut st, &mut tr);
        act("root", p.2, &mut st, &mut tr);
    }
    tr
}

pub fn c18(t: Tier) -> Check {
    let sets: Vec<Vec<i64>> = vec![vec![], vec![5], vec![5, 9], vec![9, 5, 0]];
    let mut s = vec![];
    // event = (connection, program); a connection is opened at first use; one of them is replaced by a fresh one each time
    let conns = 3u64;
    let ev = PROGS.len() as u64 * conns;
    for depth in 1..=t.pick(3u32, 4) {
        let sets = sets.clone();
        let per = ev.pow(depth);
        s.push(section(&format!("histories of {} requests", depth), per * sets.len() as u64 * 2, move |i, w| {
            let (mounted, i) = (i % 2 == 1, i / 2);
            let (si, mut i) = (i as usize % sets.len(), i / sets.len() as u64);
            let mut hist = vec![];
            for _ in 0..depth {
                hist.push(((i / PROGS.len() as u64 % conns) as usize, (i % PROGS.len() as u64) as usize));
                i /= ev;
            }
            run_history(w, &sets[si], &hist, mounted)
        }));
    }
    let n_long = t.pick(4u64, 16);
    let sets2 = sets.clone();
    s.push(section("long histories", sets.len() as u64 * n_long * 2, move |i, w| {
        let (mounted, i) = (i % 2 == 1, i / 2);
        let (si, k) = (i as usize % sets2.len(), i as usize / sets2.len());
        let hist: Vec<(usize, usize)> = (0..300).map(|j| (((j * (k + 1)) / 7) % 3, (j * (k + 3) + j / 5) % PROGS.len())).collect();
        run_history(w, &sets2[si], &hist, mounted)
    }));
    // other state types, and reading another type than the one configured
    s.push(section("state of several types", 5, |i, w| {
        fn app<T: Clone + Send + Sync + std::fmt::Debug + 'static>(v: Option<T>) -> App<T> {
            let mut a: App<T> = App::new();
            if let Some(v) = v {
                a.set_app_state(v);
            }
            a.get("/", |c: Context| async move {
                let s = format!("{:?}|{:?}|{:?}|{:?}|{:?}", c.get::<T>(), c.get::<i32>(), c.get::<String>(), c.get::<Vec<u8>>(), c.get::<()>());
                c.build(s).ok()
            });
            a
        }
        let r = vec![(wire::req("GET", "/", &[], None), false); 3];
        let (got, want) = match i {
            0 => (w.wire.serve(|| app(Some(7i32)), async |p| wire::batch(p, &r).await), "Some(7)|Some(7)|None|None|None"),
            1 => (w.wire.serve(|| app(Some("s".to_string())), async |p| wire::batch(p, &r).await), "Some(\"s\")|None|Some(\"s\")|None|None"),
            2 => (w.wire.serve(|| app(Some(vec![1u8, 2])), async |p| wire::batch(p, &r).await), "Some([1, 2])|None|None|Some([1, 2])|None"),
            3 => (w.wire.serve(|| app(Some(())), async |p| wire::batch(p, &r).await), "Some(())|None|None|None|Some(())"),
            _ => (w.wire.serve(|| app(None::<i32>), async |p| wire::batch(p, &r).await), "None|None|None|None|None"),
        };
        w.st.traces += 1;
        for g in got {
            w.st.evaluations += 1;
            if g.text() != want {
                return Err(format!("state kind {}: expected {}, got {}", i, want, g.show()));
            }
        }
        Ok(())
    }));
    s.extend(super::state::sections(t));
    Check {
        id: "C18",
        level: "model_checking",
        rule: "histories of reading/modifying/replacing/removing/failing requests over three connections: the state each middleware and handler sees equals the last configured state plus only the request's own changes".into(),
        assumptions: vec![],
        sections: s,
    }
}

fn run_history(w: &mut W, sets: &[i64], hist: &[(usize, usize)], mounted: bool) -> CaseResult {
    let _ = trace_take();
    let path = if mounted { "/m/x" } else { "/s/1" };
    let replies = w.wire.serve(|| state_app(sets), async |port| {
        let mut conns: Vec<Option<wire::Conn>> = vec![None, None, None];
        let mut out = vec![];
        for (j, (c, p)) in hist.iter().enumerate() {
            // connection 2 is a fresh one every time
            if *c == 2 || conns[*c].is_none() {
                conns[*c] = Some(wire::Conn::open(port).await);
            }
            let k = conns[*c].as_mut().unwrap();
            k.send(&wire::req("GET", path, &[("x-rid", &j.to_string()), ("x-q", &p.to_string())], None)).await;
            out.push(k.recv(false).await);
        }
        out
    });
    let tr = trace_take();
    w.st.traces += 1;
    w.state(&(sets, hist, mounted));
    for (j, (_, p)) in hist.iter().enumerate() {
        let t: Vec<String> = tr.iter().filter(|x| x.0 as usize == j).filter_map(|x| if let Ev::Note(n) = &x.1 { Some(n.clone()) } else { None }).collect();
        let e = state_expect(sets.last().cloned(), *p);
        let ws = if PROGS[*p].1 == "f" { 500 } else { 200 };
        w.st.evaluations += 1;
        w.st.transitions += 1;
        w.outcome(&e);
        if t != e || replies[j].status() != ws {
            return Err(format!("state set to {:?}, history (connection, program) {:?}, path {}: request {}: expected {} {:?}, got {} {:?}", sets, hist, path, j, ws, e, replies[j].status(), t));
        }
    }
    Ok(())
}
