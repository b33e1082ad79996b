//! Time passing at the points where a request, a body or a connection waits: every point x every duration of a ladder, all at once on
//! one server, next to prompt requests. Nothing but waiting may come of it.
use crate::common::*;
use crate::wire::{req, Conn, Reply};
use async_trait::async_trait;
use hyper::body::HttpBody;
use obsidian::context::Context;
use obsidian::middleware::Middleware;
use obsidian::{App, ContextResult, EndpointExecutor, ObsidianError};
use std::cell::RefCell;
use std::rc::Rc;
use std::time::Duration;

#[derive(Clone, Debug, PartialEq)]
struct Conf(String);
#[derive(Clone, Debug, PartialEq)]
struct Data(u64);

async fn pass(ms: u64) {
    tokio::time::sleep(Duration::from_millis(ms)).await
}

fn ms(c: &Context) -> u64 {
    c.param::<u64>("ms").unwrap_or(0)
}

/// waits for the time in `x-wait` before or after the rest of the chain
struct Wait {
    before: bool,
    then_fail: bool,
}
#[async_trait]
impl Middleware for Wait {
    async fn handle<'a>(&'a self, mut context: Context, ep: EndpointExecutor<'a>) -> ContextResult {
        let t: u64 = context.headers().get("x-wait").and_then(|v| v.to_str().ok()).and_then(|s| s.parse().ok()).unwrap_or(0);
        context.add(Data(t));
        if self.before {
            pass(t).await;
            if self.then_fail {
                return Err(ObsidianError::GeneralError(format!("failed after {}", t)));
            }
            ep.next(context).await
        } else {
            let r = ep.next(context).await;
            pass(t).await;
            if self.then_fail {
                return Err(ObsidianError::GeneralError(format!("failed after {}", t)));
            }
            r
        }
    }
}

fn say(c: Context, what: &str) -> ContextResult {
    let t = format!("{} {} {:?} {:?}", what, c.param::<String>("tag").unwrap_or_default(), c.get::<Conf>(), c.get::<Data>());
    c.build(t).ok()
}

fn app(logger: bool) -> App<Conf> {
    let mut a: App<Conf> = if logger { App::default() } else { App::new() };
    a.set_app_state(Conf("conf".into()));
    a.get("/h/:ms/:tag", |mut c: Context| async move {
        c.add(Data(1));
        pass(ms(&c)).await;
        say(c, "handled")
    });
    a.get("/e/:ms/:tag", |c: Context| async move {
        pass(ms(&c)).await;
        Err(ObsidianError::ParamError(format!("late {}", c.param::<String>("tag")?)))
    });
    a.get("/n/:ms/:tag", |c: Context| async move {
        pass(ms(&c)).await;
        Ok(c)
    });
    a.get("/now/:tag", |c: Context| async move { say(c, "now") });
    for (p, before, then_fail) in [("/before", true, false), ("/after", false, false), ("/before-fail", true, true), ("/after-fail", false, true)] {
        a.use_service_to(p, Wait { before, then_fail });
        a.get(&format!("{}/:tag", p), |c: Context| async move { say(c, "inner") });
    }
    a.post("/json/:ms/:tag", |mut c: Context| async move {
        pass(ms(&c)).await;
        let r = c.json::<serde_json::Value>().await;
        c.build(match r {
            Ok(v) => format!("got {}", v),
            Err(_) => "error".to_string(),
        })
        .ok()
    });
    a.post("/form/:ms/:tag", |mut c: Context| async move {
        pass(ms(&c)).await;
        let r = c.form::<std::collections::BTreeMap<String, Vec<String>>>().await;
        c.build(match r {
            Ok(v) => format!("got {:?}", v),
            Err(_) => "error".to_string(),
        })
        .ok()
    });
    a.post("/raw/:ms/:tag", |mut c: Context| async move {
        pass(ms(&c)).await;
        let mut b = c.take_body();
        let mut v = vec![];
        while let Some(x) = b.data().await {
            match x {
                Ok(x) => v.extend_from_slice(&x),
                Err(_) => return c.build("error").ok(),
            }
        }
        let t = format!("got {}", String::from_utf8_lossy(&v));
        c.build(t).ok()
    });
    a
}

/// (pieces to send, with the pause before each, expected status and body)
struct Story {
    name: String,
    /// several requests, one after the other
    turns: Vec<(Vec<(u64, Vec<u8>)>, u16, String)>,
}

fn one(name: String, pieces: Vec<(u64, Vec<u8>)>, status: u16, body: String) -> Story {
    Story { name, turns: vec![(pieces, status, body)] }
}

fn g(path: &str, wait: u64) -> Vec<u8> {
    req("GET", path, &[("x-wait", &wait.to_string())], None)
}

fn stories(id: &str, d: u64) -> Vec<Story> {
    let conf = "Some(Conf(\"conf\"))";
    let mut v = vec![];
    let handlers = |v: &mut Vec<Story>| {
        v.push(one(format!("handler waiting {} ms", d), vec![(0, g(&format!("/h/{}/t{}", d, d), 0))], 200, format!("handled t{} {} Some(Data(1))", d, conf)));
    };
    let errors = |v: &mut Vec<Story>| {
        v.push(one(format!("handler failing after {} ms", d), vec![(0, g(&format!("/e/{}/t{}", d, d), 0))], 500, format!("late t{}", d)));
        v.push(one(format!("handler without response after {} ms", d), vec![(0, g(&format!("/n/{}/t{}", d, d), 0))], 200, String::new()));
        for p in ["before-fail", "after-fail"] {
            v.push(one(format!("{} middleware, {} ms", p, d), vec![(0, g(&format!("/{}/t{}", p, d), d))], 500, format!("failed after {}", d)));
        }
    };
    let mws = |v: &mut Vec<Story>| {
        for p in ["before", "after"] {
            v.push(one(format!("{} middleware waiting {} ms", p, d), vec![(0, g(&format!("/{}/t{}", p, d), d))], 200, format!("inner t{} {} Some(Data({}))", d, conf, d)));
        }
    };
    let bodies = |v: &mut Vec<Story>| {
        for (kind, text, want) in [("json", "{\"a\":[1,2,3],\"b\":\"xyz\"}", "got {\"a\":[1,2,3],\"b\":\"xyz\"}"), ("form", "a=1&b=2&a=3&c=xyz", "got {\"a\": [\"1\", \"3\"], \"b\": [\"2\"], \"c\": [\"xyz\"]}"), ("raw", "any text", "got any text")] {
            let t = text.as_bytes();
            let head = |ms: u64| format!("POST /{}/{}/t HTTP/1.1\r\nhost: x\r\ncontent-length: {}\r\n\r\n", kind, ms, t.len()).into_bytes();
            let (l, r) = t.split_at(t.len() / 2);
            v.push(one(format!("{} body {} ms after the head", kind, d), vec![(0, head(0)), (d, t.to_vec())], 200, want.to_string()));
            v.push(one(format!("{} body interrupted for {} ms", kind, d), vec![(0, [head(0), l.to_vec()].concat()), (d, r.to_vec())], 200, want.to_string()));
            v.push(one(format!("{} body read {} ms late", kind, d), vec![(0, [head(d), t.to_vec()].concat())], 200, want.to_string()));
            v.push(one(format!("{} body, its second half {} ms late, read halfway", kind, d), vec![(0, [head(d / 2), l.to_vec()].concat()), (d, r.to_vec())], 200, want.to_string()));
            let k = 4;
            let mut pieces = vec![(0, head(0))];
            for c in t.chunks(t.len() / k + 1) {
                pieces.push((d / k as u64, c.to_vec()));
            }
            v.push(one(format!("{} body in {} pieces over {} ms", kind, k, d), pieces, 200, want.to_string()));
            let ch = format!("POST /{}/0/t HTTP/1.1\r\nhost: x\r\ntransfer-encoding: chunked\r\n\r\n", kind).into_bytes();
            let chunk = |x: &[u8]| [format!("{:x}\r\n", x.len()).into_bytes(), x.to_vec(), b"\r\n".to_vec()].concat();
            v.push(one(format!("{} chunked body interrupted for {} ms", kind, d), vec![(0, [ch.clone(), chunk(l)].concat()), (d, [chunk(r), b"0\r\n\r\n".to_vec()].concat())], 200, want.to_string()));
            v.push(one(format!("{} chunked body, last chunk {} ms late", kind, d), vec![(0, [ch, chunk(t)].concat()), (d, b"0\r\n\r\n".to_vec())], 200, want.to_string()));
        }
    };
    let idle = |v: &mut Vec<Story>| {
        let now = |t: &str| (vec![(0u64, g(&format!("/now/{}", t), 0))], 200u16, format!("now {} {} None", t, conf));
        let later = |t: &str| (vec![(d, g(&format!("/now/{}", t), 0))], 200u16, format!("now {} {} None", t, conf));
        v.push(Story { name: format!("connection silent for {} ms before its first request", d), turns: vec![later("a")] });
        v.push(Story { name: format!("connection silent for {} ms between requests", d), turns: vec![now("a"), later("b"), now("c")] });
        let x = g("/now/z", 0);
        v.push(Story { name: format!("request head interrupted for {} ms", d), turns: vec![(vec![(0, x[..9].to_vec()), (d, x[9..].to_vec())], 200, format!("now z {} None", conf))] });
        v.push(Story { name: format!("request head interrupted for {} ms on a used connection", d), turns: vec![now("a"), (vec![(0, x[..30].to_vec()), (d, x[30..].to_vec())], 200, format!("now z {} None", conf)), now("b")] });
        v.push(Story { name: format!("pipelined behind a request waiting {} ms", d), turns: vec![(vec![(0, [g(&format!("/h/{}/p", d), 0), g("/now/q", 0), g("/e/0/r", 0)].concat())], 200, format!("handled p {} Some(Data(1))", conf)), (vec![], 200, format!("now q {} None", conf)), (vec![], 500, "late r".into())] });
        v.push(Story { name: format!("requests after one that failed after {} ms", d), turns: vec![(vec![(0, g(&format!("/e/{}/p", d), 0))], 500, "late p".into()), now("a")] });
    };
    match id {
        "C07" => mws(&mut v),
        "C11" => errors(&mut v),
        "C12" => bodies(&mut v),
        "C15" => bodies(&mut v),
        "C18" => {
            handlers(&mut v);
            idle(&mut v);
        }
        "C21" => idle(&mut v),
        "C19" => {
            handlers(&mut v);
            mws(&mut v);
            errors(&mut v);
        }
        _ => {
            handlers(&mut v);
            errors(&mut v);
            mws(&mut v);
            idle(&mut v);
        }
    }
    v
}

pub fn sections(id: &'static str, t: Tier) -> Vec<Section> {
    let mut delays: Vec<u64> = t.pick(vec![150, 600, 1200, 2300, 3200, 5300, 10300, 15300, 20300, 30400], vec![50, 150, 350, 600, 1200, 2300, 3200, 4300, 5300, 8300, 10300, 12300, 15300, 20300, 25300, 30400, 45400, 60500, 75500, 90500, 120500]);
    // a number the sources have not always had may be a time limit
    let longest = *delays.last().unwrap();
    delays.extend(crate::dict::sizes(vec![], 91).into_iter().map(|s| s as u64 * 1000 + 500).filter(|d| *d > longest).rev().take(1));
    let name = format!("slow: {} durations up to {} s at every point", delays.len(), delays.last().unwrap() / 1000);
    let apps = if id == "C20" { 2u64 } else { 1 };
    vec![section(&name, apps, move |i, w| {
        let results = play(w, id, &delays, i == 1, Duration::from_millis(longest_of(&delays) * 2) + Duration::from_secs(20), 400, None);
        let n = results.len() as u64 - 1;
        w.st.traces += n;
        w.st.transitions += 2 * n;
        w.st.evaluations += n;
        for k in 0..n {
            w.state(&("slow", i, k));
        }
        for r in results {
            r?;
        }
        Ok(())
    })]
}

fn longest_of(delays: &[u64]) -> u64 {
    delays.iter().copied().max().unwrap_or(0)
}

/// every story at every duration, all at once; the last result is that of the prompt requests made meanwhile
pub fn play(w: &mut W, id: &'static str, delays: &[u64], logger: bool, patience: Duration, probe_every: u64, tick: Option<std::sync::Arc<tokio::sync::Notify>>) -> Vec<Result<(), String>> {
    let all: Vec<Story> = delays.iter().flat_map(|d| stories(id, *d)).collect();
    w.wire.serve(
        || app(logger),
        async |port| {
            if let Some(n) = tick {
                tokio::task::spawn_local(async move {
                    loop {
                        n.notified().await
                    }
                });
            }
            let finished = Rc::new(RefCell::new(false));
            let mut hs = vec![];
            for s in all {
                hs.push(tokio::task::spawn_local(async move {
                    let mut c = Conn::open(port).await;
                    c.patience = patience;
                    for (k, (pieces, status, body)) in s.turns.iter().enumerate() {
                        for (wait, bytes) in pieces {
                            pass(*wait).await;
                            c.send(bytes).await;
                        }
                        let r = c.recv(false).await;
                        if r.status() != *status || r.text() != *body {
                            return Err(format!("{}: reply {} must be {} {:?}, is {}", s.name, k + 1, status, body, r.show()));
                        }
                    }
                    Ok(())
                }));
            }
            // prompt requests all the while, on one connection and on fresh ones
            let fin = finished.clone();
            let probe = tokio::task::spawn_local(async move {
                let mut c = Conn::open(port).await;
                c.patience = patience;
                let mut k = 0;
                while !*fin.borrow() {
                    let want = format!("now p{} Some(Conf(\"conf\")) None", k);
                    for fresh in [false, true] {
                        let x = g(&format!("/now/p{}", k), 0);
                        let r: Reply = if fresh {
                            let mut c = Conn::open(port).await;
                            c.patience = patience;
                            c.send(&x).await;
                            c.recv(false).await
                        } else {
                            c.send(&x).await;
                            c.recv(false).await
                        };
                        if r.status() != 200 || r.text() != want {
                            return Err(format!("a prompt request while others wait: expected {:?}, got {}", want, r.show()));
                        }
                    }
                    k += 1;
                    pass(probe_every).await;
                }
                Ok(())
            });
            let mut out = vec![];
            for h in hs {
                out.push(h.await.unwrap_or_else(|e| Err(format!("{}", e))));
            }
            *finished.borrow_mut() = true;
            out.push(probe.await.unwrap_or_else(|e| Err(format!("{}", e))));
            out
        },
    )
}
