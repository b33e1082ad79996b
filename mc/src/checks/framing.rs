//! How a body is framed on its way: HTTP/2 data frames, resets and trailers, unusual HTTP/1 framings, absurd lengths.
use super::decode::{compose, expect_read, read, READERS, TEXTS};
use crate::common::*;
use crate::sut::*;
use crate::wire::{self, Reply};
use hyper::{Body, Request};
use obsidian::{context::Context, App};

fn app() -> App {
    let mut a: App = App::new();
    a.post("/r/:k", |mut c: Context| async move {
        let k: usize = c.param("k")?;
        let rid = rid_of(&c);
        let got = read(&mut c, READERS[k]).await;
        trace_push(rid, Ev::Note(format!("{:?}", got)));
        c.build(format!("{:?}", got)).ok()
    });
    a.get("/ping", |c: Context| async move { c.build("pong").ok() });
    a
}

struct Two(hyper::client::conn::SendRequest<Body>);

impl Two {
    async fn open(port: u16) -> Two {
        let c = wire::Conn::open(port).await;
        let (send, conn) = hyper::client::conn::Builder::new().http2_only(true).handshake::<_, Body>(c.s).await.expect("h2 handshake");
        tokio::task::spawn_local(async move {
            let _ = conn.await;
        });
        Two(send)
    }

    /// What came back: status and body, or the error.
    async fn post(&mut self, target: &str, headers: &[(&str, String)], body: Body) -> (u16, String) {
        let mut r = Request::builder().method("POST").uri(format!("http://localhost{}", target));
        for (k, v) in headers {
            r = r.header(*k, v);
        }
        let fut = self.0.send_request(r.body(body).unwrap());
        match tokio::time::timeout(wire::REPLY_TIMEOUT, async {
            match fut.await {
                Ok(r) => {
                    let s = r.status().as_u16();
                    match hyper::body::to_bytes(r.into_body()).await {
                        Ok(b) => (s, String::from_utf8_lossy(&b).into_owned()),
                        Err(e) => (1, e.to_string()),
                    }
                }
                Err(e) => (0, e.to_string()),
            }
        })
        .await
        {
            Ok(x) => x,
            Err(_) => (2, "no answer".into()),
        }
    }
}

async fn breathe(n: usize) {
    for _ in 0..n {
        tokio::task::yield_now().await;
    }
}

/// Every division into HTTP/2 data frames; every point of a reset.
fn two_divisions(t: Tier) -> Section {
    let _ = t;
    section("HTTP/2: every division into frames, trailers, declared lengths", (TEXTS.len() * READERS.len() * 4) as u64, |i, w| {
        let (way, i) = (i as usize % 4, i as usize / 4);
        let (text, k) = (TEXTS[i / READERS.len()], i % READERS.len());
        let masks = 1u64 << text.len().saturating_sub(1);
        // 0 plain, 1 declared length, 2 trailers, 3 empty frames between and pauses
        let replies = w.wire.serve(app, async |port| {
            let mut c = Two::open(port).await;
            let mut out = vec![];
            for mask in 0..masks {
                let (mut tx, body) = Body::channel();
                let pieces = compose(text, mask);
                let feed = async move {
                    for p in pieces {
                        if way == 3 {
                            let _ = tx.send_data(hyper::body::Bytes::new()).await;
                            breathe(2).await;
                        }
                        if tx.send_data(p.into()).await.is_err() {
                            return;
                        }
                        if way == 3 {
                            breathe(2).await;
                        }
                    }
                    if way == 2 {
                        let mut h = hyper::HeaderMap::new();
                        h.insert("x-sum", "1".parse().unwrap());
                        let _ = tx.send_trailers(h).await;
                    }
                };
                let hs: Vec<(&str, String)> = if way == 1 { vec![("content-length", text.len().to_string())] } else { vec![] };
                let target = format!("/r/{}", k);
                let (r, _) = tokio::join!(c.post(&target, &hs, body), feed);
                out.push(r);
            }
            out
        });
        w.st.traces += 1;
        let e = format!("{:?}", expect_read(text, READERS[k], true));
        for (j, r) in replies.iter().enumerate() {
            w.st.evaluations += 1;
            w.st.transitions += 1;
            w.state(&(text, k, j, way));
            if *r != (200, e.clone()) {
                return Err(format!("{:?} of body {:?} over HTTP/2 ({}), division {:b}: expected {}, got {:?}", READERS[k], String::from_utf8_lossy(text), ["plain", "declared length", "trailers", "pauses"][way], j, e, r));
            }
        }
        w.outcome(&e);
        Ok(())
    })
}

fn two_resets() -> Section {
    section("HTTP/2: cut off after every frame", (TEXTS.len() * READERS.len() * 4) as u64, |i, w| {
        let (way, i) = (i as usize % 4, i as usize / 4);
        let (text, k) = (TEXTS[i / READERS.len()], i % READERS.len());
        if text.is_empty() {
            return Ok(());
        }
        // 0 reset, 1 reset with declared length, 2 ended short of its declared length, 3 connection gone
        let _ = trace_take();
        let last = w.wire.serve(app, async |port| {
            let mut c = Two::open(port).await;
            for cut in 0..text.len() {
                let (mut tx, body) = Body::channel();
                let feed = async move {
                    for p in text[..cut].chunks(1) {
                        if tx.send_data(p.to_vec().into()).await.is_err() {
                            return;
                        }
                        breathe(2).await;
                    }
                    breathe(6).await;
                    match way {
                        2 => {}
                        3 => {
                            breathe(6).await;
                            std::mem::forget(tx);
                        }
                        _ => tx.abort(),
                    }
                };
                let mut hs: Vec<(&str, String)> = vec![("x-rid", (2000 + cut).to_string())];
                if way == 1 || way == 2 {
                    hs.push(("content-length", text.len().to_string()));
                }
                let target = format!("/r/{}", k);
                if way == 3 {
                    let l = {
                        let p = c.post(&target, &hs, body);
                        tokio::pin!(p, feed);
                        tokio::select! { biased; _ = &mut feed => true, _ = &mut p => false }
                    };
                    let _ = l;
                    // the request and then the whole connection are dropped
                    c = Two::open(port).await;
                } else {
                    let _ = tokio::join!(c.post(&target, &hs, body), feed);
                }
            }
            breathe(20).await;
            let mut c = Two::open(port).await;
            c.post("/r/4", &[("x-rid", "9".into())], Body::from("end")).await
        });
        w.st.traces += 1;
        w.st.evaluations += 1;
        if last != (200, format!("{:?}", expect_read(b"end", READERS[4], true))) {
            return Err(format!("after requests cut off over HTTP/2 a good one got {:?}", last));
        }
        for (rid, ev) in trace_take() {
            if let (true, Ev::Note(x)) = (rid >= 2000, &ev) {
                w.st.transitions += 1;
                w.state(&(text, k, way, rid));
                if x != "None" {
                    return Err(format!("{:?} of body {:?} cut off over HTTP/2 ({}) after {} bytes still yielded {}", READERS[k], String::from_utf8_lossy(text), ["reset", "reset, declared length", "ended short of its declared length", "connection dropped"][way], rid - 2000, x));
                }
            }
        }
        Ok(())
    })
}

/// Bodies beyond the flow-control windows.
fn two_large(t: Tier) -> Section {
    let sizes: Vec<usize> = t.pick(vec![16_383, 16_384, 16_385, 65_534, 65_535, 65_536, 131_071, 300_000, 1_048_577, 1_500_000], vec![16_383, 16_384, 16_385, 65_534, 65_535, 65_536, 131_071, 300_000, 1_048_577, 1_500_000, 4_194_305, 9_000_000]);
    let steps = [1000usize, 16_384, 65_535, usize::MAX];
    section("HTTP/2: bodies beyond the windows", (sizes.len() * steps.len()) as u64, move |i, w| {
        let (n, step) = (sizes[i as usize / steps.len()], steps[i as usize % steps.len()]);
        for (k, text) in [(0usize, format!("[{:?}]", "x".repeat(n))), (3, format!("a={}&b=1", "y".repeat(n))), (4, "z".repeat(n))] {
            let text = text.into_bytes();
            w.st.traces += 1;
            w.state(&(n, step, k));
            let r = w.wire.serve(app, async |port| {
                let mut c = Two::open(port).await;
                let (mut tx, body) = Body::channel();
                let feed = async {
                    for p in text.chunks(step.min(text.len())) {
                        if tx.send_data(p.to_vec().into()).await.is_err() {
                            break;
                        }
                    }
                    drop(tx);
                };
                let target = format!("/r/{}", k);
                tokio::join!(c.post(&target, &[], body), feed).0
            });
            w.st.evaluations += 1;
            let e = (200, format!("{:?}", expect_read(&text, READERS[k], true)));
            if r != e {
                return Err(format!("{:?} of a body of {} bytes over HTTP/2 in frames of {}: expected {:?}, got {:?}", READERS[k], text.len(), step, e, r));
            }
        }
        Ok(())
    })
}

/// (name, head, body bytes, whether the body is whole). The HTTP layer may refuse a framing; it may not change the body.
fn framings(text: &[u8], k: usize, rid: u32) -> Vec<(String, String, Vec<u8>, bool)> {
    let head = |v: &str, h: &str| format!("POST /r/{} HTTP/{}\r\nhost: x\r\nx-rid: {}\r\n{}\r\n\r\n", k, v, rid, h);
    let te = "transfer-encoding: chunked";
    let cl = format!("content-length: {}", text.len());
    let chunks = |size: &dyn Fn(usize, usize) -> String, end: &str| {
        let mut b = vec![];
        for (i, c) in text.chunks(3).enumerate() {
            b.extend_from_slice(size(i, c.len()).as_bytes());
            b.extend_from_slice(b"\r\n");
            b.extend_from_slice(c);
            b.extend_from_slice(b"\r\n");
        }
        b.extend_from_slice(end.as_bytes());
        b
    };
    let end = "0\r\n\r\n";
    let x = |n: usize| format!("{:x}", n);
    let mut v = vec![
        ("chunk extensions".to_string(), head("1.1", te), chunks(&|_, n| format!("{:x};a=b", n), end), true),
        ("quoted chunk extensions".into(), head("1.1", te), chunks(&|_, n| format!("{:x};a=\"b;5\"", n), end), true),
        ("long chunk extensions".into(), head("1.1", te), chunks(&|_, n| format!("{:x};{}", n, "e".repeat(300)), end), true),
        ("zeros before the size".into(), head("1.1", te), chunks(&|_, n| format!("00000{:x}", n), end), true),
        ("blanks after the size".into(), head("1.1", te), chunks(&|_, n| format!("{:x}  ", n), end), true),
        ("trailers".into(), head("1.1", te), chunks(&|_, n| x(n), "0\r\nx-sum: 1\r\n\r\n"), true),
        ("many trailers".into(), head("1.1", &format!("trailer: x-a, x-b\r\n{}", te)), chunks(&|_, n| x(n), "0\r\nx-a: 1\r\nx-b: 2\r\n\r\n"), true),
        ("last chunk written 000".into(), head("1.1", te), chunks(&|_, n| x(n), "000\r\n\r\n"), true),
        ("Chunked in capitals".into(), head("1.1", "Transfer-Encoding: CHUNKED"), chunks(&|_, n| x(n), end), true),
        ("length and chunked".into(), head("1.1", &format!("{}\r\ncontent-length: 1", te)), chunks(&|_, n| x(n), end), true),
        ("length twice".into(), head("1.1", &format!("{}\r\n{}", cl, cl)), text.to_vec(), true),
        ("zeros before the length".into(), head("1.1", &format!("content-length: 000{}", text.len())), text.to_vec(), true),
        ("HTTP/1.0".into(), head("1.0", &cl), text.to_vec(), true),
        ("HTTP/1.0, kept alive".into(), head("1.0", &format!("connection: keep-alive\r\n{}", cl)), text.to_vec(), true),
        ("expect".into(), head("1.1", &format!("expect: 100-continue\r\n{}", cl)), text.to_vec(), true),
        ("expect, chunked".into(), head("1.1", &format!("expect: 100-continue\r\n{}", te)), chunks(&|_, n| x(n), end), true),
        ("close".into(), head("1.1", &format!("connection: close\r\n{}", cl)), text.to_vec(), true),
        ("upgrade asked".into(), head("1.1", &format!("connection: upgrade\r\nupgrade: h2c\r\n{}", cl)), text.to_vec(), true),
    ];
    let n = text.chunks(3).count();
    for at in 0..n {
        for (name, bad) in [("zz", "zz"), ("minus", "-3"), ("empty", ""), ("seventeen digits", "10000000000000003"), ("0x", "0x3"), ("blank first", "\u{b}3"), ("half the address space", "7fffffffffffffff"), ("nearly all", "fffffffffffffff0"), ("one too many", "+"), ("one too few", "-")] {
            let size = |i: usize, l: usize| match (i == at, bad) {
                (true, "+") => x(l + 1),
                (true, "-") if l > 1 => x(l - 1),
                (true, "-") => "1f".into(),
                (true, b) => b.into(),
                _ => x(l),
            };
            v.push((format!("chunk {} with size {}", at, name), head("1.1", te), chunks(&size, end), false));
        }
        // cut after this chunk, with a last chunk that is not one
        let mut b: Vec<u8> = vec![];
        for c in text.chunks(3).take(at + 1) {
            b.extend_from_slice(format!("{:x}\r\n", c.len()).as_bytes());
            b.extend_from_slice(c);
            b.extend_from_slice(b"\r\n");
        }
        for tail in ["0", "0\r", "0\r\n", "0\r\n\r", "0\r\nx", "0;", "\r\n", "0 0\r\n\r\n"] {
            let mut y = b.clone();
            y.extend_from_slice(tail.as_bytes());
            v.push((format!("after chunk {} {:?} and no more", at, tail), head("1.1", te), y, false));
        }
    }
    v
}

fn one_framings() -> Section {
    section("HTTP/1: unusual and broken framings", (TEXTS.len() * READERS.len()) as u64, |i, w| {
        let (text, k) = (TEXTS[i as usize / READERS.len()], i as usize % READERS.len());
        let _ = trace_take();
        let list: Vec<_> = framings(text, k, 0).into_iter().enumerate().map(|(j, f)| (f.0, f.1.replace("x-rid: 0", &format!("x-rid: {}", 3000 + j)), f.2, f.3)).collect();
        let l2 = list.clone();
        let (replies, last) = w.wire.serve(app, async |port| {
            let mut out = vec![];
            for (_, head, body, good) in &l2 {
                let mut c = wire::Conn::open(port).await;
                c.send(head.as_bytes()).await;
                breathe(3).await;
                c.send(body).await;
                if *good {
                    out.push(c.recv(false).await);
                } else {
                    breathe(6).await;
                    use tokio::io::AsyncWriteExt;
                    let _ = c.s.shutdown().await;
                    out.push(c.recv(false).await);
                }
            }
            (out, wire::once(port, &wire::req("GET", "/ping", &[], None), false).await)
        });
        w.st.traces += 1;
        let e = format!("{:?}", expect_read(text, READERS[k], true));
        let notes: Vec<(u32, String)> = trace_take().into_iter().filter_map(|(r, x)| if let Ev::Note(n) = x { Some((r, n)) } else { None }).collect();
        for (j, ((name, _, _, good), r)) in list.iter().zip(&replies).enumerate() {
            w.st.evaluations += 1;
            w.st.transitions += 1;
            w.state(&(text, k, j));
            let seen = notes.iter().find(|x| x.0 == 3000 + j as u32).map(|x| x.1.as_str());
            let fine = match (good, r) {
                (true, Reply::Full { status: 200, .. }) => r.text() == e && seen == Some(&e[..]),
                // refused by the HTTP layer before a handler saw it
                (true, r) => seen.is_none() && matches!(r, Reply::Full { status: 400..=499, .. } | Reply::Closed),
                (false, _) => matches!(seen, None | Some("None")),
            };
            if !fine {
                return Err(format!("{:?} of body {:?} framed with {}: whole body reads as {}; got {} and the handler read {:?}", READERS[k], String::from_utf8_lossy(text), name, e, r.show(), seen));
            }
        }
        if last.text() != "pong" {
            return Err(format!("after all framings of {:?} a good request got {}", String::from_utf8_lossy(text), last.show()));
        }
        Ok(())
    })
}

/// A client announces any length at all, sends a few bytes and goes away: an error for that read, and nothing for anybody else.
pub fn announced() -> Section {
    let lens: Vec<u64> = vec![9, 100, 65_536, 1 << 20, 1 << 24, 1 << 30, (1 << 31) - 1, 1 << 31, (1 << 32) - 1, 1 << 32, 1 << 40, 1 << 47, 1 << 53, (1 << 62) + 1, i64::MAX as u64 - 1, i64::MAX as u64, i64::MAX as u64 + 1, u64::MAX - 3, u64::MAX - 2, u64::MAX - 1, u64::MAX];
    let n = lens.len() as u64;
    section("absurd lengths announced, then nothing more", n * 3 * READERS.len() as u64, move |i, w| {
        let (len, i) = (lens[(i % n) as usize], i / n);
        let (how, k) = (i % 3, i as usize / 3);
        let _ = trace_take();
        let (others, after) = w.wire.serve(app, async |port| {
            let mut beside = wire::Conn::open(port).await;
            let mut others = vec![];
            for (j, sent) in ["", "1", "a=1&b=2", "{\"a\":1}"].iter().enumerate() {
                let rid = (4000 + j).to_string();
                match how {
                    0 | 1 => {
                        let head = if how == 0 { format!("POST /r/{} HTTP/1.1\r\nhost: x\r\nx-rid: {}\r\ncontent-length: {}\r\n\r\n", k, rid, len) } else { format!("POST /r/{} HTTP/1.1\r\nhost: x\r\nx-rid: {}\r\ntransfer-encoding: chunked\r\n\r\n{:x}\r\n", k, rid, len) };
                        let mut c = wire::Conn::open(port).await;
                        c.send(head.as_bytes()).await;
                        c.send(sent.as_bytes()).await;
                        breathe(6).await;
                        beside.send(&wire::req("GET", "/ping", &[], None)).await;
                        others.push(beside.recv(false).await);
                        use tokio::io::AsyncWriteExt;
                        let _ = c.s.shutdown().await;
                        let _ = c.recv(false).await;
                    }
                    _ => {
                        let mut c = Two::open(port).await;
                        let (mut tx, body) = Body::channel();
                        let feed = async {
                            let _ = tx.send_data(sent.as_bytes().to_vec().into()).await;
                            breathe(6).await;
                            beside.send(&wire::req("GET", "/ping", &[], None)).await;
                            let r = beside.recv(false).await;
                            tx.abort();
                            r
                        };
                        let target = format!("/r/{}", k);
                        let hs = [("x-rid", rid), ("content-length", len.to_string())];
                        let (_, r) = tokio::join!(c.post(&target, &hs, body), feed);
                        others.push(r);
                    }
                }
            }
            (others, wire::once(port, &wire::req("POST", "/r/4", &[], Some(b"end")), false).await)
        });
        w.st.traces += 1;
        w.state(&(len, how, k));
        for r in &others {
            w.st.evaluations += 1;
            w.st.transitions += 1;
            if r.text() != "pong" {
                return Err(format!("beside a request announcing {} bytes another one got {}", len, r.show()));
            }
        }
        if after.text() != format!("{:?}", expect_read(b"end", READERS[4], true)) {
            return Err(format!("after requests announcing {} bytes a good one got {}", len, after.show()));
        }
        for (rid, ev) in trace_take() {
            if let (true, Ev::Note(x)) = (rid >= 4000, &ev) {
                if x != "None" {
                    return Err(format!("{:?} of a body announced with {} bytes and cut off early yielded {}", READERS[k], len, x));
                }
            }
        }
        Ok(())
    })
}

pub fn sections(t: Tier) -> Vec<Section> {
    vec![two_divisions(t), two_resets(), two_large(t), one_framings(), announced()]
}
