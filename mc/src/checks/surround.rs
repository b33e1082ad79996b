//! What surrounds a request must not matter for routing: other headers, query, request-target form, protocol version, an unread
//! body, the requests answered before it. Appended to C01, C03, C06 and C09, each judging its own aspect.
use super::families::*;
use crate::common::*;
use crate::mass::{self, DEEP};
use crate::model::{self, Hit, Node};
use crate::sut::*;
use std::sync::Arc;

pub type Aspect = fn(&Seen, &Option<Hit>) -> Option<String>;

pub fn odd_segments() -> Vec<&'static str> {
    vec![
        ".", "..", "...", "%2e", "%2e%2e", "%2F", "a%2Fb", "%61", "a;v=1", "a.html", "a.", ".a", "A", "B", "a%20", "~a", "a,b", "a=b", "@", "$a", "index.html", "index", "*", "**", ":x", ":", "%", "%zz", "+", "-", "_",
        "null", "undefined", "0", "00", "a|b", "!", "'", "(a)", "%00", "%C3%A9", "%5C", "a:b", "[a]", "{a}", "aa", "ba",
    ]
}

pub fn noise() -> Vec<(&'static str, &'static str)> {
    let mut v = vec![
        ("x-http-method-override", "DELETE"),
        ("x-http-method-override", "GET"),
        ("x-http-method-override", "POST"),
        ("x-http-method", "PUT"),
        ("x-method-override", "PATCH"),
        ("x-original-url", "/a/b"),
        ("x-rewrite-url", "/a"),
        ("x-original-uri", "/"),
        ("x-forwarded-prefix", "/m"),
        ("x-forwarded-path", "/a"),
        ("x-forwarded-for", "10.0.0.1"),
        ("x-forwarded-host", "other.example"),
        ("x-forwarded-proto", "https"),
        ("x-script-name", "/a"),
        ("forwarded", "for=10.0.0.1;host=a"),
        ("authorization", "Bearer abc"),
        ("proxy-authorization", "Basic eA=="),
        ("cookie", "a=1; b=2"),
        ("set-cookie", "a=1"),
        ("accept", "application/json"),
        ("accept", "text/html"),
        ("accept-encoding", "gzip, deflate, br"),
        ("accept-encoding", "identity;q=0"),
        ("accept-language", "de"),
        ("accept-charset", "latin1"),
        ("accept-ranges", "none"),
        ("range", "bytes=0-0"),
        ("range", "bytes=1-"),
        ("range", "bytes=-1"),
        ("if-range", "\"x\""),
        ("if-match", "\"x\""),
        ("if-none-match", "*"),
        ("if-modified-since", "Fri, 01 Jan 2100 00:00:00 GMT"),
        ("if-unmodified-since", "Thu, 01 Jan 1970 00:00:00 GMT"),
        ("content-type", "application/json"),
        ("content-type", "application/x-www-form-urlencoded"),
        ("content-type", "multipart/form-data; boundary=x"),
        ("content-type", "text/plain; charset=latin1"),
        ("content-type", "nonsense"),
        ("content-encoding", "gzip"),
        ("content-encoding", "identity"),
        ("content-language", "de"),
        ("content-location", "/a/b"),
        ("content-disposition", "attachment"),
        ("content-range", "bytes 0-1/2"),
        ("content-md5", "Q2hlY2sgSW50ZWdyaXR5IQ=="),
        ("cache-control", "no-cache"),
        ("cache-control", "only-if-cached"),
        ("pragma", "no-cache"),
        ("origin", "http://other.example"),
        ("access-control-request-method", "GET"),
        ("access-control-request-headers", "x"),
        ("sec-fetch-mode", "cors"),
        ("sec-fetch-site", "cross-site"),
        ("referer", "http://other.example/a"),
        ("user-agent", ""),
        ("user-agent", "curl/8"),
        ("from", "a@b"),
        ("te", "trailers"),
        ("via", "1.1 x"),
        ("max-forwards", "0"),
        ("date", "Fri, 01 Jan 2100 00:00:00 GMT"),
        ("dnt", "1"),
        ("prefer", "return=minimal"),
        ("location", "/a/b"),
        ("upgrade-insecure-requests", "1"),
        ("x-requested-with", "XMLHttpRequest"),
        ("x-request-id", "1"),
        ("x-correlation-id", "1"),
        ("x-real-ip", "10.0.0.1"),
        ("x-csrf-token", "t"),
        ("x-api-key", "k"),
        ("x-debug", "1"),
        ("x-no-compression", "1"),
        ("traceparent", "00-0af7651916cd43dd8448eb211c80319c-b7ad6b7169203331-01"),
        ("retry-after", "1"),
        ("warning", "199 - x"),
        ("trailer", "x"),
        ("x-", "short"),
        ("keep-alive", "timeout=1, max=1"),
        ("expect", "100-continue"),
        ("expect", "nothing"),
        ("upgrade", "websocket"),
        ("sec-websocket-key", "dGhlIHNhbXBsZSBub25jZQ=="),
        ("tracestate", "a=b"),
        ("baggage", "a=b"),
        ("b3", "0"),
        ("x-b3-traceid", "80f198ee56343ba864fe8b2a57d3eff7"),
        ("x-amzn-trace-id", "Root=1-67891233-abcdef012345678912345678"),
        ("priority", "u=0, i"),
        ("early-data", "1"),
        ("save-data", "on"),
        ("sec-gpc", "1"),
        ("sec-purpose", "prefetch"),
        ("purpose", "prefetch"),
        ("sec-ch-ua-mobile", "?1"),
        ("service-worker", "script"),
        ("accept", "*/*"),
        ("accept", "text/event-stream"),
        ("accept", "text/plain;q=0"),
        ("content-type", "text/html"),
        ("content-type", "application/octet-stream"),
        ("content-type", "APPLICATION/JSON; charset=utf-16"),
        ("content-type", ""),
        ("cache-control", "max-age=0"),
        ("cache-control", "no-store"),
        ("grpc-timeout", "1m"),
        ("x-timeout", "0"),
        ("x-forwarded-port", "1"),
        ("x-forwarded-user", "root"),
        ("x-remote-user", "root"),
        ("x-user-id", "1"),
        ("x-tenant", "a"),
        ("x-accel-redirect", "/a"),
        ("x-sendfile", "/etc/hostname"),
        ("x-cache", "HIT"),
        ("x-retry", "1"),
        ("x-attempt", "2"),
        ("idempotency-key", "k"),
        ("x-idempotency-key", "k"),
        ("x-priority", "low"),
        ("x-trace", "1"),
        ("x-test", "1"),
        ("x-mode", "debug"),
        ("x-powered-by", "x"),
        ("x-base-path", "/a"),
        ("x-path", "/a/b"),
        ("x-method", "DELETE"),
        ("x-status", "500"),
        ("x-content-type-options", "nosniff"),
        ("x-frame-options", "DENY"),
        ("x-session", "s"),
        ("x-session-id", "s"),
        ("x-auth-token", "t"),
        ("x-client-id", "1"),
        ("x-device-id", "1"),
        ("x-version", "2"),
        ("api-version", "2"),
        ("x-api-version", "2"),
        ("accept-version", "2"),
        ("x-locale", "de"),
        ("x-stateless", "1"),
        ("x-skip-middleware", "1"),
        ("x-internal", "1"),
        ("x-health-check", "1"),
        ("x-probe", "1"),
        ("x-no-log", "1"),
        ("x-log", "0"),
        ("x-dry-run", "1"),
        ("depth", "infinity"),
        ("destination", "/a"),
        ("overwrite", "F"),
        ("slug", "a"),
        ("link", "</a>; rel=next"),
        ("age", "1"),
        ("etag", "\"x\""),
        ("last-modified", "Thu, 01 Jan 1970 00:00:00 GMT"),
        ("server", "x"),
        ("vary", "*"),
        ("www-authenticate", "Basic"),
        ("x-http-method-override", "HEAD"),
    ];
    // values that are no ASCII text, for every name there is
    let mut names: Vec<&'static str> = v.iter().map(|x| x.0).collect();
    names.dedup();
    names.sort();
    names.dedup();
    for n in names {
        v.push((n, "\u{e9}\u{65e5} \t\u{80}"));
    }
    v
}

/// the pairs of noise() one by one, and what the sources suggest beyond them
pub fn noise_groups() -> Vec<Vec<(String, String)>> {
    let n = noise();
    let names: Vec<&str> = n.iter().map(|x| x.0).collect::<std::collections::BTreeSet<_>>().into_iter().collect();
    let mut v: Vec<Vec<(String, String)>> = n.iter().map(|(k, x)| vec![(k.to_string(), x.to_string())]).collect();
    v.extend(crate::dict::headers(&names));
    v
}

pub fn op_sets() -> Vec<(&'static str, Vec<Op>)> {
    let all = |p: &str, base: u32| -> Vec<Op> { (0..5u8).map(|m| route(m, p, base + m as u32)).collect() };
    let mut v = vec![];
    v.push(("root only", vec![get("/", 1), route(1, "/", 2), Op::Mw { id: 500 }]));
    v.push(("literals", vec![get("/", 1), get("/a", 2), get("/a/b", 3), get("/ab", 4), get("/A", 5), get("/a/B", 6), get("/a.html", 7), get("/index.html", 8), mw_at("/a", 501), mw_at("/A", 502), mw_at("/a/b", 503), route(4, "/a/b", 9), route(1, "/a", 10)]));
    v.push(("parameters", vec![get("/a/:x", 1), get("/a/:x/b", 2), get("/a/:x/b/:y", 3), get("/b/:id", 4), route(1, "/a/:x", 5), route(4, "/b/:id", 6), mw_at("/a", 501), mw_at("/a/:x", 502), Op::Mw { id: 500 }]));
    v.push(("top parameter", vec![get("/:x", 1), get("/:x/a", 2), get("/:x/b/:y", 3), route(1, "/:x", 4), mw_at("/:x", 501)]));
    v.push(("wildcards", vec![get("/*", 1), get("/a/*", 2), get("/a/b", 3), get("/a/b/*", 4), get("/a/b/c/d", 5), route(1, "/a/*", 6), mw_at("/a/*", 501), mw_at("/a", 502), mw_at("/*", 503)]));
    v.push(("odd names", vec![get("/.", 1), get("/..", 2), get("/%61", 3), get("/a;v=1", 4), get("/a%2Fb", 5), get("/+", 6), get("/a:b", 7), get("/%2e/a", 8), get("/~a/b", 9), mw_at("/..", 501), mw_at("/.", 502)]));
    v.push(("mounts", vec![Op::Mount { p: "/a".into(), ops: vec![get("/", 1), get("/b", 2), get("/c/:x", 3), Op::Mw { id: 501 }, Op::Mount { p: "/m".into(), ops: vec![get("/*", 4), get("/b", 5), Op::Mw { id: 502 }] }] }, Op::Scope { name: "b".into(), ops: vec![get("/:id", 6), mw_at("/:id", 503)] }, Op::Mw { id: 500 }]));
    let mut o = all("/a", 10);
    o.extend(all("/a/b", 20));
    o.extend(all("/b/:x", 30));
    o.extend(all("/", 40));
    o.push(mw_at("/a", 501));
    v.push(("all methods", o));
    v.push(("one method each", vec![route(0, "/a", 1), route(1, "/b", 2), route(2, "/a/b", 3), route(3, "/", 4), route(4, "/ab", 5), Op::Mw { id: 500 }]));
    v
}

const PN: &[&str] = &["x", "y", "id"];

fn judge(w: &mut W, name: &str, ops: &[Op], node: &Node, r: &(u8, String), s: &Seen, aspect: Aspect, how: &dyn Fn() -> String) -> CaseResult {
    let hit = node.lookup(r.0, &r.1);
    w.st.evaluations += 1;
    w.outcome(&(&s.handler, &s.params, &s.entered));
    match aspect(s, &hit) {
        None => Ok(()),
        Some(d) => Err(format!("[{}] registrations: {}\nrequest: {} {} {}\n{}", name, show_ops(ops), METHODS[r.0 as usize], r.1, how(), d)),
    }
}

/// one request, in one surrounding
pub fn variants() -> Vec<(String, Arc<dyn Fn(&str, &str, &str) -> Vec<u8> + Send + Sync>)> {
    let mut v: Vec<(String, Arc<dyn Fn(&str, &str, &str) -> Vec<u8> + Send + Sync>)> = vec![];
    for g in noise_groups() {
        let name = format!("with {}: {}{}", g[0].0, g[0].1, if g.len() > 1 { " and others" } else { "" });
        v.push((
            name,
            Arc::new(move |m, p, rid| {
                let h: Vec<(&str, &str)> = std::iter::once(("x-rid", rid)).chain(g.iter().map(|(k, x)| (&k[..], &x[..]))).collect();
                crate::wire::req(m, p, &h, None)
            }),
        ));
    }
    for q in crate::dict::queries() {
        v.push((format!("with query ?{}", q), Arc::new(move |m, p, rid| crate::wire::req(m, &format!("{}?{}", p, q), &[("x-rid", rid)], None))));
    }
    for q in ["?", "?a=1", "?x=1&id=2", "?p=/a/b", "?/a", "??", "?*", "?:x=1", "?a=../..", "?%2F", "?_method=DELETE", "?method=POST", "?a?b", "?;", "?&&", "?a=b/c/../d", "?debug"] {
        v.push((format!("with query {}", q), Arc::new(move |m, p, rid| crate::wire::req(m, &format!("{}{}", p, q), &[("x-rid", rid)], None))));
    }
    for h in ["http://localhost", "http://other.example:81", "https://localhost", "http://user@localhost", "http://a"] {
        v.push((format!("with target in absolute form {}", h), Arc::new(move |m, p, rid| crate::wire::req(m, &format!("{}{}", h, p), &[("x-rid", rid)], None))));
    }
    for h in ["other.example", "a.localhost:1234", "10.0.0.1", "", "[::1]"] {
        v.push((format!("with host {:?}", h), Arc::new(move |m, p, rid| format!("{} {} HTTP/1.1\r\nhost: {}\r\nx-rid: {}\r\n\r\n", m, p, h, rid).into_bytes())));
    }
    v.push(("without host".into(), Arc::new(|m, p, rid| format!("{} {} HTTP/1.1\r\nx-rid: {}\r\n\r\n", m, p, rid).into_bytes())));
    v.push(("as HTTP/1.0".into(), Arc::new(|m, p, rid| format!("{} {} HTTP/1.0\r\nx-rid: {}\r\nconnection: keep-alive\r\n\r\n", m, p, rid).into_bytes())));
    v.push(("with upper-case header names".into(), Arc::new(|m, p, rid| format!("{} {} HTTP/1.1\r\nHOST: x\r\nX-RID: {}\r\n\r\n", m, p, rid).into_bytes())));
    v.push(("with a connection header".into(), Arc::new(|m, p, rid| format!("{} {} HTTP/1.1\r\nhost: x\r\nx-rid: {}\r\nconnection: keep-alive\r\n\r\n", m, p, rid).into_bytes())));
    v.push(("with 90 headers".into(), Arc::new(|m, p, rid| {
        let h: Vec<String> = (0..90).map(|i| format!("x-h{}: v{}\r\n", i, i)).collect();
        format!("{} {} HTTP/1.1\r\nhost: x\r\nx-rid: {}\r\n{}\r\n", m, p, rid, h.concat()).into_bytes()
    })));
    v.push(("with a long header".into(), Arc::new(|m, p, rid| format!("{} {} HTTP/1.1\r\nhost: x\r\nx-rid: {}\r\nx-long: {}\r\n\r\n", m, p, rid, "v".repeat(20000)).into_bytes())));
    for n in [0usize, 1, 3, 1000] {
        v.push((format!("with an unread body of {} bytes", n), Arc::new(move |m, p, rid| crate::wire::req(m, p, &[("x-rid", rid)], Some(&vec![b'x'; n])))));
    }
    v.push(("with an unread chunked body".into(), Arc::new(|m, p, rid| format!("{} {} HTTP/1.1\r\nhost: x\r\nx-rid: {}\r\ntransfer-encoding: chunked\r\n\r\n3\r\nabc\r\n0\r\n\r\n", m, p, rid).into_bytes())));
    v.push(("with a form body naming a method".into(), Arc::new(|m, p, rid| crate::wire::req(m, p, &[("x-rid", rid), ("content-type", "application/x-www-form-urlencoded")], Some(b"_method=DELETE&a=1")))));
    v
}

fn requests(ops: &[Op]) -> Vec<(u8, String)> {
    let used: std::collections::BTreeSet<u8> = ops.iter().flat_map(methods_of).chain([0u8, 1]).collect();
    let mut paths = requests_for(&paths_of(ops), false);
    paths.retain(|p| wire_ok(p));
    paths.truncate(28);
    for p in ["/none", "/a//b", "/A/B", "/a/b/"] {
        if !paths.contains(&p.to_string()) {
            paths.push(p.to_string());
        }
    }
    paths.iter().flat_map(|p| used.iter().map(move |m| (*m, p.clone()))).collect()
}

fn methods_of(o: &Op) -> Vec<u8> {
    match o {
        Op::Route { m, .. } => vec![*m],
        Op::Mount { ops, .. } | Op::Scope { ops, .. } => ops.iter().flat_map(methods_of).collect(),
        _ => vec![],
    }
}

/// order in which every request directly follows every request (itself included)
pub fn all_pairs_order(n: usize) -> Vec<usize> {
    // Eulerian circuit of the complete digraph with loops, Hierholzer
    let mut next = vec![0usize; n];
    let mut stack = vec![0usize];
    let mut out = vec![];
    while let Some(v) = stack.last().cloned() {
        if next[v] < n {
            let u = next[v];
            next[v] += 1;
            stack.push(u);
        } else {
            out.push(v);
            stack.pop();
        }
    }
    out.reverse();
    out
}

pub fn sections(t: Tier, aspect: Aspect) -> Vec<Section> {
    let sets: Arc<Vec<(&'static str, Vec<Op>, Node)>> = Arc::new(op_sets().into_iter().map(|(n, o)| { let m = model::run(&o).expect("accepted"); (n, o, m) }).collect());
    let k = sets.len() as u64;
    let mut out = vec![];

    // odd segments
    let odd: Arc<Vec<&'static str>> = Arc::new({ let mut v = odd_segments(); v.extend(["a", "b", "c", "ab", "m"]); v });
    let no = odd.len() as u64;
    let s2 = sets.clone();
    let o2 = odd.clone();
    let depth3 = t == Tier::Thorough && DEEP;
    out.push(section("requests with odd segments", k * no, move |i, w| {
        PNAMES.with(|p| p.set(PN));
        let (name, ops, node) = &s2[(i % k) as usize];
        let a = o2[(i / k) as usize];
        let mut reqs = vec![];
        for m in [0u8, 1] {
            reqs.push((m, format!("/{}", a)));
        }
        for b in o2.iter() {
            reqs.push((0, format!("/{}/{}", a, b)));
            reqs.push((0, format!("/a/{}/{}", a, b)));
            reqs.push((0, format!("/{}/a/{}", a, b)));
            reqs.push((0, format!("/{}/{}/b", a, b)));
            if depth3 {
                for c in o2.iter() {
                    reqs.push((0, format!("/{}/{}/{}", a, b, c)));
                    reqs.push((0, format!("/a/{}/{}/{}", a, b, c)));
                }
            }
        }
        let m = match mass::build(ops) {
            Ok(m) => m,
            Err(_) => return Ok(()),
        };
        w.st.traces += 1;
        w.st.transitions += ops.len() as u64;
        w.state(&node.canon());
        let seen = m.ask(w, &reqs);
        for (r, s) in reqs.iter().zip(&seen) {
            if let Some(s) = s {
                judge(w, name, ops, node, r, s, aspect, &|| String::new())?;
            }
        }
        Ok(())
    }));
    let s2 = sets.clone();
    let o2 = odd.clone();
    out.push(section("requests with odd segments over the wire", k * no, move |i, w| {
        PNAMES.with(|p| p.set(PN));
        let (name, ops, node) = &s2[(i % k) as usize];
        let a = o2[(i / k) as usize];
        if may_panic(|| drop(build_app(ops))).is_err() {
            return Ok(());
        }
        let mut reqs = vec![(0, format!("/{}", a)), (1, format!("/{}", a)), (0, format!("/{}/", a))];
        for b in o2.iter() {
            reqs.push((0, format!("/{}/{}", a, b)));
            reqs.push((0, format!("/a/{}/{}", a, b)));
        }
        reqs.retain(|r| wire_ok(&r.1));
        w.st.traces += 1;
        let seen = wire_dispatch(w, ops, &reqs);
        for (r, s) in reqs.iter().zip(&seen) {
            judge(w, name, ops, node, r, s, aspect, &|| "over the wire".into())?;
        }
        Ok(())
    }));

    // surroundings
    let vs = Arc::new(variants());
    let nv = vs.len() as u64;
    let s2 = sets.clone();
    out.push(section("what surrounds a request", k * nv, move |i, w| {
        PNAMES.with(|p| p.set(PN));
        let (name, ops, node) = &s2[(i % k) as usize];
        let (vn, mk) = &vs[(i / k) as usize];
        if may_panic(|| drop(build_app(ops))).is_err() {
            return Ok(());
        }
        let reqs = requests(ops);
        let raw: Vec<(Vec<u8>, bool)> = reqs.iter().enumerate().map(|(j, r)| (mk(METHODS[r.0 as usize], &r.1, &j.to_string()), false)).collect();
        w.st.traces += 1;
        w.st.transitions += reqs.len() as u64;
        w.state(&(i, 1));
        // a body nobody reads may end the connection after the reply
        let seen = wire_raw_on(w, || build_app(ops), &raw, vn.contains("body"));
        for (r, s) in reqs.iter().zip(&seen) {
            judge(w, name, ops, node, r, s, aspect, &|| vn.clone())?;
        }
        w.sample(|| format!("{}: {} requests {}", name, reqs.len(), vn));
        Ok(())
    }));

    // histories: every request directly after every other, on one application
    let s2 = sets.clone();
    out.push(section("every request after every other", k * 2, move |i, w| {
        PNAMES.with(|p| p.set(PN));
        let (name, ops, node) = &s2[(i % k) as usize];
        let wire = i / k == 1;
        let mut base = requests(ops);
        if wire {
            base.truncate(70);
        }
        let order = all_pairs_order(base.len());
        let reqs: Vec<(u8, String)> = order.iter().map(|j| base[*j].clone()).collect();
        w.st.transitions += reqs.len() as u64;
        w.st.traces += 1;
        w.state(&(i, 2));
        let seen: Vec<Option<Seen>> = if wire {
            if may_panic(|| drop(build_app(ops))).is_err() {
                return Ok(());
            }
            wire_dispatch(w, ops, &reqs).into_iter().map(Some).collect()
        } else {
            match mass::build(ops) {
                Ok(m) => m.ask(w, &reqs),
                Err(_) => return Ok(()),
            }
        };
        for (j, (r, s)) in reqs.iter().zip(&seen).enumerate() {
            if let Some(s) = s {
                judge(w, name, ops, node, r, s, aspect, &|| format!("as request {} of one application, after {} {}", j, METHODS[reqs[j.max(1) - 1].0 as usize], reqs[j.max(1) - 1].1))?;
            }
        }
        Ok(())
    }));

    // very many different paths on one application, then the first ones again
    let many = if DEEP { t.pick(20_000usize, 300_000) } else { 300 };
    let s2 = sets.clone();
    out.push(section("many different paths on one application", k, move |i, w| {
        PNAMES.with(|p| p.set(PN));
        let (name, ops, node) = &s2[i as usize];
        let forms: [fn(usize) -> String; 5] = [|n| format!("/v{}", n), |n| format!("/a/v{}", n), |n| format!("/b/v{}", n), |n| format!("/a/v{}/b", n), |n| format!("/a/m/v{}", n)];
        let m = match mass::build(ops) {
            Ok(m) => m,
            Err(_) => return Ok(()),
        };
        w.st.traces += 1;
        w.st.transitions += many as u64;
        w.state(&(i, 3));
        let mut done = 0usize;
        while done < many {
            let n = (many - done).min(1000);
            let mut reqs: Vec<(u8, String)> = (done..done + n).map(|j| ((j / 5 % 2) as u8, forms[j % 5](j / 5))).collect();
            // old ones again
            reqs.extend((0..50).map(|j| { let j = j * (done / 50 + 1); ((j / 5 % 2) as u8, forms[j % 5](j / 5)) }));
            let seen = m.ask(w, &reqs);
            for (r, s) in reqs.iter().zip(&seen) {
                if let Some(s) = s {
                    judge(w, name, ops, node, r, s, aspect, &|| format!("after {} different paths", done))?;
                }
            }
            done += n;
        }
        Ok(())
    }));
    out
}
