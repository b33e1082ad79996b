//! C19 (interleavings), C23 (abandonment), C21 (connection histories): the real server under a controlled schedule. Handlers and
//! middleware wait at gates that only the explorer opens; client and server share one thread, so a schedule is a sequence of steps.
use crate::common::*;
use crate::script::Act::*;
use crate::script::*;
use crate::sut::{trace_take, Ev, METHODS};
use crate::wire::{self, Reply};
use hyper::{Body, Request};
use std::cell::RefCell;
use std::rc::Rc;
use std::sync::Arc;
use std::time::{Duration, Instant};

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Do {
    Head,
    Piece,
    Open,
    Cancel,
}
/// what must have happened once the step has taken effect
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Then {
    /// this many gates reached
    Gate(usize),
    /// nothing visible
    Quiet,
    Done,
}

#[derive(Clone, Debug)]
pub struct Spec {
    pub name: &'static str,
    /// index into the chain table; None: a path nothing matches
    pub chain: Option<usize>,
    pub method: u8,
    pub target: String,
    pub pieces: Vec<Vec<u8>>,
    pub steps: Vec<(Do, Then)>,
}

fn root() -> Script {
    sc(&[Gate, See(0), Put(0, 1), Next, See(0), See(1), SeeState])
}

pub fn chains() -> Vec<Chain> {
    let c = |mws: Vec<(u8, Vec<Act>)>, h: Vec<Act>, mounted: bool| {
        let mut v = vec![(0, root())];
        v.extend(mws.into_iter().map(|(l, a)| (l, sc(&a))));
        let mut c = Chain::new(v, sc(&h));
        c.state = Some(40);
        c.mounted = mounted;
        c
    };
    vec![
        c(vec![(3, vec![Inc(0), Next, Gate, AddHeader(1), SeeResp])], vec![Param, Query, Head, SeeState, IncState, SeeState, Gate, See(0), Param, Build(1)], false),
        c(vec![(1, vec![Put(1, 5), SetReqHeader(2), Next])], vec![Head, Gate, Json, See(0), See(1), Param, Build(4), See(0)], false),
        c(vec![(2, vec![Next, SeeResp])], vec![Param, IncState, Gate, Fail(0)], true),
        c(vec![(2, vec![Put(0, 7), IncState, Build(2), Gate, See(0)])], vec![Build(0)], false),
        c(vec![(3, vec![Next, Recover(5)])], vec![Form, Gate, SeeState, Param, Fail(7)], true),
        c(vec![], vec![PutState(1), SeeState, Gate, Panic], false),
        c(vec![], vec![Take, Gate, Rem(0), See(0), Build(4)], false),
    ]
}

fn json_body() -> Vec<Vec<u8>> {
    vec![b"{\"k\": [1, ".to_vec(), b"\"two\"]}".to_vec()]
}

pub fn specs() -> Vec<Spec> {
    use Do::*;
    use Then::Done;
    use Then::Gate as G;
    use Then::Quiet;
    let s = |name, chain: Option<usize>, method, target: &str, pieces: Vec<Vec<u8>>, steps: Vec<(Do, Then)>| Spec { name, chain, method, target: target.into(), pieces, steps };
    vec![
        s("data", Some(0), 0, "b/i0?id=5", vec![], vec![(Head, G(1)), (Open, G(2)), (Open, G(3)), (Open, Done)]),
        s("json, body late", Some(1), 1, "b/i1", json_body(), vec![(Head, G(1)), (Open, G(2)), (Open, Quiet), (Piece, Quiet), (Piece, Done)]),
        s("json, body early", Some(1), 2, "b/i2?x=y", json_body(), vec![(Head, G(1)), (Piece, Quiet), (Piece, Quiet), (Open, G(2)), (Open, Done)]),
        s("failing", Some(2), 0, "b/i3", vec![], vec![(Head, G(1)), (Open, G(2)), (Open, Done)]),
        s("answered by middleware", Some(3), 4, "b/i4", vec![], vec![(Head, G(1)), (Open, G(2)), (Open, Done)]),
        s("form, recovered", Some(4), 1, "b/i5", vec![b"a=1&b=x+y".to_vec()], vec![(Head, G(1)), (Open, Quiet), (Piece, G(2)), (Open, Done)]),
        s("nothing there", None, 0, "none/b/i6", vec![], vec![(Head, Done)]),
        s("panicking", Some(5), 0, "b/i7", vec![], vec![(Head, G(1)), (Open, G(2)), (Open, Done)]),
        s("raw body", Some(6), 3, "b/i8?q=1", vec![b"one ".to_vec(), b"two".to_vec()], vec![(Head, G(1)), (Piece, Quiet), (Open, Quiet), (Piece, G(2)), (Open, Done)]),
        s("data again", Some(0), 1, "b/i9?id=6&id=7", vec![], vec![(Head, G(1)), (Open, G(2)), (Open, G(3)), (Open, Done)]),
    ]
}

fn target(sp: &Spec) -> String {
    match sp.chain {
        Some(c) => format!("{}/{}", BASES[c], sp.target),
        None => format!("/{}", sp.target),
    }
}

fn mreq(sp: &Spec, rid: u32) -> MReq {
    MReq { method: sp.method, target: target(sp), xq: Some(format!("q{}", rid)), body: if sp.pieces.is_empty() { None } else { Some(sp.pieces.concat()) }, extra: vec![] }
}

pub fn expected(chains: &[Chain], sp: &Spec, rid: u32) -> Expected {
    match sp.chain {
        Some(c) => expect(&chains[c], &mreq(sp, rid)),
        None => Expected { trace: vec![], status: 404, headers: Default::default(), body: String::new() },
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Via {
    /// its own HTTP/1.1 connection
    One,
    /// a stream of HTTP/2 connection k
    Two(usize),
}

struct H2 {
    send: hyper::client::conn::SendRequest<Body>,
    driver: tokio::task::JoinHandle<()>,
}

enum Client {
    H1(wire::Conn),
    H2 { reply: Rc<RefCell<Option<Reply>>>, task: tokio::task::JoinHandle<()>, body: Option<hyper::body::Sender> },
    Gone,
}

async fn yields(n: usize) {
    for _ in 0..n {
        tokio::task::yield_now().await;
    }
}

/// ids of the requests sent after all the scheduled ones
const LATER: u32 = 10_000;
const STUCK: Duration = Duration::from_secs(15);

extern "C" {
    fn setsockopt(fd: i32, level: i32, name: i32, val: *const i32, len: u32) -> i32;
}

thread_local! {
    /// sockets of the open HTTP/2 connections: without prompt acknowledgements the server's small writes wait 40 ms for one another
    static ACKED: RefCell<Vec<i32>> = RefCell::new(vec![]);
}

fn ack_now() {
    ACKED.with(|a| {
        for fd in a.borrow().iter() {
            let one = 1i32;
            // a closed descriptor is refused, which is fine
            unsafe { setsockopt(*fd, 6, 12, &one, 4) };
        }
    })
}

async fn until(mut f: impl FnMut() -> bool) -> bool {
    let t0 = Instant::now();
    let mut n = 0u64;
    loop {
        if f() {
            return true;
        }
        tokio::task::yield_now().await;
        n += 1;
        if n % 16 == 0 {
            ack_now();
        }
        if n % 2000 == 0 {
            tokio::time::sleep(Duration::from_millis(1)).await;
            if t0.elapsed() > STUCK {
                return false;
            }
        }
    }
}

pub struct Driver {
    port: u16,
    h2: Vec<Option<H2>>,
}

impl Driver {
    pub fn new(port: u16) -> Driver {
        ACKED.with(|a| a.borrow_mut().clear());
        Driver { port, h2: vec![] }
    }

    async fn h2(&mut self, k: usize) -> &mut H2 {
        while self.h2.len() <= k {
            self.h2.push(None);
        }
        if self.h2[k].is_none() {
            let c = wire::Conn::open(self.port).await;
            use std::os::unix::io::AsRawFd;
            ACKED.with(|a| a.borrow_mut().push(c.s.as_raw_fd()));
            let (send, conn) = hyper::client::conn::Builder::new().http2_only(true).handshake::<_, Body>(c.s).await.expect("h2 handshake");
            let driver = tokio::task::spawn_local(async move {
                let _ = conn.await;
            });
            self.h2[k] = Some(H2 { send, driver });
        }
        self.h2[k].as_mut().unwrap()
    }

    async fn head(&mut self, sp: &Spec, rid: u32, via: Via) -> Client {
        let m = mreq(sp, rid);
        let rids = rid.to_string();
        match via {
            Via::One => {
                let mut c = wire::Conn::open(self.port).await;
                let mut h: Vec<(&str, &str)> = vec![("x-rid", &rids), ("x-q", m.xq.as_deref().unwrap())];
                let len = sp.pieces.iter().map(|p| p.len()).sum::<usize>().to_string();
                if !sp.pieces.is_empty() {
                    h.push(("content-length", &len));
                }
                c.send(&wire::req(METHODS[sp.method as usize], &m.target, &h, None)).await;
                Client::H1(c)
            }
            Via::Two(k) => {
                let (tx, body) = if sp.pieces.is_empty() {
                    (None, Body::empty())
                } else {
                    let (tx, b) = Body::channel();
                    (Some(tx), b)
                };
                let req = Request::builder().method(METHODS[sp.method as usize]).uri(format!("http://localhost{}", m.target)).header("x-rid", &rids).header("x-q", m.xq.unwrap()).body(body).unwrap();
                let h2 = self.h2(k).await;
                let fut = h2.send.send_request(req);
                let reply = Rc::new(RefCell::new(None));
                let out = reply.clone();
                let task = tokio::task::spawn_local(async move {
                    let r = match fut.await {
                        Ok(r) => {
                            let (p, b) = r.into_parts();
                            match hyper::body::to_bytes(b).await {
                                Ok(b) => Reply::Full {
                                    status: p.status.as_u16(),
                                    headers: p.headers.iter().map(|(k, v)| (k.as_str().to_string(), String::from_utf8_lossy(v.as_bytes()).into_owned())).collect(),
                                    body: b.to_vec(),
                                },
                                Err(e) => Reply::Garbage(e.to_string()),
                            }
                        }
                        Err(_) => Reply::Closed,
                    };
                    *out.borrow_mut() = Some(r);
                });
                Client::H2 { reply, task, body: tx }
            }
        }
    }
}

/// One schedule: `order` names whose step comes next. Returns per request its reply (None when cancelled), or what got stuck.
pub struct Run {
    pub replies: Vec<Option<Reply>>,
    pub after: Vec<Reply>,
    pub traces: std::collections::HashMap<u32, Vec<String>>,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum CancelHow {
    Reset,
    Close,
    WholeConnection,
}

pub async fn drive(port: u16, specs: &[&Spec], steps: &[Vec<(Do, Then)>], via: &[Via], order: &[usize], how: CancelHow, after: &[&Spec]) -> Result<(Vec<Option<Reply>>, Vec<Reply>), String> {
    let mut d = Driver::new(port);
    let n = specs.len();
    let mut clients: Vec<Client> = (0..n).map(|_| Client::Gone).collect();
    let mut at = vec![0usize; n];
    let mut piece = vec![0usize; n];
    let mut replies: Vec<Option<Reply>> = vec![None; n];
    let mut cancelled: Vec<u32> = vec![];
    for (pos, r) in order.iter().cloned().enumerate() {
        let (act, then) = steps[r][at[r]];
        at[r] += 1;
        let rid = r as u32;
        match act {
            Do::Head => clients[r] = d.head(specs[r], rid, via[r]).await,
            Do::Piece => {
                let p = specs[r].pieces[piece[r]].clone();
                piece[r] += 1;
                let last = piece[r] == specs[r].pieces.len();
                match &mut clients[r] {
                    Client::H1(c) => c.send(&p).await,
                    Client::H2 { body, .. } => {
                        if let Some(tx) = body {
                            let _ = tokio::time::timeout(STUCK, tx.send_data(p.into())).await;
                        }
                        if last {
                            *body = None;
                        }
                    }
                    Client::Gone => {}
                }
            }
            Do::Open => gate_release(rid),
            Do::Cancel => {
                cancelled.push(rid);
                match std::mem::replace(&mut clients[r], Client::Gone) {
                    Client::H1(c) => {
                        if how != CancelHow::Reset {
                            #[allow(deprecated)]
                            let _ = c.s.set_linger(None);
                        }
                        drop(c);
                    }
                    Client::H2 { task, body, .. } => {
                        task.abort();
                        let _ = task.await;
                        drop(body);
                        if how == CancelHow::WholeConnection {
                            if let Via::Two(k) = via[r] {
                                if let Some(h) = d.h2[k].take() {
                                    drop(h.send);
                                    h.driver.abort();
                                    let _ = h.driver.await;
                                }
                            }
                        }
                    }
                    Client::Gone => {}
                }
                yields(12).await;
            }
        }
        let stuck = |what: &str| format!("step {} of the schedule (request {}, {:?}): {}", pos, r, act, what);
        match then {
            Then::Quiet => yields(6).await,
            Then::Gate(k) => {
                if !until(|| gate_arrived(rid) >= k).await {
                    return Err(stuck("the request makes no progress while others are suspended"));
                }
            }
            Then::Done => {
                let rep = match &mut clients[r] {
                    Client::H1(c) => c.recv(false).await,
                    Client::H2 { reply, .. } => {
                        let x = reply.clone();
                        if !until(|| x.borrow().is_some()).await {
                            return Err(stuck("no reply although its processing is complete"));
                        }
                        let v = x.borrow_mut().take().unwrap();
                        v
                    }
                    Client::Gone => Reply::Closed,
                };
                if rep == Reply::Timeout {
                    return Err(stuck("no reply although its processing is complete"));
                }
                replies[r] = Some(rep);
            }
        }
    }
    // whatever is left of the abandoned ones may go on now, if anything is left
    for rid in cancelled {
        for _ in 0..4 {
            gate_release(rid);
            yields(2).await;
        }
    }
    let mut later = vec![];
    for (i, sp) in after.iter().enumerate() {
        let rid = LATER + i as u32;
        for _ in 0..4 {
            gate_release(rid);
        }
        let mut c = d.head(sp, rid, Via::One).await;
        if let Client::H1(c) = &mut c {
            c.send(&sp.pieces.concat()).await;
            later.push(c.recv(false).await);
        }
    }
    Ok((replies, later))
}

pub fn run_schedule(w: &mut W, chains: &[Chain], specs: &[&Spec], steps: &[Vec<(Do, Then)>], via: &[Via], order: &[usize], how: CancelHow, after: &[&Spec]) -> Result<Run, String> {
    gates_reset();
    let _ = trace_take();
    let r = w.wire.serve(|| build_all(chains), async |port| drive(port, specs, steps, via, order, how, after).await);
    gates_reset();
    let tr = trace_take();
    let (replies, after) = r?;
    let mut traces: std::collections::HashMap<u32, Vec<String>> = Default::default();
    for (rid, e) in tr {
        if let Ev::Note(n) = e {
            // HTTP/2 requests carry scheme and authority
            traces.entry(rid).or_default().push(if n.contains(":head ") { n.replacen(" http://localhost/", " /", 1) } else { n });
        }
    }
    Ok(Run { replies, after, traces })
}

fn judge(e: &Expected, sp: &Spec, got: &Reply, tr: &[String]) -> Option<String> {
    if tr != &e.trace[..] {
        return Some(format!("expected course {:?}\n     got course {:?}", e.trace, tr));
    }
    if sp.chain.is_none() {
        return if got.status() == 404 { None } else { Some(format!("expected 404, got {}", got.show())) };
    }
    if e.status == 0 {
        return if *got == Reply::Closed { None } else { Some(format!("expected a dropped request, got {}", got.show())) };
    }
    check_reply(e, got)
}

/// The k-th arrangement of a multiset of steps.
pub fn arrangement(counts: &[usize], mut k: u64) -> Vec<usize> {
    let mut c = counts.to_vec();
    let mut out = vec![];
    while c.iter().sum::<usize>() > 0 {
        for i in 0..c.len() {
            if c[i] == 0 {
                continue;
            }
            c[i] -= 1;
            let m = arrangements(&c);
            if k < m {
                out.push(i);
                break;
            }
            k -= m;
            c[i] += 1;
        }
    }
    out
}

pub fn arrangements(counts: &[usize]) -> u64 {
    let mut r = 1u64;
    let mut n = 0u64;
    for c in counts {
        for j in 1..=*c as u64 {
            n += 1;
            r = r * n / j;
        }
    }
    r
}

fn vias(n: usize, k: usize) -> Vec<Via> {
    match k {
        0 => vec![Via::One; n],
        1 => vec![Via::Two(0); n],
        _ => (0..n).map(|i| if i == 0 { Via::One } else { Via::Two(0) }).collect(),
    }
}

fn describe_run(specs: &[&Spec], via: &[Via], order: &[usize]) -> String {
    format!("requests {:?} over {:?}\nschedule (whose step) {:?}", specs.iter().map(|s| s.name).collect::<Vec<_>>(), via, order)
}

/// All interleavings of one tuple of requests over one transport.
fn one_interleaving(w: &mut W, ch: &[Chain], sp: &[&Spec], via: &[Via], k: u64) -> CaseResult {
    let counts: Vec<usize> = sp.iter().map(|s| s.steps.len()).collect();
    let order = arrangement(&counts, k);
    let steps: Vec<Vec<(Do, Then)>> = sp.iter().map(|s| s.steps.clone()).collect();
    let names: Vec<&str> = sp.iter().map(|s| s.name).collect();
    let r = run_schedule(w, ch, sp, &steps, via, &order, CancelHow::Reset, &[]).map_err(|e| format!("{}\n{}", describe_run(sp, via, &order), e))?;
    w.st.traces += 1;
    w.st.transitions += order.len() as u64;
    let mut at = vec![0usize; sp.len()];
    for o in &order {
        at[*o] += 1;
        w.state(&(&names, via, &at));
    }
    for (i, s) in sp.iter().enumerate() {
        let e = expected(ch, s, i as u32);
        w.st.evaluations += 1;
        w.outcome(&(s.name, i));
        let empty = vec![];
        if let Some(b) = judge(&e, s, r.replies[i].as_ref().unwrap_or(&Reply::Closed), r.traces.get(&(i as u32)).unwrap_or(&empty)) {
            return Err(format!("{}\nrequest {} ({}): {}", describe_run(sp, via, &order), i, s.name, b));
        }
    }
    Ok(())
}

fn tuple_section(name: &str, tuples: Vec<Vec<usize>>, transports: Vec<usize>) -> Section {
    let sp = Arc::new(specs());
    let ch = Arc::new(chains());
    let mut ends: Vec<u64> = vec![];
    let mut tot = 0;
    let mut items = vec![];
    for t in &tuples {
        for v in &transports {
            let counts: Vec<usize> = t.iter().map(|i| sp[*i].steps.len()).collect();
            tot += arrangements(&counts);
            ends.push(tot);
            items.push((t.clone(), *v));
        }
    }
    section(name, tot, move |i, w| {
        let k = ends.partition_point(|e| *e <= i);
        let base = if k == 0 { 0 } else { ends[k - 1] };
        let (t, v) = &items[k];
        let s: Vec<&Spec> = t.iter().map(|x| &sp[*x]).collect();
        one_interleaving(w, &ch, &s, &vias(s.len(), *v), i - base)
    })
}

pub fn c19(t: Tier) -> Check {
    let n = specs().len();
    let pairs: Vec<Vec<usize>> = (0..n).flat_map(|a| (0..n).map(move |b| vec![a, b])).collect();
    let mut s = vec![
        tuple_section("each request alone", (0..n).map(|a| vec![a]).collect(), vec![0, 1]),
        tuple_section("all interleavings of two", pairs, vec![0, 1, 2]),
    ];
    let triples: Vec<Vec<usize>> = match t {
        Tier::Quick => vec![vec![3, 4, 6], vec![3, 4, 3], vec![0, 3, 6], vec![4, 7, 3], vec![0, 9, 6], vec![0, 3, 4], vec![5, 3, 4], vec![1, 3, 6], vec![2, 4, 6], vec![8, 7, 6], vec![7, 7, 0]],
        Tier::Thorough => {
            let short: Vec<usize> = (0..n).filter(|i| specs()[*i].steps.len() <= 4).collect();
            let mut v = vec![];
            for a in &short {
                for b in &short {
                    for c in &short {
                        if a <= b && b <= c {
                            v.push(vec![*a, *b, *c]);
                        }
                    }
                }
            }
            v
        }
    };
    s.push(tuple_section("all interleavings of three", triples, t.pick(vec![0, 1, 2], vec![1])));
    if t == Tier::Thorough {
        s.push(tuple_section("three on separate connections", vec![vec![0, 3, 5], vec![0, 4, 9], vec![3, 4, 7], vec![0, 5, 7], vec![1, 3, 6], vec![2, 4, 6], vec![8, 3, 6]], vec![0, 2]));
        s.push(tuple_section("four short ones", vec![vec![3, 4, 3, 6], vec![4, 7, 3, 6]], vec![0, 1]));
    }
    // many suspended at once: requests that overtake all of them, in rotation
    let sizes: Vec<usize> = crate::dict::sizes(t.pick(vec![40, 150, 300, 1100], vec![40, 120, 300, 600, 1100, 2200]), 1500);
    s.push(section("many suspended at once", 12 * sizes.len() as u64, move |i, w| {
        let many = sizes[i as usize / 12];
        let i = i % 12;
        let sp = specs();
        let ch = chains();
        let kinds = [0usize, 3, 4, 5, 1, 8];
        let picked: Vec<&Spec> = (0..many).map(|k| &sp[kinds[(k + i as usize) % kinds.len()]]).collect();
        let steps: Vec<Vec<(Do, Then)>> = picked.iter().map(|s| s.steps.clone()).collect();
        let longest = steps.iter().map(|s| s.len()).max().unwrap();
        // level by level: everybody one step, in an order that changes with the level
        let mut order = vec![];
        for lvl in 0..longest {
            let mut ids: Vec<usize> = (0..many).filter(|k| steps[*k].len() > lvl).collect();
            if (lvl + i as usize) % 2 == 1 {
                ids.reverse();
            }
            let l = ids.len().max(1);
            ids.rotate_left((i as usize * 3) % l);
            order.extend(ids);
        }
        let via: Vec<Via> = (0..many).map(|k| match i % 3 { 0 => Via::One, 1 => Via::Two(k % many.div_ceil(60).max(2)), _ => if k % 2 == 0 { Via::One } else { Via::Two(k / 2 % many.div_ceil(120)) } }).collect();
        let r = run_schedule(w, &ch, &picked, &steps, &via, &order, CancelHow::Reset, &[]).map_err(|e| format!("{} requests: {}", many, e))?;
        w.st.traces += 1;
        w.st.transitions += order.len() as u64;
        for (k, s) in picked.iter().enumerate() {
            let e = expected(&ch, s, k as u32);
            w.st.evaluations += 1;
            w.state(&(i, k));
            let empty = vec![];
            if let Some(b) = judge(&e, s, r.replies[k].as_ref().unwrap_or(&Reply::Closed), r.traces.get(&(k as u32)).unwrap_or(&empty)) {
                return Err(format!("{} requests at once, variant {}: request {} ({}): {}", many, i, k, s.name, b));
            }
        }
        Ok(())
    }));
    Check {
        id: "C19",
        level: "model_checking",
        rule: "every interleaving of the steps (head, body pieces, await points in middleware and handler) of the enumerated sets of requests: each request's course and reply equal those of the interpreter running it alone; a step that cannot be taken while others are suspended is a violation".into(),
        assumptions: vec!["interleavings are at await points and at calls into user code (these held on several real threads as well); between two basic blocks of the library, one pre-emption by a whole other request".into()],
        sections: s,
    }
}

// ================================================================ C23

/// One victim is cut short after `cut` of its steps; all interleavings with the others; then fresh requests.
fn cancel_section(name: &str, tuples: Vec<Vec<usize>>, transports: Vec<usize>, hows: Vec<CancelHow>, after: Vec<usize>) -> Section {
    let sp = Arc::new(specs());
    let ch = Arc::new(chains());
    let mut ends: Vec<u64> = vec![];
    let mut tot = 0;
    let mut items = vec![];
    for t in &tuples {
        for v in &transports {
            for h in &hows {
                if *h == CancelHow::WholeConnection && *v == 1 && t.len() > 1 {
                    continue;
                }
                for cut in 1..sp[t[0]].steps.len() {
                    let mut counts: Vec<usize> = t.iter().map(|i| sp[*i].steps.len()).collect();
                    counts[0] = cut + 1;
                    tot += arrangements(&counts);
                    ends.push(tot);
                    items.push((t.clone(), *v, *h, cut));
                }
            }
        }
    }
    section(name, tot, move |i, w| {
        let k = ends.partition_point(|e| *e <= i);
        let base = if k == 0 { 0 } else { ends[k - 1] };
        let (t, v, how, cut) = &items[k];
        let s: Vec<&Spec> = t.iter().map(|x| &sp[*x]).collect();
        let mut steps: Vec<Vec<(Do, Then)>> = s.iter().map(|x| x.steps.clone()).collect();
        steps[0].truncate(*cut);
        steps[0].push((Do::Cancel, Then::Quiet));
        let counts: Vec<usize> = steps.iter().map(|s| s.len()).collect();
        let order = arrangement(&counts, i - base);
        // the victim over HTTP/2 in transport 3, the others over their own connections
        let via: Vec<Via> = if *v == 3 { (0..s.len()).map(|i| if i == 0 { Via::Two(0) } else { Via::One }).collect() } else { vias(s.len(), *v) };
        let later: Vec<&Spec> = after.iter().map(|x| &sp[*x]).collect();
        let desc = || format!("{}\nrequest 0 abandoned ({:?}) after {} steps", describe_run(&s, &via, &order), how, cut);
        let r = run_schedule(w, &ch, &s, &steps, &via, &order, *how, &later).map_err(|e| format!("{}\n{}", desc(), e))?;
        w.st.traces += 1;
        w.st.transitions += order.len() as u64;
        let names: Vec<&str> = s.iter().map(|s| s.name).collect();
        let mut at = vec![0usize; s.len()];
        for o in &order {
            at[*o] += 1;
            w.state(&(&names, &via, how, cut, &at));
        }
        let empty = vec![];
        let e0 = expected(&ch, s[0], 0);
        let t0 = r.traces.get(&0).unwrap_or(&empty);
        w.outcome(t0);
        // a body that never completed may surface as a failed read in the victim itself
        let partial = s[0].pieces.len() > steps[0].iter().filter(|x| x.0 == Do::Piece).count();
        if !partial && !e0.trace.starts_with(t0) {
            return Err(format!("{}\nthe abandoned request itself went another way: expected a prefix of {:?}, got {:?}", desc(), e0.trace, t0));
        }
        for i in 1..s.len() {
            let e = expected(&ch, s[i], i as u32);
            w.st.evaluations += 1;
            if let Some(b) = judge(&e, s[i], r.replies[i].as_ref().unwrap_or(&Reply::Closed), r.traces.get(&(i as u32)).unwrap_or(&empty)) {
                return Err(format!("{}\nrequest {} ({}): {}", desc(), i, s[i].name, b));
            }
        }
        for (i, x) in later.iter().enumerate() {
            let rid = LATER + i as u32;
            let e = expected(&ch, x, rid);
            w.st.evaluations += 1;
            if let Some(b) = judge(&e, x, &r.after[i], r.traces.get(&rid).unwrap_or(&empty)) {
                return Err(format!("{}\nlater request ({}): {}", desc(), x.name, b));
            }
        }
        Ok(())
    })
}

pub fn c23(t: Tier) -> Check {
    use CancelHow::*;
    let n = specs().len();
    let long: Vec<usize> = (0..n).filter(|i| specs()[*i].steps.len() > 1).collect();
    let ones: Vec<Vec<usize>> = long.iter().map(|a| vec![*a]).collect();
    let pairs: Vec<Vec<usize>> = long.iter().flat_map(|a| (0..n).map(move |b| vec![*a, b])).collect();
    let mut s = vec![
        cancel_section("abandoned alone, at every point", ones, vec![0, 1], vec![Reset, Close, WholeConnection], (0..n).filter(|i| *i != 7).collect()),
        cancel_section("abandoned beside another, own connections", pairs.clone(), vec![0], vec![Reset, Close], vec![0]),
        cancel_section("abandoned stream beside another on one connection", pairs.clone(), vec![1], vec![Reset], vec![1]),
        cancel_section("abandoned HTTP/2 connection beside another", pairs, vec![3], vec![WholeConnection], vec![5]),
    ];
    let triples: Vec<Vec<usize>> = t.pick(
        vec![vec![0, 3, 6], vec![5, 4, 6], vec![3, 0, 6], vec![0, 9, 6], vec![1, 3, 6], vec![8, 4, 6], vec![7, 3, 4], vec![2, 0, 6]],
        vec![vec![0, 3, 4], vec![5, 4, 3], vec![3, 0, 6], vec![1, 3, 6], vec![8, 4, 6], vec![7, 3, 4], vec![4, 4, 3], vec![0, 9, 6], vec![2, 3, 6]],
    );
    s.push(cancel_section("abandoned beside two others", triples, vec![0, 1], vec![Reset], vec![0]));
    // ladders: many requests abandoned at each point, then everything must still work
    let many = t.pick(600usize, 1200);
    let sp0 = Arc::new(specs());
    let mut kinds = vec![];
    for (i, s) in sp0.iter().enumerate() {
        for cut in 1..s.steps.len() {
            for h2 in [false, true] {
                kinds.push((i, cut, h2));
            }
        }
    }
    s.push(section("many abandoned in a row", kinds.len() as u64, move |i, w| {
        let (k, cut, h2) = kinds[i as usize];
        let ch = chains();
        let sp = specs();
        let picked: Vec<&Spec> = (0..many).map(|_| &sp[k]).collect();
        let steps: Vec<Vec<(Do, Then)>> = picked.iter().map(|s| { let mut v = s.steps[..cut].to_vec(); v.push((Do::Cancel, Then::Quiet)); v }).collect();
        let per = cut + 1;
        // one after the other in one half, all suspended before the first is abandoned in the other
        let mut order: Vec<usize> = (0..many / 2).flat_map(|r| std::iter::repeat(r).take(per)).collect();
        for _ in 0..per {
            order.extend(many / 2..many);
        }
        let via: Vec<Via> = (0..many).map(|k| if h2 { Via::Two(k / 80) } else { Via::One }).collect();
        let later: Vec<&Spec> = (0..sp.len()).filter(|i| *i != 7).map(|i| &sp[i]).collect();
        let r = run_schedule(w, &ch, &picked, &steps, &via, &order, Reset, &later).map_err(|e| format!("{} x {} abandoned after {} steps: {}", many, sp[k].name, cut, e))?;
        w.st.traces += 1;
        w.st.transitions += order.len() as u64;
        w.state(&(k, cut, h2));
        let empty = vec![];
        for (j, x) in later.iter().enumerate() {
            let rid = LATER + j as u32;
            let e = expected(&ch, x, rid);
            w.st.evaluations += 1;
            let got = r.traces.get(&rid).unwrap_or(&empty);
            if let Some(b) = judge(&e, x, &r.after[j], got) {
                return Err(format!("after {} requests ({}) abandoned after {} steps: later request ({}): {}", many, sp[k].name, cut, x.name, b));
            }
        }
        Ok(())
    }));
    Check {
        id: "C23",
        level: "model_checking",
        rule: "one request cut off after each of its steps (reset, orderly close, stream reset, whole HTTP/2 connection), in every interleaving with the others: the others' and all later requests' courses and replies equal the interpreter's; the abandoned one's course is a prefix of its own".into(),
        assumptions: vec!["interleavings are at await points (one thread) and at calls into user code (several threads)".into(), "a body cut short may surface to the abandoned request as a failed read".into()],
        sections: s,
    }
}

// ================================================================ C21

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Event {
    Get,
    PostJson,
    BadJson,
    Fail,
    NotFound,
    Panic,
    PanicInMw,
    PanicReading,
    Garbage,
    BadTarget,
    CutHead,
    CutBody,
    Unread,
    CloseAsked,
    Two,
    WrongMethod,
    /// one of the unusual endpoints; whatever a fresh server answers
    Odd(usize),
}
use Event as E;

const EVENTS: &[Event] = &[E::Get, E::PostJson, E::BadJson, E::Fail, E::NotFound, E::Panic, E::PanicInMw, E::PanicReading, E::Garbage, E::BadTarget, E::CutHead, E::CutBody, E::Unread, E::CloseAsked, E::Two, E::WrongMethod];

struct Mw21;
#[async_trait::async_trait]
impl obsidian::middleware::Middleware for Mw21 {
    async fn handle<'a>(&'a self, mut context: obsidian::context::Context, ep: obsidian::EndpointExecutor<'a>) -> obsidian::ContextResult {
        if context.headers().get("x-panic").is_some() {
            context.add(3usize);
            YieldOnce(false).await;
            panic!("scripted panic in middleware");
        }
        context.add(1usize);
        let r = ep.next(context).await;
        if let Ok(c) = &r {
            assert_eq!(c.get::<usize>(), Some(&2));
        }
        r
    }
}

const ODD: usize = 22;
/// Endpoints answering in unusual but legal ways (and some illegal ones); only their effect on others is judged.
async fn odd21(k: usize, mut c: obsidian::context::Context) -> obsidian::ContextResult {
    use obsidian::router::Response;
    use obsidian::StatusCode as S;
    c.add(2usize);
    match k {
        0 => c.build("x").with_headers(vec![]).ok(),
        1 => c.build("x").with_headers_str(vec![]).ok(),
        2 => Ok(c),
        3 => c.build("").with_status(S::NO_CONTENT).ok(),
        4 => c.build("a body where none belongs").with_status(S::NO_CONTENT).ok(),
        5 => c.build("a body where none belongs").with_status(S::NOT_MODIFIED).ok(),
        6 => c.build("x").with_header_str("x-n", "").ok(),
        7 => c.build("x").with_header_str("x-n", "not\nallowed").ok(),
        8 => c.build("x").with_header_str("not allowed", "v").ok(),
        9 => c.build("x").with_header_str("content-length", "7").ok(),
        10 => c.build("x").with_header_str("transfer-encoding", "chunked").ok(),
        11 => c.build("x").with_header_str("connection", "close").ok(),
        12 => c.build("x").with_status(S::CONTINUE).ok(),
        13 => c.build("x").with_status(S::from_u16(999).unwrap()).ok(),
        14 => Ok(c.build_file("no such file").await.ok()?),
        15 => {
            let mut c = c.build("first").with_status(S::CREATED).ok()?;
            drop(c.take_body());
            c.build("second").ok()
        }
        16 => {
            let mut c = c.build("taken").ok()?;
            *c.response_mut() = None;
            Ok(c)
        }
        17 => {
            *c.response_mut() = Some(Response::ok().with_headers(vec![]).with_status(S::IM_A_TEAPOT));
            Ok(c)
        }
        18 => c.build("y".repeat(300_000)).ok(),
        19 => c.build(Vec::<u8>::new()).with_headers(vec![]).ok(),
        20 => {
            c.extensions_mut().clear();
            c.headers_mut().clear();
            c.build("cleared").ok()
        }
        _ => Ok(obsidian::context::Context::new(hyper::Request::new(hyper::Body::empty()), Default::default()).build("another context").ok()?),
    }
}

fn app21() -> obsidian::App<String> {
    use obsidian::context::Context;
    let mut a: obsidian::App<String> = obsidian::App::default();
    a.set_app_state("state".into());
    a.use_service(Mw21);
    a.get("/g/:n", |mut c: Context| async move {
        let n: usize = c.param("n")?;
        let s = format!("{} {:?} {:?} {:?}", n, c.get::<String>(), c.get::<usize>(), c.get::<u8>());
        c.get_mut::<String>().map(|s| s.push('!'));
        c.add(2usize);
        c.add(9u8);
        YieldOnce(false).await;
        c.build(s).with_header_str("x-n", "v").ok()
    });
    a.post("/j", |mut c: Context| async move {
        c.add(2usize);
        let v: serde_json::Value = c.json().await?;
        c.build_json(v).with_status(obsidian::StatusCode::CREATED).ok()
    });
    a.get("/fail", |mut c: Context| async move {
        c.add(2usize);
        let n: i32 = c.param("absent")?;
        c.build(n.to_string()).ok()
    });
    a.get("/panic", |c: Context| async move {
        if c.get::<usize>().is_some() {
            panic!("scripted panic");
        }
        c.build("").ok()
    });
    a.post("/panic-reading", |mut c: Context| async move {
        let b = hyper::body::to_bytes(c.take_body()).await.unwrap();
        let n: usize = std::str::from_utf8(&b).unwrap().parse().unwrap();
        c.build(n.to_string()).ok()
    });
    for k in 0..ODD {
        a.get(&format!("/odd/{}", k), move |c: Context| odd21(k, c));
    }
    a.post("/unread", |mut c: Context| async move {
        c.add(2usize);
        c.build("did not look").ok()
    });
    a
}

/// (bytes to send, replies to expect, connection usable afterwards)
fn play(e: Event, n: usize) -> (Vec<u8>, Vec<Option<(u16, String)>>, bool) {
    let get = |n: usize| Some((200, format!("{} Some(\"state\") Some(1) None", n)));
    let r = |m: &str, t: &str, b: Option<&[u8]>| wire::req(m, t, &[], b);
    match e {
        E::Get => (r("GET", &format!("/g/{}", n), None), vec![get(n)], true),
        E::PostJson => (r("POST", "/j", Some(format!("[{}]", n).as_bytes())), vec![Some((201, format!("[{}]", n)))], true),
        E::BadJson => (r("POST", "/j", Some(b"[1")), vec![Some((500, "EOF while parsing a list at line 1 column 2".into()))], true),
        E::Fail => (r("GET", "/fail", None), vec![Some((500, "Input should not be None".into()))], true),
        E::NotFound => (r("GET", "/nowhere", None), vec![Some((404, "404 Not Found".into()))], true),
        E::WrongMethod => (r("DELETE", "/fail", None), vec![Some((404, "404 Not Found".into()))], true),
        E::Odd(k) => (r("GET", &format!("/odd/{}", k), None), vec![], true),
        E::Panic => (r("GET", "/panic", None), vec![None], false),
        E::PanicInMw => (wire::req("GET", &format!("/g/{}", n), &[("x-panic", "1")], None), vec![None], false),
        E::PanicReading => (r("POST", "/panic-reading", Some(b"not a number")), vec![None], false),
        E::Garbage => (b"\x16\x03\x01 nonsense\r\n\r\n".to_vec(), vec![None], false),
        E::BadTarget => (b"GET no-slash-or-scheme[ HTTP/1.1\r\nhost: x\r\n\r\n".to_vec(), vec![None], false),
        E::CutHead => (b"GET /g/1 HTTP/1.1\r\nhos".to_vec(), vec![], false),
        E::CutBody => (b"POST /j HTTP/1.1\r\nhost: x\r\ncontent-length: 50\r\n\r\n[1, 2".to_vec(), vec![], false),
        E::Unread => (r("POST", "/unread", Some(b"some body nobody reads")), vec![Some((200, "did not look".into()))], true),
        E::CloseAsked => (wire::req("GET", &format!("/g/{}", n), &[("connection", "close")], None), vec![get(n)], false),
        E::Two => {
            let mut b = r("GET", &format!("/g/{}", n), None);
            b.extend(r("POST", "/j", Some(b"{\"two\":2}")));
            b.extend(r("GET", "/nowhere", None));
            (b, vec![get(n), Some((201, "{\"two\":2}".into())), Some((404, "404 Not Found".into()))], true)
        }
    }
}

type OddReply = (bool, u16, Vec<u8>);
fn odd_fresh(k: usize, fresh: bool, got: &OddReply) -> Option<OddReply> {
    thread_local!(static SEEN: RefCell<Vec<Option<OddReply>>> = RefCell::new(vec![None; ODD]));
    SEEN.with(|s| {
        let mut s = s.borrow_mut();
        if fresh && s[k].is_none() {
            s[k] = Some(got.clone());
        }
        s[k].clone()
    })
}

fn history21(w: &mut W, hist: &[(usize, Event)]) -> CaseResult {
    let nconn = hist.iter().map(|h| h.0).max().unwrap_or(0) + 1;
    let probe: Vec<Event> = vec![E::Get, E::PostJson, E::Fail, E::Two];
    let r: CaseResult = w.wire.serve(app21, async |port| {
        let mut conns: Vec<Option<wire::Conn>> = (0..nconn).map(|_| None).collect();
        let all: Vec<(usize, Event)> = hist.iter().cloned().chain((0..nconn).flat_map(|c| probe.iter().map(move |e| (c, *e)))).collect();
        for (j, (c, e)) in all.iter().enumerate() {
            if conns[*c].is_none() {
                conns[*c] = Some(wire::Conn::open(port).await);
            }
            let (bytes, want, stays) = play(*e, j);
            let k = conns[*c].as_mut().unwrap();
            k.send(&bytes).await;
            // a length that is not the body's: how much of it arrives is not ours to judge
            if let E::Odd(9) = e {
                yields(8).await;
                conns[*c] = None;
                continue;
            }
            if let E::Odd(o) = e {
                let got = k.recv(false).await;
                let got = (got == Reply::Closed, if got == Reply::Closed { 0 } else { got.status() }, got.body().to_vec());
                // the first answer of this endpoint on a fresh server is remembered
                let want = odd_fresh(*o, j == 0, &got);
                if want.as_ref().map_or(false, |x| *x != got) {
                    return Err(format!("event {} ({:?} on connection {}): a fresh server answers {:?}, got {:?}", j, e, c, want, got));
                }
                // such an answer may leave the connection unusable
                conns[*c] = None;
                yields(1).await;
                continue;
            }
            for (q, x) in want.iter().enumerate() {
                let got = k.recv(false).await;
                let fine = match x {
                    // a panic drops the request; a malformed one is refused by the HTTP layer
                    None => got == Reply::Closed || got.status() == 400 || got.status() == 500,
                    Some((s, b)) => got.status() == *s && got.body() == b.as_bytes(),
                };
                if !fine {
                    return Err(format!("event {} ({:?} on connection {}), reply {}: expected {:?}, got {}", j, e, c, q, x, got.show()));
                }
            }
            if want.is_empty() {
                yields(4).await;
            }
            if !stays {
                conns[*c] = None;
                yields(1).await;
            }
        }
        Ok(())
    });
    w.st.traces += 1;
    w.st.transitions += hist.len() as u64;
    w.st.evaluations += (hist.len() + probe.len() * nconn) as u64;
    w.state(&hist);
    r.map_err(|e| format!("history (connection, event) {:?}, then good requests on every connection:\n{}", hist, e))
}

pub fn c21(t: Tier) -> Check {
    let ne = EVENTS.len() as u64;
    let mut s = vec![];
    for (conns, depth) in t.pick(vec![(1u64, 1u32), (1, 2), (2, 2), (2, 3), (1, 4)], vec![(1u64, 1u32), (1, 2), (2, 2), (3, 3), (2, 4), (1, 5)]) {
        let per = ne * conns;
        s.push(section(&format!("histories of {} events on {} connections", depth, conns), per.pow(depth), move |mut i, w| {
            let mut h = vec![];
            for _ in 0..depth {
                h.push(((i % conns) as usize, EVENTS[(i / conns % ne) as usize]));
                i /= per;
            }
            history21(w, &h)
        }));
    }
    // ladders
    let len = t.pick(1100usize, 5000);
    s.push(section("long runs of one event, and of two alternating", ne * ne, move |i, w| {
        let (a, b) = (EVENTS[(i % ne) as usize], EVENTS[(i / ne) as usize]);
        let len = if a == b { len } else { len / 6 };
        let h: Vec<(usize, Event)> = (0..len).map(|k| (if k % 5 == 4 { 1 } else { 0 }, if k % 2 == 0 { a } else { b })).collect();
        history21(w, &h)
    }));
    // unusual answers: alone, then in pairs, runs, and between every other event
    let no = ODD as u64;
    s.push(section("unusual answers before, after and between other events", no * (no + 3 * ne), move |i, w| {
        let (k, r) = ((i % no) as usize, i / no);
        history21(w, &[(0, E::Odd(k))])?;
        if r < no {
            return history21(w, &[(0, E::Odd(k)), (0, E::Odd(r as usize)), (1, E::Get), (0, E::Odd(k)), (0, E::Odd(r as usize))]);
        }
        let (e, kind) = (EVENTS[((r - no) % ne) as usize], (r - no) / ne);
        match kind {
            0 => history21(w, &[(0, E::Odd(k)), (0, e), (1, e), (0, E::Odd(k)), (0, e)]),
            1 => history21(w, &[(0, e), (1, E::Odd(k)), (0, e), (1, e), (1, E::Odd(k))]),
            _ => {
                let h: Vec<(usize, Event)> = (0..60).map(|j| (j % 3, if j % 2 == 0 { E::Odd(k) } else { e })).collect();
                history21(w, &h)
            }
        }
    }));
    // many connections held open while one misbehaves
    let held = t.pick(200usize, 600);
    s.push(section("other connections held open", ne * 2, move |i, w| {
        let e = EVENTS[(i % ne) as usize];
        let mut h: Vec<(usize, Event)> = (0..held).map(|k| (k, E::Get)).collect();
        for k in 0..held {
            h.push((if i / ne == 0 { 0 } else { k }, e));
            h.push(((k * 7 + 1) % held, E::PostJson));
        }
        history21(w, &h)
    }));
    Check {
        id: "C21",
        level: "model_checking",
        rule: "every history of connection events (good, failing, panicking in handler / middleware / body read, malformed, cut off, pipelined): every reply equals the one a fresh server gives, and so do good requests on every connection afterwards".into(),
        assumptions: vec!["a panicking request itself may be dropped or answered 500".into()],
        sections: s,
    }
}
