//! C22: context data of many kinds of types.
use crate::common::*;
use crate::sut::{rid_of, trace_push, trace_take, Ev};
use crate::wire;
use async_trait::async_trait;
use obsidian::context::Context;
use obsidian::middleware::Middleware;
use obsidian::router::ContextResult;
use obsidian::{App, EndpointExecutor};
use std::collections::{BTreeMap, HashMap};
use std::sync::{Arc, Mutex};

trait Slot: Send + Sync + Sized + 'static {
    /// sizeless types carry no number
    const DATA: bool = true;
    fn mk(v: i64) -> Self;
    fn rd(&self) -> i64;
    fn set(&mut self, v: i64) {
        *self = Self::mk(v);
    }
}

macro_rules! slot {
    ($t:ty, |$v:ident| $mk:expr, |$s:ident| $rd:expr) => {
        impl Slot for $t {
            fn mk($v: i64) -> Self {
                $mk
            }
            fn rd(&self) -> i64 {
                let $s = self;
                $rd
            }
        }
    };
    ($t:ty, $mk:expr) => {
        impl Slot for $t {
            const DATA: bool = false;
            fn mk(_: i64) -> Self {
                $mk
            }
            fn rd(&self) -> i64 {
                0
            }
        }
    };
}

struct Marker;
struct Other;
struct Phantom<T>(std::marker::PhantomData<T>);
struct Newtype(u32);
struct Newtype2(u32);
struct Gen<T>(T);
struct Big([u64; 4096]);
enum Kind {
    A,
    B(i64),
    C { v: i64 },
}
mod one {
    pub struct User(pub i64);
}
mod two {
    pub struct User(pub i64);
}
struct Life<'a>(&'a str);
#[repr(align(64))]
struct Aligned(i64);
struct Const<const K: usize>(i64);
struct Droppy(i64, String);
impl Drop for Droppy {
    fn drop(&mut self) {
        self.0 = -1;
    }
}

const WORDS: [&str; 10] = ["v0", "v1", "v2", "v3", "v4", "v5", "v6", "v7", "v8", "v9"];

slot!(Marker, Marker);
slot!(Other, Other);
slot!((), ());
slot!(Phantom<i64>, Phantom(std::marker::PhantomData));
slot!([u8; 0], []);
slot!(u8, |v| v as u8, |s| *s as i64);
slot!(i8, |v| v as i8, |s| *s as i64);
slot!(u16, |v| v as u16, |s| *s as i64);
slot!(i32, |v| v as i32, |s| *s as i64);
slot!(u32, |v| v as u32, |s| *s as i64);
slot!(i64, |v| v, |s| *s);
slot!(u64, |v| v as u64, |s| *s as i64);
slot!(u128, |v| v as u128, |s| *s as i64);
slot!(usize, |v| v as usize, |s| *s as i64);
slot!(f64, |v| v as f64, |s| *s as i64);
slot!(bool, |v| v % 2 == 1, |s| if *s { 1 } else { 2 });
slot!(char, |v| (b'0' + v as u8) as char, |s| *s as i64 - 48);
slot!(String, |v| v.to_string(), |s| s.parse().unwrap());
slot!(&'static str, |v| WORDS[v as usize % 10], |s| s[1..].parse().unwrap());
slot!(Life<'static>, |v| Life(WORDS[v as usize % 10]), |s| s.0[1..].parse().unwrap());
slot!(Vec<u8>, |v| vec![9; v as usize], |s| s.len() as i64);
slot!(Vec<String>, |v| vec![String::new(); v as usize], |s| s.len() as i64);
slot!(Vec<()>, |v| vec![(); v as usize], |s| s.len() as i64);
slot!(Box<i64>, |v| Box::new(v), |s| **s);
slot!(Box<str>, |v| v.to_string().into(), |s| s.parse().unwrap());
slot!(Arc<i64>, |v| Arc::new(v), |s| **s);
slot!(Arc<Mutex<i64>>, |v| Arc::new(Mutex::new(v)), |s| *s.lock().unwrap());
slot!(Mutex<i64>, |v| Mutex::new(v), |s| *s.lock().unwrap());
slot!(Option<i64>, |v| if v == 3 { None } else { Some(v) }, |s| s.unwrap_or(3));
slot!(Option<String>, |v| if v == 3 { None } else { Some(v.to_string()) }, |s| s.as_ref().map_or(3, |x| x.parse().unwrap()));
slot!(Option<Marker>, |v| if v % 2 == 1 { None } else { Some(Marker) }, |s| if s.is_none() { 1 } else { 2 });
slot!(Result<i64, String>, |v| if v == 3 { Err("e".into()) } else { Ok(v) }, |s| *s.as_ref().unwrap_or(&3));
slot!((i64, i64), |v| (v, -v), |s| s.0);
slot!((i64,), |v| (v,), |s| s.0);
slot!([u8; 3], |v| [v as u8; 3], |s| s[2] as i64);
slot!([u8; 4], |v| [v as u8; 4], |s| s[3] as i64);
slot!(Newtype, |v| Newtype(v as u32), |s| s.0 as i64);
slot!(Newtype2, |v| Newtype2(v as u32), |s| s.0 as i64);
slot!(Gen<i64>, |v| Gen(v), |s| s.0);
slot!(Gen<u64>, |v| Gen(v as u64), |s| s.0 as i64);
slot!(Gen<Gen<i64>>, |v| Gen(Gen(v)), |s| s.0 .0);
slot!(Big, |v| Big([v as u64; 4096]), |s| s.0[4095] as i64);
slot!(Kind, |v| match v % 3 { 0 => Kind::B(v), 1 => Kind::C { v }, _ => if v == 2 { Kind::A } else { Kind::B(v) } }, |s| match s { Kind::A => 2, Kind::B(v) | Kind::C { v } => *v });
slot!(one::User, |v| one::User(v), |s| s.0);
slot!(two::User, |v| two::User(v), |s| s.0);
slot!(Aligned, |v| Aligned(v), |s| s.0);
slot!(Droppy, |v| Droppy(v, "x".repeat(10)), |s| s.0);
slot!(HashMap<String, String>, |v| (0..v).map(|i| (i.to_string(), String::new())).collect(), |s| s.len() as i64);
slot!(BTreeMap<i64, i64>, |v| (0..v).map(|i| (i, i)).collect(), |s| s.len() as i64);
slot!(fn(i64) -> i64, |v| if v % 2 == 1 { |x| x } else { |x| x + 1 }, |s| s(1));
slot!(Box<dyn std::any::Any + Send + Sync>, |v| Box::new(v), |s| *s.downcast_ref::<i64>().unwrap());
slot!(Box<dyn Fn() -> i64 + Send + Sync>, |v| Box::new(move || v), |s| s());
slot!(Arc<dyn Fn() -> i64 + Send + Sync>, |v| Arc::new(move || v), |s| s());
slot!(std::time::Duration, |v| std::time::Duration::from_secs(v as u64), |s| s.as_secs() as i64);
slot!(std::any::TypeId, |v| if v % 2 == 1 { std::any::TypeId::of::<u8>() } else { std::any::TypeId::of::<u16>() }, |s| if *s == std::any::TypeId::of::<u8>() { 1 } else { 2 });
slot!(obsidian::StatusCode, |v| obsidian::StatusCode::from_u16(200 + v as u16).unwrap(), |s| s.as_u16() as i64 - 200);
slot!(obsidian::Method, |v| obsidian::Method::from_bytes(format!("M{}", v).as_bytes()).unwrap(), |s| s.as_str()[1..].parse().unwrap());
slot!(obsidian::Uri, |v| format!("/{}", v).parse().unwrap(), |s| s.path()[1..].parse().unwrap());
slot!(obsidian::HeaderMap, |v| (0..v).map(|i| (format!("h{}", i).parse::<obsidian::header::HeaderName>().unwrap(), "x".parse().unwrap())).collect(), |s| s.len() as i64);
impl<const N: usize> Slot for Const<N> {
    fn mk(v: i64) -> Self {
        Const(v)
    }
    fn rd(&self) -> i64 {
        self.0
    }
}

#[derive(Clone, Copy)]
struct K {
    name: &'static str,
    data: bool,
    put: fn(&mut Context, i64, bool),
    see: fn(&Context) -> Option<i64>,
    set: fn(&mut Context, i64, bool),
    rem: fn(&mut Context) -> Option<i64>,
    norm: fn(i64) -> i64,
}

fn kind<T: Slot>() -> K {
    K {
        name: std::any::type_name::<T>(),
        data: T::DATA,
        put: |c, v, direct| {
            if direct {
                c.extensions_mut().insert(T::mk(v));
            } else {
                c.add(T::mk(v))
            }
        },
        see: |c| {
            let a = c.get::<T>().map(|s| s.rd());
            let b = c.extensions().get::<T>().map(|s| s.rd());
            if a == b {
                a
            } else {
                Some(-99)
            }
        },
        set: |c, v, direct| {
            let s = if direct { c.extensions_mut().get_mut::<T>() } else { c.get_mut::<T>() };
            if let Some(s) = s {
                s.set(v)
            }
        },
        rem: |c| c.extensions_mut().remove::<T>().map(|s| s.rd()),
        norm: |v| T::mk(v).rd(),
    }
}

macro_rules! kinds {
    ($($t:ty),* $(,)?) => { vec![$(kind::<$t>()),*] };
}
macro_rules! consts {
    ($($k:literal)*) => { vec![$(kind::<Const<$k>>()),*] };
}

fn all_kinds() -> Vec<K> {
    kinds![
        Marker, Other, (), Phantom<i64>, [u8; 0], u8, i8, u16, i32, u32, i64, u64, u128, usize, f64, bool, char, String, &'static str, Life<'static>, Vec<u8>, Vec<String>, Vec<()>, Box<i64>, Box<str>, Arc<i64>, Arc<Mutex<i64>>, Mutex<i64>,
        Option<i64>, Option<String>, Option<Marker>, Result<i64, String>, (i64, i64), (i64,), [u8; 3], [u8; 4], Newtype, Newtype2, Gen<i64>, Gen<u64>, Gen<Gen<i64>>, Big, Kind, one::User, two::User, Aligned, Droppy, HashMap<String, String>,
        BTreeMap<i64, i64>, fn(i64) -> i64, Box<dyn std::any::Any + Send + Sync>, Box<dyn Fn() -> i64 + Send + Sync>, Arc<dyn Fn() -> i64 + Send + Sync>, std::time::Duration, std::any::TypeId, obsidian::StatusCode, obsidian::Method, obsidian::Uri,
        obsidian::HeaderMap,
    ]
}

fn many_kinds() -> Vec<K> {
    let mut v = all_kinds();
    v.extend(consts!(0 1 2 3 4 5 6 7 8 9 10 11 12 13 14 15 16 17 18 19 20 21 22 23 24 25 26 27 28 29 30 31 32 33 34 35 36 37 38 39 40 41 42 43 44 45 46 47 48 49
        50 51 52 53 54 55 56 57 58 59 60 61 62 63 64 65 66 67 68 69 70 71 72 73 74 75 76 77 78 79 80 81 82 83 84 85 86 87 88 89 90 91 92 93 94 95 96 97 98 99
        100 101 102 103 104 105 106 107 108 109 110 111 112 113 114 115 116 117 118 119 120 121 122 123 124 125 126 127 128 129 130 131 132 133 134 135 136 137 138 139
        140 141 142 143 144 145 146 147 148 149 150 151 152 153 154 155 156 157 158 159 160 161 162 163 164 165 166 167 168 169 170 171 172 173 174 175 176 177 178 179
        180 181 182 183 184 185 186 187 188 189 190 191 192 193 194 195 196 197 198 199));
    v
}

#[derive(Clone, Copy, Debug, Hash, PartialEq, Eq)]
enum P {
    Put(usize, i64, bool),
    Set(usize, i64, bool),
    Rem(usize),
    /// replaces the response, keeping the data
    Build,
}

type Prog = Arc<Vec<P>>;

fn exec(who: &str, prog: &[P], ks: &[K], mut c: Context) -> Result<Context, obsidian::ObsidianError> {
    let rid = rid_of(&c);
    for p in prog {
        match p {
            P::Put(k, v, d) => (ks[*k].put)(&mut c, *v, *d),
            P::Set(k, v, d) => (ks[*k].set)(&mut c, *v, *d),
            P::Rem(k) => {
                let was = (ks[*k].rem)(&mut c);
                trace_push(rid, Ev::Note(format!("{} took {:?}", who, was)));
            }
            P::Build => c = c.build("x").ok()?,
        }
    }
    trace_push(rid, Ev::Note(format!("{} {:?}", who, ks.iter().map(|k| (k.see)(&c)).collect::<Vec<_>>())));
    Ok(c)
}

fn model(who: &str, prog: &[P], ks: &[K], st: &mut Vec<Option<i64>>, tr: &mut Vec<String>) {
    for p in prog {
        match p {
            P::Put(k, v, _) => st[*k] = Some(if ks[*k].data { (ks[*k].norm)(*v) } else { 0 }),
            P::Set(k, v, _) => {
                if st[*k].is_some() {
                    st[*k] = Some(if ks[*k].data { (ks[*k].norm)(*v) } else { 0 });
                }
            }
            P::Rem(k) => tr.push(format!("{} took {:?}", who, st[*k].take())),
            P::Build => {}
        }
    }
    tr.push(format!("{} {:?}", who, st));
}

struct Mw(&'static str, Prog, Prog, Arc<Vec<K>>);

#[async_trait]
impl Middleware for Mw {
    async fn handle<'a>(&'a self, context: Context, ep: EndpointExecutor<'a>) -> ContextResult {
        let c = exec(self.0, &self.1, &self.3, context)?;
        let c = ep.next(c).await?;
        exec(self.0, &self.2, &self.3, c)
    }
}

/// five programs: outer before, inner before, handler, inner after, outer after
fn run(w: &mut W, ks: &Arc<Vec<K>>, progs: &[Prog; 5], requests: usize) -> CaseResult {
    let mk = || {
        let mut a: App = App::new();
        a.use_service(Mw("outer", progs[0].clone(), progs[4].clone(), ks.clone()));
        a.use_service_to("/s/:id", Mw("inner", progs[1].clone(), progs[3].clone(), ks.clone()));
        let (p, k) = (progs[2].clone(), ks.clone());
        a.get("/s/:id", move |c: Context| {
            let (p, k) = (p.clone(), k.clone());
            async move { exec("handler", &p, &k, c)?.build("ok").ok() }
        });
        a
    };
    let _ = trace_take();
    let reqs: Vec<(Vec<u8>, bool)> = (0..requests).map(|i| (wire::req("GET", "/s/1", &[("x-rid", &i.to_string())], None), false)).collect();
    let rs = w.wire.serve(mk, async |p| wire::batch(p, &reqs).await);
    let tr = trace_take();
    w.st.traces += 1;
    let mut want = vec![];
    let mut st = vec![None; ks.len()];
    for (who, p) in [("outer", 0), ("inner", 1), ("handler", 2), ("inner", 3), ("outer", 4)] {
        model(who, &progs[p], ks, &mut st, &mut want);
    }
    w.outcome(&want);
    for (i, r) in rs.iter().enumerate() {
        w.st.evaluations += 1;
        w.st.transitions += progs.iter().map(|p| p.len() as u64).sum::<u64>();
        let got: Vec<String> = tr.iter().filter(|x| x.0 as usize == i).filter_map(|x| if let Ev::Note(n) = &x.1 { Some(n.clone()) } else { None }).collect();
        if got != want || r.status() != 200 {
            return Err(format!("slot types {:?}\nprograms {:?}\nrequest {}: expected {:?}\n     got {:?}, {}", ks.iter().map(|k| k.name).collect::<Vec<_>>(), progs, i, want, got, r.show()));
        }
    }
    Ok(())
}

pub fn sections(t: Tier) -> Vec<Section> {
    let mut v = vec![];
    // every ordered pair of kinds, every pair of points for their operations
    let ks = all_kinds();
    let n = ks.len() as u64;
    v.push(section("pairs of types", n * n * 2, move |i, w| {
        let (d, i) = (i % 2 == 1, i / 2);
        let (a, b) = ((i % n) as usize, (i / n) as usize);
        if a == b {
            return Ok(());
        }
        let k = Arc::new(vec![ks[a], ks[b]]);
        w.state(&(a, b, d));
        let progs = [
            Arc::new(vec![P::Put(0, 1, d)]),
            Arc::new(vec![P::Put(1, 2, !d), P::Set(0, 4, d)]),
            Arc::new(vec![P::Set(1, 3, d), P::Put(0, 5, !d), P::Build]),
            Arc::new(vec![P::Rem(0), P::Put(1, 6, d)]),
            Arc::new(vec![P::Put(0, 3, !d), P::Rem(1)]),
        ];
        run(w, &k, &progs, 2)
    }));
    // all operation sequences on one type, per kind
    let ks = all_kinds();
    let ops = [vec![], vec![P::Put(0, 1, false)], vec![P::Put(0, 2, false)], vec![P::Set(0, 4, false)], vec![P::Rem(0)], vec![P::Put(0, 3, true)]];
    let m = ops.len() as u64;
    let points = t.pick(4u32, 5);
    v.push(section("operation sequences on each type", ks.len() as u64 * m.pow(points), move |i, w| {
        let (k, mut j) = (i as usize % ks.len(), i / ks.len() as u64);
        w.state(&(k, j));
        let mut progs: Vec<Prog> = vec![];
        for _ in 0..5 {
            progs.push(Arc::new(ops[(j % m) as usize].clone()));
            j /= m;
        }
        let progs: [Prog; 5] = progs.try_into().unwrap();
        run(w, &Arc::new(vec![ks[k], ks[(k + 1) % ks.len()]]), &progs, 2)
    }));
    // many types at once
    let ks = many_kinds();
    let n = ks.len();
    v.push(section("many types at once", n as u64 * 2, move |i, w| {
        let (d, m) = (i % 2 == 1, i as usize / 2 + 1);
        let k: Arc<Vec<K>> = Arc::new(ks[..m].to_vec());
        w.state(&(m, d));
        let all = |f: &dyn Fn(usize) -> P| -> Prog { Arc::new((0..m).map(f).collect()) };
        let progs = [
            all(&|j| P::Put(j, 1 + (j as i64 % 5), d)),
            Arc::new((0..m).filter(|j| j % 3 == 0).map(|j| P::Set(j, 2 + (j as i64 % 3), !d)).collect::<Vec<_>>()),
            Arc::new((0..m).filter(|j| j % 2 == 0).map(P::Rem).collect::<Vec<_>>()),
            Arc::new((0..m).rev().filter(|j| j % 4 == 0).map(|j| P::Put(j, 7, d)).collect::<Vec<_>>()),
            all(&P::Rem),
        ];
        run(w, &k, &progs, 2)
    }));
    v
}
