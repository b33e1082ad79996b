//! C12 (body delivery), C13 (query and form decoding), C14 (the public form-map decoder).
use crate::common::*;
use crate::script::{form_pairs, nth, YieldOnce};
use super::surround;
use crate::sut::{rid_of, trace_push, trace_take, Ev, METHODS};
use crate::wire;
use hyper::body::Bytes;
use hyper::{Body, Request};
use obsidian::context::Context;
use obsidian::router::from_cow_map;
use obsidian::{App, ObsidianError};
use serde::de::DeserializeOwned;
use serde::Deserialize;
use std::borrow::Cow;
use std::collections::{BTreeMap, BTreeSet, HashMap, VecDeque};
use std::fmt::Debug;
use std::future::Future;
use std::pin::Pin;
use std::task::Poll;

/// Poll to completion on this thread; the scripted bodies never wait for anything outside.
pub fn poll_all<F: Future>(f: F) -> F::Output {
    let mut f = Box::pin(f);
    let mut cx = std::task::Context::from_waker(std::task::Waker::noop());
    for _ in 0..10_000_000u64 {
        if let Poll::Ready(r) = f.as_mut().poll(&mut cx) {
            return r;
        }
    }
    panic!("a body read did not finish although the body had ended");
}

// ================================================================ shapes and their independent decoder

#[derive(Clone, Debug)]
pub enum Ft {
    I8, I16, I32, I64, U8, U16, U32, U64, F32, F64, Bool, Char, Str,
    Opt(&'static Ft),
    List(&'static Ft),
    /// of text
    Set,
    New(&'static str, &'static Ft),
}

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum Exp {
    Ok(String),
    Err,
    /// not determined by the property (must still not panic)
    Any,
}

fn p<T: std::str::FromStr + Debug>(s: &str) -> Exp {
    match s.parse::<T>() {
        Ok(v) => Exp::Ok(format!("{:?}", v)),
        Err(_) => Exp::Err,
    }
}

/// `vals`: what was sent for a name; None when the name does not occur.
pub fn field(ft: &Ft, vals: Option<&[String]>) -> Exp {
    let v = match (ft, vals) {
        (Ft::Opt(_), None) => return Exp::Ok("None".into()),
        (_, None) => return Exp::Err,
        (_, Some(v)) => v,
    };
    match ft {
        Ft::Opt(inner) => match v.first() {
            None => Exp::Ok("None".into()),
            // an empty string: absent, inside a list of optionals; left open elsewhere (cannot occur in queries and forms)
            Some(s) if s.is_empty() => Exp::Any,
            Some(_) => match field(inner, vals) {
                Exp::Ok(t) => Exp::Ok(format!("Some({})", t)),
                o => o,
            },
        },
        Ft::Set => Exp::Ok(format!("{:?}", v.iter().collect::<BTreeSet<_>>())),
        Ft::List(inner) => {
            let mut out = vec![];
            for s in v {
                let one = std::slice::from_ref(s);
                let e = match inner {
                    Ft::Opt(_) if s.is_empty() => Exp::Ok("None".into()),
                    i => field(i, Some(one)),
                };
                match e {
                    Exp::Ok(t) => out.push(t),
                    o => return o,
                }
            }
            Exp::Ok(format!("[{}]", out.join(", ")))
        }
        Ft::New(n, inner) => match field(inner, vals) {
            Exp::Ok(t) => Exp::Ok(format!("{}({})", n, t)),
            o => o,
        },
        _ if v.is_empty() => Exp::Err,
        Ft::I8 => p::<i8>(&v[0]),
        Ft::I16 => p::<i16>(&v[0]),
        Ft::I32 => p::<i32>(&v[0]),
        Ft::I64 => p::<i64>(&v[0]),
        Ft::U8 => p::<u8>(&v[0]),
        Ft::U16 => p::<u16>(&v[0]),
        Ft::U32 => p::<u32>(&v[0]),
        Ft::U64 => p::<u64>(&v[0]),
        Ft::F32 => p::<f32>(&v[0]),
        Ft::F64 => p::<f64>(&v[0]),
        Ft::Bool => p::<bool>(&v[0]),
        Ft::Char => match p::<char>(&v[0]) {
            Exp::Err if !v[0].is_empty() => Exp::Any,
            o => o,
        },
        Ft::Str => Exp::Ok(format!("{:?}", v[0])),
    }
}

type Fields = BTreeMap<String, Vec<String>>;

fn join(parts: Vec<Exp>) -> Exp {
    if parts.contains(&Exp::Err) {
        return Exp::Err;
    }
    let mut out = vec![];
    for q in parts {
        match q {
            Exp::Ok(t) => out.push(t),
            o => return o,
        }
    }
    Exp::Ok(out.join(" | "))
}

/// A target type: how to print a decoded value, and what must come out (None: anything but a panic).
trait Shape: DeserializeOwned {
    fn show(self) -> String;
    fn expect(m: &Fields) -> Exp;
}

#[derive(Clone)]
pub struct ShapeFns {
    pub name: &'static str,
    pub query: fn(&mut Context) -> Result<String, ObsidianError>,
    pub form: for<'a> fn(&'a mut Context) -> Pin<Box<dyn Future<Output = Result<String, ObsidianError>> + Send + 'a>>,
    pub cow: fn(&HashMap<Cow<str>, Cow<[String]>, Seeded>) -> Option<String>,
    pub expect: fn(&Fields) -> Exp,
}

fn q_of<T: Shape>(c: &mut Context) -> Result<String, ObsidianError> {
    c.query_params::<T>().map(Shape::show)
}
fn f_of<T: Shape + Send>(c: &mut Context) -> Pin<Box<dyn Future<Output = Result<String, ObsidianError>> + Send + '_>> {
    Box::pin(async move { c.form::<T>().await.map(Shape::show) })
}
fn c_of<T: Shape>(m: &HashMap<Cow<str>, Cow<[String]>, Seeded>) -> Option<String> {
    from_cow_map::<T, Seeded>(m).ok().map(Shape::show)
}
fn sf<T: Shape + Send>(name: &'static str) -> ShapeFns {
    ShapeFns { name, query: q_of::<T>, form: f_of::<T>, cow: c_of::<T>, expect: T::expect }
}

/// Hashers of several seeds, so that maps are walked in several orders.
#[derive(Clone)]
pub struct Seeded(pub u64);
pub struct SeedHash(u64, u64);
impl std::hash::BuildHasher for Seeded {
    type Hasher = SeedHash;
    fn build_hasher(&self) -> SeedHash {
        SeedHash(self.0, 0xcbf29ce484222325 ^ self.0.wrapping_mul(0x9e3779b97f4a7c15))
    }
}
impl std::hash::Hasher for SeedHash {
    fn write(&mut self, b: &[u8]) {
        for x in b {
            self.1 = (self.1 ^ *x as u64).wrapping_mul(0x100000001b3).rotate_left(11 + (self.0 % 7) as u32);
        }
    }
    fn finish(&self) -> u64 {
        self.1 ^ (self.1 >> 29)
    }
}

#[derive(Deserialize, Debug, PartialEq)]
struct Wrap(i32);
#[derive(Deserialize, Debug, PartialEq)]
struct WrapList(Vec<String>);

macro_rules! shape {
    ($(#[$m:meta])* $n:ident { $( $(#[$fm:meta])* $f:ident : $t:ty = $name:literal, $ft:expr, $def:expr );* $(;)? }) => {
        $(#[$m])*
        #[derive(Deserialize, Debug, PartialEq)]
        struct $n { $( $(#[$fm])* $f: $t ),* }
        impl Shape for $n {
            fn show(self) -> String {
                let v: Vec<String> = vec![$( format!("{:?}", self.$f) ),*];
                v.join(" | ")
            }
            fn expect(m: &Fields) -> Exp {
                let _ = m;
                let v: Vec<Exp> = vec![$( {
                    let d: Option<&str> = $def;
                    match (m.get($name), d) {
                        (None, Some(d)) => Exp::Ok(d.to_string()),
                        (x, _) => field(&$ft, x.map(|v| &v[..])),
                    }
                } ),*];
                join(v)
            }
        }
    };
}

use Ft::*;
static I32_: Ft = I32;
static U8_: Ft = U8;
static STR_: Ft = Str;
static F64_: Ft = F64;
static F32_: Ft = F32;
static I64_: Ft = I64;
static OPTB_: Ft = Opt(&Bool);
static BOOL_: Ft = Bool;
static CHAR_: Ft = Char;
static OPTI_: Ft = Opt(&I32);
static OPTS_: Ft = Opt(&Str);
static LISTI_: Ft = List(&I32);
static LISTS_: Ft = List(&Str);
static LISTU8_: Ft = List(&U8);
static WRAP_: Ft = New("Wrap", &I32);

shape!(OneInt { a: i32 = "a", I32, None });
shape!(OneStr { a: String = "a", Str, None });
shape!(OneBool { a: bool = "a", Bool, None });
shape!(OneChar { a: char = "a", Char, None });
shape!(OneF64 { a: f64 = "a", F64, None });
shape!(OneU8 { a: u8 = "a", U8, None });
shape!(OneI8 { a: i8 = "a", I8, None });
shape!(OneI16 { a: i16 = "a", I16, None });
shape!(OneI64 { a: i64 = "a", I64, None });
shape!(OneU16 { a: u16 = "a", U16, None });
shape!(OneU32 { a: u32 = "a", U32, None });
shape!(OneU64 { a: u64 = "a", U64, None });
shape!(OneF32 { a: f32 = "a", F32, None });
shape!(OneListF32 { a: Vec<f32> = "a", List(&F32_), None });
shape!(OneListI64 { a: Vec<i64> = "a", List(&I64_), None });
shape!(OneOptF64 { a: Option<f64> = "a", Opt(&F64_), None });
shape!(OneOptBool { a: Option<bool> = "a", Opt(&BOOL_), None });
shape!(OneListOptBool { a: Vec<Option<bool>> = "a", List(&OPTB_), None });
shape!(OneOptChar { a: Option<char> = "a", Opt(&CHAR_), None });
shape!(OneOptInt { a: Option<i32> = "a", Opt(&I32_), None });
shape!(OneOptStr { a: Option<String> = "a", Opt(&STR_), None });
shape!(OneListInt { a: Vec<i32> = "a", List(&I32_), None });
shape!(OneListStr { a: Vec<String> = "a", List(&STR_), None });
shape!(OneListOptInt { a: Vec<Option<i32>> = "a", List(&OPTI_), None });
shape!(OneListOptStr { a: Vec<Option<String>> = "a", List(&OPTS_), None });
shape!(OneOptList { a: Option<Vec<i32>> = "a", Opt(&LISTI_), None });
shape!(OneOptListStr { a: Option<Vec<String>> = "a", Opt(&LISTS_), None });
shape!(OneListF64 { a: Vec<f64> = "a", List(&F64_), None });
shape!(OneListBool { a: VecDeque<bool> = "a", List(&BOOL_), None });
shape!(OneListChar { a: Vec<char> = "a", List(&CHAR_), None });
shape!(OneListU8 { a: Vec<u8> = "a", List(&U8_), None });
shape!(OneSet { a: BTreeSet<String> = "a", Set, None });
shape!(OneNew { a: Wrap = "a", New("Wrap", &I32_), None });
shape!(OneNewList { a: WrapList = "a", New("WrapList", &LISTS_), None });
shape!(OneListNew { a: Vec<Wrap> = "a", List(&WRAP_), None });
shape!(OneOptNew { a: Option<Wrap> = "a", Opt(&WRAP_), None });
shape!(OneBox { a: Box<str> = "a", Str, None });
shape!(OneCow { a: Cow<'static, str> = "a", Str, None });
shape!(IntStr { a: i32 = "a", I32, None; b: String = "b", Str, None });
shape!(ListInt { a: Vec<i32> = "a", List(&I32_), None; b: i32 = "b", I32, None });
shape!(TwoLists { a: Vec<String> = "a", List(&STR_), None; b: Vec<String> = "b", List(&STR_), None });
shape!(OptMix { a: Option<i32> = "a", Opt(&I32_), None; b: Option<String> = "b", Opt(&STR_), None });
shape!(Defaults { #[serde(default)] a: i32 = "a", I32, Some("0"); #[serde(default)] b: Vec<String> = "b", List(&STR_), Some("[]") });
shape!(Renamed { #[serde(rename = "b")] x: i32 = "b", I32, None; #[serde(rename = "a", default)] y: Option<Vec<u8>> = "a", Opt(&LISTU8_), Some("None") });
shape!(Nothing {});
shape!(Wide {
    i8v: i8 = "i8v", I8, None; i64v: i64 = "i64v", I64, None; u16v: u16 = "u16v", U16, None; u64v: u64 = "u64v", U64, None; f32v: f32 = "f32v", F32, None;
    a: Option<String> = "a", Opt(&STR_), None; b: Vec<Option<i32>> = "b", List(&OPTI_), None;
});
// "" as a name
shape!(EmptyName { #[serde(rename = "")] e: String = "", Str, None; a: Option<i32> = "a", Opt(&I32_), None });
shape!(OddNames { #[serde(rename = "a b")] e: Option<String> = "a b", Opt(&STR_), None; #[serde(rename = "é")] f: Option<String> = "é", Opt(&STR_), None; #[serde(rename = "a=")] g: Option<String> = "a=", Opt(&STR_), None });

macro_rules! map_shape {
    ($t:ty, $v:ty, $ft:expr) => {
        impl Shape for $t {
            fn show(self) -> String {
                format!("{:?}", self.into_iter().collect::<BTreeMap<String, $v>>())
            }
            fn expect(m: &Fields) -> Exp {
                let ft = $ft;
                let mut parts = vec![];
                for (k, v) in m {
                    parts.push(match field(&ft, Some(v)) {
                        Exp::Ok(t) => Exp::Ok(format!("{:?}: {}", k, t)),
                        o => o,
                    });
                }
                if parts.contains(&Exp::Err) {
                    return Exp::Err;
                }
                let mut out = vec![];
                for q in parts {
                    match q {
                        Exp::Ok(t) => out.push(t),
                        o => return o,
                    }
                }
                Exp::Ok(format!("{{{}}}", out.join(", ")))
            }
        }
    };
}
map_shape!(HashMap<String, Vec<String>>, Vec<String>, List(&STR_));
map_shape!(HashMap<String, String>, String, Str);
map_shape!(BTreeMap<String, Vec<i32>>, Vec<i32>, List(&I32_));
map_shape!(BTreeMap<String, i32>, i32, I32);
map_shape!(HashMap<String, Option<String>>, Option<String>, Opt(&STR_));

/// Dynamic target: an object with the first string of every name.
impl Shape for serde_json::Value {
    fn show(self) -> String {
        match self {
            serde_json::Value::Object(o) => format!("{:?}", o.into_iter().map(|(k, v)| (k, v.to_string())).collect::<BTreeMap<_, _>>()),
            o => format!("not an object: {}", o),
        }
    }
    fn expect(m: &Fields) -> Exp {
        if m.values().any(|v| v.is_empty()) {
            return Exp::Err;
        }
        Exp::Ok(format!("{:?}", m.iter().map(|(k, v)| (k.clone(), serde_json::Value::String(v[0].clone()).to_string())).collect::<BTreeMap<_, _>>()))
    }
}

/// Shapes outside the supported ones: any error or value, never a panic.
macro_rules! total_shape {
    ($($t:ty),* $(,)?) => { $( impl Shape for $t {
        fn show(self) -> String { String::new() }
        fn expect(_: &Fields) -> Exp { Exp::Any }
    } )* };
}
#[derive(Deserialize)]
enum En { #[allow(non_camel_case_types)] a, #[allow(dead_code)] B(i32) }
#[derive(Deserialize)]
#[allow(dead_code)]
struct HasEnum { a: En }
#[derive(Deserialize)]
#[allow(dead_code)]
struct HasTuple { a: (i32, i32), #[serde(default)] b: Option<(String,)> }
#[derive(Deserialize)]
#[allow(dead_code)]
struct HasArray { a: [i32; 2] }
#[derive(Deserialize)]
#[allow(dead_code)]
struct HasUnit { a: () }
#[derive(Deserialize)]
struct UnitStruct;
#[derive(Deserialize)]
#[allow(dead_code)]
struct HasUnitStruct { a: UnitStruct }
#[derive(Deserialize)]
#[allow(dead_code)]
struct Nested { a: Inner }
#[derive(Deserialize)]
#[allow(dead_code)]
struct Inner { b: i32 }
#[derive(Deserialize)]
#[allow(dead_code)]
struct Has128 { a: i128, b: u128 }
#[derive(Deserialize)]
#[allow(dead_code)]
struct Flat { a: String, #[serde(flatten)] rest: HashMap<String, serde_json::Value> }
#[derive(Deserialize)]
#[serde(deny_unknown_fields)]
#[allow(dead_code)]
struct Strict { a: i32 }
#[derive(Deserialize)]
#[allow(dead_code)]
struct ListOfLists { a: Vec<Vec<i32>> }
#[derive(Deserialize)]
#[allow(dead_code)]
struct OptOpt { a: Option<Option<i32>> }
#[derive(Deserialize)]
#[allow(dead_code)]
struct TopNew(Inner);
#[derive(Deserialize)]
#[serde(untagged)]
#[allow(dead_code)]
enum Untagged { A { a: i32 }, B { b: String } }
#[derive(Deserialize)]
#[serde(tag = "a")]
#[allow(dead_code)]
enum Tagged { x { b: String }, y }
#[derive(Deserialize)]
#[allow(dead_code)]
struct HasMap { a: HashMap<String, i32> }
#[derive(Deserialize)]
#[allow(dead_code)]
struct HasValue { a: serde_json::Value, b: Option<serde_json::Value> }
total_shape!(
    HasEnum, HasTuple, HasArray, HasUnit, HasUnitStruct, UnitStruct, Nested, Has128, Flat, Strict, ListOfLists, OptOpt, TopNew, Untagged, Tagged, HasMap, HasValue, En, i32, u64, f64, bool, char, String,
    (), Option<i32>, Option<Inner>, Vec<i32>, Vec<String>, (i32, i32), Vec<(String, String)>, HashMap<i32, String>, HashMap<String, i128>, BTreeMap<bool, Vec<i32>>, HashMap<String, ()>,
    HashMap<Option<String>, String>, HashMap<char, String>, HashMap<String, HashMap<String, String>>, HashMap<En0, String>
);
#[derive(Deserialize, PartialEq, Eq, Hash)]
#[allow(non_camel_case_types)]
enum En0 { a, b }

fn exact_shapes() -> Vec<ShapeFns> {
    vec![
        sf::<OneInt>("{a: i32}"), sf::<OneStr>("{a: String}"), sf::<OneBool>("{a: bool}"), sf::<OneChar>("{a: char}"), sf::<OneF64>("{a: f64}"), sf::<OneU8>("{a: u8}"),
        sf::<OneOptInt>("{a: Option<i32>}"), sf::<OneOptStr>("{a: Option<String>}"), sf::<OneListInt>("{a: Vec<i32>}"), sf::<OneListStr>("{a: Vec<String>}"),
        sf::<OneListOptInt>("{a: Vec<Option<i32>>}"), sf::<OneListOptStr>("{a: Vec<Option<String>>}"), sf::<OneOptList>("{a: Option<Vec<i32>>}"), sf::<OneOptListStr>("{a: Option<Vec<String>>}"),
        sf::<OneListF64>("{a: Vec<f64>}"), sf::<OneListBool>("{a: VecDeque<bool>}"), sf::<OneListChar>("{a: Vec<char>}"), sf::<OneListU8>("{a: Vec<u8>}"), sf::<OneSet>("{a: BTreeSet<String>}"),
        sf::<OneNew>("{a: Wrap(i32)}"), sf::<OneNewList>("{a: WrapList(Vec<String>)}"), sf::<OneListNew>("{a: Vec<Wrap(i32)>}"), sf::<OneOptNew>("{a: Option<Wrap(i32)>}"), sf::<OneBox>("{a: Box<str>}"),
        sf::<OneCow>("{a: Cow<str>}"), sf::<IntStr>("{a: i32, b: String}"), sf::<ListInt>("{a: Vec<i32>, b: i32}"), sf::<TwoLists>("{a: Vec<String>, b: Vec<String>}"),
        sf::<OptMix>("{a: Option<i32>, b: Option<String>}"), sf::<Defaults>("{a: i32 = 0, b: Vec<String> = []}"), sf::<Renamed>("{b: i32, a: Option<Vec<u8>>}"), sf::<Nothing>("{}"),
        sf::<Wide>("Wide"), sf::<EmptyName>("{\"\": String, a: Option<i32>}"), sf::<OddNames>("{\"a b\", \"é\", \"a=\": Option<String>}"),
        sf::<HashMap<String, Vec<String>>>("map to lists"), sf::<HashMap<String, String>>("map to strings"), sf::<BTreeMap<String, Vec<i32>>>("map to int lists"),
        sf::<BTreeMap<String, i32>>("map to ints"), sf::<HashMap<String, Option<String>>>("map to optionals"), sf::<serde_json::Value>("dynamic value"),
    ]
}

/// every scalar type on its own, optional and in lists
/// characters that a decoder may be tempted to trim, skip or translate; all of the first plane in the thorough tier
fn around_chars(t: Tier) -> Vec<char> {
    let mut r: Vec<std::ops::Range<u32>> = vec![0..0x300, 0x600..0x700, 0x900..0x980, 0x1680..0x1681, 0x180b..0x1810, 0x2000..0x2100, 0x2150..0x2190, 0x2200..0x2220, 0x2460..0x2470, 0x3000..0x3010, 0xe000..0xe001, 0xfe50..0xfe60, 0xfeff..0xff60, 0xfff9..0xfffe, 0x1d7ce..0x1d800, 0x1f600..0x1f602, 0xe0001..0xe0002, 0x10ffff..0x110000];
    if t == Tier::Thorough {
        r.insert(0, 0..0x10000);
    }
    r.into_iter().flatten().filter_map(char::from_u32).collect()
}

fn around(c: char) -> Vec<String> {
    ["1", "true", "x", "-2.5"].iter().flat_map(|v| [format!("{}{}", c, v), format!("{}{}", v, c), format!("{0}{1}{0}", c, v), format!("{}{}{}", v, c, v)]).chain([c.to_string(), format!("{0}{0}", c)]).collect()
}

fn scalar_shapes() -> Vec<ShapeFns> {
    vec![
        sf::<OneI8>("{a: i8}"), sf::<OneI16>("{a: i16}"), sf::<OneInt>("{a: i32}"), sf::<OneI64>("{a: i64}"), sf::<OneU8>("{a: u8}"), sf::<OneU16>("{a: u16}"), sf::<OneU32>("{a: u32}"), sf::<OneU64>("{a: u64}"),
        sf::<OneF32>("{a: f32}"), sf::<OneF64>("{a: f64}"), sf::<OneBool>("{a: bool}"), sf::<OneChar>("{a: char}"), sf::<OneStr>("{a: String}"), sf::<OneBox>("{a: Box<str>}"), sf::<OneCow>("{a: Cow<str>}"), sf::<OneNew>("{a: Wrap(i32)}"),
        sf::<OneOptInt>("{a: Option<i32>}"), sf::<OneOptF64>("{a: Option<f64>}"), sf::<OneOptBool>("{a: Option<bool>}"), sf::<OneOptChar>("{a: Option<char>}"), sf::<OneOptStr>("{a: Option<String>}"), sf::<OneListInt>("{a: Vec<i32>}"), sf::<OneListI64>("{a: Vec<i64>}"),
        sf::<OneListF32>("{a: Vec<f32>}"), sf::<OneListF64>("{a: Vec<f64>}"), sf::<OneListBool>("{a: VecDeque<bool>}"), sf::<OneListStr>("{a: Vec<String>}"), sf::<OneListU8>("{a: Vec<u8>}"), sf::<OneListOptInt>("{a: Vec<Option<i32>>}"), sf::<OneListOptStr>("{a: Vec<Option<String>>}"),
        sf::<OneListOptBool>("{a: Vec<Option<bool>>}"), sf::<OneSet>("{a: BTreeSet<String>}"), sf::<Defaults>("{a: i32 = 0, b: Vec<String> = []}"), sf::<OptMix>("{a: Option<i32>, b: Option<String>}"), sf::<HashMap<String, Vec<String>>>("map to lists"), sf::<HashMap<String, String>>("map to strings"),
        sf::<BTreeMap<String, Vec<i32>>>("map to int lists"), sf::<HashMap<String, Option<String>>>("map to optionals"), sf::<serde_json::Value>("dynamic value"),
    ]
}

thread_local! {
    static FIELD: std::cell::Cell<&'static str> = const { std::cell::Cell::new("a") };
}
fn field_name(w: &str) -> &'static str {
    static KNOWN: std::sync::Mutex<BTreeSet<&'static str>> = std::sync::Mutex::new(BTreeSet::new());
    let mut k = KNOWN.lock().unwrap();
    if let Some(x) = k.get(w) {
        return x;
    }
    let x: &'static str = Box::leak(w.to_string().into_boxed_str());
    k.insert(x);
    x
}

/// a structure whose one field (an optional list of texts) is called whatever FIELD says
struct Called(Option<Vec<String>>);
impl<'de> Deserialize<'de> for Called {
    fn deserialize<D: serde::Deserializer<'de>>(d: D) -> Result<Called, D::Error> {
        struct V(&'static str);
        impl<'de> serde::de::Visitor<'de> for V {
            type Value = Called;
            fn expecting(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
                f.write_str("a structure")
            }
            fn visit_map<A: serde::de::MapAccess<'de>>(self, mut m: A) -> Result<Called, A::Error> {
                let mut out = None;
                while let Some(k) = m.next_key::<String>()? {
                    if k == self.0 {
                        out = Some(m.next_value::<Vec<String>>()?);
                    } else {
                        m.next_value::<serde::de::IgnoredAny>()?;
                    }
                }
                Ok(Called(out))
            }
        }
        let name = FIELD.with(|f| f.get());
        let fields: &'static [&'static str] = Box::leak(Box::new([name]));
        d.deserialize_struct("Called", fields, V(name))
    }
}
impl Shape for Called {
    fn show(self) -> String {
        format!("{:?}", self.0)
    }
    fn expect(m: &Fields) -> Exp {
        Exp::Ok(format!("{:?}", m.get(FIELD.with(|f| f.get()))))
    }
}

fn escape(w: &str, all: bool) -> String {
    w.bytes().map(|b| if !all && b == b' ' { "+".to_string() } else if !all && (b.is_ascii_alphanumeric() || b"-._*".contains(&b)) { (b as char).to_string() } else { format!("%{:02X}", b) }).collect()
}

fn total_shapes() -> Vec<ShapeFns> {
    vec![
        sf::<HasEnum>("enum field"), sf::<HasTuple>("tuple fields"), sf::<HasArray>("array field"), sf::<HasUnit>("unit field"), sf::<HasUnitStruct>("unit struct field"), sf::<UnitStruct>("unit struct"),
        sf::<Nested>("nested struct"), sf::<Has128>("128-bit fields"), sf::<Flat>("flattened"), sf::<Strict>("deny unknown"), sf::<ListOfLists>("list of lists"), sf::<OptOpt>("optional optional"),
        sf::<TopNew>("newtype at top"), sf::<Untagged>("untagged"), sf::<Tagged>("tagged"), sf::<HasMap>("map field"), sf::<HasValue>("value fields"), sf::<En>("enum at top"), sf::<i32>("i32"), sf::<u64>("u64"),
        sf::<f64>("f64"), sf::<bool>("bool"), sf::<char>("char"), sf::<String>("String"), sf::<()>("()"), sf::<Option<i32>>("Option<i32>"), sf::<Option<Inner>>("Option<struct>"), sf::<Vec<i32>>("Vec<i32>"),
        sf::<Vec<String>>("Vec<String>"), sf::<(i32, i32)>("tuple"), sf::<Vec<(String, String)>>("list of pairs"), sf::<HashMap<i32, String>>("int keys"), sf::<HashMap<String, i128>>("map to i128"),
        sf::<BTreeMap<bool, Vec<i32>>>("bool keys"), sf::<HashMap<String, ()>>("map to unit"), sf::<HashMap<Option<String>, String>>("optional keys"), sf::<HashMap<char, String>>("char keys"),
        sf::<HashMap<String, HashMap<String, String>>>("map of maps"), sf::<HashMap<En0, String>>("enum keys"),
    ]
}

fn agree(e: &Exp, got: Option<&str>) -> bool {
    match e {
        Exp::Any => true,
        Exp::Err => got.is_none(),
        Exp::Ok(t) => got == Some(t),
    }
}

// ================================================================ C13

fn fields_of(text: &[u8]) -> Fields {
    let mut m = Fields::new();
    for (k, v) in form_pairs(text) {
        m.entry(k).or_default().push(v);
    }
    m
}

/// Decode one text as a query (when it can be written into a URI) and as a form, into every shape.
fn check_text(w: &mut W, text: &[u8], shapes: &[ShapeFns], query_alone: bool) -> CaseResult {
    let m = fields_of(text);
    let uri = {
        let mut u = b"/p?".to_vec();
        u.extend_from_slice(text);
        if text.contains(&b'#') { None } else { hyper::Uri::try_from(&u[..]).ok() }
    };
    w.state(&m);
    w.st.traces += 1;
    for s in shapes {
        let e = (s.expect)(&m);
        w.st.evaluations += 1;
        w.st.transitions += 1;
        w.outcome(&(s.name, &e));
        let fail = |how: &str, got: &Result<String, ObsidianError>| format!("{} {:?} into {}: expected {:?}, got {:?}", how, String::from_utf8_lossy(text), s.name, e, got);
        if let Some(u) = &uri {
            let mut r = Request::new(Body::empty());
            *r.uri_mut() = u.clone();
            let mut c = Context::new(r, HashMap::new());
            let got = may_panic(|| (s.query)(&mut c)).map_err(|p| format!("query {:?} into {}: panic {}", String::from_utf8_lossy(text), s.name, p))?;
            if !agree(&e, got.as_deref().ok()) {
                return Err(fail("query", &got));
            }
        }
        if !query_alone || uri.is_none() {
            let mut c = Context::new(Request::new(Body::from(text.to_vec())), HashMap::new());
            let got = may_panic(|| poll_all((s.form)(&mut c))).map_err(|p| format!("form {:?} into {}: panic {}", String::from_utf8_lossy(text), s.name, p))?;
            if !agree(&e, got.as_deref().ok()) {
                return Err(fail("form", &got));
            }
        }
    }
    Ok(())
}

const KEYS: &[&str] = &["a", "b", "%61", "c"];
const VALS: &[&str] = &["=1", "=2", "=", "", "=x", "=300", "=-1", "=1.5", "=true", "=%31", "=+", "=a+b", "=%C3%A9", "=%zz", "=%", "=1%262", "=1=2", "=%2B7", "=%E9", "=a%00b"];

pub fn c13(t: Tier) -> Check {
    let mut s = vec![];
    let pairs: Vec<String> = KEYS.iter().flat_map(|k| VALS.iter().map(move |v| format!("{}{}", k, v))).collect();
    let n = pairs.len() as u64;
    {
        let pairs = pairs.clone();
        s.push(section("all sequences of up to two pairs", 1 + n, move |i, w| {
            let sh: Vec<ShapeFns> = exact_shapes().into_iter().chain(total_shapes()).collect();
            if i == 0 {
                for t in ["", "&", "&&", "=", "=&=", "&=1", "a", "&a=1&", "a=1&&b=2", "?a=1", "a=1;b=2", "a=1;a=2", "a[]=1", "a.b=1"] {
                    check_text(w, t.as_bytes(), &sh, false)?;
                }
                return Ok(());
            }
            let a = &pairs[i as usize - 1];
            check_text(w, a.as_bytes(), &sh, false)?;
            for b in &pairs {
                check_text(w, format!("{}&{}", a, b).as_bytes(), &sh, false)?;
                check_text(w, format!("&{}&&{}&", a, b).as_bytes(), &sh[..12], false)?;
            }
            Ok(())
        }));
    }
    {
        let few: Vec<String> = t.pick(
            KEYS[..3].iter().flat_map(|k| ["=1", "=2", "=", "", "=x", "=a+b", "=%31", "=300"].iter().map(move |v| format!("{}{}", k, v))).collect(),
            pairs.clone(),
        );
        let n = few.len();
        s.push(section("all sequences of three pairs", (n * n) as u64, move |i, w| {
            let sh = exact_shapes();
            let (a, b) = (&few[i as usize % n], &few[i as usize / n]);
            for c in &few {
                check_text(w, format!("{}&{}&{}", a, b, c).as_bytes(), &sh, false)?;
            }
            Ok(())
        }));
    }
    {
        let small = ["a=1", "a=2", "b=3", "a=", "a=x", "b=", "c=4", "b=y"];
        let depth = t.pick(5usize, 7);
        s.push(section("longer sequences", (small.len() * small.len()) as u64, move |i, w| {
            let sh = exact_shapes();
            let (a, b) = (small[i as usize % small.len()], small[i as usize / small.len()]);
            for len in 2..depth - 1 {
                for j in 0..(small.len() as u64).pow(len as u32) {
                    let rest: Vec<String> = nth(&small, len, j).iter().map(|x| x.to_string()).collect();
                    check_text(w, format!("{}&{}&{}", a, b, rest.join("&")).as_bytes(), if t == Tier::Quick { &sh[..12] } else { &sh[..] }, true)?;
                }
            }
            Ok(())
        }));
    }
    // every byte string over an alphabet of everything the syntax gives meaning to
    const BYTES: &[u8] = b"a=&%+16\xc3b";
    let maxlen = t.pick(6u32, 7);
    let nb = BYTES.len() as u64;
    s.push(section("all byte strings", nb * nb, move |i, w| {
        let sh = vec![sf::<HashMap<String, Vec<String>>>("map to lists"), sf::<OneOptStr>("{a: Option<String>}"), sf::<OneListInt>("{a: Vec<i32>}")];
        let head = [BYTES[(i % nb) as usize], BYTES[(i / nb) as usize]];
        if i < nb {
            check_text(w, &head[..1], &sh, false)?;
        }
        for len in 0..=maxlen - 2 {
            for mut j in 0..nb.pow(len) {
                let mut t = head.to_vec();
                for _ in 0..len {
                    t.push(BYTES[(j % nb) as usize]);
                    j /= nb;
                }
                check_text(w, &t, &sh[..if len > 3 { 1 } else { 3 }], true)?;
            }
        }
        Ok(())
    }));
    // every single escaped byte, raw byte and pair of hex digits in either case, as name and as value
    s.push(section("every byte, escaped and raw", 256, |i, w| {
        let b = i as u8;
        let sh = vec![sf::<HashMap<String, Vec<String>>>("map to lists"), sf::<HashMap<String, String>>("map to strings"), sf::<OneOptStr>("{a: Option<String>}"), sf::<serde_json::Value>("dynamic value")];
        for e in [format!("%{:02x}", b).into_bytes(), format!("%{:02X}", b).into_bytes(), vec![b], vec![b'%', b, b'1'], vec![b'%', b'4', b], vec![b'%', b]] {
            for (pre, post) in [("", "=v"), ("a=", ""), ("a=x", "y"), ("a", "b=1"), ("", "a=1&a=2"), ("a=1", "a=2"), ("a=%C3", ""), ("a=", "%A9")] {
                let mut t = pre.as_bytes().to_vec();
                t.extend_from_slice(&e);
                t.extend_from_slice(post.as_bytes());
                check_text(w, &t, &sh, false)?;
            }
        }
        Ok(())
    }));
    // many values, many names, long values
    s.push(section("sizes", t.pick(60, 200), |i, w| {
        let sh = exact_shapes();
        let n = i as usize * 3;
        let many: Vec<String> = (0..n).map(|k| format!("a={}", (k * 7) % 1000)).collect();
        check_text(w, many.join("&").as_bytes(), &sh, false)?;
        let names: Vec<String> = (0..n).map(|k| format!("n{}={}", k, k)).chain(["a=5".into(), "b=q".into()]).collect();
        check_text(w, names.join("&").as_bytes(), &sh, false)?;
        let inter: Vec<String> = (0..n).map(|k| format!("{}={}", ["a", "b", "c"][k % 3], k)).collect();
        check_text(w, inter.join("&").as_bytes(), &sh, false)?;
        let long = format!("a={}&b={}", "v".repeat(n * 40), "%20".repeat(n));
        check_text(w, long.as_bytes(), &sh, false)
    }));
    // values around the limits of each number type
    s.push(section("numbers", 1, |_, w| {
        let sh = exact_shapes();
        let wide = vec![sf::<Wide>("Wide")];
        let nums = [
            "0", "1", "-0", "%2B1", "00", "-1", "127", "128", "-128", "-129", "255", "256", "32767", "65535", "65536", "2147483647", "2147483648", "-2147483648", "-2147483649", "4294967296", "9223372036854775807",
            "9223372036854775808", "-9223372036854775808", "-9223372036854775809", "18446744073709551615", "18446744073709551616", "1.0", "1e3", ".5", "5.", "1e400", "inf", "NaN", "-inf", "+5", "0x1", "1_0", " 1", "true",
        ];
        for a in nums {
            check_text(w, format!("a={}", a).as_bytes(), &sh, false)?;
            for b in nums {
                check_text(w, format!("a={}&b={}&a=7", a, b).as_bytes(), &sh, false)?;
                check_text(w, format!("i8v={0}&i64v={1}&u16v={0}&u64v={1}&f32v={1}&b={0}&b={1}", a, b).as_bytes(), &wide, false)?;
                check_text(w, format!("i8v=1&i64v={1}&u16v=2&u64v={0}&f32v=3&a=k&b={0}", a, b).as_bytes(), &wide, false)?;
            }
        }
        Ok(())
    }));
    // through the server
    {
        let pairs = pairs.clone();
        let shapes = exact_shapes();
        let n = shapes.len() as u64;
        s.push(section("through the server", n, move |i, w| {
            let sh = shapes[i as usize].clone();
            let sh2 = sh.clone();
            let mk = move || {
                let (q, f) = (sh2.query, sh2.form);
                let mut a: App = App::new();
                a.get("/q", move |mut c: Context| async move {
                    let s = q(&mut c)?;
                    c.build(s).ok()
                });
                a.post("/f", move |mut c: Context| async move {
                    let s = f(&mut c).await?;
                    c.build(s).ok()
                });
                a
            };
            let mut texts: Vec<String> = vec!["".into()];
            texts.extend(pairs.iter().cloned());
            for a in pairs.iter().step_by(3) {
                for b in pairs.iter().step_by(2) {
                    texts.push(format!("{}&{}", a, b));
                }
            }
            let mut reqs = vec![];
            for t in &texts {
                reqs.push((wire::req("GET", &format!("/q?{}", t), &[], None), false));
                reqs.push((wire::req("POST", "/f", &[("content-type", "application/x-www-form-urlencoded")], Some(t.as_bytes())), false));
            }
            let rs = w.wire.serve(mk, async |p| wire::batch(p, &reqs).await);
            w.st.traces += 1;
            for (k, r) in rs.iter().enumerate() {
                let e = (sh.expect)(&fields_of(texts[k / 2].as_bytes()));
                w.st.evaluations += 1;
                let text = r.text();
                let ok = match r.status() {
                    200 => agree(&e, Some(&text)),
                    500 => agree(&e, None),
                    _ => false,
                };
                if !ok {
                    return Err(format!("{} {:?} into {} over HTTP: expected {:?}, got {}", if k % 2 == 0 { "query" } else { "form" }, texts[k / 2], sh.name, e, r.show()));
                }
            }
            Ok(())
        }));
    }
    // counts and lengths around every likely limit
    let limits: Vec<usize> = crate::dict::sizes(
        t.pick(
        vec![15, 16, 17, 31, 32, 33, 50, 51, 63, 64, 65, 100, 101, 127, 128, 129, 255, 256, 257, 500, 511, 512, 513, 1000, 1001, 1023, 1024, 1025, 2048, 2049, 4096, 4097, 8192, 8193, 10_001, 20_001],
        vec![15, 16, 17, 31, 32, 33, 50, 51, 63, 64, 65, 100, 101, 127, 128, 129, 255, 256, 257, 500, 511, 512, 513, 1000, 1001, 1023, 1024, 1025, 2048, 2049, 4096, 4097, 8192, 8193, 10_001, 20_001, 65_536, 65_537, 100_001, 300_001],
        ),
        70_000,
    );
    let nl = limits.len() as u64;
    s.push(section("around every likely limit", nl * 7, move |i, w| {
        let (n, kind) = (limits[(i / 7) as usize], i % 7);
        let sh = vec![sf::<HashMap<String, Vec<String>>>("map to lists"), sf::<OneOptStr>("{a: Option<String>}"), sf::<OneListInt>("{a: Vec<i32>}"), sf::<HashMap<String, String>>("map to strings")];
        let text = match kind {
            0 => (0..n).map(|k| format!("a={}", k)).collect::<Vec<_>>().join("&"),
            1 => (0..n).map(|k| format!("n{}={}", k, k)).chain(["a=5".into()]).collect::<Vec<_>>().join("&"),
            2 => format!("a={}", "v".repeat(n)),
            3 => format!("{}=1&a=7", "k".repeat(n)),
            4 => format!("a={}", "%C3%A9".repeat(n)),
            5 => format!("{}a=1{}", "&".repeat(n), "&".repeat(n)),
            _ => (0..n).map(|k| format!("b={}", k)).chain(["a=5".into(), "a=6".into()]).collect::<Vec<_>>().join("&"),
        };
        check_text(w, text.as_bytes(), &sh, false)
    }));
    // every word of the vocabulary as value (first, second, only) and as name, escaped three ways
    let voc = std::sync::Arc::new(super::names::values(t));
    let per = 24u64;
    {
        let voc = voc.clone();
        s.push(section("every word as a value and as a name", (voc.len() as u64 + per - 1) / per, move |i, w| {
            let sh = scalar_shapes();
            let maps = [sf::<HashMap<String, Vec<String>>>("map to lists"), sf::<OneOptStr>("{a: Option<String>}"), sf::<OneListInt>("{a: Vec<i32>}"), sf::<serde_json::Value>("dynamic value")];
            for x in voc.iter().skip((i * per) as usize).take(per as usize) {
                for e in [escape(x, false), escape(x, true), x.clone()] {
                    for t in [format!("a={}", e), format!("a=7&a={}", e), format!("a={}&a=7", e), format!("b={}&a=1", e), format!("b=q&a={}&c=3", e)] {
                        check_text(w, t.as_bytes(), &sh, false)?;
                    }
                    for t in [format!("{}=1", e), format!("{}=1&a=2", e), format!("a=2&{}=1", e), e.clone(), format!("{0}={0}", e), format!("{0}=1&{0}=2", e)] {
                        check_text(w, t.as_bytes(), &maps, false)?;
                    }
                }
            }
            Ok(())
        }));
    }
    s.push(section("every character at and in a value", around_chars(t).len() as u64 / 20 + 1, move |i, w| {
        let sh = scalar_shapes();
        for c in around_chars(t).into_iter().skip(i as usize * 20).take(20) {
            for v in around(c) {
                check_text(w, format!("a={}", escape(&v, false)).as_bytes(), &sh, false)?;
            }
        }
        Ok(())
    }));
    // a field of any name is filled by that name only
    let words = std::sync::Arc::new(super::names::vocabulary(t));
    {
        let words = words.clone();
        s.push(section("fields of every name", (words.len() as u64 + per - 1) / per, move |i, w| {
            let sh = [sf::<Called>("structure with that field"), sf::<HashMap<String, Vec<String>>>("map to lists")];
            for x in words.iter().skip((i * per) as usize).take(per as usize) {
                FIELD.with(|f| f.set(field_name(x)));
                let e = escape(x, false);
                let mut texts = vec![format!("{}=1", e), format!("{}=1&{}=2", e, escape(x, true))];
                for r in super::names::relatives(x) {
                    let re = escape(&r, false);
                    texts.extend([format!("{}=1", re), format!("{}=1&{}=2", e, re), format!("{}=1&{}=2&{0}=3", re, e)]);
                }
                for q in [format!("{}[]", e), format!("{}[0]", e), format!("{}.0", e), format!("a[{}]", e), format!("a.{}", e), format!("{}%5B%5D", e), format!("+{}", e), format!("{}+", e), format!("%00{}", e), format!("amp;{}", e)] {
                    texts.push(format!("{}=1", q));
                    texts.push(format!("{}=1&{}=2", e, q));
                }
                for t in texts {
                    check_text(w, t.as_bytes(), &sh, false)?;
                }
            }
            FIELD.with(|f| f.set("a"));
            Ok(())
        }));
    }
    // what else a request carries does not matter
    let ns = surround::noise_groups();
    let nn = ns.len() as u64 + 1;
    s.push(section("what surrounds a query or form", nn * 2, move |i, w| {
        let (ni, chunked) = (i / 2, i % 2 == 1);
        let shapes: Vec<ShapeFns> = exact_shapes();
        let fns: Vec<_> = shapes.iter().map(|s| (s.query, s.form)).collect();
        let fns = std::sync::Arc::new(fns);
        let mk = || {
            let mut a: App = App::new();
            macro_rules! both {
                ($m:ident) => {
                    let f = fns.clone();
                    a.$m("/q/:k", move |mut c: Context| {
                        let f = f.clone();
                        async move {
                            let k: usize = c.param("k")?;
                            let s = (f[k].0)(&mut c)?;
                            c.build(s).ok()
                        }
                    });
                    let f = fns.clone();
                    a.$m("/f/:k", move |mut c: Context| {
                        let f = f.clone();
                        async move {
                            let k: usize = c.param("k")?;
                            let s = (f[k].1)(&mut c).await?;
                            c.build(s).ok()
                        }
                    });
                };
            }
            both!(get);
            both!(post);
            both!(put);
            both!(patch);
            both!(delete);
            a
        };
        let texts = ["", "a=1", "a=1&a=2&b=3", "a=%C3%A9+x&b=1", "b=&a=x&c=4", "a=300&b=-1&a=true", "a[]=1&a=2", "a=1;b=2", "a=%zz%", "A=1&a=2"];
        let mut reqs = vec![];
        let mut wants = vec![];
        for (ti, t) in texts.iter().enumerate() {
            for k in 0..shapes.len() {
                let m = METHODS[(ti + k) % 5];
                let hs: Vec<(&str, &str)> = if ni > 0 { ns[ni as usize - 1].iter().map(|(k, v)| (&k[..], &v[..])).collect() } else { vec![] };
                reqs.push((wire::req(m, &format!("/q/{}?{}", k, t), &hs, if chunked { None } else { Some(b"a=99&b=98") }), false));
                wants.push((*t, k, "query"));
                let r = if chunked {
                    let mut h2 = hs.clone();
                    h2.push(("transfer-encoding", "chunked"));
                    let mut r = wire::req(m, &format!("/f/{}?a=99&b=98", k), &h2, None);
                    for c in t.as_bytes().chunks(2) {
                        r.extend_from_slice(format!("{:x}\r\n", c.len()).as_bytes());
                        r.extend_from_slice(c);
                        r.extend_from_slice(b"\r\n");
                    }
                    r.extend_from_slice(b"0\r\n\r\n");
                    r
                } else {
                    wire::req(m, &format!("/f/{}", k), &hs, Some(t.as_bytes()))
                };
                reqs.push((r, false));
                wants.push((*t, k, "form"));
            }
        }
        // a body nobody reads may end the connection: those go on their own
        let rs = w.wire.serve(mk, async |p| {
            if chunked {
                wire::batch(p, &reqs).await
            } else {
                let mut v = vec![];
                for r in &reqs {
                    v.push(wire::once(p, &r.0, false).await);
                }
                v
            }
        });
        w.st.traces += 1;
        w.st.transitions += reqs.len() as u64;
        for ((t, k, what), r) in wants.iter().zip(&rs) {
            let e = (shapes[*k].expect)(&fields_of(t.as_bytes()));
            w.st.evaluations += 1;
            w.state(&(t, k, what, i));
            let text = r.text();
            let ok = match r.status() {
                200 => agree(&e, Some(&text)),
                500 => agree(&e, None),
                _ => false,
            };
            if !ok {
                return Err(format!("{} {:?} into {} with header {:?}: expected {:?}, got {}", what, t, shapes[*k].name, if ni > 0 { Some(&ns[ni as usize - 1]) } else { None }, e, r.show()));
            }
        }
        Ok(())
    }));
    Check {
        id: "C13",
        level: "model_checking",
        rule: "decoded value or error of Context::query_params and Context::form equals an independent decoder's, for every enumerated text and target shape".into(),
        assumptions: vec![
            "supported fields: integers to 64 bit, floats, bool, single characters, text, newtypes, optionals and lists of these; other shapes (enums, tuples, nested structures, 128-bit) only must not panic".into(),
            "escapes that are not valid UTF-8 decode to the replacement character".into(),
        ],
        sections: s,
    }
}

// ================================================================ C14

fn check_map(w: &mut W, m: &Fields, shapes: &[ShapeFns]) -> CaseResult {
    w.state(m);
    w.st.traces += 1;
    for s in shapes {
        let e = (s.expect)(m);
        w.st.evaluations += 1;
        w.st.transitions += 1;
        w.outcome(&(s.name, &e));
        for seed in 0..if m.len() > 1 { 4 } else { 1 } {
            let mut h: HashMap<Cow<str>, Cow<[String]>, Seeded> = HashMap::with_hasher(Seeded(seed));
            for (k, v) in m {
                h.insert(Cow::from(k.as_str()), if seed % 2 == 0 { Cow::from(&v[..]) } else { Cow::from(v.clone()) });
            }
            let got = may_panic(|| (s.cow)(&h)).map_err(|p| format!("map {:?} into {}: panic {}", m, s.name, p))?;
            if !agree(&e, got.as_deref()) {
                return Err(format!("map {:?} into {} (walked as {:?}): expected {:?}, got {:?}", m, s.name, h.keys().collect::<Vec<_>>(), e, got));
            }
        }
    }
    Ok(())
}

pub fn c14(t: Tier) -> Check {
    let mut s = vec![];
    const STR: &[&str] = &["", "1", "x", "-2", "300", "1.5", "true", " ", "é", "00"];
    let maxlen = t.pick(4usize, 5);
    let per: Vec<Vec<String>> = {
        let mut v = vec![];
        for len in 0..=maxlen {
            for j in 0..(STR.len() as u64).pow(len as u32) {
                v.push(nth(STR, len, j).iter().map(|x| x.to_string()).collect::<Vec<String>>());
            }
        }
        v
    };
    let per = std::sync::Arc::new(per);
    {
        let per = per.clone();
        let chunk = 64usize;
        s.push(section("one name, every list", ((per.len() + chunk - 1) / chunk) as u64, move |i, w| {
            let sh: Vec<ShapeFns> = exact_shapes().into_iter().chain(total_shapes()).collect();
            for v in per.iter().skip(i as usize * chunk).take(chunk) {
                for k in ["a", "b", ""] {
                    let m: Fields = [(k.to_string(), v.clone())].into_iter().collect();
                    check_map(w, &m, &sh)?;
                }
            }
            Ok(())
        }));
    }
    {
        const SM: &[&str] = &["", "1", "x", "2"];
        let len2 = t.pick(2usize, 3);
        let lists: Vec<Option<Vec<String>>> = {
            let mut v = vec![None];
            for len in 0..=len2 {
                for j in 0..(SM.len() as u64).pow(len as u32) {
                    v.push(Some(nth(SM, len, j).iter().map(|x| x.to_string()).collect()));
                }
            }
            v
        };
        let n = lists.len();
        s.push(section("three names", (n * n) as u64, move |i, w| {
            let sh: Vec<ShapeFns> = exact_shapes().into_iter().skip(25).chain(total_shapes()).collect();
            for c in lists.iter().take(t.pick(8, n)) {
                let mut m = Fields::new();
                for (k, v) in [("a", &lists[i as usize % n]), ("b", &lists[i as usize / n]), ("zz", c)] {
                    if let Some(v) = v {
                        m.insert(k.into(), v.clone());
                    }
                }
                check_map(w, &m, &sh)?;
            }
            Ok(())
        }));
    }
    // odd names: keys that parse as other key types, empty, long
    s.push(section("every key", 1, |_, w| {
        let sh: Vec<ShapeFns> = exact_shapes().into_iter().chain(total_shapes()).collect();
        let keys = ["", "a", "b", "1", "-1", "true", "é", " ", "i8v", "a b", "0.5", "None"];
        let vals: [&[&str]; 6] = [&[], &[""], &["1"], &["x", "1"], &["", "1"], &["1", ""]];
        for k in keys {
            for k2 in keys {
                for v in vals {
                    for v2 in vals {
                        let mut m = Fields::new();
                        m.insert(k.into(), v.iter().map(|x| x.to_string()).collect());
                        m.insert(k2.into(), v2.iter().map(|x| x.to_string()).collect());
                        check_map(w, &m, &sh)?;
                    }
                }
            }
        }
        check_map(w, &Fields::new(), &sh)
    }));
    let voc = std::sync::Arc::new(super::names::values(t));
    let perc = 24u64;
    {
        let voc = voc.clone();
        s.push(section("every word as a value and as a name", (voc.len() as u64 + perc - 1) / perc, move |i, w| {
            let sh = scalar_shapes();
            let totals = total_shapes();
            let l = |x: &[&str]| x.iter().map(|s| s.to_string()).collect::<Vec<String>>();
            for x in voc.iter().skip((i * perc) as usize).take(perc as usize) {
                for v in [l(&[x]), l(&[x, "1"]), l(&["1", x]), l(&["", x]), l(&[x, ""]), l(&[x, x])] {
                    let m: Fields = [("a".to_string(), v.clone())].into_iter().collect();
                    check_map(w, &m, &sh)?;
                    check_map(w, &m, &totals)?;
                    check_map(w, &[(x.clone(), v.clone())].into_iter().collect(), &sh)?;
                    check_map(w, &[("a".to_string(), l(&["2"])), (x.clone(), v)].into_iter().collect(), &sh)?;
                }
            }
            Ok(())
        }));
    }
    s.push(section("every character at and in a value", around_chars(t).len() as u64 / 20 + 1, move |i, w| {
        let (sh, totals) = (scalar_shapes(), total_shapes());
        for c in around_chars(t).into_iter().skip(i as usize * 20).take(20) {
            for v in around(c) {
                let m: Fields = [("a".to_string(), vec![v])].into_iter().collect();
                check_map(w, &m, &sh)?;
                check_map(w, &m, &totals)?;
            }
        }
        Ok(())
    }));
    {
        let words = std::sync::Arc::new(super::names::vocabulary(t));
        s.push(section("fields of every name", (words.len() as u64 + perc - 1) / perc, move |i, w| {
            let sh = [sf::<Called>("structure with that field"), sf::<HashMap<String, Vec<String>>>("map to lists")];
            for x in words.iter().skip((i * perc) as usize).take(perc as usize) {
                FIELD.with(|f| f.set(field_name(x)));
                let rel = super::names::relatives(x);
                for r in std::iter::once(x).chain(&rel) {
                    for v in [vec![], vec!["1".to_string()], vec!["".to_string(), r.clone()]] {
                        check_map(w, &[(r.clone(), v.clone())].into_iter().collect(), &sh)?;
                        check_map(w, &[(r.clone(), v.clone()), (x.clone(), vec!["9".to_string()])].into_iter().collect(), &sh)?;
                    }
                }
                let all: Fields = std::iter::once(x).chain(&rel).map(|r| (r.clone(), vec![format!("v {}", r)])).collect();
                check_map(w, &all, &sh)?;
            }
            FIELD.with(|f| f.set("a"));
            Ok(())
        }));
    }
    // counts, lengths and numbers of names around every likely limit
    let limits: Vec<usize> = crate::dict::sizes(
        t.pick(
        vec![15, 16, 17, 31, 32, 33, 50, 51, 63, 64, 65, 100, 101, 127, 128, 129, 255, 256, 257, 500, 511, 512, 513, 1000, 1001, 1023, 1024, 1025, 2048, 2049, 4096, 4097, 8192, 8193, 10_001, 20_001],
        vec![15, 16, 17, 31, 32, 33, 50, 51, 63, 64, 65, 100, 101, 127, 128, 129, 255, 256, 257, 500, 511, 512, 513, 1000, 1001, 1023, 1024, 1025, 2048, 2049, 4096, 4097, 8192, 8193, 10_001, 20_001, 65_536, 65_537, 100_001, 300_001],
        ),
        70_000,
    );
    let nl = limits.len() as u64;
    s.push(section("around every likely limit", nl * 5, move |i, w| {
        let (n, kind) = (limits[(i / 5) as usize], i % 5);
        let sh = [sf::<HashMap<String, Vec<String>>>("map to lists"), sf::<OneOptStr>("{a: Option<String>}"), sf::<OneListInt>("{a: Vec<i32>}"), sf::<HashMap<String, String>>("map to strings"), sf::<OneListOptStr>("{a: Vec<Option<String>>}"), sf::<BTreeMap<String, Vec<i32>>>("map to int lists"), sf::<OneSet>("{a: BTreeSet<String>}")];
        let m: Fields = match kind {
            0 => [("a".to_string(), (0..n).map(|k| k.to_string()).collect())].into_iter().collect(),
            1 => (0..n).map(|k| (format!("n{}", k), vec![k.to_string()])).chain([("a".to_string(), vec!["5".to_string()])]).collect(),
            2 => [("a".to_string(), vec!["v".repeat(n), "w".repeat(n)])].into_iter().collect(),
            3 => [("k".repeat(n), vec!["1".to_string()]), ("a".to_string(), vec!["7".to_string()])].into_iter().collect(),
            _ => [("a".to_string(), (0..n).map(|k| if k + 1 == n { "x".to_string() } else { String::new() }).collect())].into_iter().collect(),
        };
        check_map(w, &m, &sh)
    }));
    s.push(section("long lists", t.pick(100, 400), |i, w| {
        let sh: Vec<ShapeFns> = exact_shapes().into_iter().chain(total_shapes()).collect();
        for pat in 0..4 {
            let v: Vec<String> = (0..i).map(|k| match (pat, k % 3) { (0, _) => k.to_string(), (1, 0) => String::new(), (2, 2) => "x".into(), (3, _) => String::new(), _ => "4".into() }).collect();
            let m: Fields = [("a".to_string(), v.clone()), ("b".to_string(), v.into_iter().rev().collect())].into_iter().collect();
            check_map(w, &m, &sh)?;
        }
        Ok(())
    }));
    Check {
        id: "C14",
        level: "model_checking",
        rule: "from_cow_map on every enumerated map, walked in up to four orders, into every shape: value or error as the independent decoder says, never a panic".into(),
        assumptions: vec!["a scalar optional whose first string is empty may come out absent or as that text".into()],
        sections: s,
    }
}

// ================================================================ C12

#[derive(Clone, Copy, PartialEq, Debug)]
pub(super) enum Reader {
    JsonValue,
    JsonTyped,
    FormMap,
    FormTyped,
    Raw,
}
pub(super) const READERS: [Reader; 5] = [Reader::JsonValue, Reader::JsonTyped, Reader::FormMap, Reader::FormTyped, Reader::Raw];

#[derive(Deserialize, Debug)]
#[allow(dead_code)]
struct Ab {
    a: String,
    #[serde(default)]
    b: Option<Vec<String>>,
}
#[derive(Deserialize, Debug)]
#[allow(dead_code)]
struct Aj {
    a: serde_json::Value,
}

fn digest(s: String) -> String {
    if s.len() > 300 {
        format!("{} chars #{:x} {}..", s.len(), hash_of(&s), s.chars().take(40).collect::<String>())
    } else {
        s
    }
}

pub(super) async fn read(c: &mut Context, r: Reader) -> Option<String> {
    match r {
        Reader::JsonValue => c.json::<serde_json::Value>().await.ok().map(|v| digest(v.to_string())),
        Reader::JsonTyped => c.json::<Aj>().await.ok().map(|v| digest(format!("{:?}", v))),
        Reader::FormMap => c.form::<HashMap<String, Vec<String>>>().await.ok().map(|m| digest(format!("{:?}", m.into_iter().collect::<BTreeMap<_, _>>()))),
        Reader::FormTyped => c.form::<Ab>().await.ok().map(|m| digest(format!("{:?}", m))),
        Reader::Raw => hyper::body::to_bytes(c.take_body()).await.ok().map(|b| digest(format!("{:?}", &b[..]))),
    }
}

fn whole(text: &[u8], r: Reader) -> Option<String> {
    match r {
        Reader::JsonValue => serde_json::from_slice::<serde_json::Value>(text).ok().map(|v| digest(v.to_string())),
        Reader::JsonTyped => serde_json::from_slice::<Aj>(text).ok().map(|v| digest(format!("{:?}", v))),
        Reader::FormMap => Some(digest(format!("{:?}", fields_of(text)))),
        Reader::FormTyped => {
            let m = fields_of(text);
            let a = m.get("a")?[0].clone();
            Some(digest(format!("{:?}", Ab { a, b: m.get("b").cloned() })))
        }
        Reader::Raw => Some(digest(format!("{:?}", text))),
    }
}

pub(super) fn expect_read(text: &[u8], r: Reader, complete: bool) -> Option<String> {
    if complete {
        whole(text, r)
    } else {
        None
    }
}

#[derive(Clone, Debug)]
enum Item {
    Chunk(Vec<u8>),
    Wait,
    Fail,
}

struct Script(VecDeque<Item>);
impl hyper::body::HttpBody for Script {
    type Data = Bytes;
    type Error = std::io::Error;
    fn poll_data(mut self: Pin<&mut Self>, cx: &mut std::task::Context<'_>) -> Poll<Option<Result<Bytes, std::io::Error>>> {
        match self.0.pop_front() {
            None => Poll::Ready(None),
            Some(Item::Chunk(b)) => Poll::Ready(Some(Ok(b.into()))),
            Some(Item::Wait) => {
                cx.waker().wake_by_ref();
                Poll::Pending
            }
            Some(Item::Fail) => Poll::Ready(Some(Err(std::io::Error::new(std::io::ErrorKind::Other, "scripted")))),
        }
    }
    fn poll_trailers(self: Pin<&mut Self>, _: &mut std::task::Context<'_>) -> Poll<Result<Option<hyper::HeaderMap>, std::io::Error>> {
        Poll::Ready(Ok(None))
    }
}

/// hyper's Body from a scripted sequence, through its own channel, fed by a future polled alongside the reader.
fn run_items(items: &[Item], r: Reader) -> Option<String> {
    let (mut tx, body) = Body::channel();
    let items = items.to_vec();
    poll_all(async move {
        let feed = async move {
            for it in items {
                match it {
                    Item::Chunk(b) => {
                        if tx.send_data(b.into()).await.is_err() {
                            return;
                        }
                    }
                    Item::Wait => YieldOnce(false).await,
                    Item::Fail => {
                        tx.abort();
                        return;
                    }
                }
            }
            drop(tx);
        };
        let mut c = Context::new(Request::new(body), HashMap::new());
        let mut feed = Box::pin(feed);
        let mut rd = Box::pin(read(&mut c, r));
        let mut fed = false;
        std::future::poll_fn(move |cx| {
            if !fed {
                fed = feed.as_mut().poll(cx).is_ready();
            }
            rd.as_mut().poll(cx)
        })
        .await
    })
}

pub(super) const TEXTS: &[&[u8]] = &[
    b"12345678",
    b"{\"a\":1}  ",
    b"[1,[2]] ",
    b"\"\xc3\xa9\xe6\x97\xa5\"",
    b"{\"a\":[]}",
    b"a=1&b=2&b",
    b"a=%C3%A9&b",
    b"a=+x&b=y",
    b"null null",
    b"{} {}",
    b"a",
    b"",
];

pub(super) fn compose(text: &[u8], mask: u64) -> Vec<Vec<u8>> {
    let mut out = vec![];
    let mut cur = vec![];
    for (i, b) in text.iter().enumerate() {
        cur.push(*b);
        if mask >> i & 1 == 1 || i + 1 == text.len() {
            out.push(std::mem::take(&mut cur));
        }
    }
    out
}

fn judge(w: &mut W, text: &[u8], r: Reader, complete: bool, got: Option<String>, how: impl FnOnce() -> String) -> CaseResult {
    let e = expect_read(text, r, complete);
    w.st.evaluations += 1;
    w.outcome(&(r as u8, &e));
    if got != e {
        return Err(format!("{}: {:?} of body {:?}: expected {:?}, got {:?}", how(), r, String::from_utf8_lossy(&text[..text.len().min(200)]), e, got));
    }
    Ok(())
}

fn odd_contents(t: Tier) -> Vec<Vec<u8>> {
    let mut v: Vec<Vec<u8>> = (0..=255u8).map(|b| vec![b]).collect();
    let enc = [0x80u8, 0xbf, 0xc0, 0xc2, 0xc3, 0xe0, 0xed, 0xef, 0xf0, 0xf4, 0xff, b'a', b'"', b'\\', 0];
    for a in enc {
        for b in enc {
            v.push(vec![a, b]);
            for c in enc {
                if t == Tier::Thorough || a >= 0xe0 {
                    v.push(vec![a, b, c]);
                }
            }
        }
    }
    for c in 0x20u8..0x7f {
        v.push(vec![b'\\', c]);
        v.push(vec![b'%', c]);
        v.push(vec![c, c]);
    }
    for b in 0..=255u8 {
        v.push(format!("\\u00{:02x}", b).into_bytes());
        v.push(format!("%{:02X}", b).into_bytes());
    }
    for x in [
        "\\ud83d\\ude00", "\\ud83d", "\\ude00", "\\ude00\\ud83d", "\\ud83dx", "\\ud83d\\u0041", "\\uFEFF", "\\u2028", "\\uffff", "\\u12", "\\u+123", "\\x41", "\\0", "\u{feff}", "\u{2028}", "\u{10ffff}", "\u{fffd}", "\u{85}", "\u{a0}", "//x", "/*x*/", "#x", ",", ",,", "1,", ",1", "'a'", "NaN", "Infinity", "-Infinity",
        "nan", "0x10", "01", "-01", "+1", "1.", ".5", "1e5", "1E+5", "1e-5", "1e", "1e999", "-1e999", "1e-999", "-0", "-0.0", "-", "1_000", "18446744073709551615", "18446744073709551616", "-9223372036854775808", "-9223372036854775809", "9007199254740993", "0.1", "1.0", "100000000000000000000000", "123456789.123456789", "true", "false", "null", "True",
        "None", "undefined", "TRUE", "nul", "nulll", "[]", "{}", "[1]", "{\"a\":1,\"a\":2}", ",\"a\":2", ",\"b\":1", ":", "::", "\"\"", "\"", "\\\"", "\\\\", " ", "  ", "\t", "\n", "\r\n", "\u{c}", "\u{b}", "&", "&&", "=", "==", "+", "%", "%4", "%u0041", "%2", "%26", "%3D", "%2B", "%00", "%0", "&a=2", "&a=&a=3", ";a=2", "%C3", "%C3%28", "%ED%A0%80",
        ")]}',\n", "while(1);", "for(;;);", "<a>", "callback(1)", "1 2", "1\n2", "{}{}", "[][]", "null,", "\"a\" \"b\"",
    ] {
        v.push(x.as_bytes().to_vec());
    }
    // other encodings of a text
    for x in ["1", "\"a\"", "{\"a\":1}", "a=1"] {
        v.push(x.encode_utf16().flat_map(|u| u.to_le_bytes()).collect());
        v.push(x.encode_utf16().flat_map(|u| u.to_be_bytes()).collect());
        v.push([b"\xff\xfe".to_vec(), x.encode_utf16().flat_map(|u| u.to_le_bytes()).collect()].concat());
        v.push([b"\xef\xbb\xbf".to_vec(), x.as_bytes().to_vec()].concat());
        v.push(format!("\u{1e}{}\n", x).into_bytes());
    }
    v.extend(crate::dict::new_words().into_iter().map(|w| w.into_bytes()));
    v.sort();
    v.dedup();
    v
}

pub fn c12(t: Tier) -> Check {
    let mut s = vec![];
    let texts: Vec<Vec<u8>> = TEXTS
        .iter()
        .map(|x| x.to_vec())
        .chain(if t == Tier::Thorough {
            vec![b"{\"a\":\"\xe2\x82\xac\"}".to_vec(), b"a=1&a=2&b=3&b".to_vec(), b"[true,false]".to_vec()]
        } else {
            vec![]
        })
        .collect();
    {
        let texts = texts.clone();
        let nt = texts.len() as u64;
        s.push(section("every division, delay and failure point", nt * 512, move |i, w| {
            let text = &texts[(i % nt) as usize];
            let part = i / nt;
            let masks = 1u64 << text.len().saturating_sub(1);
            let mut mask = part;
            while mask < masks {
                let ch = compose(text, mask);
                w.state(&(text, &ch));
                for delay in 0..5 {
                    let mut items = vec![];
                    for (k, c) in ch.iter().enumerate() {
                        if delay == 1 || (delay == 2 && k % 2 == 0) || (delay == 3 && k % 2 == 1) {
                            items.push(Item::Wait);
                        }
                        items.push(Item::Chunk(c.clone()));
                        if delay == 4 {
                            // empty pieces between the others
                            items.push(Item::Chunk(vec![]));
                            items.push(Item::Wait);
                        }
                    }
                    if delay == 1 {
                        items.push(Item::Wait);
                    }
                    for cut in 0..=items.len() + 1 {
                        let mut it: Vec<Item> = items[..cut.min(items.len())].to_vec();
                        let complete = cut == items.len() + 1;
                        if !complete {
                            it.push(Item::Fail);
                        }
                        w.st.transitions += it.len() as u64;
                        for r in READERS {
                            w.st.traces += 1;
                            let got = run_items(&it, r);
                            judge(w, text, r, complete, got, || format!("body delivered as {:?}", it))?;
                        }
                    }
                }
                mask += 512;
            }
            Ok(())
        }));
    }
    // hyper Body wrapped around a foreign body type and around a stream-less whole value
    s.push(section("other body sources", TEXTS.len() as u64, |i, w| {
        let text = TEXTS[i as usize];
        for r in READERS {
            for (how, b) in [("Body::from(vec)", Body::from(text.to_vec())), ("Body::from(static)", Body::from(text))] {
                let mut c = Context::new(Request::new(b), HashMap::new());
                let got = poll_all(read(&mut c, r));
                judge(w, text, r, true, got, || how.to_string())?;
            }
            for mask in 0..1u64 << text.len().saturating_sub(1) {
                for fail in [false, true] {
                    let mut it: Vec<Item> = compose(text, mask).into_iter().flat_map(|c| [Item::Wait, Item::Chunk(c)]).collect();
                    if fail {
                        it.push(Item::Fail);
                    }
                    let st = std::sync::Mutex::new(Script(it.into_iter().collect()));
                    // through a channel fed item by item from the foreign body
                    let (mut tx, body) = Body::channel();
                    let mut c = Context::new(Request::new(body), HashMap::new());
                    let got = poll_all(async {
                        let mut feed = Box::pin(async move {
                            let mut st = st.into_inner().unwrap();
                            use hyper::body::HttpBody;
                            while let Some(x) = st.data().await {
                                match x {
                                    Ok(b) => {
                                        let _ = tx.send_data(b).await;
                                    }
                                    Err(_) => {
                                        tx.abort();
                                        return;
                                    }
                                }
                            }
                        });
                        let mut fed = false;
                        let mut rd = Box::pin(read(&mut c, r));
                        std::future::poll_fn(move |cx| {
                            if !fed {
                                fed = feed.as_mut().poll(cx).is_ready();
                            }
                            rd.as_mut().poll(cx)
                        })
                        .await
                    });
                    w.st.traces += 1;
                    judge(w, text, r, !fail, got, || format!("division {:b}", mask))?;
                }
            }
        }
        Ok(())
    }));
    // over the wire: chunked framing, every division, and every cut of the raw bytes
    let reader_app = || {
        let mut a: App = App::new();
        a.post("/r/:k", |mut c: Context| async move {
            let k: usize = c.param("k")?;
            let rid = rid_of(&c);
            let got = read(&mut c, READERS[k]).await;
            trace_push(rid, Ev::Note(format!("{:?}", got)));
            c.build(format!("{:?}", got)).ok()
        });
        a
    };
    s.push(section("chunked over HTTP, every division", (TEXTS.len() * READERS.len()) as u64, move |i, w| {
        let text = TEXTS[i as usize / READERS.len()];
        let k = i as usize % READERS.len();
        let masks = 1u64 << text.len().saturating_sub(1);
        let replies = w.wire.serve(reader_app, async |port| {
            let mut out = vec![];
            let mut c = wire::Conn::open(port).await;
            for mask in 0..masks {
                for pauses in [false, true] {
                    c.send(format!("POST /r/{} HTTP/1.1\r\nhost: x\r\ntransfer-encoding: chunked\r\n\r\n", k).as_bytes()).await;
                    for ch in compose(text, mask) {
                        let mut b = format!("{:x}\r\n", ch.len()).into_bytes();
                        b.extend_from_slice(&ch);
                        b.extend_from_slice(b"\r\n");
                        c.send(&b).await;
                        if pauses {
                            for _ in 0..3 {
                                tokio::task::yield_now().await;
                            }
                        }
                    }
                    c.send(b"0\r\n\r\n").await;
                    out.push(c.recv(false).await);
                }
            }
            out
        });
        w.st.traces += 1;
        let e = format!("{:?}", expect_read(text, READERS[k], true));
        for (j, r) in replies.iter().enumerate() {
            w.st.evaluations += 1;
            w.st.transitions += 1;
            w.state(&(text, k, j));
            if r.text() != e {
                return Err(format!("{:?} of body {:?} sent chunked, division {:b}: expected {}, got {}", READERS[k], String::from_utf8_lossy(text), j / 2, e, r.show()));
            }
        }
        Ok(())
    }));
    s.push(section("content-length over HTTP, every two-way split, and every cut", (TEXTS.len() * READERS.len() * 2) as u64, move |i, w| {
        let chunked = i % 2 == 1;
        let i = i as usize / 2;
        let text = TEXTS[i / READERS.len()];
        let k = i % READERS.len();
        let (head, body) = if chunked {
            let mut b = vec![];
            for c in text.chunks(3) {
                b.extend_from_slice(format!("{:x}\r\n", c.len()).as_bytes());
                b.extend_from_slice(c);
                b.extend_from_slice(b"\r\n");
            }
            b.extend_from_slice(b"0\r\n\r\n");
            (format!("POST /r/{} HTTP/1.1\r\nhost: x\r\nx-rid: @\r\ntransfer-encoding: chunked\r\n\r\n", k), b)
        } else {
            (format!("POST /r/{} HTTP/1.1\r\nhost: x\r\nx-rid: @\r\ncontent-length: {}\r\n\r\n", k, text.len()), text.to_vec())
        };
        let _ = trace_take();
        let n = body.len();
        let replies = w.wire.serve(reader_app, async |port| {
            let mut out = vec![];
            for cut in 0..=n {
                // whole body in two pieces
                let mut c = wire::Conn::open(port).await;
                let h = head.replace('@', &(1000 + cut).to_string());
                c.send(h.as_bytes()).await;
                tokio::task::yield_now().await;
                c.send(&body[..cut]).await;
                for _ in 0..3 {
                    tokio::task::yield_now().await;
                }
                c.send(&body[cut..]).await;
                out.push(c.recv(false).await);
                // cut off: the sending side is shut down (even cuts) or the connection is reset (odd)
                if cut < n {
                    let mut c = wire::Conn::open(port).await;
                    let h = head.replace('@', &(2000 + cut).to_string());
                    c.send(h.as_bytes()).await;
                    c.send(&body[..cut]).await;
                    for _ in 0..3 {
                        tokio::task::yield_now().await;
                    }
                    use tokio::io::AsyncWriteExt;
                    if cut % 2 == 0 {
                        let _ = c.s.shutdown().await;
                        let _ = c.recv(false).await;
                    }
                    drop(c);
                }
            }
            // a last request, so that everything before it has been noticed
            let mut c = wire::Conn::open(port).await;
            c.send(&wire::req("POST", "/r/4", &[("x-rid", "9")], Some(b"end"))).await;
            out.push(c.recv(false).await);
            out
        });
        let tr = trace_take();
        w.st.traces += 1;
        let e = format!("{:?}", expect_read(text, READERS[k], true));
        for (cut, r) in replies[..=n].iter().enumerate() {
            w.st.evaluations += 1;
            w.state(&(text, k, cut, chunked));
            if r.text() != e {
                return Err(format!("{:?} of body {:?} in two pieces at {}: expected {}, got {}", READERS[k], String::from_utf8_lossy(text), cut, e, r.show()));
            }
        }
        for (rid, ev) in &tr {
            if let (true, Ev::Note(x)) = (*rid >= 2000, ev) {
                w.st.transitions += 1;
                if x != "None" {
                    return Err(format!("{:?} of body {:?} cut off after {} bytes of its framing still yielded {}", READERS[k], String::from_utf8_lossy(text), rid - 2000, x));
                }
            }
        }
        Ok(())
    }));
    // sizes
    let sizes: Vec<usize> = crate::dict::sizes(t.pick(vec![1000, 8191, 8192, 8193, 16385, 65536, 400_000, 1_100_000], vec![1000, 4095, 4096, 8191, 8192, 8193, 16384, 16385, 32769, 65535, 65536, 65537, 400_000, 1_100_000, 2_097_153, 6_000_000]), 8 << 20);
    let steps: Vec<usize> = vec![7, 1000, 1024, 8192, 65_536, 65_537, usize::MAX];
    let (ns, np) = (sizes.len(), steps.len());
    s.push(section("large bodies", (ns * np * 3 * 3) as u64, move |i, w| {
        let (kind, i) = (i as usize % 3, i as usize / 3);
        let (via, i) = (i % 3, i / 3);
        let (n, step) = (sizes[i / np], steps[i % np]);
        if step == 7 && n > 70_000 {
            return Ok(());
        }
        let (text, rs): (Vec<u8>, [usize; 2]) = match kind {
            0 => {
                let mut v = b"{\"a\": \"".to_vec();
                v.extend((0..n).map(|k| b'a' + (k % 26) as u8));
                v.extend_from_slice(b"\"}");
                (v, [0, 1])
            }
            1 => {
                let mut v = b"a=".to_vec();
                v.extend((0..n).map(|k| b'a' + (k % 26) as u8));
                v.extend_from_slice(b"&b=end");
                (v, [2, 3])
            }
            _ => {
                let mut v = b"a=0".to_vec();
                let mut k = 0;
                while v.len() < n {
                    v.extend_from_slice(format!("&b={}", k).as_bytes());
                    k += 1;
                }
                (v, [3, 4])
            }
        };
        w.state(&(kind, via, n, step));
        for r in rs {
            w.st.traces += 1;
            let pieces: Vec<&[u8]> = text.chunks(step.min(text.len())).collect();
            match via {
                0 => {
                    let it: Vec<Item> = pieces.iter().enumerate().flat_map(|(k, c)| if k % 3 == 0 { vec![Item::Wait, Item::Chunk(c.to_vec())] } else { vec![Item::Chunk(c.to_vec())] }).collect();
                    let got = run_items(&it, READERS[r]);
                    judge(w, &text, READERS[r], true, got, || format!("{} pieces of {}", pieces.len(), step))?;
                    let mut cut = it.clone();
                    cut.push(Item::Fail);
                    let got = run_items(&cut, READERS[r]);
                    judge(w, &text, READERS[r], false, got, || format!("{} pieces of {}, then failure", pieces.len(), step))?;
                }
                _ => {
                    let chunked = via == 1;
                    let rep = w.wire.serve(reader_app, async |port| {
                        let c = wire::Conn::open(port).await;
                        let mut v = if chunked { format!("POST /r/{} HTTP/1.1\r\nhost: x\r\ntransfer-encoding: chunked\r\n\r\n", r).into_bytes() } else { format!("POST /r/{} HTTP/1.1\r\nhost: x\r\ncontent-length: {}\r\n\r\n", r, text.len()).into_bytes() };
                        let mut c = c;
                        for p in &pieces {
                            if chunked {
                                v.extend_from_slice(format!("{:x}\r\n", p.len()).as_bytes());
                            }
                            v.extend_from_slice(p);
                            if chunked {
                                v.extend_from_slice(b"\r\n");
                            }
                            if v.len() > 4000 {
                                c.send(&v).await;
                                v.clear();
                                tokio::task::yield_now().await;
                            }
                        }
                        if chunked {
                            v.extend_from_slice(b"0\r\n\r\n");
                        }
                        c.send(&v).await;
                        c.recv(false).await
                    });
                    let e = format!("{:?}", expect_read(&text, READERS[r], true));
                    w.st.evaluations += 1;
                    if rep.text() != e {
                        return Err(format!("{:?} of a body of {} bytes, pieces of {}, {}: expected {}, got {}", READERS[r], text.len(), step, if chunked { "chunked" } else { "content-length" }, e, rep.show()));
                    }
                }
            }
        }
        Ok(())
    }));
    // what else a request carries does not matter to its body
    let ns = surround::noise_groups();
    let nn = ns.len() as u64 + 1;
    let any = || {
        let mut a: App = App::new();
        macro_rules! h {
            () => {
                |mut c: Context| async move {
                    let k: usize = c.param("k")?;
                    let got = read(&mut c, READERS[k]).await;
                    c.build(format!("{:?}", got)).ok()
                }
            };
        }
        a.get("/r/:k", h!());
        a.post("/r/:k", h!());
        a.put("/r/:k", h!());
        a.patch("/r/:k", h!());
        a.delete("/r/:k", h!());
        a
    };
    s.push(section("what surrounds a body", nn * 3, move |i, w| {
        let (ni, way) = (i / 3, i % 3);
        let texts: Vec<&[u8]> = TEXTS.iter().cloned().chain([&b"\xff\xfe{}"[..], b"\xef\xbb\xbf{\"a\":1}", b"a=1;b=2", b"--x\r\n", b"\x1f\x8b\x08\x00", b"a=\xe9", b" [1] \r\n", b"%7B%7D", b"{\"a\":1,\"a\":2}", b"\"\\ud83d\\ude00\"", b"a=%F0%9F%98%80"]).collect();
        let mut reqs = vec![];
        let mut wants = vec![];
        for text in &texts {
            for k in 0..READERS.len() {
                for m in METHODS.iter().take(5) {
                    let mut hs: Vec<(&str, &str)> = vec![];
                    if ni > 0 {
                        hs.extend(ns[ni as usize - 1].iter().map(|(k, v)| (&k[..], &v[..])));
                    }
                    let r = match way {
                        0 => wire::req(m, &format!("/r/{}", k), &hs, Some(text)),
                        1 => wire::req(m, &format!("/r/{}?a=9&b=8", k), &hs, Some(text)),
                        _ => {
                            hs.push(("transfer-encoding", "chunked"));
                            let mut r = wire::req(m, &format!("/r/{}", k), &hs, None);
                            if !text.is_empty() {
                                r.extend_from_slice(format!("{:x}\r\n", text.len()).as_bytes());
                                r.extend_from_slice(text);
                                r.extend_from_slice(b"\r\n");
                            }
                            r.extend_from_slice(b"0\r\n\r\n");
                            r
                        }
                    };
                    reqs.push((r, false));
                    wants.push((text.to_vec(), READERS[k], *m));
                }
            }
        }
        let rs = w.wire.serve(any, async |p| wire::batch(p, &reqs).await);
        w.st.traces += 1;
        w.st.transitions += reqs.len() as u64;
        w.state(&(1, i));
        for ((text, rd, m), r) in wants.iter().zip(&rs) {
            let e = format!("{:?}", expect_read(text, *rd, true));
            w.st.evaluations += 1;
            w.outcome(&e);
            if r.status() != 200 || r.text() != e {
                return Err(format!("{:?} of body {:?} sent with {} {} header {:?}: expected {}, got {}", rd, String::from_utf8_lossy(text), m, ["content-length", "a query", "chunked"][way as usize], if ni > 0 { Some(&ns[ni as usize - 1]) } else { None }, e, r.show()));
            }
        }
        Ok(())
    }));
    // bodies around every likely limit, whole, by content-length and chunked; nesting, lengths of lists and of keys
    let limits: Vec<usize> = crate::dict::sizes(
        t.pick(
        vec![127, 128, 129, 255, 256, 257, 511, 512, 513, 1023, 1024, 1025, 2048, 2049, 4095, 4096, 4097, 10_000, 10_001, 16_384, 16_385, 32_768, 32_769, 65_535, 65_537, 100_001, 131_073, 262_145, 524_289, 1_000_001, 1_048_577, 2_000_001, 2_097_153, 4_194_305, 8_388_609, 10_485_761, 16_777_217],
        vec![127, 128, 129, 255, 256, 257, 511, 512, 513, 1023, 1024, 1025, 2048, 2049, 4095, 4096, 4097, 10_000, 10_001, 16_384, 16_385, 32_768, 32_769, 65_535, 65_537, 100_001, 131_073, 262_145, 524_289, 1_000_001, 1_048_577, 2_000_001, 2_097_153, 4_194_305, 8_388_609, 10_485_761, 16_777_217, 33_554_433, 67_108_865],
        ),
        32 << 20,
    );
    let nl = limits.len() as u64;
    s.push(section("bodies around every likely limit", nl * 6, move |i, w| {
        let (n, kind) = (limits[(i / 6) as usize], i % 6);
        let (text, r): (Vec<u8>, usize) = match kind {
            0 => (format!("{{\"a\":\"{}\"}}", "x".repeat(n.saturating_sub(8))).into_bytes(), 1),
            1 => { let mut v = b"a=".to_vec(); v.resize(n, b'y'); (v, 3) }
            2 => { let mut v = b"[1".to_vec(); while v.len() + 2 < n { v.extend_from_slice(b",2"); } v.push(b']'); (v, 0) }
            3 => { let mut v = b"a=1".to_vec(); let mut k = 0; while v.len() < n.min(2_000_001) { v.extend_from_slice(format!("&n{}={}", k, k).as_bytes()); k += 1; } (v, 2) }
            4 => ((0..n).map(|k| (k * 7 % 251) as u8).collect(), 4),
            _ => { let mut v = b" ".repeat(n.saturating_sub(7)); v.extend_from_slice(b"{\"a\":1}"); (v, 1) }
        };
        w.state(&(2, i));
        let e = expect_read(&text, READERS[r], true);
        for way in 0..3 {
            w.st.traces += 1;
            w.st.evaluations += 1;
            let got = if way == 0 {
                let mut c = Context::new(Request::new(Body::from(text.clone())), HashMap::new());
                format!("{:?}", poll_all(read(&mut c, READERS[r])))
            } else {
                let mut hs = vec![];
                let mut b = vec![];
                if way == 1 {
                    b = text.clone();
                } else {
                    hs.push(("transfer-encoding", "chunked"));
                    for c in text.chunks(50_000) {
                        b.extend_from_slice(format!("{:x}\r\n", c.len()).as_bytes());
                        b.extend_from_slice(c);
                        b.extend_from_slice(b"\r\n");
                    }
                    b.extend_from_slice(b"0\r\n\r\n");
                }
                let len = b.len().to_string();
                if way == 1 {
                    hs.push(("content-length", &len));
                }
                let head = wire::req("POST", &format!("/r/{}", r), &hs, None);
                let rep = w.wire.serve(reader_app, async |p| {
                    let mut c = wire::Conn::open(p).await;
                    c.send(&head).await;
                    c.send(&b).await;
                    c.recv(false).await
                });
                if rep.status() != 200 { rep.show() } else { rep.text() }
            };
            if got != format!("{:?}", e) {
                return Err(format!("{:?} of a body of {} bytes (kind {}) {}: expected {:?}, got {}", READERS[r], text.len(), kind, ["as one value", "by content-length", "chunked"][way], e, got));
            }
        }
        Ok(())
    }));
    // what a decoder may take for something else: every byte, every short sequence of encoding bytes, every escape, odd JSON
    let bits = std::sync::Arc::new(odd_contents(t));
    let nb = bits.len() as u64;
    s.push(section("every content, whole and in two pieces", (nb + 39) / 40, move |i, w| {
        for x in &bits[(i * 40) as usize..((i + 1) * 40).min(nb) as usize] {
            for (pre, post) in [("", ""), ("\"", "\""), ("[\"a", "b\"]"), ("{\"a\":", "}"), ("{\"", "\":1}"), ("{\"a\":1", "}"), ("[1", "]"), ("", "{\"a\":1}"), ("{\"a\":[1]}", ""), ("a=", ""), ("a=1", "&b=2"), ("", "=1"), ("a=1&b=", "x")] {
                let text: Vec<u8> = [pre.as_bytes(), x, post.as_bytes()].concat();
                w.state(&text);
                for r in READERS {
                    let mut c = Context::new(Request::new(Body::from(text.clone())), HashMap::new());
                    let got = poll_all(read(&mut c, r));
                    w.st.traces += 1;
                    judge(w, &text, r, true, got, || "as one value".into())?;
                    for at in [pre.len(), pre.len() + x.len() / 2, pre.len() + x.len()] {
                        if at == 0 || at >= text.len() {
                            continue;
                        }
                        let it = [Item::Chunk(text[..at].to_vec()), Item::Wait, Item::Chunk(text[at..].to_vec())];
                        w.st.traces += 1;
                        w.st.transitions += 3;
                        let got = run_items(&it, r);
                        judge(w, &text, r, true, got, || format!("cut after {} bytes", at))?;
                    }
                }
            }
        }
        Ok(())
    }));
    s.push(section("nested JSON", t.pick(127, 127), |i, w| {
        // serde_json itself stops at 128 levels
        let d = i as usize + 1;
        for text in [format!("{}1{}", "[".repeat(d), "]".repeat(d)), format!("{}1{}", "{\"a\":".repeat(d), "}".repeat(d)), format!("{{\"a\":{}{}}}", "[".repeat(d), "]".repeat(d))] {
            for r in [0usize, 1] {
                let e = expect_read(text.as_bytes(), READERS[r], true);
                let mut c = Context::new(Request::new(Body::from(text.clone())), HashMap::new());
                let got = poll_all(read(&mut c, READERS[r]));
                w.st.traces += 1;
                w.st.evaluations += 1;
                w.state(&(3, i));
                if got != e {
                    return Err(format!("{:?} of {} levels: expected {:?}, got {:?}", READERS[r], d, e, got));
                }
            }
        }
        Ok(())
    }));
    Check {
        id: "C12",
        level: "model_checking",
        rule: "every division of each body into pieces, with delays, empty pieces and failures at every point: the read equals decoding the complete body, or is an error when the body did not complete".into(),
        assumptions: vec![],
        sections: s,
    }
}
