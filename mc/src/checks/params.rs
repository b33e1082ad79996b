//! C03: typed access to path parameters.
use crate::common::*;
use crate::sut::wire_ok;
use hyper::{Body, Request};
use obsidian::context::Context;
use obsidian::{App, ObsidianError};
use std::collections::HashMap;
use std::fmt::Debug;
use std::str::FromStr;

const TEXTS: &[&str] = &[
    "0", "1", "-1", "+1", "00", "007", "-0", "127", "128", "-128", "-129", "255", "256", "-255", "32767", "32768", "-32768", "-32769", "65535", "65536", "2147483647",
    "2147483648", "-2147483648", "-2147483649", "4294967295", "4294967296", "9223372036854775807", "9223372036854775808", "-9223372036854775808", "18446744073709551615",
    "18446744073709551616", "99999999999999999999999999", "1.5", "-1.5", "1e3", "1.", ".5", ".", "1e400", "inf", "-inf", "NaN", "nan", "true", "false", "True", "TRUE", "1.0", "a", "ab",
    "é", "日本", "%20", "%41", " ", " 1", "1 ", "1_000", "1,5", "0x10", "-", "+", "--1", "1-", "a-b", "v:1", "~", "null", "None", "", "\u{0}", "10:20",
];

#[derive(Debug, PartialEq, Clone)]
struct Pair(i32, i32);
impl FromStr for Pair {
    type Err = String;
    fn from_str(s: &str) -> Result<Pair, String> {
        let (a, b) = s.split_once(':').ok_or("no colon")?;
        Ok(Pair(a.parse().map_err(|_| "a")?, b.parse().map_err(|_| "b")?))
    }
}

pub const KINDS: usize = 15;

fn show<T: FromStr + Debug>(c: &Context, name: &str) -> String {
    match c.param::<T>(name) {
        Ok(v) => format!("ok {:?}", v),
        Err(ObsidianError::ParamError(_)) => "param error".into(),
        Err(_) => "other error".into(),
    }
}
fn want<T: FromStr + Debug>(text: Option<&str>) -> String {
    match text {
        None => "absent".into(),
        Some(t) => match t.parse::<T>() {
            Ok(v) => format!("ok {:?}", v),
            Err(_) => "param error".into(),
        },
    }
}

macro_rules! by_kind {
    ($k:expr, $f:ident, $($a:expr),*) => {
        match $k {
            0 => $f::<i8>($($a),*), 1 => $f::<i16>($($a),*), 2 => $f::<i32>($($a),*), 3 => $f::<i64>($($a),*),
            4 => $f::<u8>($($a),*), 5 => $f::<u16>($($a),*), 6 => $f::<u32>($($a),*), 7 => $f::<u64>($($a),*),
            8 => $f::<f32>($($a),*), 9 => $f::<f64>($($a),*), 10 => $f::<bool>($($a),*), 11 => $f::<char>($($a),*),
            12 => $f::<String>($($a),*), 13 => $f::<Pair>($($a),*), _ => $f::<i128>($($a),*),
        }
    };
}

fn read(c: &Context, k: usize, name: &str) -> String {
    by_kind!(k, show, c, name)
}
fn expect(k: usize, t: Option<&str>) -> String {
    by_kind!(k, want, t)
}

fn agree(got: &str, want: &str) -> bool {
    if want == "absent" {
        got == "param error" || got == "other error"
    } else {
        got == want
    }
}

pub fn typed(_t: Tier) -> Vec<Section> {
    let mut v = vec![];
    v.push(section("typed access, in-process", (KINDS * TEXTS.len()) as u64, |i, w| {
        let (k, x) = (i as usize / TEXTS.len(), TEXTS[i as usize % TEXTS.len()]);
        for extra in 0..3 {
            let mut m = HashMap::new();
            m.insert("id".to_string(), x.to_string());
            for e in 0..extra {
                m.insert(format!("id{}", e), "77".to_string());
            }
            let c = Context::new(Request::new(Body::empty()), m);
            for (name, val) in [("id", Some(x)), ("nope", None), ("", None), ("ID", None), (":id", None), ("i", None), ("id0", if extra > 0 { Some("77") } else { None })] {
                // twice: reading must not consume
                for _ in 0..2 {
                    let got = read(&c, k, name);
                    let want = expect(k, val);
                    w.st.evaluations += 1;
                    w.outcome(&(k, &got));
                    if !agree(&got, &want) {
                        return Err(format!("param::<kind {}>({:?}) on text {:?}: expected {}, got {}", k, name, val, want, got));
                    }
                }
            }
        }
        w.state(&i);
        w.st.traces += 1;
        Ok(())
    }));
    v.push(section("typed access over the wire", KINDS as u64, |k, w| {
        let texts: Vec<&str> = TEXTS.iter().cloned().filter(|t| !t.is_empty() && wire_ok(&format!("/{}", t))).collect();
        let mk = move || {
            let mut a: App = App::new();
            a.get("/t/:id/:other", move |c: Context| async move {
                let s = format!("{}|{}|{}", read(&c, k as usize, "id"), read(&c, k as usize, "other"), read(&c, k as usize, "none"));
                c.build(s).ok()
            });
            a
        };
        let mut raw = vec![];
        let mut want = vec![];
        for a in &texts {
            for b in &texts {
                raw.push((crate::wire::req("GET", &format!("/t/{}/{}", a, b), &[], None), false));
                want.push((a.to_string(), b.to_string()));
            }
        }
        let rs = w.wire.serve(mk, async |p| crate::wire::batch(p, &raw).await);
        for (r, (a, b)) in rs.iter().zip(&want) {
            w.st.evaluations += 1;
            let t = r.text();
            let g: Vec<&str> = t.split('|').collect();
            let ok = r.status() == 200 && g.len() == 3 && agree(g[0], &expect(k as usize, Some(a))) && agree(g[1], &expect(k as usize, Some(b))) && agree(g[2], "absent");
            if !ok {
                return Err(format!("GET /t/{}/{} kind {}: expected {} and {}, got {}", a, b, k, expect(k as usize, Some(a)), expect(k as usize, Some(b)), r.show()));
            }
        }
        w.st.traces += 1;
        w.state(&("wire", k));
        Ok(())
    }));
    v
}
