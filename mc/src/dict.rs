//! Constants of the code under test, as further inputs: every short text and every number that occurs literally in its sources
//! (tests left out). They only widen what is enumerated; no verdict depends on how the sources are written.
use std::collections::BTreeSet;
use std::path::{Path, PathBuf};
use std::sync::OnceLock;

fn repo() -> Option<PathBuf> {
    let v = std::env::var("MC_VERIF").ok()?;
    let dir = Path::new(&v).join("mc");
    let t = std::fs::read_to_string(dir.join("Cargo.toml")).ok()?;
    let l = t.lines().find(|l| l.trim_start().starts_with("obsidian"))?;
    let p = l.split("path").nth(1)?.split('"').nth(1)?;
    Some(dir.join(p))
}

fn files(d: &Path, out: &mut Vec<PathBuf>) {
    let mut es: Vec<PathBuf> = std::fs::read_dir(d).map(|r| r.flatten().map(|e| e.path()).collect()).unwrap_or_default();
    es.sort();
    for p in es {
        if p.is_dir() {
            files(&p, out);
        } else if p.extension().map_or(false, |x| x == "rs") {
            out.push(p);
        }
    }
}

/// texts and numbers of one source text
fn scan(src: &str, words: &mut Vec<String>, nums: &mut BTreeSet<u128>) {
    let c: Vec<char> = src.chars().collect();
    let n = c.len();
    let mut i = 0;
    let mut last: Option<(u128, usize)> = None;
    while i < n {
        let prev_word = i > 0 && (c[i - 1].is_alphanumeric() || c[i - 1] == '_');
        if c[i] == '/' && i + 1 < n && c[i + 1] == '/' {
            while i < n && c[i] != '\n' {
                i += 1;
            }
        } else if c[i] == '/' && i + 1 < n && c[i + 1] == '*' {
            i += 2;
            while i + 1 < n && !(c[i] == '*' && c[i + 1] == '/') {
                i += 1;
            }
            i += 2;
        } else if c[i] == 'r' && !prev_word && i + 1 < n && (c[i + 1] == '"' || c[i + 1] == '#') {
            let mut h = 0;
            let mut j = i + 1;
            while j < n && c[j] == '#' {
                h += 1;
                j += 1;
            }
            if j < n && c[j] == '"' {
                j += 1;
                let s = j;
                while j < n && !(c[j] == '"' && (1..=h).all(|k| j + k < n && c[j + k] == '#')) {
                    j += 1;
                }
                words.push(c[s..j.min(n)].iter().collect());
                i = j + 1 + h;
            } else {
                i += 1;
            }
        } else if c[i] == '"' {
            let mut s = String::new();
            i += 1;
            while i < n && c[i] != '"' {
                if c[i] == '\\' && i + 1 < n {
                    i += 1;
                    match c[i] {
                        'n' => s.push('\n'),
                        't' => s.push('\t'),
                        'r' => s.push('\r'),
                        '0' => s.push('\0'),
                        'x' if i + 2 < n => {
                            let h: String = c[i + 1..i + 3].iter().collect();
                            if let Ok(b) = u8::from_str_radix(&h, 16) {
                                s.push(b as char);
                            }
                            i += 2;
                        }
                        'u' => {
                            let mut h = String::new();
                            while i < n && c[i] != '}' {
                                i += 1;
                                if i < n && c[i].is_ascii_hexdigit() {
                                    h.push(c[i]);
                                }
                            }
                            s.extend(u32::from_str_radix(&h, 16).ok().and_then(char::from_u32));
                        }
                        '\n' => {}
                        x => s.push(x),
                    }
                } else {
                    s.push(c[i]);
                }
                i += 1;
            }
            i += 1;
            words.push(s);
        } else if c[i] == '\'' && i + 2 < n && (c[i + 2] == '\'' && c[i + 1] != '\\') {
            words.push(c[i + 1].to_string());
            i += 3;
        } else if c[i].is_ascii_digit() && !prev_word {
            let s = i;
            while i < n && (c[i].is_alphanumeric() || c[i] == '_') {
                i += 1;
            }
            let t: String = c[s..i].iter().filter(|x| **x != '_').collect();
            let t = t.split(|x: char| "iu".contains(x)).next().unwrap_or("").to_string();
            let v = if let Some(h) = t.strip_prefix("0x") { u128::from_str_radix(h, 16).ok() } else if let Some(b) = t.strip_prefix("0b") { u128::from_str_radix(b, 2).ok() } else { t.parse().ok() };
            if let Some(v) = v {
                nums.insert(v);
                if let Some((a, e)) = last {
                    let between: String = c[e..s].iter().filter(|x| !x.is_whitespace() && !"()".contains(**x)).collect();
                    match between.as_str() {
                        "*" => {
                            let p = a.saturating_mul(v);
                            nums.insert(p);
                            last = Some((p, i));
                            continue;
                        }
                        "<<" if v < 64 => {
                            nums.insert(a << v.min(40));
                        }
                        _ => {}
                    }
                }
                last = Some((v, i));
            }
        } else {
            i += 1;
        }
    }
}

static ALL: OnceLock<(Vec<String>, Vec<usize>)> = OnceLock::new();

fn all() -> &'static (Vec<String>, Vec<usize>) {
    ALL.get_or_init(|| {
        let mut fs = vec![];
        if let Some(r) = repo() {
            files(&r.join("src"), &mut fs);
        }
        let (mut raw, mut nums) = (vec![], BTreeSet::new());
        for f in fs {
            if let Ok(t) = std::fs::read_to_string(&f) {
                scan(t.split("#[cfg(test)]\nmod ").next().unwrap_or(""), &mut raw, &mut nums);
            }
        }
        let mut words: Vec<String> = vec![];
        for r in &raw {
            if r.chars().count() <= 40 && !r.contains('\n') {
                words.push(r.clone());
            }
            words.extend(r.split(|c: char| !(c.is_alphanumeric() || "-_.%~".contains(c))).filter(|x| x.chars().count() <= 24 && x.chars().any(|c| c.is_alphanumeric())).map(|x| x.to_string()));
        }
        let mut seen = BTreeSet::new();
        words.retain(|w| !w.is_empty() && !w.contains("{}") && !w.contains("{:") && seen.insert(w.clone()));
        // the logo
        words.retain(|w| !(w.chars().all(|c| "od8YbP`'.\"oO ".contains(c))));
        (words, nums.into_iter().filter(|n| *n >= 3 && *n <= 64 << 20).map(|n| n as usize).collect())
    })
}

const KNOWN: &str = include_str!("../known_constants.txt");

/// short texts of the sources
pub fn words() -> Vec<String> {
    all().0.iter().take(260).cloned().collect()
}

/// the ones the sources did not have when this list was made: these are tried in more combinations
pub fn new_words() -> Vec<String> {
    let known: BTreeSet<&str> = KNOWN.lines().collect();
    all().0.iter().filter(|w| !known.contains(&w[..])).take(48).cloned().collect()
}

pub fn dump() {
    for w in &all().0 {
        println!("{}", w);
    }
    for n in &all().1 {
        println!("#{}", n);
    }
}

pub fn segments() -> Vec<String> {
    words().into_iter().filter(|w| !w.contains('/') && !w.contains('*') && !w.contains(' ')).collect()
}

pub fn new_segments() -> Vec<String> {
    new_words().into_iter().filter(|w| !w.contains('/') && !w.contains('*')).collect()
}

fn new_numbers() -> Vec<usize> {
    let known: BTreeSet<String> = KNOWN.lines().map(|x| x.to_string()).collect();
    all().1.iter().cloned().filter(|n| !known.contains(&format!("#{}", n))).collect()
}

/// a list of sizes, and the new numbers of the sources up to a bound with their neighbours
pub fn sizes(mut base: Vec<usize>, max: usize) -> Vec<usize> {
    let mut seen: BTreeSet<usize> = base.iter().cloned().collect();
    for e in new_numbers().into_iter().filter(|n| *n < max).take(16).flat_map(|n| [n - 1, n, n + 1]).filter(|n| *n > 1) {
        if seen.insert(e) {
            base.push(e);
        }
    }
    base.sort();
    base
}

/// headers made of the new texts and the usual names: every name with every value, in groups the HTTP layer takes
pub fn headers(usual: &[&str]) -> Vec<Vec<(String, String)>> {
    let nw = new_words();
    let off = ["content-length", "transfer-encoding", "connection", "host", "expect", "upgrade"];
    let mut names: Vec<String> = nw.iter().map(|w| w.to_lowercase()).filter(|w| w.chars().all(|c| c.is_ascii_alphanumeric() || "-_.~%!#$&'*+^`|".contains(c)) && !off.contains(&&w[..])).collect();
    names.dedup();
    // the HTTP layer takes the spaces around a value off
    let mut vals: Vec<String> = nw.iter().map(|w| w.trim().to_string()).filter(|w| !w.is_empty() && w.chars().all(|c| (' '..='~').contains(&c))).collect();
    vals.sort();
    vals.dedup();
    let mut out = vec![];
    let usual: Vec<String> = usual.iter().map(|x| x.to_string()).filter(|x| !names.contains(x) && !off.contains(&&x[..])).collect();
    for v in &vals {
        for g in names.iter().chain(&usual).cloned().collect::<Vec<_>>().chunks(60) {
            out.push(g.iter().map(|n| (n.clone(), v.clone())).collect());
        }
    }
    vals.extend(["1", "true", "0", "", "a", "/a", "GET"].map(|x| x.to_string()));
    for v in &vals {
        for g in names.chunks(60) {
            out.push(g.iter().map(|n| (n.clone(), v.clone())).collect());
        }
    }
    for n in &names {
        for v in ["1", "true", "0", "", "a", "x y", "/a"] {
            out.push(vec![(n.clone(), v.to_string())]);
        }
    }
    out
}

/// query strings made of the new texts
pub fn queries() -> Vec<String> {
    let nw: Vec<String> = new_words().into_iter().filter(|w| w.chars().all(|c| ('!'..='~').contains(&c) && !"\"<>#&?".contains(c))).collect();
    let mut out = vec![];
    for a in &nw {
        out.push(a.clone());
        for v in ["", "1", "true", "a"] {
            out.push(format!("{}={}", a, v));
        }
        for b in &nw {
            out.push(format!("{}={}", a, b));
        }
    }
    out.truncate(600);
    out
}
