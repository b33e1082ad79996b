//! Registration programs parameterised by a size, and the requests asked of them.
use crate::model::segs;
use crate::sut::*;
use std::collections::BTreeSet;

#[derive(Clone, Debug)]
pub struct Program {
    pub ops: Vec<Op>,
    pub reqs: Vec<(u8, String)>,
}

fn join(s: &[String]) -> String {
    format!("/{}", s.join("/"))
}

pub fn paths_of(ops: &[Op]) -> Vec<String> {
    let mut v = vec![];
    for o in ops {
        match o {
            Op::Route { p, .. } | Op::MwAt { p, .. } => v.push(p.clone()),
            Op::Mw { .. } => v.push("/".into()),
            Op::Mount { p, ops } => {
                v.push(p.clone());
                v.extend(paths_of(ops).into_iter().map(|q| format!("{}/{}", p, q)));
            }
            Op::Scope { name, ops } => {
                v.push(format!("/{}", name));
                v.extend(paths_of(ops).into_iter().map(|q| format!("/{}/{}", name, q)));
            }
        }
    }
    v
}

/// Concrete paths for a pattern.
pub fn instances(p: &str, vals: &[&str], tails: &[&str]) -> Vec<String> {
    let mut acc: Vec<Vec<String>> = vec![vec![]];
    for s in segs(p) {
        let opts: Vec<String> = if s.starts_with(':') {
            vals.iter().map(|x| x.to_string()).collect()
        } else if s == "*" {
            tails.iter().map(|x| x.to_string()).collect()
        } else {
            vec![s.to_string()]
        };
        acc = acc.iter().flat_map(|a| opts.iter().map(move |o| { let mut b = a.clone(); b.push(o.clone()); b })).collect();
    }
    acc.iter().map(|a| join(a)).collect()
}

/// Near misses of a path: segments merged, split, cut, extended, dropped, repeated.
pub fn near(p: &str) -> Vec<String> {
    let s: Vec<String> = segs(p).iter().map(|x| x.to_string()).collect();
    let n = s.len();
    let mut v = vec![];
    for i in 0..n {
        if i + 1 < n {
            let mut t = s.clone();
            let nx = t.remove(i + 1);
            t[i].push_str(&nx);
            v.push(join(&t));
        }
        let chars: Vec<char> = s[i].chars().collect();
        for c in 1..chars.len().min(6) {
            let mut t = s.clone();
            t[i] = chars[..c].iter().collect();
            t.insert(i + 1, chars[c..].iter().collect());
            v.push(join(&t));
            let mut t = s.clone();
            t[i] = chars[..c].iter().collect();
            v.push(join(&t));
        }
        let mut t = s.clone();
        t[i].push('q');
        v.push(join(&t));
        let mut t = s.clone();
        t.remove(i);
        v.push(join(&t));
        let mut t = s.clone();
        t.insert(i, s[i].clone());
        v.push(join(&t));
    }
    let mut t = s.clone();
    t.push("q".into());
    v.push(join(&t));
    v
}

pub fn requests_for(paths: &[String], with_near: bool) -> Vec<String> {
    let mut set = BTreeSet::new();
    set.insert("/".to_string());
    for p in paths {
        for i in instances(p, &["zz", "a", "b"], &["w", "a/b", "w/v/u"]) {
            if with_near {
                for q in near(&i) {
                    set.insert(q);
                }
            }
            set.insert(i);
        }
        // the pattern text itself, literally requested
        set.insert(format!("/{}", segs(p).join("/")));
    }
    set.into_iter().collect()
}

pub fn gets(v: Vec<String>) -> Vec<(u8, String)> {
    v.into_iter().map(|p| (0u8, p)).collect()
}

fn program(ops: Vec<Op>) -> Program {
    let reqs = gets(requests_for(&paths_of(&ops), true));
    Program { ops, reqs }
}

fn program_exact(ops: Vec<Op>) -> Program {
    let reqs = gets(requests_for(&paths_of(&ops), false));
    Program { ops, reqs }
}

/// Size ladders: every size up to the bound, several shapes and insertion orders.
pub fn ladders(max: usize) -> Vec<(String, Program)> {
    let mut v: Vec<(String, Program)> = vec![];
    let mut add = |n: String, p: Program| v.push((n, p));
    for d in 1..=max {
        // one deep literal path, with a branch leaving at every depth
        let segs_: Vec<String> = (0..d).map(|i| format!("s{}", i)).collect();
        let mut ops = vec![get(&join(&segs_), 1)];
        for k in 0..d.min(6) {
            let mut t = segs_[..=k].to_vec();
            t[k] = format!("s{}x", k);
            ops.push(get(&join(&t), 100 + k as u32));
        }
        add(format!("deep literal {}", d), program(ops.clone()));
        ops.reverse();
        add(format!("deep literal reversed {}", d), program(ops));
        // parameters all the way, and alternating
        let ps: Vec<String> = (0..d).map(|i| format!(":p{}", i)).collect();
        add(format!("deep params {}", d), prog_params(vec![get(&join(&ps), 1)], d));
        let alt: Vec<String> = (0..d).map(|i| if i % 2 == 0 { format!("l{}", i) } else { format!(":p{}", i) }).collect();
        add(format!("alternating params {}", d), prog_params(vec![get(&join(&alt), 1)], d));
        let alt2: Vec<String> = (0..d).map(|i| if i % 2 == 1 { format!("l{}", i) } else { format!(":p{}", i) }).collect();
        add(format!("alternating params2 {}", d), prog_params(vec![get(&join(&alt2), 1)], d));
        // handlers and middleware at every level of one path
        let mut ops = vec![Op::Mw { id: 1000 }];
        for k in 0..d {
            ops.push(get(&join(&segs_[..=k]), k as u32));
            ops.push(mw_at(&join(&segs_[..=k]), 1001 + k as u32));
        }
        add(format!("handlers+mw each level {}", d), program_exact(ops.clone()));
        ops.reverse();
        add(format!("handlers+mw each level reversed {}", d), program_exact(ops));
        let mut ops = vec![];
        for k in 0..d {
            ops.push(mw_at(&join(&ps[..=k]), 1001 + k as u32));
        }
        ops.push(get(&join(&ps), 1));
        add(format!("mw each param level {}", d), prog_params(ops, d));
        // wildcard at every level of a literal path: the deepest applicable one must win
        let mut ops = vec![];
        for k in 0..d {
            let mut t = segs_[..k].to_vec();
            t.push("*".into());
            ops.push(get(&join(&t), k as u32));
            ops.push(mw_at(&join(&t), 1001 + k as u32));
        }
        ops.push(get(&join(&segs_), 900));
        add(format!("wildcard each level {}", d), program(ops.clone()));
        ops.reverse();
        add(format!("wildcard each level reversed {}", d), program(ops));
        // many siblings
        let ops: Vec<Op> = (0..d).map(|i| get(&format!("/k{}", i), i as u32)).collect();
        add(format!("siblings {}", d), program(ops));
        let mut ops: Vec<Op> = (0..d).map(|i| get(&format!("/r/{}{}", (b'a' + (i % 26) as u8) as char, "z".repeat(i / 26)), i as u32)).collect();
        ops.push(mw_at("/r", 7));
        add(format!("siblings under r {}", d), program_exact(ops));
        // prefix chains
        let chain = |i: usize| format!("/{}", "a".repeat(i + 1));
        let up: Vec<Op> = (0..d).map(|i| get(&chain(i), i as u32)).collect();
        add(format!("prefix chain up {}", d), program(up.clone()));
        let down: Vec<Op> = up.iter().rev().cloned().collect();
        add(format!("prefix chain down {}", d), program(down));
        let mut zig = vec![];
        for i in 0..d {
            let k = if i % 2 == 0 { i / 2 } else { d - 1 - i / 2 };
            zig.push(get(&chain(k), k as u32));
            zig.push(mw_at(&chain(k), 1000 + k as u32));
        }
        add(format!("prefix chain zigzag {}", d), program(zig));
        let under: Vec<Op> = (0..d).map(|i| get(&format!("{}/b", chain(i)), i as u32)).chain((0..d).map(|i| mw_at(&chain(i), 1000 + i as u32))).collect();
        add(format!("prefix chain with subpaths {}", d), program(under));
        let mut params: Vec<Op> = (0..d).map(|i| get(&format!("{}/:v", chain(i)), i as u32)).collect();
        add(format!("prefix chain with params {}", d), program(params.clone()));
        params.reverse();
        add(format!("prefix chain with params reversed {}", d), program(params));
        // many middleware on one path
        let mut ops: Vec<Op> = (0..d).map(|i| mw_at("/m/n", 1000 + i as u32)).collect();
        ops.push(get("/m/n", 1));
        ops.push(get("/m/n/o", 2));
        ops.push(get("/m/nn", 3));
        add(format!("many mw one path {}", d), program_exact(ops));
        let mut ops: Vec<Op> = (0..d).map(|i| Op::Mw { id: 1000 + i as u32 }).collect();
        ops.insert(0, get("/x", 1));
        ops.push(get("/", 2));
        ops.push(get("/y/:z", 3));
        add(format!("many root mw {}", d), program_exact(ops));
        // nested mounts
        let mut inner = vec![get("/leaf", 1), get("/", 2), get("/w/*", 3), get("/q/:p0", 4), Op::Mw { id: 1000 }];
        for k in 0..d.min(12) {
            inner = vec![Op::Mount { p: format!("/n{}", k), ops: inner }, Op::Mw { id: 1001 + k as u32 }, get("/side", 50 + k as u32)];
        }
        add(format!("nested mounts {}", d), program_exact(inner));
        // wildcard with long remainders
        let tail: Vec<String> = (0..d).map(|i| format!("t{}", i)).collect();
        let mut p = program_exact(vec![get("/w/*", 1), get("/w/t0/t1", 2), mw_at("/w", 9), mw_at("/w/*", 10)]);
        p.reqs.push((0, format!("/w{}", join(&tail))));
        p.reqs.push((0, format!("/w{}/", join(&tail))));
        add(format!("long remainder {}", d), p);
    }
    // long segments
    for l in crate::dict::sizes(vec![1usize, 2, 7, 8, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 511, 512, 1023, 1024, 1025, 2048, 4000], 6000) {
        let s = "x".repeat(l);
        let ops = vec![get(&format!("/{}", s), 1), get(&format!("/{}y", s), 2), get(&format!("/{}/y", s), 3), get(&format!("/p/:p0/{}", s), 4), mw_at(&format!("/{}", s), 5)];
        let reqs = [format!("/{}", s), format!("/{}y", s), format!("/{}/y", s), format!("/{}x", s), format!("/{}", &s[..l - 1]), format!("/{}/{}", s, s), format!("/p/{}/{}", s, s), format!("/p/{}/q{}", s, s)];
        add(format!("long segment {}", l), Program { ops, reqs: gets(reqs.to_vec()) });
    }
    v
}

fn prog_params(ops: Vec<Op>, d: usize) -> Program {
    let all: Vec<String> = paths_of(&ops);
    let mut reqs = vec!["/".to_string()];
    for p in all {
        // distinct value per position
        let mut t: Vec<String> = segs(&p).iter().enumerate().map(|(i, s)| if s.starts_with(':') { format!("v{}", i) } else { s.to_string() }).collect();
        reqs.push(join(&t));
        t.push("extra".into());
        reqs.push(join(&t));
        t.pop();
        t.pop();
        reqs.push(join(&t));
        let same: Vec<String> = segs(&p).iter().map(|s| if s.starts_with(':') { "v".to_string() } else { s.to_string() }).collect();
        reqs.push(join(&same));
    }
    let _ = d;
    Program { ops, reqs: gets(reqs) }
}

pub const LADDER_PARAMS: &[&str] = &[
    "p0", "p1", "p2", "p3", "p4", "p5", "p6", "p7", "p8", "p9", "p10", "p11", "p12", "p13", "p14", "p15", "p16", "p17", "p18", "p19", "p20", "p21", "p22",
    "p23", "p24", "p25", "p26", "p27", "p28", "p29", "p30", "p31", "v", "x", "y", "z", "id", "i", "idx",
];

/// the same, to p1100
pub fn tall_params() -> &'static [&'static str] {
    static N: std::sync::OnceLock<Vec<&'static str>> = std::sync::OnceLock::new();
    N.get_or_init(|| (0..1100).map(|i| &*Box::leak(format!("p{}", i).into_boxed_str())).chain(["v", "id"]).collect())
}

/// a few requests per pattern: an instance with its own value at every position, and one near miss of each kind
fn light(ops: Vec<Op>) -> Program {
    let all = paths_of(&ops);
    let n = all.len();
    let step = (n / 16).max(1);
    let mut set: BTreeSet<String> = BTreeSet::new();
    set.insert("/".into());
    for (k, p) in all.iter().enumerate() {
        if k % step != 0 && k + 3 < n && k > 2 {
            continue;
        }
        let t: Vec<String> = segs(p).iter().enumerate().map(|(i, s)| if s.starts_with(':') { format!("v{}", i) } else if *s == "*" { "w/u".to_string() } else { s.to_string() }).collect();
        set.insert(join(&t));
        let l = t.len();
        if l == 0 {
            continue;
        }
        // the same value at every position
        set.insert(join(&segs(p).iter().map(|s| if s.starts_with(':') { "v".to_string() } else if *s == "*" { "w/w".to_string() } else { s.to_string() }).collect::<Vec<_>>()));
        let mut u = t.clone();
        u.push("q".into());
        set.insert(join(&u));
        set.insert(join(&t[..l - 1]));
        for at in [0, l / 2, l - 1] {
            let mut u = t.clone();
            u[at].push('q');
            set.insert(join(&u));
        }
        if l > 1 {
            let mut u = t.clone();
            u.remove(l / 2);
            set.insert(join(&u));
        }
    }
    Program { ops, reqs: gets(set.into_iter().collect()) }
}

/// The ladders' shapes at large sizes.
pub fn tall(sizes: &[usize]) -> Vec<(String, Program)> {
    let mut v: Vec<(String, Program)> = vec![];
    // (the shapes need a few levels)
    for d in crate::dict::sizes(sizes.to_vec(), 600).into_iter().filter(|d| *d >= 6) {
        let mut add = |n: &str, ops: Vec<Op>| {
            v.push((format!("{} {}", n, d), light(ops.clone())));
            let mut r = ops;
            r.reverse();
            v.push((format!("{} reversed {}", n, d), light(r)));
        };
        let lit: Vec<String> = (0..d).map(|i| format!("s{}", i)).collect();
        let par: Vec<String> = (0..d).map(|i| format!(":p{}", i)).collect();
        let alt: Vec<String> = (0..d).map(|i| if i % 2 == 0 { format!("l{}", i) } else { format!(":p{}", i) }).collect();
        add("deep literal", vec![get(&join(&lit), 1), get(&join(&lit[..d / 2]), 2), get(&join(&lit[..d - 1]), 3)]);
        add("deep params", vec![get(&join(&par), 1), get(&join(&par[..d - 1]), 2)]);
        add("alternating params", vec![get(&join(&alt), 1), mw_at(&join(&alt[..d / 2]), 1000)]);
        add("handlers+mw each level", (0..d).flat_map(|k| [get(&join(&lit[..=k]), k as u32), mw_at(&join(&lit[..=k]), 1001 + k as u32)]).collect());
        add("mw each param level", (0..d).map(|k| mw_at(&join(&par[..=k]), 1001 + k as u32)).chain([get(&join(&par), 1)]).collect());
        add("wildcard each level", (0..d).flat_map(|k| { let mut t = lit[..k].to_vec(); t.push("*".into()); [get(&join(&t), k as u32), mw_at(&join(&t), 1001 + k as u32)] }).collect());
        add("siblings", (0..d).map(|i| get(&format!("/k{}", i), i as u32)).collect());
        add("siblings with subpaths and mw", (0..d).flat_map(|i| [get(&format!("/k{}/s", i), i as u32), mw_at(&format!("/k{}", i), 1001 + i as u32)]).collect());
        add("siblings with params", (0..d).map(|i| get(&format!("/k{}/:id", i), i as u32)).collect());
        add("siblings with wildcards", (0..d).map(|i| get(&format!("/k{}/*", i), i as u32)).collect());
        let alpha: Vec<char> = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789-_.~".chars().collect();
        add("siblings of different first letters", (0..d).map(|i| get(&format!("/{}{}", alpha[i % alpha.len()], "z".repeat(i / alpha.len())), i as u32)).collect());
        add("siblings under one path", (0..d).map(|i| get(&format!("/r/t/{}x", i), i as u32)).collect());
        add("prefix chain", (0..d).map(|i| get(&format!("/{}", "a".repeat(i + 1)), i as u32)).collect());
        add("prefix chain with params", (0..d).map(|i| get(&format!("/{}/:v", "a".repeat(i + 1)), i as u32)).collect());
        add("prefix chain with mw", (0..d).flat_map(|i| [get(&format!("/{}/b", "a".repeat(i + 1)), i as u32), mw_at(&format!("/{}", "a".repeat(i + 1)), 1001 + i as u32)]).collect());
        add("many mw one path", (0..d).map(|i| mw_at("/m/n", 1001 + i as u32)).chain([get("/m/n", 1), get("/m/n/o", 2), get("/m/nn", 3)]).collect());
        add("many mw one param path", (0..d).map(|i| mw_at("/m/:id", 1001 + i as u32)).chain([get("/m/:id", 1), get("/m/:id/o", 2), get("/mm/:id", 3)]).collect());
        add("many root mw", (0..d).map(|i| Op::Mw { id: 1001 + i as u32 }).chain([get("/", 1), get("/x", 2), get("/y/:v", 3), get("/z/*", 4)]).collect());
        add("many mounts", (0..d).map(|i| Op::Mount { p: format!("/n{}", i), ops: vec![get("/", i as u32), get("/x/:v", 5000 + i as u32), Op::Mw { id: 10000 + i as u32 }] }).collect());
        add("many scopes", (0..d).map(|i| Op::Scope { name: format!("n{}", i), ops: vec![get("/", i as u32), get("/w/*", 5000 + i as u32), mw_at("/w", 10000 + i as u32)] }).collect());
        let mut inner = vec![get("/leaf", 1), get("/", 2), get("/w/*", 3), get("/q/:v", 4), Op::Mw { id: 1000 }];
        for k in 0..d.min(300) {
            inner = vec![Op::Mount { p: format!("/n{}", k), ops: inner }, Op::Mw { id: 1001 + k as u32 }, get("/side", 5000 + k as u32)];
        }
        add("nested mounts", inner);
        add("one mount of many routes", vec![Op::Mount { p: "/big".into(), ops: (0..d).flat_map(|i| [get(&format!("/k{}/:v", i), i as u32), mw_at(&format!("/k{}", i), 10000 + i as u32)]).collect() }, get("/bigger", 9999)]);
        // siblings whose first characters all differ, with a wildcard (or a parameter further down) beside them
        let first: Vec<String> = (0..d).map(|i| match alpha.get(i).filter(|_| i < 62) { Some(c) => c.to_string(), None => char::from_u32(0x4e00 + i as u32).unwrap().to_string() }).collect();
        add("fan of distinct first characters", first.iter().enumerate().map(|(i, s)| get(&format!("/{}k", s), i as u32)).chain([get("/*", 9000)]).collect());
        add("fan of single characters under one path", first.iter().enumerate().map(|(i, s)| get(&format!("/r/{}", s), i as u32)).chain([get("/r/*", 9000), mw_at("/r/*", 9001)]).collect());
        add("fan with parameters below", first.iter().enumerate().map(|(i, s)| get(&format!("/{}/:v", s), i as u32)).chain([get("/*", 9000), Op::Mw { id: 9001 }]).collect());
        // the same segment all the way down
        let same: Vec<String> = vec!["a".to_string(); d + 1];
        let mut ops = vec![];
        for l in [d - 1, d, d + 1] {
            ops.push(get(&join(&same[..l]), l as u32));
            ops.push(mw_at(&join(&same[..l]), 2000 + l as u32));
        }
        add("one segment repeated", ops);
        let mut ops = vec![];
        for l in [d - 1, d] {
            let mut s = same[..l].to_vec();
            s.push("*".into());
            ops.push(get(&join(&s), l as u32));
            ops.push(mw_at(&join(&s), 2000 + l as u32));
        }
        add("one segment repeated, then a wildcard", ops);
        let pair: Vec<String> = (0..d).map(|i| (if i / 2 % 2 == 0 { "a" } else { "b" }).to_string()).collect();
        add("segments repeated in pairs", vec![get(&join(&pair), 1), get(&join(&pair[..d - 1]), 2), get(&join(&pair[..d - 2]), 3)]);
        let tail: Vec<String> = (0..d).map(|i| format!("t{}", i)).collect();
        let mut p = light(vec![get("/w/*", 1), get("/w/t0/t1", 2), mw_at("/w", 9), mw_at("/w/*", 10), get("/:p0/x", 3)][..4].to_vec());
        for l in [d - 1, d, d + 1] {
            p.reqs.push((0, format!("/w{}", join(&tail[..l.min(d)]))));
            p.reqs.push((0, format!("/w{}/", join(&tail[..l.min(d)]))));
            p.reqs.push((0, format!("/w/{}", "/".repeat(l) + "x")));
            p.reqs.push((0, format!("/w/{}", "a".repeat(l))));
            p.reqs.push((0, format!("/w{}", "/a".repeat(l))));
            p.reqs.push((0, format!("/w{}", "/a/a/b".repeat(l / 3 + 1))));
        }
        v.push((format!("long remainder {}", d), p));
    }
    // many routes altogether: every path of three segments over an alphabet
    for k in [6usize, 8, 10] {
        if k * k * k > sizes.iter().max().unwrap() * 4 {
            continue;
        }
        let ops: Vec<Op> = (0..k * k * k).map(|i| get(&format!("/r{}/r{}/r{}", i % k, i / k % k, i / k / k), i as u32)).collect();
        let reqs = gets(paths_of(&ops).into_iter().chain(["/r0/r0".into(), "/r1/r9/r20".into(), "/r0/r0/r0/r0".into()]).collect());
        v.push((format!("grid of {}", k), Program { ops, reqs }));
    }
    v
}

pub fn tall_sizes(t: crate::common::Tier) -> Vec<usize> {
    t.pick(vec![16, 24, 31, 32, 33, 50, 64, 65, 100, 127, 128, 129, 200, 256, 257], vec![16, 20, 24, 25, 31, 32, 33, 40, 50, 51, 63, 64, 65, 99, 100, 101, 127, 128, 129, 200, 255, 256, 257, 300, 400, 511, 512, 513, 1000, 1024, 1025])
}
