//! Every segment text of a large vocabulary, together with the texts it might be taken for: as literal, parameter name, parameter
//! value, wildcard remainder, mount path and scope name.
use super::families::*;
use crate::common::Tier;
use crate::sut::*;
use std::collections::BTreeSet;

pub struct Named {
    pub name: String,
    pub program: Program,
    pub params: &'static [&'static str],
}

fn unhex(s: &str) -> Option<u8> {
    u8::from_str_radix(s, 16).ok()
}

pub fn percent_decode(w: &str) -> Option<String> {
    let b = w.as_bytes();
    let mut out = vec![];
    let mut i = 0;
    while i < b.len() {
        if b[i] == b'%' && i + 2 < b.len() + 0 && w.is_char_boundary(i + 1) && w.is_char_boundary(i + 3) {
            if let Some(x) = unhex(&w[i + 1..i + 3]) {
                out.push(x);
                i += 3;
                continue;
            }
        }
        out.push(b[i]);
        i += 1;
    }
    String::from_utf8(out).ok()
}

pub fn vocabulary(t: Tier) -> Vec<String> {
    let mut v: Vec<String> = vec![];
    for c in 0x21u8..0x7f {
        let c = c as char;
        if "/*".contains(c) {
            continue;
        }
        v.push(format!("{}", c));
        v.push(format!("a{}", c));
        v.push(format!("{}a", c));
        v.push(format!("a{}b", c));
        v.push(format!("ab{}{}", c, c));
    }
    for b in 0..=255u8 {
        for x in [format!("{:02X}", b), format!("{:02x}", b)] {
            v.push(format!("%{}", x));
            v.push(format!("a%{}b", x));
            if t == Tier::Thorough {
                v.push(format!("a%{}", x));
                v.push(format!("%{}a", x));
                v.push(format!("%25{}", x));
            }
        }
    }
    for e in ["json", "xml", "html", "htm", "php", "txt", "js", "css", "png", "jpg", "ico", "gz", "tar.gz", "zip", "csv", "pdf", "rss", "atom", "md", "do", "action", "asp", "aspx", "jsp", "cgi", "bak", "map", "wasm", "yaml", "yml", "toml", "rs", "svg", "webp", "mp4", "br", "well-known"] {
        v.push(format!("a.{}", e));
        v.push(format!("abc.{}", e.to_uppercase()));
        v.push(format!(".{}", e));
        v.push(e.to_string());
    }
    for x in [
        "abc", "Abc", "ABC", "aBc", "abC", "userId", "user_id", "user-id", "UserId", "USER_ID", "id", "ID", "Id", "index", "index.html", "index.php", "default", "favicon.ico", "robots.txt", "health", "healthz", "status", "metrics", "ping", "ready",
        "admin", "login", "logout", "api", "v1", "v2", "v1.0", "static", "assets", "public", "_next", ".well-known", ".git", ".env", "debug", "internal", "graphql", "rpc", "ws", "new", "edit", "delete", "search", "me", "self", "null", "nil",
        "none", "None", "undefined", "true", "false", "NaN", "0", "1", "-1", "00", "007", "1.0", "1e3", "0x10", "123456789012345678901234567890", "2020-01-01", "12:30", "2020-01-01T12:30:00Z", "550e8400-e29b-41d4-a716-446655440000", "a@b.c", "a,b,c",
        "a;b=1", "a=b", "a&b", "a+b", "a b", "a|b", "(a)", "[a]", "{a}", "{id}", "<id>", "$id", "@id", "~user", "!", "!!", "...", "....", "a..b", "..a", "a..", ".a", "a.", "--", "__", "a--b", "a__b", "-a", "a-", "_a", "a_", "x-y_z.w~", "'a'", "\"a\"", "a\\b",
        "..\\a", "C:", "c:\\a", "~", "con", "nul", "é", "É", "e\u{301}", "ñ", "ü", "ß", "ss", "İ", "ı", "日本", "日", "本", "😀", "😀a", "a😀", "\u{200d}", "\u{feff}a", "ﬁ", "fi", "Ⅷ", "％２０", "／", "：a", "＊", "．．", "a\u{a0}b", "%E6%97%A5", "%C3%A9", "%c3%a9", "%252F", "%252e", "%2e%2e%2f",
        " abc", "abc ", " abc ", "\tabc", "abc\t", "abc\n", "a  b", "abc\r\n", "\u{3000}abc", "%%", "%2", "%", "%g1", "%u0041", "&amp;", "&lt;", "page", "pages", "user", "users", "get", "GET", "post", "POST", "options", "any", "all", "root", "app", "mount", "scope", "http:", "https:", "http:a", "localhost", "127.0.0.1", "a:80", "a::b", "a:b:c", "::", "a:",
        "aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaa", "abababab", "abcabcabc",
    ] {
        v.push(x.to_string());
    }
    for x in ["shared", "common", "vendor", "uploads", "images", "img", "media", "files", "dist", "build", "src", "lib", "docs", "tmp", "data", "cache", "node_modules", "download", "list", "home", "about", "posts", "items", "a[]", "a[0]", "a[b]", "a.b.c", "a.0", "a->b", "a::b::c", "version", "token", "session", "lang", "format", "callback", "_method", "page=1", "sort", "q", "limit", "offset"] {
        v.push(x.to_string());
    }
    v.extend(crate::dict::segments());
    v.extend(crate::dict::new_segments().into_iter().flat_map(|w| [format!("{}a", w), format!("a{}", w), format!("a{}b", w)]));
    let mut seen = BTreeSet::new();
    v.retain(|x| !x.is_empty() && !x.contains('/') && !x.contains('*') && seen.insert(x.clone()));
    v
}

/// texts a word might be taken for
pub fn relatives(w: &str) -> Vec<String> {
    let mut v: Vec<String> = vec![w.to_lowercase(), w.to_uppercase(), w.to_ascii_lowercase(), w.to_ascii_uppercase()];
    let mut cs = w.chars();
    if let Some(c) = cs.next() {
        v.push(c.to_uppercase().collect::<String>() + cs.as_str());
        v.push(cs.as_str().to_string());
    }
    let mut cs = w.chars();
    cs.next_back();
    v.push(cs.as_str().to_string());
    v.extend(percent_decode(w));
    if let Some(x) = percent_decode(w) {
        v.extend(percent_decode(&x));
    }
    v.push(w.bytes().map(|b| if b.is_ascii_alphanumeric() { (b as char).to_string() } else { format!("%{:02X}", b) }).collect());
    v.push(w.bytes().map(|b| if b.is_ascii_alphanumeric() { (b as char).to_string() } else { format!("%{:02x}", b) }).collect());
    v.push(w.replace('%', "%25"));
    v.push(w.replace('+', " "));
    v.push(w.replace('+', "%20"));
    v.push(w.replace(' ', "+"));
    v.push(w.replace('\\', ""));
    for c in [".", ";", ":", ",", "=", "@", "-", "_", "~", "%", "&", "+", "!", "|", "$"] {
        if let Some((a, b)) = w.rsplit_once(c) {
            v.push(a.to_string());
            v.push(b.to_string());
        }
        if let Some((a, b)) = w.split_once(c) {
            v.push(a.to_string());
            v.push(b.to_string());
        }
    }
    v.push(w.trim_matches(|c: char| !c.is_alphanumeric()).to_string());
    v.push(w.trim_start_matches(|c: char| !c.is_alphanumeric()).to_string());
    v.push(w.trim_end_matches(|c: char| !c.is_alphanumeric()).to_string());
    v.push(w.trim_start_matches('0').to_string());
    v.push(w.trim().to_string());
    v.push(w.replace('_', "-"));
    v.push(w.replace('-', "_"));
    v.push(w.chars().filter(|c| c.is_alphanumeric()).collect());
    v.push(w.chars().filter(|c| c.is_ascii()).collect());
    v.push(w.chars().rev().collect());
    v.push(format!("{}s", w));
    v.push(w.trim_end_matches('s').to_string());
    v.push(format!("{}{}", w, w));
    v.push(format!("{}.html", w));
    v.push(format!("{}.json", w));
    v.push(format!("{} ", w));
    v.push(format!(" {}", w));
    let mut seen = BTreeSet::new();
    v.retain(|x| !x.is_empty() && x != w && !x.contains('/') && !x.contains('*') && seen.insert(x.clone()));
    v.truncate(24);
    v
}

fn leak(mut v: Vec<String>) -> &'static [&'static str] {
    v.sort();
    v.dedup();
    Box::leak(v.into_iter().map(|s| &*Box::leak(s.into_boxed_str())).collect::<Vec<&'static str>>().into_boxed_slice())
}

fn is_lit(x: &str) -> bool {
    !x.starts_with(':')
}

pub fn named(t: Tier) -> Vec<Named> {
    let mut out: Vec<Named> = vec![];
    let voc = vocabulary(t);
    let base: &'static [&'static str] = &["x", "y", "X", "v"];
    for w in &voc {
        let rel = relatives(w);
        let all: Vec<&String> = std::iter::once(w).chain(&rel).collect();
        let lits: Vec<&String> = all.iter().cloned().filter(|x| is_lit(x)).collect();
        let paths = |p: &str, s: &str| -> Vec<(u8, String)> { gets(all.iter().map(|x| format!("{}/{}{}", p, x, s)).collect()) };
        // all of them as literals next to each other, each with its own middleware and something below
        let mut ops = vec![];
        for (i, x) in lits.iter().enumerate() {
            ops.push(get(&format!("/{}", x), i as u32 + 1));
            ops.push(mw_at(&format!("/{}", x), i as u32 + 501));
            ops.push(get(&format!("/{}/{}", x, w).replace("/:", "/_:"), i as u32 + 101));
        }
        let reqs: Vec<(u8, String)> = [paths("", ""), paths("", &format!("/{}", w)), paths(&format!("/{}", w), "")].concat();
        out.push(Named { name: format!("{:?} and its relatives as literals", w), program: Program { ops, reqs: reqs.clone() }, params: base });
        // only the word, and only the relatives
        if is_lit(w) {
            let ops = vec![get(&format!("/{}", w), 1), get(&format!("/k/{}", w), 2), get(&format!("/{}/k", w), 3), mw_at(&format!("/{}", w), 501)];
            out.push(Named { name: format!("{:?} alone", w), program: Program { ops, reqs: [paths("", ""), paths("/k", ""), paths("", "/k")].concat() }, params: base });
            let ops: Vec<Op> = lits.iter().skip(1).enumerate().flat_map(|(i, x)| [get(&format!("/{}", x), i as u32 + 1), get(&format!("/{}/k", x), i as u32 + 101), mw_at(&format!("/{}", x), i as u32 + 501)]).collect();
            out.push(Named { name: format!("relatives of {:?} without it", w), program: Program { ops, reqs: [paths("", ""), paths("", "/k")].concat() }, params: base });
            // mounted and scoped
            let inner = |b: u32| vec![get("/", b), get("/k", b + 1), get("/p/:v", b + 2), Op::Mw { id: 500 + b }];
            let mut ops = vec![Op::Mount { p: format!("/{}", w), ops: inner(1) }];
            for (i, x) in lits.iter().skip(1).enumerate() {
                ops.push(if i % 2 == 0 { Op::Scope { name: x.to_string(), ops: inner(10 * (i as u32 + 1)) } } else { Op::Mount { p: format!("/{}", x), ops: inner(10 * (i as u32 + 1)) } });
            }
            out.push(Named { name: format!("{:?} and its relatives as mount points", w), program: Program { ops, reqs: [paths("", ""), paths("", "/k"), paths("", "/p/1"), paths("", "/q")].concat() }, params: base });
            let ops = vec![Op::Scope { name: w.to_string(), ops: inner(1) }, Op::Mount { p: "/m".into(), ops: vec![get(&format!("/{}", w), 20), mw_at(&format!("/{}", w), 520), get(&format!("/{}/:v", w), 21)] }];
            out.push(Named { name: format!("{:?} as scope and inside a mount", w), program: Program { ops, reqs: [paths("", ""), paths("", "/k"), paths("", "/p/1"), paths("/m", ""), paths("/m", "/1")].concat() }, params: base });
        }
        // as parameter names, on their own and one after the other
        let names = leak(all.iter().map(|x| x.to_string()).chain(all.iter().map(|x| format!(":{}", x))).collect());
        let r1 = rel.first().cloned().unwrap_or("z".into());
        let ops = vec![get(&format!("/:{}", w), 1), get(&format!("/:{}/b", w), 2), get(&format!("/:{}/c/:{}", w, r1), 3), mw_at(&format!("/:{}", w), 501), get(&format!("/:{}/d/*", w), 4)];
        out.push(Named { name: format!("{:?} as parameter name", w), program: Program { ops, reqs: gets(["/v", "/v/b", "/v/c/u", "/v/c", "/v/d", "/v/d/e", "/V", "/v%20"].iter().map(|x| x.to_string()).chain([format!("/{}", w), format!("/{}/c/{}", w, w)]).collect()) }, params: names });
        let mut p = String::new();
        for x in all.iter().take(8) {
            p.push_str(&format!("/:{}", x));
        }
        let k = all.len().min(8);
        let vals: Vec<String> = (0..k).map(|i| format!("v{}", i)).collect();
        out.push(Named { name: format!("{:?} and its relatives as parameter names", w), program: Program { ops: vec![get(&p, 1), mw_at(&p, 501)], reqs: gets(vec![format!("/{}", vals.join("/"))]) }, params: names });
    }
    // every word as a value and as a remainder
    let ops = vec![
        get("/p/:x", 1), get("/p/:x/q", 2), get("/p/:x/r/:y", 3), get("/w/*", 4), get("/w/k/*", 5), get("/w/k/:x/k", 6), get("/a", 7), get("/abc", 8), get("/id", 9), mw_at("/p/:x", 501), mw_at("/w", 502), mw_at("/w/*", 503), mw_at("/abc", 504), get("/abc/:x", 10),
        get("/index", 11), get("/0", 12), get("/ab", 13), get("/b", 14), get("/A", 15), get("/é", 16),
    ];
    let ops: Vec<Op> = ops.into_iter().filter(|o| !matches!(o, Op::Route { p, .. } if p == "/w/k/:x/k")).collect();
    for c in voc.chunks(100) {
        let mut reqs = vec![];
        for w in c {
            for p in ["/W", "/p/W", "/p/W/q", "/p/1/r/W", "/p/W/r/2", "/p/W/r/W", "/w/W", "/w/k/W", "/w/W/k", "/w/W/W", "/abc/W", "/a/W", "/W/a", "/p/W/W"] {
                reqs.push((0u8, p.replace('W', w)));
            }
        }
        out.push(Named { name: format!("words {:?}.. as values", c[0]), program: Program { ops: ops.clone(), reqs: reqs.clone() }, params: base });
        let top = vec![get("/:x", 1), get("/:x/a", 2), get("/:x/b/:y", 3), get("/:x/c/*", 4), mw_at("/:x", 501), Op::Mw { id: 500 }];
        let reqs = c.iter().flat_map(|w| ["/W", "/W/a", "/W/b/W", "/W/c/W", "/W/W", "/W/c"].map(|p| (0u8, p.replace('W', w)))).collect();
        out.push(Named { name: format!("words {:?}.. at the top", c[0]), program: Program { ops: top, reqs }, params: base });
        let wild = vec![get("/*", 1), get("/a/b", 2), mw_at("/*", 501)];
        let reqs = c.iter().flat_map(|w| ["/W", "/W/a", "/a/W", "/a/b/W", "/W/W/W"].map(|p| (0u8, p.replace('W', w)))).collect();
        out.push(Named { name: format!("words {:?}.. under a wildcard", c[0]), program: Program { ops: wild, reqs }, params: base });
    }
    out
}

/// texts a value might be: words, and every short numeral
pub fn values(t: Tier) -> Vec<String> {
    let mut v = vocabulary(t);
    for x in [
        "true", "True", "TRUE", "tRuE", "false", "False", "FALSE", "on", "On", "ON", "off", "yes", "Yes", "no", "y", "n", "t", "f", "T", "F", "null", "Null", "NULL", "nil", "none", "None", "undefined", "NaN", "nan", "NAN", "-NaN", "inf", "Inf", "INF", "+inf", "-inf",
        "infinity", "Infinity", "-infinity", "0x10", "0X1f", "0b1", "0o7", "1_000", "1,000", "1.000,5", "1 000", "\u{661}", "\u{ff11}", "\u{bd}", "1\u{a0}", "½", "1e3", "1E3", "1e+3", "1e-3", "1d", "1f", "1i32", "1u8", "1L", "1n", "1%", "$1", "#1", "(1)", "[1]", "[1,2]", "[]", "{}",
        "{\"a\":1}", "\"1\"", "'1'", "\"", "a,b", "1,2", "1;2", "1|2", "1 2", "1\n2", "\n", "\r\n", "\t1", "1\t", "1\0", "\0", "0.1", "0.30000000000000004", "16777217", "16777216.5", "9007199254740993", "9007199254740992", "123456.789", "3.4028236e38", "1e39", "1e-46", "5e-324", "2e-324",
        "1.7976931348623157e308", "1.7976931348623159e308", "4294967296", "4294967297.25", "1e300", "-1e300", "3.141592653589793", "2.718281828459045", "0.1e1", "100000000000000000000", "999999999999999999999999", "18446744073709551617", "-9223372036854775809", "32768", "-32768", "-32769", "65536", "128",
        "-128", "-129", "256", "2147483648", "-2147483649", "2024-01-31", "12:30:00", "1/2", "a/b", "/", "//", "*", "a*b", "?", "&", "=", "==", "a=b", "a&b", "#", "<script>", "&amp;", "&#39;", "\\u0041", "\\n", "%41", "%2541", "%", "+", "++", "a+b", " ", "  ", "\u{3000}", "\u{2028}", "\u{202e}x", "\u{fffd}", "\u{10ffff}", "\u{e000}", "a\u{301}",
        "-", "--", "+", ".", "..", "e", "E", "e5", ".e5", "-.5", "+.5", "-0.0", "+0", "-00", "0000000000000000000000000000000001", "1.", ".5", "1..2", "1.2.3", "1e", "1e5.5", "--1", "+-1", "- 1", "null,1", "abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789",
    ] {
        v.push(x.to_string());
    }
    // every text of numeral characters
    let alpha: Vec<char> = "01.-+e".chars().collect();
    let mut acc = vec![String::new()];
    for _ in 0..t.pick(4, 6) {
        acc = acc.iter().flat_map(|a| alpha.iter().map(move |c| format!("{}{}", a, c))).collect();
        v.extend(acc.iter().cloned());
    }
    let mut seen = BTreeSet::new();
    v.retain(|x| !x.is_empty() && seen.insert(x.clone()));
    v
}

/// words for pairs
pub fn short_list() -> Vec<String> {
    [
        "a", "A", "ab", "Ab", "aB", "AB", "b", "abc", "ABC", "a.b", "a-b", "a_b", "a~b", "a.", ".a", "-a", "_a", "a b", "a+b", "a%20b", "a%2Fb", "%61", "%61b", "%41", "é", "É", "e\u{301}", "e", "ß", "ss", "日本", "日", "😀", "0", "00", "1", "01", "1.0", "id", "ID", "Id", "i", "idx", "userId", "userid", "user_id", "user-id", "user",
        "users", ".", "..", "...", ":", "::", ":a", "a:", "a:b", "a:B", "b:a", "=", "a=b", "a=c", "a;b", "a;c", "a,b", "(a)", "[a]", "{a}", "{b}", "<a>", "$a", "@a", "!", "!a", "'", "\"", "\\", "a\\b", "|", "^", "`", "#", "?", "a?", "a#b", "&", "%", "%%", " ", " a", "a ", "\t", "\u{0}", "\u{200d}", "\u{feff}", "aa", "aaa", "aab", "index", "index.html",
    ]
    .iter()
    .map(|x| x.to_string())
    .chain(crate::dict::new_segments())
    .collect()
}
