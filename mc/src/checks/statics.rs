//! C16, C17 (and the static parts of C04 and C08): static file serving from a scratch directory.
use crate::common::*;
use crate::wire::{self, Reply};
use obsidian::context::Context;
use obsidian::router::{Response, Router};
use obsidian::App;
use std::collections::BTreeMap;
use std::path::{Path, PathBuf};
use std::sync::{Arc, OnceLock};

static SCRATCH: OnceLock<Tree> = OnceLock::new();

pub struct Tree {
    pub root: PathBuf,
    /// path relative to the working directory -> content
    pub files: BTreeMap<String, Vec<u8>>,
}

pub fn scratch_path() -> PathBuf {
    match std::env::var("MC_SCRATCH") {
        Ok(p) => PathBuf::from(p),
        Err(_) => std::env::temp_dir().join(format!("mc-static-{}", std::process::id())),
    }
}

pub fn cleanup() {
    if let Some(t) = SCRATCH.get() {
        let _ = std::fs::remove_dir_all(&t.root);
    }
}

fn bin(seed: u32, n: usize) -> Vec<u8> {
    let mut x = seed.wrapping_mul(2654435761).wrapping_add(12345);
    (0..n)
        .map(|_| {
            x = x.wrapping_mul(1664525).wrapping_add(1013904223);
            (x >> 24) as u8
        })
        .collect()
}

const BASE_SIZES: &[usize] = &[
    0, 1, 2, 3, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 511, 512, 513, 1023, 1024, 1025, 2047, 2048, 2049, 4095, 4096, 4097, 8191, 8192, 8193, 16383,
    16384, 16385, 32767, 32768, 32769, 65535, 65536, 65537, 100_000, 131_071, 131_072, 131_073, 262_144, 262_145, 524_288, 1_048_575, 1_048_576, 1_048_577, 3_000_000,
];

fn special() -> Vec<(String, Vec<u8>)> {
    let mut v: Vec<(String, Vec<u8>)> = vec![];
    for b in 0..=255u8 {
        v.push((format!("byte-{:02x}", b), vec![b]));
        v.push((format!("inner-{:02x}.txt", b), vec![b'a', b, b'z']));
    }
    for (n, c) in [
        ("bom.txt", &b"\xef\xbb\xbfhello"[..]),
        ("crlf.txt", b"a\r\nb\r\n\r\nc"),
        ("cr.txt", b"a\rb\r"),
        ("nl.txt", b"\n\n\n"),
        ("nul.txt", b"a\0b\0\0"),
        ("utf8.txt", "héllo 日本語 \u{10ffff}".as_bytes()),
        ("trunc-utf8.txt", b"ok \xe6\x97"),
        ("overlong.txt", b"\xc0\xaf"),
        ("surrogate.txt", b"\xed\xa0\x80"),
        ("utf16.txt", b"\xff\xfeh\0i\0"),
        ("json.json", b"[1, 2, {\"a\": null}]"),
        ("spaces.txt", b"  trailing and leading  "),
        ("quotes.txt", b"\"quoted\""),
        ("http.txt", b"HTTP/1.1 200 OK\r\ncontent-length: 3\r\n\r\nabc"),
        ("percent.txt", b"%20%41+"),
        ("gz.gz", b"\x1f\x8b\x08\x00\x00\x00\x00\x00\x00\x03\x4b\x4c\x04\x00"),
    ] {
        v.push((n.to_string(), c.to_vec()));
    }
    for n in [".hidden", "..dots", "dots..", "...", "....", ".a.b.", "a.b.c.d", "noext", "UPPER.TXT", "upper.txt", "%41", "%2e%2e", "a%2fb", "a+b", "a=b&c", "a,b;c", "a:b", ":x", "~", "-", "_", "@", "(1)", "404", "index.html", "0"] {
        v.push((n.to_string(), format!("named {}", n).into_bytes()));
    }
    v.push(("n".repeat(200), b"long name".to_vec()));
    v
}

pub fn tree() -> &'static Tree {
    SCRATCH.get_or_init(|| {
        let root = scratch_path();
        let _ = std::fs::remove_dir_all(&root);
        let cwd = root.join("base/work");
        std::fs::create_dir_all(&cwd).expect("scratch dir");
        let mut files: BTreeMap<String, Vec<u8>> = BTreeMap::new();
        let mut add = |p: String, c: Vec<u8>| {
            let f = cwd.join(&p);
            std::fs::create_dir_all(f.parent().unwrap()).unwrap();
            std::fs::write(&f, &c).unwrap();
            files.insert(p, c);
        };
        for (n, c) in special() {
            add(format!("assets/{}", n), c);
        }
        for s in &crate::dict::sizes(BASE_SIZES.to_vec(), 4 << 20) {
            add(format!("assets/size/{}", s), bin(*s as u32, *s));
            add(format!("assets/text/{}.txt", s), (0..*s).map(|i| b'a' + (i % 26) as u8).collect());
        }
        let mut d = "assets".to_string();
        for k in 0..24 {
            d.push_str(&format!("/d{}", k));
            add(format!("{}/f.txt", d), format!("depth {}", k).into_bytes());
        }
        add("assets/a.txt".into(), b"A inside".to_vec());
        add("assets/sub/a.txt".into(), b"A inside sub".to_vec());
        add("assets/sub/deep/b.txt".into(), b"B inside deep".to_vec());
        add("assets/assets/a.txt".into(), b"A inside assets/assets".to_vec());
        add("assets/files/a.txt".into(), b"A inside assets/files".to_vec());
        for n in ["a.txt.gz", "a.txt.br", "a.txt.gzip", "a.txt.map", "a.txt~", "a.txt.bak", "a.html", "sub/index.html", "sub/index.htm", "sub/index", "sub/default.html", "sub.html", "sub.txt", "deep.txt", "404.html", "sub/404.html", "a", "b.min.js", "b.js", "c.wasm", "d.svg", "e.HTML", "sub/.htaccess", "favicon.ico", "robots.txt"] {
            add(format!("assets/{}", n), format!("file {}", n).into_bytes());
        }
        add("dist.v1.0/a.txt".into(), b"A of dist".to_vec());
        add("dist.v1.0/sub/a.txt".into(), b"A of dist sub".to_vec());
        add("with space/a.txt".into(), b"A of with space".to_vec());
        add("d\u{e9}j\u{e0}/a.txt".into(), b"A of deja".to_vec());
        add("p/q/r/s/t/a.txt".into(), b"A of t".to_vec());
        // names that lead to other inside files
        for (n, to, as_file) in [("link.txt", "a.txt", "a.txt"), ("sub/link-up.txt", "../a.txt", "a.txt"), ("link-link.txt", "link.txt", "a.txt"), ("link-bin", "byte-ff", "byte-ff"), ("link-large", "size/262145", "size/262145")] {
            std::os::unix::fs::symlink(to, cwd.join("assets").join(n)).unwrap();
            let c = files[&format!("assets/{}", as_file)].clone();
            files.insert(format!("assets/{}", n), c);
        }
        std::os::unix::fs::symlink("sub", cwd.join("assets/link-dir")).unwrap();
        for f in ["a.txt", "deep/b.txt"] {
            let c = files[&format!("assets/sub/{}", f)].clone();
            files.insert(format!("assets/link-dir/{}", f), c);
        }
        std::fs::hard_link(cwd.join("assets/sub/deep/b.txt"), cwd.join("assets/hard.txt")).unwrap();
        let c = files["assets/sub/deep/b.txt"].clone();
        files.insert("assets/hard.txt".into(), c);
        let mut add = |p: String, c: Vec<u8>| {
            let f = cwd.join(&p);
            std::fs::create_dir_all(f.parent().unwrap()).unwrap();
            std::fs::write(&f, &c).unwrap();
            files.insert(p, c);
        };
        // everything below is outside of "assets"
        add("a.txt".into(), b"OUTSIDE a.txt".to_vec());
        add("outside.txt".into(), b"OUTSIDE outside.txt".to_vec());
        add("assets2/a.txt".into(), b"OUTSIDE assets2".to_vec());
        add("assets-old/a.txt".into(), b"OUTSIDE assets-old".to_vec());
        add("asset/a.txt".into(), b"OUTSIDE asset".to_vec());
        add("sub/a.txt".into(), b"OUTSIDE sub".to_vec());
        add("files/a.txt".into(), b"OUTSIDE files".to_vec());
        add("../secret.txt".into(), b"OUTSIDE secret".to_vec());
        add("../a.txt".into(), b"OUTSIDE base a".to_vec());
        add("../outer/a.txt".into(), b"A of outer".to_vec());
        add("../outer/sub/a.txt".into(), b"A of outer sub".to_vec());
        add("../../secret.txt".into(), b"OUTSIDE root secret".to_vec());
        std::env::set_current_dir(&cwd).expect("chdir");
        Tree { root, files }
    })
}

/// How a static directory is registered.
#[derive(Clone, Debug)]
pub struct Form {
    pub name: String,
    pub dir: String,
    /// URL prefix the files appear under
    pub url: String,
    pub kind: Kind,
    /// mount prefixes, outermost first
    pub mounts: Vec<String>,
    pub scope: bool,
}

#[derive(Clone, Debug)]
pub enum Kind {
    Dir(String),
    To(String, String),
}

fn reg_router(r: &mut Router, k: &Kind) {
    match k {
        Kind::Dir(d) => r.use_static(d),
        Kind::To(v, d) => r.use_static_to(v, d),
    }
}

pub fn app_of(f: &Form) -> App {
    let mut a: App = App::new();
    if f.mounts.is_empty() {
        match &f.kind {
            Kind::Dir(d) => a.use_static(d),
            Kind::To(v, d) => a.use_static_to(v, d),
        }
    } else if f.scope && f.mounts.len() == 1 {
        let k = f.kind.clone();
        a.scope(&f.mounts[0], move |r: &mut Router| reg_router(r, &k));
    } else {
        let mut r = Router::new();
        reg_router(&mut r, &f.kind);
        for m in f.mounts.iter().skip(1).rev() {
            let mut o = Router::new();
            o.use_router(m, r);
            r = o;
        }
        a.use_router(&f.mounts[0], r);
    }
    a
}

/// The place of a path given relative to the working directory, dots resolved.
fn place(p: &str) -> Vec<String> {
    let mut v: Vec<String> = vec!["base".into(), "work".into()];
    for s in p.split('/') {
        match s {
            "" | "." => {}
            ".." => {
                v.pop();
            }
            _ => v.push(s.into()),
        }
    }
    v
}

fn norm(parts: &[&str]) -> String {
    let s: Vec<&str> = parts.iter().flat_map(|p| p.split('/')).filter(|s| !s.is_empty()).collect();
    s.join("/")
}

pub fn forms() -> Vec<Form> {
    let mut v = vec![];
    let mut add = |kind: Kind, mounts: &[&str], scope: bool| {
        let (dir, local) = match &kind {
            Kind::Dir(d) => (norm(&[d]), norm(&[d])),
            Kind::To(u, d) => (norm(&[d]), norm(&[u])),
        };
        let mut parts: Vec<&str> = mounts.to_vec();
        parts.push(&local);
        let url = norm(&parts).replace(":v", "anything").replace(":w", "7");
        let name = format!("{:?} under {:?}{}", kind, mounts, if scope { " (scope)" } else { "" });
        v.push(Form { name, dir, url, kind, mounts: mounts.iter().map(|s| s.to_string()).collect(), scope });
    };
    let to = |u: &str, d: &str| Kind::To(u.into(), d.into());
    let dir = |d: &str| Kind::Dir(d.into());
    for (k, m, s) in [
        (dir("assets"), &[][..], false),
        (dir("/assets/"), &[][..], false),
        (dir("assets/sub"), &[][..], false),
        (to("/files", "assets"), &[][..], false),
        (to("/files/", "/assets/"), &[][..], false),
        (to("files", "assets/sub/"), &[][..], false),
        (to("/", "assets"), &[][..], false),
        (to("", "assets"), &[][..], false),
        (to("/x/y/z", "assets"), &[][..], false),
        (to("/assets", "assets"), &[][..], false),
        (to("/f", "../outer"), &[][..], false),
        (to("/f", "./assets"), &[][..], false),
        (dir("assets"), &["/m"][..], false),
        (to("/files", "assets"), &["/m"][..], false),
        (to("/files", "assets"), &["m"][..], true),
        (to("/", "assets"), &["/m/n"][..], false),
        (dir("assets/sub"), &["/m", "/n"][..], false),
        (to("/files", "assets"), &["/m", "/n", "/o"][..], false),
        (to("/files", "assets"), &["/files"][..], false),
        (dir("assets"), &["/assets"][..], false),
        (to("/:v", "assets"), &[][..], false),
        (to("/u/:v/files/:w", "assets"), &[][..], false),
        (to("/files", "assets"), &["/:v"][..], false),
        (dir("assets"), &["/t/:v", "/:w"][..], false),
        (to("/a/b/c/d/e/f/g/h/i/j/k/l", "assets"), &["/m"][..], false),
        (dir("dist.v1.0"), &[][..], false),
        (to("/f", "with space"), &[][..], false),
        (to("/f", "d\u{e9}j\u{e0}"), &["/m"][..], false),
        (dir("p/q/r/s/t"), &[][..], false),
        (to("/f", "p/q/r/s/t"), &["/p/q"][..], false),
        // the working directory itself, and directories with dots in their name
        (to("/f", ""), &[][..], false),
        (to("/f", "/"), &[][..], false),
        (to("/f", "."), &["/m"][..], false),
        (to("/", "/"), &["/m"][..], false),
        (dir("/"), &[][..], false),
        (dir(""), &["/m"][..], false),
        (to("/f", ".."), &[][..], false),
        (to("/f", "assets/../assets/sub"), &[][..], false),
        (to("/f", "./assets/./sub/."), &["/m"][..], false),
        (to("/f", "../work/assets"), &[][..], false),
        (to("/f", "assets//sub"), &[][..], false),
    ] {
        add(k, m, s);
    }
    v
}

const EXTENSIONS: &[&str] = &[
    "html", "htm", "xhtml", "shtml", "HTML", "Html", "css", "js", "mjs", "cjs", "ts", "tsx", "jsx", "json", "jsonl", "json5", "map", "xml", "svg", "rss", "txt", "TXT", "text", "md", "markdown", "csv", "tsv", "ini", "toml", "yaml", "yml", "conf", "cfg", "env", "log", "sh", "bat", "php", "py", "rb",
    "rs", "c", "h", "java", "go", "sql", "db", "lock", "gz", "GZ", "tgz", "br", "zst", "zip", "tar", "bz2", "xz", "7z", "rar", "png", "jpg", "jpeg", "gif", "ico", "webp", "bmp", "tiff", "avif", "mp3", "mp4", "webm", "ogg", "wav", "mov", "avi", "pdf", "doc", "docx", "xls", "ppt", "woff", "woff2", "ttf", "otf", "eot",
    "wasm", "bin", "exe", "dll", "so", "dat", "bak", "tmp", "swp", "old", "orig", "pem", "key", "crt", "htaccess", "tmpl", "tpl", "hbs", "ejs", "njk", "liquid", "scss", "less", "sass", "vue", "webmanifest", "manifest", "appcache", "ics", "vcf", "eml", "url", "part", "min.js", "min.css", "tar.gz", "html.gz", "d.ts", "0", "",
];

fn contents() -> Vec<(&'static str, Vec<u8>)> {
    let mut v: Vec<(&'static str, Vec<u8>)> = vec![
        ("empty", vec![]),
        ("a newline", b"\n".to_vec()),
        ("a space", b" ".to_vec()),
        ("text", b"plain text".to_vec()),
        ("text without last newline, spaces at the ends", b"  a \n b\t ".to_vec()),
        ("CRLF", b"a\r\nb\r\n".to_vec()),
        ("CR", b"a\rb\r".to_vec()),
        ("BOM", b"\xef\xbb\xbf<p>x</p>".to_vec()),
        ("UTF-16", b"\xff\xfe<\0p\0>\0".to_vec()),
        ("UTF-8", "\u{e9}\u{65e5}\u{1f600}".as_bytes().to_vec()),
        ("invalid UTF-8", b"ok \xff\xfe\x80 ok".to_vec()),
        ("truncated UTF-8", b"ok \xe6\x97".to_vec()),
        ("Latin-1", b"d\xe9j\xe0".to_vec()),
        ("NULs", b"a\0b\0\0".to_vec()),
        ("every byte", (0..=255u8).collect()),
        ("gzip", b"\x1f\x8b\x08\0\0\0\0\0\0\x03\x4b\x4c\x04\0".to_vec()),
        ("PNG", b"\x89PNG\r\n\x1a\n\0\0\0\rIHDR".to_vec()),
        ("ELF", b"\x7fELF\x02\x01\x01\0".to_vec()),
        ("PDF", b"%PDF-1.4\n%\xe2\xe3\xcf\xd3\n".to_vec()),
        ("zip", b"PK\x03\x04\x14\0".to_vec()),
        ("a page", b"<!doctype html><html><head><title>t</title></head><body><!-- c --><script>a&&b</script></body></html>\n".to_vec()),
        ("a template", b"<% x %> {{ y }} ${z} {% w %} <?php echo 1; ?> <!--#include virtual=\"/x\" -->".to_vec()),
        ("a script", b"#!/bin/sh\nexit 0\n".to_vec()),
        ("comments", b"/* c */ // d\nvar a = 1; /*! keep */\n//# sourceMappingURL=x.map\n".to_vec()),
        ("JSON", b"{ \"a\" : [1, 2.0, null], \"b\": \"\\u00e9\" }\n".to_vec()),
        ("broken JSON", b"{\"a\": ".to_vec()),
        ("XML", b"<?xml version=\"1.0\" encoding=\"latin1\"?><a b='c'/>".to_vec()),
        ("entities", b"&lt;&amp;&#0;%20%41+\\n".to_vec()),
        ("an HTTP head", b"HTTP/1.1 404 Not Found\r\ncontent-length: 0\r\n\r\n".to_vec()),
        ("a path", b"../a.txt".to_vec()),
        ("a large text", (0..70_000usize).map(|i| b"abcdefgh \n"[i % 10]).collect()),
        ("a large binary", bin(77, 70_001)),
    ];
    v.push(("NUL only", vec![0; 4096]));
    v
}

const EXT_WAYS: u64 = 5;

/// C17: what a file contains and what its name ends with are both no concern of the server
fn contents_and_extensions() -> Section {
    section("every content under every extension", EXTENSIONS.len() as u64 * EXT_WAYS, move |i, w| {
        let (ext, way) = (EXTENSIONS[(i / EXT_WAYS) as usize], i % EXT_WAYS);
        let t = tree();
        let dir = format!("ext-{}-{}", i, w.worker);
        let base = t.root.join("base/work").join(&dir);
        std::fs::create_dir_all(base.join("sub")).unwrap();
        let cs = contents();
        let mut names: Vec<(String, usize)> = vec![];
        for (k, (_, c)) in cs.iter().enumerate() {
            for n in [format!("f{}.{}", k, ext), format!("sub/f{}.{}", k, ext)] {
                std::fs::write(base.join(&n), c).unwrap();
                names.push((n, k));
            }
        }
        // the name is nothing but the extension
        let odd = if ext.is_empty() { ".x".to_string() } else { format!(".{}", ext) };
        std::fs::write(base.join(&odd), &cs[10].1).unwrap();
        names.push((odd, 10));
        let d2 = dir.clone();
        let nm: Arc<Vec<String>> = Arc::new(names.iter().map(|x| x.0.clone()).collect());
        let mk = || {
            let mut a: App = App::new();
            let (d, nm) = (d2.clone(), nm.clone());
            match way {
                0 => a.use_static(&d),
                1 => a.use_static_to("/h", &d),
                2 => {
                    let mut r = Router::new();
                    r.use_static_to("/h", &d);
                    a.use_router("/m", r);
                }
                3 => a.get("/f/:n", move |c: Context| {
                    let (d, nm) = (d.clone(), nm.clone());
                    async move {
                        let k: usize = c.param("n")?;
                        c.build_file(&format!("{}/{}", d, nm[k])).await.ok()
                    }
                }),
                _ => a.get("/f/:n", move |c: Context| {
                    let (d, nm) = (d.clone(), nm.clone());
                    async move {
                        let k: usize = c.param("n")?;
                        let r = Response::ok().file(&format!("{}/{}", d, nm[k])).await;
                        c.build(r).ok()
                    }
                }),
            }
            a
        };
        let ps: Vec<String> = names
            .iter()
            .enumerate()
            .map(|(k, (n, _))| match way {
                0 => format!("/{}/{}", dir, n),
                1 => format!("/h/{}", n),
                2 => format!("/m/h/{}", n),
                _ => format!("/f/{}", k),
            })
            .collect();
        let rs = ask(w, mk, &ps);
        let _ = std::fs::remove_dir_all(&base);
        w.st.traces += 1;
        w.st.transitions += ps.len() as u64;
        w.state(&("ext", i));
        for ((p, r), (n, k)) in ps.iter().zip(&rs).zip(&names) {
            w.st.evaluations += 1;
            w.outcome(&(r.status(), hash_of(&r.body())));
            if let Some(e) = expect_file(p, r, Some(&cs[*k].1)) {
                return Err(format!("file {:?} holding {}, way {} (0 use_static, 1 use_static_to, 2 mounted, 3 build_file, 4 Response::file): {}", n, cs[*k].0, way, e.chars().take(400).collect::<String>()));
            }
        }
        Ok(())
    })
}

static VOCAB: OnceLock<(Vec<String>, BTreeMap<String, Vec<u8>>)> = OnceLock::new();

/// A file and a directory of every name of the vocabulary: vocab/files/NAME, vocab/dirs/NAME/f.txt, vocab/dirs/NAME/NAME/g.txt
fn vocab_tree(t: Tier) -> &'static (Vec<String>, BTreeMap<String, Vec<u8>>) {
    VOCAB.get_or_init(|| {
        let cwd = tree().root.join("base/work");
        let mut words = super::names::vocabulary(t);
        words.retain(|w| w != "." && w != ".." && !w.contains('\0') && w.len() < 200);
        let mut files = BTreeMap::new();
        for w in &words {
            for (p, c) in [(format!("vocab/files/{}", w), format!("file {:?}", w)), (format!("vocab/dirs/{}/f.txt", w), format!("in directory {:?}", w)), (format!("vocab/dirs/{}/{}/g.txt", w, w), format!("two down {:?}", w))] {
                let f = cwd.join(&p);
                std::fs::create_dir_all(f.parent().unwrap()).unwrap();
                std::fs::write(&f, &c).unwrap();
                files.insert(p, c.into_bytes());
            }
        }
        (words, files)
    })
}

const VOCAB_CHUNK: u64 = 40;

/// C17: names of files, of directories, of registered directories and of URL prefixes
fn vocab_exact(t: Tier) -> Section {
    let n = super::names::vocabulary(t).len() as u64;
    section("files, directories and prefixes of every name", (n + VOCAB_CHUNK - 1) / VOCAB_CHUNK * 4, move |i, w| {
        let (words, files) = vocab_tree(t);
        let (chunk, way) = (i / 4, i % 4);
        let ws: Vec<&String> = words.iter().skip((chunk * VOCAB_CHUNK) as usize).take(VOCAB_CHUNK as usize).collect();
        let lits: Vec<&String> = ws.iter().cloned().filter(|x| !x.starts_with(':')).collect();
        let a_sub = &tree().files["assets/sub/a.txt"];
        let mut ps: Vec<String> = vec![];
        let mut want: Vec<Option<&Vec<u8>>> = vec![];
        let mk = || {
            let mut a: App = App::new();
            match way {
                0 => {
                    a.use_static_to("/f", "vocab/files");
                    a.use_static_to("/d", "vocab/dirs");
                    a.use_static("vocab/files");
                    let mut r = Router::new();
                    r.use_static_to("/f", "vocab/files");
                    r.use_static("vocab/dirs");
                    a.use_router("/m", r);
                }
                1 => {
                    for (k, x) in ws.iter().enumerate() {
                        a.use_static_to(&format!("/x{}", k), &format!("vocab/dirs/{}", x));
                    }
                }
                2 => {
                    for x in &lits {
                        a.use_static_to(&format!("/{}", x), &format!("vocab/dirs/{}", x));
                    }
                }
                _ => {
                    for (k, x) in lits.iter().enumerate() {
                        let mut r = Router::new();
                        r.use_static_to("/y", "assets/sub");
                        r.use_static_to(&format!("/z/{}", x), &format!("vocab/dirs/{}", x));
                        if k % 2 == 0 {
                            a.use_router(&format!("/{}", x), r);
                        } else {
                            let x = x.to_string();
                            a.scope(&x.clone(), move |r: &mut Router| {
                                r.use_static_to("/y", "assets/sub");
                                r.use_static_to(&format!("/z/{}", x), &format!("vocab/dirs/{}", x));
                            });
                        }
                    }
                }
            }
            a
        };
        let file = |p: String| files.get(&p);
        match way {
            0 => {
                for x in &ws {
                    for r in std::iter::once(x.to_string()).chain(super::names::relatives(x)) {
                        if r == "." || r == ".." {
                            continue;
                        }
                        for u in ["f", "vocab/files", "m/f"] {
                            ps.push(format!("/{}/{}", u, r));
                            want.push(file(format!("vocab/files/{}", r)));
                        }
                        for u in ["d", "m/vocab/dirs"] {
                            ps.push(format!("/{}/{}/f.txt", u, r));
                            want.push(file(format!("vocab/dirs/{}/f.txt", r)));
                            ps.push(format!("/{}/{}/{}/g.txt", u, r, x));
                            want.push(file(format!("vocab/dirs/{}/{}/g.txt", r, x)));
                            ps.push(format!("/{}/{}", u, r));
                            want.push(None);
                        }
                    }
                }
            }
            1 => {
                for (k, x) in ws.iter().enumerate() {
                    ps.push(format!("/x{}/f.txt", k));
                    want.push(file(format!("vocab/dirs/{}/f.txt", x)));
                    ps.push(format!("/x{}/{}/g.txt", k, x));
                    want.push(file(format!("vocab/dirs/{}/{}/g.txt", x, x)));
                    ps.push(format!("/x{}/g.txt", k));
                    want.push(None);
                }
            }
            _ => {
                for x in &lits {
                    for r in std::iter::once(x.to_string()).chain(super::names::relatives(x)) {
                        let hit = lits.iter().any(|y| **y == r);
                        if way == 2 {
                            ps.push(format!("/{}/f.txt", r));
                            want.push(if hit { file(format!("vocab/dirs/{}/f.txt", r)) } else { None });
                        } else {
                            ps.push(format!("/{}/y/a.txt", r));
                            want.push(if hit { Some(a_sub) } else { None });
                            ps.push(format!("/{}/z/{}/f.txt", r, x));
                            want.push(if r == **x { file(format!("vocab/dirs/{}/f.txt", r)) } else { None });
                        }
                    }
                }
            }
        }
        let rs = ask(w, mk, &ps);
        w.st.traces += 1;
        w.st.transitions += ps.len() as u64;
        w.state(&("vocab", i));
        for ((p, r), c) in ps.iter().zip(&rs).zip(&want) {
            w.st.evaluations += 1;
            w.outcome(&(r.status(), hash_of(&r.body())));
            // a text the HTTP layer does not take, or reads as the start of a query
            if !file_ok(p) && (r.status() == 400 || p.contains(|c| "?# \t\r\n".contains(c)) && !p.contains(' ')) {
                continue;
            }
            if !file_ok(p) && p.contains(' ') {
                continue;
            }
            if let Some(e) = expect_file(p, r, *c) {
                return Err(format!("names, way {}: {}", way, e));
            }
        }
        Ok(())
    })
}

/// C16: climbs out of, into and across directories of every name, and from URL prefixes of every name
fn vocab_contained(t: Tier) -> Section {
    let n = super::names::vocabulary(t).len() as u64;
    section("climbs through directories of every name", (n + VOCAB_CHUNK - 1) / VOCAB_CHUNK * 3, move |i, w| {
        let (words, files) = vocab_tree(t);
        let (chunk, way) = (i / 3, i % 3);
        let ws: Vec<&String> = words.iter().skip((chunk * VOCAB_CHUNK) as usize).take(VOCAB_CHUNK as usize).filter(|x| !x.starts_with(':') && !x.contains(|c: char| "?# \t\r\n".contains(c))).collect();
        let mk = || {
            let mut a: App = App::new();
            match way {
                0 => a.use_static_to("/d", "vocab/dirs"),
                1 => {
                    let mut r = Router::new();
                    r.use_static("vocab/dirs");
                    a.use_router("/m", r);
                }
                _ => {
                    for x in &ws {
                        a.use_static_to(&format!("/{}", x), &format!("vocab/dirs/{}", x));
                    }
                }
            }
            a
        };
        let mut ps: Vec<(String, String)> = vec![];
        for x in &ws {
            let (u, d) = match way {
                0 => ("/d".to_string(), "vocab/dirs/".to_string()),
                1 => ("/m/vocab/dirs".to_string(), "vocab/dirs/".to_string()),
                _ => (format!("/{}", x), format!("vocab/dirs/{}/", x)),
            };
            for (down, depth) in [(String::new(), 0), (x.to_string(), 1), (format!("{}/{}", x, x), 2)] {
                for up in 1..=t.pick(5usize, 8) {
                    if up <= depth {
                        continue;
                    }
                    for tg in t.pick(&["a.txt", "secret.txt", "files/abc"][..], &["a.txt", "outside.txt", "secret.txt", "assets/a.txt", "vocab/files/abc", "files/abc", "f.txt"]) {
                        ps.push((format!("{}/{}/{}/{}", u, down, vec![".."; up].join("/"), tg), d.clone()));
                        ps.push((format!("{}/{}/{}/{}/../{}", u, down, vec![".."; up].join("/"), x, tg), d.clone()));
                        ps.push((format!("{}/{}{}/{}", u, down, "/../".repeat(up), tg), d.clone()));
                    }
                    // the directory next to it, and the file of that name
                    ps.push((format!("{}/{}/{}/{}", u, down, vec![".."; up].join("/"), x), d.clone()));
                    ps.push((format!("{}/{}/{}/files/{}", u, down, vec![".."; up].join("/"), x), d.clone()));
                }
            }
            // the word in the place of the dots
            for up in 1..=4usize {
                for tg in t.pick(&["a.txt", "secret.txt"][..], &["a.txt", "outside.txt", "secret.txt", "files/abc"]) {
                    ps.push((format!("{}/{}/{}", u, vec![x.as_str(); up].join("/"), tg), d.clone()));
                    ps.push((format!("{}/{}{}", u, vec![x.as_str(); up].concat(), tg), d.clone()));
                    ps.push((format!("{}/{}..{}", u, x, tg), d.clone()));
                    ps.push((format!("{}/..{}{}", u, x, tg), d.clone()));
                    ps.push((format!("{}/..{}/..{}/..{}/{}", u, x, x, x, tg), d.clone()));
                    ps.push((format!("{}/{}../{}../{}../{}", u, x, x, x, tg), d.clone()));
                }
            }
        }
        let texts: Vec<String> = ps.iter().map(|p| p.0.clone()).collect();
        let rs = ask(w, mk, &texts);
        w.st.traces += 1;
        w.st.transitions += ps.len() as u64;
        w.state(&("vocab climb", i));
        for ((p, d), r) in ps.iter().zip(&rs) {
            w.st.evaluations += 1;
            w.outcome(&r.status());
            let served = if r.status() == 200 { files.iter().find(|(_, v)| &v[..] == r.body()).map(|x| x.0) } else { None };
            let leak = (r.status() == 200 && !served.is_some_and(|k| k.starts_with(d))) || r.text().contains("OUTSIDE");
            if leak {
                return Err(format!("directory {:?}, way {}: GET {} replied {} (the file {:?})", d, way, p, r.show(), served));
            }
        }
        Ok(())
    })
}

pub fn file_ok(p: &str) -> bool {
    crate::sut::wire_ok(p)
}

/// GETs on one or more connections; texts hyper itself refuses go on a connection of their own.
fn ask(w: &mut W, mk: impl Fn() -> App, paths: &[String]) -> Vec<Reply> {
    let ok: Vec<bool> = paths.iter().map(|p| file_ok(p)).collect();
    let good: Vec<(Vec<u8>, bool)> = paths.iter().zip(&ok).filter(|x| *x.1).map(|(p, _)| (wire::req("GET", p, &[], None), false)).collect();
    let bad: Vec<Vec<u8>> = paths.iter().zip(&ok).filter(|x| !*x.1).map(|(p, _)| wire::req("GET", p, &[], None)).collect();
    let (g, b) = w.wire.serve(mk, async |port| {
        let g = wire::batch(port, &good).await;
        let mut b = vec![];
        for r in &bad {
            b.push(wire::once(port, r, false).await);
        }
        (g, b)
    });
    let (mut g, mut b) = (g.into_iter(), b.into_iter());
    ok.iter().map(|x| if *x { g.next().unwrap() } else { b.next().unwrap() }).collect()
}

// ------------------------------------------------------------------------------------------------ C16

const HOSTILE: &[&str] = &[
    "..", ".", "", "a.txt", "sub", "assets", "secret.txt", "%2e%2e", "%2E%2e", ".%2e", "..%2f", "%2e%2e%2fsecret.txt", "..%2fa.txt", "..%5ca.txt", "..\\a.txt", "..\\", "%00", "..%00", "...", "assets2",
    "assets-old", "work", "base", "..;", "~", "outside.txt", "%252e%252e", "..%252fa.txt", "%c0%ae%c0%ae", "*",
];
const CORE: &[&str] = &["..", ".", "", "a.txt", "sub", "assets", "secret.txt", "%2e%2e", "..%2fa.txt", "outer"];

fn contain(form: &Form, paths: &[String], w: &mut W) -> CaseResult {
    let t = tree();
    let files = under(t, &form.dir);
    let inside: BTreeMap<&[u8], &str> = files.iter().map(|(k, v)| (&v[..], k.as_str())).collect();
    let abs: Vec<String> = vec![];
    let all: Vec<String> = paths.iter().cloned().chain(abs).collect();
    let rs = ask(w, || app_of(form), &all);
    w.st.traces += 1;
    for (p, r) in all.iter().zip(&rs) {
        w.st.evaluations += 1;
        w.outcome(&(r.status(), hash_of(&r.body()) % 4096));
        let leak = !inside.contains_key(r.body()) && (r.status() == 200 || r.text().contains("OUTSIDE")) || r.text().contains("root:x:0:");
        if leak {
            return Err(format!("static form {}: GET {} replied {}, which is no file under {:?}", form.name, p, r.show(), form.dir));
        }
    }
    Ok(())
}

fn tuples(alpha: &'static [&'static str], len: usize) -> Vec<String> {
    let mut acc: Vec<String> = vec![String::new()];
    for _ in 0..len {
        acc = acc.iter().flat_map(|a| alpha.iter().map(move |s| format!("{}/{}", a, s))).collect();
    }
    acc
}

pub fn c16(t: Tier) -> Check {
    let forms = Arc::new(forms());
    let nf = forms.len() as u64;
    let mut sections = vec![];
    for len in 1..=2usize {
        let f = forms.clone();
        sections.push(section(&format!("every request of {} hostile segments", len), nf, move |i, w| {
            let form = &f[i as usize];
            let ps: Vec<String> = tuples(HOSTILE, len).iter().map(|r| format!("/{}{}", form.url, r)).map(|p| p.replacen("//", "/", (form.url.is_empty()) as usize)).collect();
            w.state(&("h", len, i));
            w.st.transitions += ps.len() as u64;
            w.sample(|| format!("{}: {:?}", form.name, &ps[ps.len() / 2]));
            contain(form, &ps, w)
        }));
    }
    // three hostile segments: one job per first segment
    let f = forms.clone();
    let h = HOSTILE.len() as u64;
    sections.push(section("every request of 3 hostile segments", if t == Tier::Quick { 4 * h } else { nf * h }, move |i, w| {
        let form = &f[if t == Tier::Quick { [0, 3, 6, 13][(i / h) as usize] } else { (i / h) as usize }];
        let first = HOSTILE[(i % h) as usize];
        let ps: Vec<String> = tuples(HOSTILE, 2).iter().map(|r| format!("/{}/{}{}", form.url, first, r)).collect();
        w.state(&("h3", i));
        w.st.transitions += ps.len() as u64;
        contain(form, &ps, w)
    }));
    let f = forms.clone();
    let c = CORE.len() as u64;
    let deep = t.pick(3usize, 4);
    sections.push(section(&format!("every request of {} core segments", deep + 1), nf * c, move |i, w| {
        let form = &f[(i / c) as usize];
        let first = CORE[(i % c) as usize];
        let ps: Vec<String> = tuples(CORE, deep).iter().map(|r| format!("/{}/{}{}", form.url, first, r)).collect();
        w.state(&("core", i));
        w.st.transitions += ps.len() as u64;
        contain(form, &ps, w)
    }));
    // dot-dot at every position of every prefix of the URL (including before the static prefix), long climbs
    let f = forms.clone();
    sections.push(section("climbs of every length from every depth, by every spelling, towards every outside file", nf, move |i, w| {
        let form = &f[i as usize];
        let mut ps = vec![];
        let targets = ["a.txt", "outside.txt", "assets2/a.txt", "assets-old/a.txt", "asset/a.txt", "sub/a.txt", "secret.txt", "work/a.txt", "work/outside.txt", "base/secret.txt", "base/work/a.txt", "etc/passwd", "outer/a.txt", "files/a.txt", ""];
        for down in ["", "sub", "sub/deep", "d0/d1/d2", "nowhere", "a.txt"] {
            for sp in ["..", "%2e%2e", "..%2f", ".%2e", "%2E.", "..\\", "..//", "./..", ".././.", "..%5c", "....//", ".../", "..%00", "%252e%252e", "\\..\\", "..;x", "..?", "..#"] {
                for up in [1usize, 2, 3, 4, 5, 6, 8, 12] {
                    for tg in targets {
                        for sep in ["/", ""] {
                            let climb = vec![sp; up].join(sep);
                            ps.push(format!("/{}/{}/{}{}{}", form.url, down, climb, sep, tg));
                        }
                    }
                }
            }
        }
        let root = tree().root.display().to_string();
        for pre in ["", "/", "//", "file:", "file://", "%2f"] {
            for a in [format!("{}/secret.txt", root), format!("{}/base/work/a.txt", root), "/etc/passwd".to_string(), format!("{}/base/work/assets/a.txt", root)] {
                ps.push(format!("/{}/{}{}", form.url, pre, a));
                ps.push(format!("/{}{}{}", form.url, pre, a));
            }
        }
        // the static prefix itself approached through dots
        let u: Vec<&str> = form.url.split('/').filter(|s| !s.is_empty()).collect();
        for k in 0..=u.len() {
            let mut s: Vec<String> = u.iter().map(|x| x.to_string()).collect();
            s.insert(k, "..".into());
            for tg in targets {
                ps.push(format!("/{}/{}", s.join("/"), tg));
            }
        }
        ps.sort();
        ps.dedup();
        w.state(&("climb", i));
        w.st.transitions += ps.len() as u64;
        contain(form, &ps, w)
    }));
    // two static routes side by side: each stays in its own directory
    sections.push(section("two static routes", 4, move |i, w| {
        let t = tree();
        let mk = move || {
            let mut a: App = App::new();
            match i {
                0 => {
                    a.use_static_to("/one", "assets/sub");
                    a.use_static_to("/two", "assets2");
                }
                1 => {
                    a.use_static_to("/one", "assets/sub");
                    a.use_static_to("/one/two", "assets2");
                }
                2 => {
                    a.use_static("assets/sub");
                    a.use_static("assets2");
                }
                _ => {
                    a.use_static_to("/", "assets/sub");
                    a.use_static_to("/two", "assets2");
                }
            }
            a
        };
        let (u1, u2) = [("/one", "/two"), ("/one", "/one/two"), ("/assets/sub", "/assets2"), ("", "/two")][i as usize];
        let mut ps = vec![];
        let mut want: Vec<&str> = vec![];
        for r in tuples(CORE, 3) {
            ps.push(format!("{}{}", u1, r));
            want.push("assets/sub/");
            ps.push(format!("{}{}", u2, r));
            want.push("assets2/");
        }
        let rs = ask(w, mk, &ps);
        w.st.traces += 1;
        w.state(&("two", i));
        w.st.transitions += ps.len() as u64;
        for ((p, r), d) in ps.iter().zip(&rs).zip(&want) {
            w.st.evaluations += 1;
            if r.status() == 200 {
                let f = t.files.iter().find(|(k, v)| &v[..] == r.body() && k.starts_with(d));
                // u1 may also be a prefix of u2 when nested
                let nested = (i == 1 || i == 3) && p.starts_with(u2) && t.files.iter().any(|(k, v)| &v[..] == r.body() && k.starts_with("assets2/"));
                if f.is_none() && !nested {
                    return Err(format!("two static routes (case {}): GET {} gave {}, not from {}", i, p, r.show(), d));
                }
            }
        }
        Ok(())
    }));
    sections.push(vocab_contained(t));
    sections.push(surrounding(false));
    Check {
        id: "C16",
        level: "model_checking",
        rule: "every tuple of hostile segments up to the stated length, and every climb (spelling x length x depth x target), under every registration form (both methods, root/nested URL, nested mounts, scope, directories with redundant slashes); any 200 reply must be the content of a file inside the directory and no reply may contain an outside file's content; a state is a (form, family) cell, a transition one request sent to the real server".into(),
        assumptions: vec!["symbolic links that lead out of the directory are not explored".into(), "segment texts outside the alphabet are not explored".into()],
        sections,
    }
}

// ------------------------------------------------------------------------------------------------ C17

fn expect_file(p: &str, r: &Reply, want: Option<&Vec<u8>>) -> Option<String> {
    match want {
        Some(c) => {
            if r.status() != 200 || r.body() != &c[..] {
                let d = r.body().iter().zip(c.iter()).position(|(a, b)| a != b);
                return Some(format!("GET {}: expected 200 with the file's {} bytes, got {} bytes (first difference at {:?}): {}", p, c.len(), r.body().len(), d, r.show()));
            }
        }
        None => {
            if r.status() != 404 {
                return Some(format!("GET {}: no such file, expected 404, got {}", p, r.show()));
            }
        }
    }
    None
}

/// Requests for inside files, missing names and climbs, in every surrounding. `exact`: judged by content (C17), else by containment (C16).
fn surrounding(exact: bool) -> Section {
    let forms = Arc::new(forms());
    let nf = forms.len() as u64;
    let mut vs: Vec<(String, Arc<dyn Fn(&str, &str, &str) -> Vec<u8> + Send + Sync>)> = super::surround::variants();
    for (k, x) in [("x-original-url", "/../a.txt"), ("x-rewrite-url", "/files/../../a.txt"), ("x-accel-redirect", "/a.txt"), ("x-sendfile", "../a.txt"), ("x-file", "../a.txt"), ("content-location", "../secret.txt"), ("destination", "../a.txt"), ("range", "bytes=2-3"), ("range", "bytes=0-1,3-4"), ("if-none-match", "\"a\""), ("accept-encoding", "gzip"), ("accept-encoding", "br"), ("accept", "image/webp"), ("want-digest", "sha-256")] {
        vs.push((format!("with {}: {}", k, x), Arc::new(move |m, p, rid| wire::req(m, p, &[("x-rid", rid), (k, x)], None))));
    }
    for q in ["?../a.txt", "?/../../a.txt", "?file=../a.txt", "?path=../secret.txt", "?v=1", "?download", "?raw=1", "?gz", "?x=%2e%2e%2fa.txt", "?offset=1&length=1"] {
        vs.push((format!("with query {}", q), Arc::new(move |m, p, rid| wire::req(m, &format!("{}{}", p, q), &[("x-rid", rid)], None))));
    }
    let nv = vs.len() as u64;
    section("what surrounds a request", nf * nv, move |i, w| {
        let t = tree();
        let form = &forms[(i % nf) as usize];
        let (vn, mk) = &vs[(i / nf) as usize];
        let files = under(t, &form.dir);
        let inside: Vec<&[u8]> = files.iter().map(|x| &x.1[..]).collect();
        let mut ps: Vec<(String, Option<&Vec<u8>>)> = vec![];
        for rel in ["a.txt", "sub/a.txt", "sub/deep/b.txt", "byte-ff", "size/0", "size/4096", "nope", "sub", "sub/nope", "index.html", "a", "", "deep/b.txt"] {
            let c = files.iter().find(|(k, _)| k == rel).map(|x| x.1);
            ps.push((format!("/{}", norm(&[&form.url, rel])), c));
        }
        if !exact {
            for rel in ["../a.txt", "../outside.txt", "..%2fa.txt", "%2e%2e/a.txt", "sub/../../a.txt", "../assets2/a.txt", "../../secret.txt", "..\\a.txt", "/etc/passwd", "..;/a.txt"] {
                ps.push((format!("/{}/{}", form.url, rel), None));
            }
        }
        let raw: Vec<(Vec<u8>, bool)> = ps.iter().enumerate().map(|(j, p)| (mk("GET", &p.0, &j.to_string()), false)).collect();
        let own = vn.contains("body") || vn.contains("1.0");
        let rs: Vec<Reply> = w.wire.serve(|| app_of(form), async |port| {
            let mut out = vec![];
            if own {
                for r in &raw {
                    out.push(wire::once(port, &r.0, false).await);
                }
            } else {
                out = wire::batch(port, &raw).await;
            }
            out
        });
        w.st.traces += 1;
        w.st.transitions += raw.len() as u64;
        w.state(&("around", i));
        for ((p, c), r) in ps.iter().zip(&rs) {
            w.st.evaluations += 1;
            w.outcome(&(r.status(), hash_of(&r.body())));
            let e = if exact {
                expect_file(p, r, *c)
            } else {
                let leak = !inside.contains(&r.body()) && (r.status() == 200 || r.text().contains("OUTSIDE")) || r.text().contains("root:x:0:");
                // part of an inside file is this property's concern only when it leaves the directory
                let partial = || r.status() == 200 && !r.body().is_empty() && inside.iter().any(|f| f.windows(r.body().len()).any(|x| x == r.body()));
                if leak && !partial() { Some(format!("GET {} replied {}, which is no file under {:?}", p, r.show(), form.dir)) } else { None }
            };
            if let Some(e) = e {
                return Err(format!("static form {}, {}: {}", form.name, vn, e));
            }
        }
        Ok(())
    })
}

fn under<'a>(t: &'a Tree, dir: &str) -> Vec<(String, &'a Vec<u8>)> {
    let d = place(dir);
    t.files.iter().filter_map(|(k, v)| place(k).strip_prefix(&d[..]).map(|r| (r.join("/"), v))).collect()
}

fn every_file(form: &Form, w: &mut W) -> CaseResult {
    let t = tree();
    let mut ps = vec![];
    let mut want = vec![];
    for (rel, c) in under(t, &form.dir) {
        let p = format!("/{}", norm(&[&form.url, &rel]));
        if file_ok(&p) {
            ps.push(p);
            want.push(Some(c));
        }
    }
    for miss in ["nope", "nope/nope", "sub/nope", "a.txt/x", "a.txtx", "a.tx", "A.TXT", "sub", "sub/deep", "link-dir", "link-dir/deep", "link-dir/nope", "link", "size", "d0", "d0/d1", "size/4", "index.htm", "a.txt.", ".a.txt", "byte-0g", "sub/a.txt/a.txt", "%61.txt", "", "sub/index.php", "e.html", "e", "b.min", "b", "c", "d", "favicon", "robots", "404", "sub/404", "SUB/a.txt", "Sub/A.txt", "a.txt%20", "a.txt%00", "a.txt%2f", "a.txt;x", "a.txt,", "sub%2fa.txt", "sub%2Fa.txt", "*", "**", ":v"] {
        let rel = miss.to_string();
        if under(t, &form.dir).iter().any(|(k, _)| *k == rel) {
            continue;
        }
        ps.push(format!("/{}", norm(&[&form.url, &rel])));
        want.push(None);
    }
    for n in [201, 254, 255, 256, 257, 300, 1000, 4094, 4095, 4096, 4097, 5000, 20_000] {
        for rel in ["n".repeat(n), format!("sub/{}", "n".repeat(n)), format!("{}/a.txt", "n".repeat(n)), "n/".repeat(n / 2) + "a.txt"] {
            ps.push(format!("/{}", norm(&[&form.url, &rel])));
            want.push(None);
        }
    }
    let rs = ask(w, || app_of(form), &ps);
    w.st.traces += 1;
    w.st.transitions += ps.len() as u64;
    for ((p, r), c) in ps.iter().zip(&rs).zip(&want) {
        w.st.evaluations += 1;
        w.outcome(&(r.status(), hash_of(&r.body())));
        if let Some(e) = expect_file(p, r, *c) {
            return Err(format!("static form {}: {}", form.name, e));
        }
    }
    w.state(&("form", &form.name));
    w.sample(|| format!("{}: {} requests", form.name, ps.len()));
    Ok(())
}

pub fn c17(t: Tier) -> Check {
    let forms = Arc::new(forms());
    let nf = forms.len() as u64;
    let f = forms.clone();
    let mut sections = vec![section("every file of the tree and missing names, every registration form", nf, move |i, w| every_file(&f[i as usize], w))];
    sections.push(vocab_exact(t));
    sections.push(contents_and_extensions());
    sections.push(surrounding(true));
    // sizes beyond the ladder
    let huge: Vec<usize> = t.pick(vec![2_097_151, 2_097_153, 4_194_303, 4_194_304, 4_194_305, 5_000_000, 8_388_609, 10_000_001, 16_777_217], vec![2_097_151, 2_097_153, 4_194_303, 4_194_304, 4_194_305, 5_000_000, 8_388_607, 8_388_609, 10_000_001, 16_777_215, 16_777_217, 33_554_433, 67_108_865, 134_217_729]);
    sections.push(section("large files", huge.len() as u64 * 3, move |i, w| {
        let t = tree();
        let n = huge[i as usize / 3];
        let dir = format!("huge-{}", i);
        let base = t.root.join("base/work").join(&dir);
        std::fs::create_dir_all(&base).unwrap();
        let content = bin(n as u32, n);
        std::fs::write(base.join("f"), &content).unwrap();
        let d2 = dir.clone();
        let mk = || {
            let mut a: App = App::new();
            let d = d2.clone();
            match i % 3 {
                0 => a.use_static_to("/h", &d),
                1 => {
                    let mut r = Router::new();
                    r.use_static_to("/h", &d);
                    a.use_router("/m", r);
                }
                _ => a.get("/h/f", move |c: Context| {
                    let d = d.clone();
                    async move { c.build_file(&format!("{}/f", d)).await.ok() }
                }),
            }
            a
        };
        let url = if i % 3 == 1 { "/m/h/f" } else { "/h/f" };
        let r = w.wire.serve(mk, async |port| {
            let mut c = wire::Conn::open(port).await;
            for _ in 0..2 {
                c.send(&wire::req("GET", url, &[], None)).await;
                let r = c.recv(false).await;
                if let Some(e) = expect_file(url, &r, Some(&content)) {
                    return Err(format!("file of {} bytes, way {}: {}", n, i % 3, e.chars().take(300).collect::<String>()));
                }
            }
            Ok(())
        });
        let _ = std::fs::remove_dir_all(&base);
        w.st.traces += 1;
        w.st.transitions += 2;
        w.st.evaluations += 2;
        w.state(&("huge", i));
        r
    }));
    // build_file / Response::file
    sections.push(section("responses built from a file path", 8, |i, w| {
        let t = tree();
        let mut names: Vec<String> = t.files.keys().filter(|k| k.starts_with("assets/")).cloned().collect();
        let nfiles = names.len();
        names.extend(["assets", "assets/nope", "nope", "assets/a.txt/x", "", "assets/sub", "/", "assets/nope/nope"].iter().map(|s| s.to_string()));
        let names = Arc::new(names);
        let nm = names.clone();
        let root = t.root.clone();
        let mk = move || {
            let mut a: App = App::new();
            let nm = nm.clone();
            let root = root.clone();
            a.get("/f/:n", move |c: Context| {
                let nm = nm.clone();
                let root = root.clone();
                async move {
                    let k: usize = c.param("n")?;
                    let name = &nm[k];
                    let abs = root.join("base/work").join(name).display().to_string();
                    match i {
                        0 => c.build_file(name).await.ok(),
                        1 => {
                            let r = Response::ok().file(name).await;
                            c.build(r).ok()
                        }
                        2 => c.build_file(&abs).await.ok(),
                        3 => {
                            let r = Response::ok().file(&abs).await;
                            c.build(r).ok()
                        }
                        4 => c.build_file(&format!("./{}", name)).await.ok(),
                        5 => {
                            // a body set before the file is replaced
                            let r = Response::ok().set_body("old body").file(name).await;
                            c.build(r).ok()
                        }
                        6 => c.build_file(name).await.with_header_str("x-k", "v").ok(),
                        _ => {
                            let r = Response::ok().with_header_str("x-k", "v").file(name).await;
                            c.build(r).ok()
                        }
                    }
                }
            });
            a
        };
        let raw: Vec<(Vec<u8>, bool)> = (0..names.len()).map(|k| (wire::req("GET", &format!("/f/{}", k), &[], None), false)).collect();
        let rs = w.wire.serve(mk, async |p| wire::batch(p, &raw).await);
        w.st.traces += 1;
        w.st.transitions += raw.len() as u64;
        for (k, r) in rs.iter().enumerate() {
            w.st.evaluations += 1;
            w.outcome(&(i, r.status(), hash_of(&r.body())));
            let want = if k < nfiles { t.files.get(&names[k]) } else { None };
            if let Some(e) = expect_file(&names[k], r, want) {
                return Err(format!("response built from a file path (way {}): {}", i, e));
            }
            if i >= 6 && r.header_all("x-k") != ["v"] {
                return Err(format!("response built from {:?} lost its header: {}", names[k], r.show()));
            }
        }
        w.state(&("build", i));
        Ok(())
    }));
    // histories of one file: what is served is what is there now
    let depth = t.pick(4usize, 6);
    let acts = 5u64;
    let n = acts.pow(depth as u32);
    sections.push(section(&format!("every history of {} changes to a file, read after each", depth), n, move |i, w| {
        let t = tree();
        let dir = format!("hist-{}-{}", i, w.worker);
        let base = t.root.join("base/work").join(&dir);
        std::fs::create_dir_all(&base).unwrap();
        let mut acts_v = vec![];
        let mut x = i;
        for _ in 0..depth {
            acts_v.push(x % acts);
            x /= acts;
        }
        let d2 = dir.clone();
        let mk = move || {
            let mut a: App = App::new();
            a.use_static_to("/h", &d2);
            a.use_static(&d2);
            a
        };
        let file = base.join("f.bin");
        let d3 = dir.clone();
        let r = w.wire.serve(mk, async |port| {
            let mut c = wire::Conn::open(port).await;
            let mut cur: Option<Vec<u8>> = None;
            for (k, act) in acts_v.iter().enumerate() {
                match act {
                    0 => cur = Some(b"version A".to_vec()),
                    1 => cur = Some(b"version B".to_vec()),
                    2 => cur = Some(vec![]),
                    3 => cur = None,
                    _ => cur = Some(vec![0xff; 9]),
                }
                match &cur {
                    Some(x) => std::fs::write(&file, x).unwrap(),
                    None => {
                        let _ = std::fs::remove_file(&file);
                    }
                }
                for u in ["/h/f.bin".to_string(), format!("/{}/f.bin", d3)] {
                    c.send(&wire::req("GET", &u, &[], None)).await;
                    let r = c.recv(false).await;
                    if let Some(e) = expect_file(&u, &r, cur.as_ref()) {
                        return Err(format!("after {} changes {:?} (0 write A, 1 write B, 2 truncate, 3 delete, 4 binary): {}", k + 1, acts_v, e));
                    }
                }
            }
            Ok(())
        });
        let _ = std::fs::remove_dir_all(&base);
        w.st.traces += 1;
        w.st.transitions += depth as u64;
        w.st.evaluations += 2 * depth as u64;
        w.state(&("hist", i));
        w.sample(|| format!("history {:?}", acts_v));
        r
    }));
    // any order of requests for several files on one connection
    let seqlen = t.pick(4u32, 5);
    let names = ["a.txt", "sub/a.txt", "byte-ff", "nope", "size/65537", "size/0"];
    let k = names.len() as u64;
    let per = k.pow(seqlen - 1);
    sections.push(section(&format!("every sequence of {} requests on one server", seqlen), k, move |i, w| {
        let t = tree();
        let mk = || {
            let mut a: App = App::new();
            a.use_static_to("/files", "assets");
            a
        };
        let r = w.wire.serve(mk, async |port| {
            for rest in 0..per {
                let mut seq = vec![names[i as usize]];
                let mut x = rest;
                for _ in 1..seqlen {
                    seq.push(names[(x % k) as usize]);
                    x /= k;
                }
                let mut c = wire::Conn::open(port).await;
                for n in &seq {
                    c.send(&wire::req("GET", &format!("/files/{}", n), &[], None)).await;
                    let r = c.recv(false).await;
                    if let Some(e) = expect_file(n, &r, t.files.get(&format!("assets/{}", n))) {
                        return Err(format!("in sequence {:?}: {}", seq, e));
                    }
                }
            }
            Ok(())
        });
        w.st.traces += per;
        w.st.transitions += per * seqlen as u64;
        w.st.evaluations += per * seqlen as u64;
        for r in 0..per {
            w.state(&("seq", i, r));
        }
        r
    }));
    let f = forms.clone();
    // slow and interleaved: several clients read different files at once
    sections.push(section("several clients at once", nf, move |i, w| {
        let t = tree();
        let form = &f[i as usize];
        let fs: Vec<(String, &Vec<u8>)> = under(t, &form.dir).into_iter().filter(|(k, _)| file_ok(&format!("/{}", k))).collect();
        let pick: Vec<&(String, &Vec<u8>)> = fs.iter().step_by((fs.len() / 12).max(1)).collect();
        let r = w.wire.serve(|| app_of(form), async |port| {
            let mut cs = vec![];
            for (rel, _) in pick.iter().map(|x| (&x.0, x.1)) {
                let mut c = wire::Conn::open(port).await;
                c.send(&wire::req("GET", &format!("/{}", norm(&[&form.url, rel])), &[], None)).await;
                cs.push(c);
            }
            for (c, p) in cs.iter_mut().zip(&pick).rev() {
                let r = c.recv(false).await;
                if let Some(e) = expect_file(&p.0, &r, Some(p.1)) {
                    return Err(format!("static form {}, {} clients at once: {}", form.name, pick.len(), e));
                }
            }
            Ok(())
        });
        w.st.traces += 1;
        w.state(&("clients", i));
        w.st.evaluations += pick.len() as u64;
        r
    }));
    Check {
        id: "C17",
        level: "model_checking",
        rule: "a scratch tree (every single byte value alone and embedded, invalid/odd encodings, odd names, size ladder to 3 MB, 24 levels deep) read through every registration form and every way of building a file response; every history of writes/truncations/deletions up to the depth with a read after each; every request sequence up to the length; compared byte for byte with the tree".into(),
        assumptions: vec!["file names that cannot appear in a request line unescaped are read through build_file only".into(), "of the I/O errors, those for missing, too long and unusable names, directories and exhausted descriptors are explored".into()],
        sections,
    }
}

// ------------------------------------------------------------------------------------------------ parts of C04 and C08

pub fn slash_sections(_t: Tier) -> Vec<Section> {
    let forms = Arc::new(forms());
    let nf = forms.len() as u64;
    vec![section("static requests with redundant slashes", nf, move |i, w| {
        let t = tree();
        let form = &forms[i as usize];
        let mut ps = vec![];
        let mut plain = vec![];
        let mut want: Vec<Option<&Vec<u8>>> = vec![];
        for rel in ["a.txt", "sub/a.txt", "sub/deep/b.txt", "d0/d1/d2/f.txt", "nope", "deep/b.txt"] {
            let c = t.files.get(&norm(&[form.dir.trim_start_matches("./"), rel]));
            let url = norm(&[&form.url, rel]);
            let segs: Vec<&str> = url.split('/').collect();
            for lead in 1..=3 {
                for trail in 0..=2 {
                    for gap in 0..segs.len() {
                        for width in [1usize, 2, 4] {
                            if lead == 1 && trail == 0 && width == 1 {
                                continue;
                            }
                            let mut p = "/".repeat(lead);
                            for (k, s) in segs.iter().enumerate() {
                                if k > 0 {
                                    p.push_str(&"/".repeat(if k == gap { width } else { 1 }));
                                }
                                p.push_str(s);
                            }
                            p.push_str(&"/".repeat(trail));
                            ps.push(p);
                            plain.push(format!("/{}", url));
                            want.push(c);
                        }
                    }
                }
            }
        }
        let rs = ask(w, || app_of(form), &ps);
        let pl = ask(w, || app_of(form), &plain);
        w.st.traces += 2;
        w.st.transitions += 1;
        w.state(&("static", i));
        for k in 0..ps.len() {
            w.st.evaluations += 1;
            // only sameness is this property's business; byte-exactness is C17's
            if (rs[k].status(), rs[k].body()) != (pl[k].status(), pl[k].body()) {
                return Err(format!("static form {}: slashes matter: GET {} -> {}\n GET {} -> {}", form.name, plain[k], pl[k].show(), ps[k], rs[k].show()));
            }
        }
        let _ = want;
        Ok(())
    })]
}

/// Static routes in mounted routers against the same static route registered with the prefix in front.
pub fn mount_sections(_t: Tier) -> Vec<Section> {
    let prefixes: Vec<Vec<&'static str>> = vec![vec!["/m"], vec!["m/"], vec!["/m/n"], vec!["/m", "/n"], vec!["/files"], vec!["/a", "/b", "/c"], vec!["/:v"], vec!["/assets"]];
    let n = prefixes.len() as u64;
    vec![section("mounted static routes", n * 3, move |i, w| {
        let t = tree();
        let _ = t;
        let pf = &prefixes[(i / 3) as usize];
        let virt = ["/files", "/", "/x/files"][(i % 3) as usize];
        let mounted = Form { name: String::new(), dir: "assets".into(), url: String::new(), kind: Kind::To(virt.into(), "assets".into()), mounts: pf.iter().map(|s| s.to_string()).collect(), scope: i % 2 == 0 };
        let flat_path = format!("/{}", norm(&[&pf.join("/"), virt]));
        let flat = Form { name: String::new(), dir: "assets".into(), url: String::new(), kind: Kind::To(flat_path.clone(), "assets".into()), mounts: vec![], scope: false };
        let url = flat_path.replace(":v", "anything");
        let mut ps: Vec<String> = vec![];
        for rel in ["a.txt", "sub/a.txt", "sub/deep/b.txt", "nope", "sub", "d0/d1/d2/f.txt", "", "../a.txt", "assets/a.txt", "files/a.txt", "byte-ff"] {
            ps.push(format!("{}/{}", url, rel));
        }
        ps.push("/files/a.txt".into());
        ps.push("/a.txt".into());
        let a = ask(w, || app_of(&mounted), &ps);
        let b = ask(w, || app_of(&flat), &ps);
        w.st.traces += 2;
        w.st.transitions += 2;
        w.state(&("static mount", i));
        for k in 0..ps.len() {
            w.st.evaluations += 1;
            if (a[k].status(), a[k].body()) != (b[k].status(), b[k].body()) {
                return Err(format!("static route {:?} of \"assets\" mounted at {:?}: GET {} -> {}\nregistered directly at {:?} -> {}", virt, pf, ps[k], a[k].show(), flat_path, b[k].show()));
            }
        }
        Ok(())
    })]
}

#[allow(dead_code)]
pub fn exists(p: &Path) -> bool {
    p.exists()
}
