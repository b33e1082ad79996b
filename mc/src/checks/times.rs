//! Time itself as an input: the same requests with the clocks running thousands of times as fast (so that seconds, minutes, hours and
//! days pass at every point where something waits, and between requests), standing still, and with the wall clock set back and forth
//! around and inside requests. Each run has a process of its own, since a process has one set of clocks.
use super::all::{self, Ask};
use super::slow;
use crate::clock;
use crate::common::*;
use crate::wire::{Conn, Reply};
use std::time::Duration;

/// (clock rate, durations in ms that become affordable with it)
const LADDERS: [(u64, &[u64]); 3] = [
    (2_000, &[5_000, 15_000, 31_000, 46_000, 61_000, 91_000, 121_000, 185_000, 301_000, 601_000, 901_000, 1_801_000, 3_601_000]),
    (60_000, &[3_000_000, 7_300_000, 18_100_000, 43_300_000, 86_500_000, 90_000_000]),
    (3_000_000, &[180_000_000, 620_000_000, 2_700_000_000, 5_200_000_000]),
];

/// the last one is not about time: few file descriptors for a long run
const KINDS: u64 = 2 + 2 * LADDERS.len() as u64 + 1;

/// variables a deployment may have set; all of them at once, to each of the values
const VARIABLES: &[&str] = &[
    "RUST_LOG", "RUST_BACKTRACE", "DEBUG", "NO_COLOR", "CLICOLOR", "CLICOLOR_FORCE", "FORCE_COLOR", "TERM", "COLORTERM", "ENV", "NODE_ENV", "APP_ENV", "RUST_ENV", "ENVIRONMENT", "STAGE", "PROFILE", "CI", "TEST", "TESTING", "VERBOSE", "QUIET", "LOG", "LOG_LEVEL", "LOG_FORMAT", "TRACE", "PORT", "HOST", "ADDR", "BIND", "HOSTNAME", "DOMAIN",
    "SERVER_NAME", "BASE_URL", "BASE_PATH", "ROOT", "PREFIX", "PATH_PREFIX", "STATIC_DIR", "STATIC_ROOT", "PUBLIC_DIR", "PUBLIC_URL", "ASSETS", "DOCUMENT_ROOT", "REQUEST_METHOD", "PATH_INFO", "QUERY_STRING", "CONTENT_LENGTH", "HTTP_HOST", "HTTP_PROXY", "HTTPS_PROXY", "NO_PROXY", "http_proxy", "https_proxy", "LANG", "LC_ALL", "LC_CTYPE", "TZ",
    "HOME", "USER", "PWD", "OLDPWD", "SHELL", "MAINTENANCE", "READ_ONLY", "READONLY", "DISABLE_LOGGER", "TIMEOUT", "MAX_BODY_SIZE", "BODY_LIMIT", "WORKERS", "THREADS", "CACHE", "SECRET", "TOKEN", "API_KEY", "OBSIDIAN", "OBSIDIAN_ENV", "OBSIDIAN_LOG", "OBSIDIAN_DEBUG", "OBSIDIAN_MODE", "OBSIDIAN_HOST", "OBSIDIAN_PORT", "OBSIDIAN_ROOT", "OBSIDIAN_PREFIX", "OBSIDIAN_STRICT", "OBSIDIAN_STATIC",
    "OBSIDIAN_MAX_BODY", "OBSIDIAN_TIMEOUT", "CARGO_PKG_VERSION", "CARGO_MANIFEST_DIR",
];
const VALUES: &[&str] = &["1", "0", "true", "false", "", "debug", "production", "/", "a", "10"];

/// every request in a process with these variables, against the same in a process without
fn environments(id: &'static str) -> CaseResult {
    let mut names: Vec<String> = VARIABLES.iter().map(|x| x.to_string()).collect();
    names.extend(crate::dict::new_words().into_iter().filter(|w| w.chars().all(|c| c.is_ascii_alphanumeric() || c == '_') && !["PATH", "TMPDIR"].contains(&&w[..]) && !["LD_", "MC_", "MALLOC", "GLIBC", "RUST_MIN", "LLVM", "TOKIO", "ASYNC_STD"].iter().any(|p| w.starts_with(p))));
    let ask = |value: Option<&str>| -> Result<String, String> {
        let mut c = std::process::Command::new(std::env::current_exe().map_err(|e| e.to_string())?);
        let out = std::env::temp_dir().join(format!("mc-env-{}-{}", id, std::process::id()));
        c.args(["times", id, &KINDS.to_string(), &out.display().to_string()]).env("MC_SCRATCH", super::statics::scratch_path().join("times-env"));
        for n in &names {
            match value {
                Some(v) => c.env(n, v),
                None => c.env_remove(n),
            };
        }
        let st = c.stdin(std::process::Stdio::null()).stdout(std::process::Stdio::null()).stderr(std::process::Stdio::null()).status().map_err(|e| e.to_string())?;
        let said = std::fs::read_to_string(&out).unwrap_or_default();
        let _ = std::fs::remove_file(&out);
        if said.starts_with("REPLIES") {
            Ok(said)
        } else {
            Err(format!("the process ended with {}: {}", st, said))
        }
    };
    let want = ask(None)?;
    for v in VALUES {
        let got = ask(Some(v)).map_err(|e| format!("with the environment variables {:?}... set to {:?}: {}", &names[..6], v, e))?;
        if got != want {
            let (a, b) = want.lines().zip(got.lines()).find(|(a, b)| a != b).unwrap_or(("", ""));
            return Err(format!("with {} environment variables set to {:?}:\n  without: {}\n  with:    {}", names.len(), v, a, b));
        }
    }
    Ok(())
}

fn day(n: i64) -> i64 {
    n * 86_400_000_000_000
}

fn walls() -> Vec<(&'static str, i64)> {
    vec![
        ("2001", day(11_323)),
        ("2026-12-31T23:59:59.9999", day(20_819) - 100_000),
        ("2027", day(20_819)),
        ("2028-02-29", day(21_243)),
        ("2038-01-19T03:14:07.9999", 2_147_483_648_000_000_000 - 100_000),
        ("2038-01-19T03:14:08", 2_147_483_648_000_000_000),
        ("2100", day(47_483)),
        ("2106-02-07T06:28:16", 4_294_967_296_000_000_000),
    ]
}

async fn ask(c: &mut Option<Conn>, port: u16, a: &Ask, patience: Duration) -> Reply {
    if c.is_none() {
        *c = Some(Conn::open(port).await);
    }
    let k = c.as_mut().unwrap();
    k.patience = patience;
    k.send(&a.bytes()).await;
    let r = k.recv(a.head()).await;
    if !matches!(r, Reply::Full { .. }) || r.header_all("connection").iter().any(|v| v == "close") {
        *c = None;
    }
    r
}

fn same(what: &str, a: &Ask, want: &Reply, got: &Reply) -> Result<(), String> {
    if want.key() == got.key() {
        return Ok(());
    }
    Err(format!("{}: {}\n  without: {}\n  with:    {}", what, a.show(), want.show(), got.show()))
}

/// wakes the runtime every real millisecond: its timers look at the clock only when something happens
fn ticker(n: std::sync::Arc<tokio::sync::Notify>) -> std::sync::Arc<std::sync::atomic::AtomicBool> {
    let stop = std::sync::Arc::new(std::sync::atomic::AtomicBool::new(false));
    let s = stop.clone();
    std::thread::spawn(move || {
        while !s.load(std::sync::atomic::Ordering::SeqCst) {
            std::thread::sleep(Duration::from_millis(1));
            n.notify_one();
        }
    });
    stop
}

/// in the process of its own
pub fn run(id: &'static str, i: u64) -> CaseResult {
    let dir = super::statics::scratch_path().join(format!("times-{}-{}", id, i));
    std::fs::create_dir_all(&dir).expect("scratch");
    std::env::set_current_dir(&dir).expect("scratch");
    all::files(0);
    let mut w = W::new(i as usize % 8);
    let asks = all::asks(id);
    let logger = id == "C20" && i % 2 == 0;
    let base = w.wire.serve(|| all::app(false), async |port| all::fresh_replies(port, &asks).await);
    if std::env::var_os("MC_SHOW").is_some() {
        for (a, r) in asks.iter().zip(&base) {
            out(&format!("{} -> {}", a.show(), r.show()));
        }
    }
    let r = match i {
        0 => wall_steps(&mut w, logger, &asks, &base, id),
        1 => w.wire.serve(
            || all::app(id == "C20"),
            async |port| {
                let mut c = None;
                clock::rate(0);
                let mut r = Ok(());
                for _ in 0..3 {
                    for (a, want) in asks.iter().zip(&base) {
                        let got = ask(&mut c, port, a, Duration::from_secs(20)).await;
                        r = r.and(same("clocks standing still", a, want, &got));
                    }
                }
                clock::rate(1);
                r
            },
        ),
        KINDS => {
            let again = w.wire.serve(|| all::app(id == "C20"), async |port| all::fresh_replies(port, &asks).await);
            Err(asks.iter().zip(base.iter().zip(&again)).fold("REPLIES".to_string(), |s, (a, (b, l))| format!("{}\n{} -> {:?} {:?}", s, a.show(), b.key(), l.key())))
        }
        i if i == KINDS - 1 => few_descriptors(&mut w, id, &asks, &base),
        _ => {
            let (rate, delays) = LADDERS[(i as usize - 2) / 2];
            if i % 2 == 0 {
                spaced(&mut w, id, logger, rate, delays, &asks, &base)
            } else {
                fast(&mut w, id, rate, delays)
            }
        }
    };
    let _ = std::env::set_current_dir("/");
    r
}

/// every request many times over, whole, cut off and abandoned, in a process that may open only a few files at a time
fn few_descriptors(w: &mut W, id: &str, asks: &[Ask], base: &[Reply]) -> CaseResult {
    w.wire.serve(
        || all::app(false),
        async |port| {
            let open = std::fs::read_dir("/proc/self/fd").map(|d| d.count()).unwrap_or(40) as u64;
            let lim = libc::rlimit { rlim_cur: open + 24, rlim_max: open + 24 };
            unsafe { libc::setrlimit(libc::RLIMIT_NOFILE, &lim) };
            let patience = Duration::from_secs(20);
            let mut kept = None;
            for round in 0..60 {
                for (a, want) in asks.iter().zip(base) {
                    let b = a.bytes();
                    for cut in [0, b.len() / 2, b.len() - 1, b.len()] {
                        if cut > 0 {
                            let mut c = Conn::open(port).await;
                            c.send(&b[..cut]).await;
                            tokio::task::yield_now().await;
                        }
                    }
                    for fresh in [false, true] {
                        let mut none = None;
                        let got = ask(if fresh { &mut none } else { &mut kept }, port, a, patience).await;
                        same(&format!("few descriptors, round {} of {}", round, id), a, want, &got)?;
                    }
                }
            }
            if id != "C21" {
                return Ok(());
            }
            // none left at all, so that no further connection can be accepted for a while: the ones there go on, and
            // later ones are served
            let plain: Vec<usize> = (0..asks.len()).filter(|k| !asks[*k].path.contains("/file") && !asks[*k].path.starts_with("/stat") && asks[*k].path != "/panics").collect();
            let mut kept = None;
            for round in 0..4 {
                same("before the descriptors run out", &asks[plain[0]], &base[plain[0]], &ask(&mut kept, port, &asks[plain[0]], patience).await)?;
                let mut held = vec![];
                for _ in 0..100 {
                    match std::net::TcpStream::connect(("127.0.0.1", port)) {
                        Ok(s) => held.push(s),
                        Err(e) if e.kind() == std::io::ErrorKind::ConnectionRefused => return Err(format!("round {}: nobody listens any more after {} connections at once", round, held.len())),
                        Err(_) => break,
                    }
                }
                let full = held.len();
                for _ in 0..round + 1 {
                    tokio::time::sleep(Duration::from_millis(15)).await;
                    for k in &plain {
                        // one that closed its connection would need a new one
                        if kept.is_some() {
                            same(&format!("round {}: on a connection that was there when the descriptors ran out ({} connections)", round, full), &asks[*k], &base[*k], &ask(&mut kept, port, &asks[*k], patience).await)?;
                        }
                    }
                }
                if round % 2 == 0 {
                    held.truncate(held.len() / 2);
                }
                drop(held);
                for k in &plain {
                    let s = (0..200).find_map(|j| {
                        if j > 0 {
                            std::thread::sleep(Duration::from_millis(2));
                        }
                        std::net::TcpStream::connect(("127.0.0.1", port)).map_err(|e| e.kind()).ok()
                    });
                    if s.is_none() {
                        return Err(format!("round {}: no connection after the descriptors ran out and were free again", round));
                    }
                    drop(s);
                    let mut none = None;
                    same(&format!("round {}: on a new connection after the descriptors ran out and were free again", round), &asks[*k], &base[*k], &ask(&mut none, port, &asks[*k], patience).await)?;
                }
            }
            Ok(())
        },
    )
}

/// every step from one wall clock time to another, around every request and inside one
fn wall_steps(w: &mut W, logger: bool, asks: &[Ask], base: &[Reply], id: &str) -> CaseResult {
    let ws = walls();
    w.wire.serve(
        || {
            let mut a = all::app(logger);
            a.get("/set-clock/:a", |c: obsidian::context::Context| async move {
                clock::set_wall(walls()[c.param::<usize>("a")?].1);
                all::say(c, "set")
            });
            a
        },
        async |port| {
            let mut c = None;
            let set = |b: usize| Ask { method: "GET", path: format!("/set-clock/{}", b), body: None };
            let patience = Duration::from_secs(20);
            let mut wants = vec![];
            for b in 0..ws.len() {
                wants.push(ask(&mut c, port, &set(b), patience).await);
            }
            for (n, a) in &ws {
                for (b, (m, _)) in ws.iter().enumerate() {
                    clock::set_wall(*a);
                    let what = format!("wall clock set from {} to {}", n, m);
                    let q = set(b);
                    let got = ask(&mut c, port, &q, patience).await;
                    if !["C12", "C13", "C14", "C15", "C16", "C17"].contains(&id) {
                        same(&what, &q, &wants[b], &got)?;
                    }
                    for (x, want) in asks.iter().zip(base) {
                        let got = ask(&mut c, port, x, patience).await;
                        same(&what, x, want, &got)?;
                    }
                }
            }
            Ok(())
        },
    )
}

/// every request again and again, each duration later than the last time: on one connection, on connections kept for that long, on fresh ones
fn spaced(w: &mut W, id: &str, logger: bool, rate: u64, delays: &[u64], asks: &[Ask], base: &[Reply]) -> CaseResult {
    w.wire.serve(
        || all::app(logger),
        async |port| {
            let n = std::sync::Arc::new(tokio::sync::Notify::new());
            let stop = ticker(n.clone());
            tokio::task::spawn_local({
                let n = n.clone();
                async move {
                    loop {
                        n.notified().await
                    }
                }
            });
            let patience = Duration::from_secs(20 * rate);
            clock::rate(rate);
            let mut base: Vec<Reply> = base.to_vec();
            let mut kept = None;
            let mut r = Ok(());
            let mut version = 0;
            'all: for (k, d) in [0].iter().chain(delays).enumerate() {
                let mut idle = Some(Conn::open(port).await);
                tokio::time::sleep(Duration::from_millis(*d)).await;
                // what the files contain may change while nobody asks, or between two who do
                if ["C17", "C21", "C20"].contains(&id) && k % 2 == 1 {
                    version += 1;
                    all::files(version);
                    clock::rate(1);
                    base = w_fresh(asks).await;
                    clock::rate(rate);
                }
                for (a, want) in asks.iter().zip(&base) {
                    for which in 0..3 {
                        let got = match which {
                            0 => ask(&mut kept, port, a, patience).await,
                            1 => ask(&mut idle, port, a, patience).await,
                            _ => ask(&mut None, port, a, patience).await,
                        };
                        r = same(&format!("{} s later, connection {}", d / 1000, ["used before", "opened before", "fresh"][which]), a, want, &got);
                        if r.is_err() {
                            break 'all;
                        }
                    }
                }
                if id == "C17" {
                    // changed right after having been asked for
                    version += 1;
                    all::files(version);
                    clock::rate(1);
                    base = w_fresh(asks).await;
                    clock::rate(rate);
                    for (a, want) in asks.iter().zip(&base) {
                        let got = ask(&mut kept, port, a, patience).await;
                        r = same(&format!("file changed {} s after the previous change", d / 1000), a, want, &got);
                        if r.is_err() {
                            break 'all;
                        }
                    }
                }
            }
            stop.store(true, std::sync::atomic::Ordering::SeqCst);
            clock::rate(1);
            r
        },
    )
}

/// the replies of a server started for the purpose, in a thread of its own
async fn w_fresh(asks: &[Ask]) -> Vec<Reply> {
    std::thread::scope(|s| {
        s.spawn(|| W::new(9).wire.serve(|| all::app(false), async |port| all::fresh_replies(port, asks).await)).join().expect("fresh server")
    })
}

fn fast(w: &mut W, id: &'static str, rate: u64, delays: &[u64]) -> CaseResult {
    let n = std::sync::Arc::new(tokio::sync::Notify::new());
    let stop = ticker(n.clone());
    clock::rate(rate);
    let rs = slow::play(w, id, delays, id == "C20", Duration::from_secs(20 * rate), delays.last().unwrap() / 100, Some(n));
    clock::rate(1);
    stop.store(true, std::sync::atomic::Ordering::SeqCst);
    for r in rs {
        r?;
    }
    Ok(())
}

pub fn section_for(id: &'static str) -> Section {
    let stories = ["C07", "C11", "C12", "C15", "C18", "C19", "C20", "C21"].contains(&id);
    section("slow processes of their own: clocks running fast, standing still, set back and forth; few descriptors; odd environments", KINDS + 1, move |i, w| {
        if !stories && i > 2 && i % 2 == 1 && i != KINDS {
            return Ok(());
        }
        if i == KINDS {
            w.st.traces += 1 + VALUES.len() as u64;
            w.state(&("times", i));
            w.st.evaluations += all::asks(id).len() as u64 * VALUES.len() as u64;
            w.st.transitions += all::asks(id).len() as u64 * VALUES.len() as u64;
            return environments(id);
        }
        if i == KINDS - 1 && !["C17", "C16", "C12", "C15", "C21", "C10"].contains(&id) {
            return Ok(());
        }
        let exe = std::env::current_exe().map_err(|e| e.to_string())?;
        let out = std::env::temp_dir().join(format!("mc-times-{}-{}-{}", id, i, std::process::id()));
        let mut child = std::process::Command::new(exe)
            .args(["times", id, &i.to_string(), &out.display().to_string()])
            .env("MC_SCRATCH", super::statics::scratch_path().join("times"))
            .stdout(std::process::Stdio::null())
            .stderr(std::process::Stdio::null())
            .spawn()
            .map_err(|e| e.to_string())?;
        let t0 = std::time::Instant::now();
        let status = loop {
            match child.try_wait() {
                Ok(Some(s)) => break Some(s),
                Ok(None) if t0.elapsed() > Duration::from_secs(150) => {
                    let _ = child.kill();
                    let _ = child.wait();
                    break None;
                }
                _ => std::thread::sleep(Duration::from_millis(5)),
            }
        };
        let said = std::fs::read_to_string(&out).unwrap_or_default();
        let _ = std::fs::remove_file(&out);
        w.st.traces += 1;
        w.state(&("times", i));
        w.st.transitions += all::asks(id).len() as u64;
        w.st.evaluations += all::asks(id).len() as u64;
        match status {
            Some(s) if s.success() && said == "held" => Ok(()),
            None => Err(format!("no end to it with the clocks of case {}", i)),
            Some(_) if said.starts_with("ENGINE") => panic!("{}", said),
            Some(s) if said.is_empty() => Err(format!("the process ended with {} with the clocks of case {}", s, i)),
            Some(_) => Err(said),
        }
    })
}
