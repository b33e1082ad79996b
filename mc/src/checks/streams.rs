//! The process's standard streams in every state a deployment may leave them in: what a request is answered must not depend on
//! whether somebody still reads what the framework prints about it.
use crate::common::*;
use crate::script::{make_err, NERR};
use crate::wire;
use obsidian::context::Context;
use obsidian::middleware::logger::Logger;
use obsidian::router::Response;
use obsidian::{App, ObsidianError};

#[derive(Clone, Copy, Debug, PartialEq)]
enum Fault {
    /// the reader of the pipe has gone
    BrokenPipe,
    /// no space left
    Full,
    /// a pipe nobody empties, in non-blocking mode
    WouldBlock,
    /// a descriptor that cannot be written
    ReadOnly,
}

const FAULTS: [Fault; 4] = [Fault::BrokenPipe, Fault::Full, Fault::WouldBlock, Fault::ReadOnly];

struct Broken(Vec<(i32, i32)>, Vec<i32>);

fn broken(f: Fault, fds: &[i32]) -> Broken {
    let mut b = Broken(vec![], vec![]);
    unsafe {
        let mut p = [0i32; 2];
        let bad = match f {
            Fault::BrokenPipe => {
                libc::pipe(p.as_mut_ptr());
                libc::close(p[0]);
                p[1]
            }
            Fault::Full => libc::open(b"/dev/full\0".as_ptr() as *const _, libc::O_WRONLY),
            Fault::WouldBlock => {
                libc::pipe(p.as_mut_ptr());
                libc::fcntl(p[1], libc::F_SETFL, libc::O_NONBLOCK);
                let junk = [b'x'; 4096];
                while libc::write(p[1], junk.as_ptr() as *const _, junk.len()) > 0 {}
                while libc::write(p[1], junk.as_ptr() as *const _, 1) > 0 {}
                b.1.push(p[0]);
                p[1]
            }
            Fault::ReadOnly => libc::open(b"/dev/null\0".as_ptr() as *const _, libc::O_RDONLY),
        };
        if bad < 0 {
            return b;
        }
        for fd in fds {
            let saved = libc::dup(*fd);
            libc::dup2(bad, *fd);
            b.0.push((*fd, saved));
        }
        libc::close(bad);
    }
    b
}

impl Drop for Broken {
    fn drop(&mut self) {
        unsafe {
            for (fd, saved) in &self.0 {
                libc::dup2(*saved, *fd);
                libc::close(*saved);
            }
            for fd in &self.1 {
                libc::close(*fd);
            }
        }
    }
}

struct NoJson;

impl serde::Serialize for NoJson {
    fn serialize<S: serde::Serializer>(&self, _s: S) -> Result<S::Ok, S::Error> {
        Err(serde::ser::Error::custom("not to be written"))
    }
}

/// loggers: 0 none, 1 App::default, 2 explicit at the root and a path, 3 all of them
fn app(loggers: u8) -> App {
    let mut a: App = if loggers & 1 == 1 { App::default() } else { App::new() };
    if loggers & 2 == 2 {
        a.use_service(Logger::new());
        for p in ["/ok/b", "/ok/b/:v", "/err/:k", "/nothing", "/json", "/static/*"] {
            a.use_service_to(p, Logger::new());
        }
    }
    a.get("/ok/b", |c: Context| async move { c.build("ok").with_status(obsidian::StatusCode::ACCEPTED).ok() });
    a.get("/ok/b/:v", |c: Context| async move {
        let v: u32 = c.param("v")?;
        c.build(v.to_string()).ok()
    });
    a.post("/ok/b", |mut c: Context| async move {
        let v: std::collections::BTreeMap<String, String> = c.form().await?;
        c.build(format!("{:?}", v)).ok()
    });
    a.get("/err/:k", |c: Context| async move { Err::<Context, ObsidianError>(make_err(c.param::<usize>("k")?)) });
    a.get("/nothing", |c: Context| async move { Ok(c) });
    a.get("/json", |c: Context| async move { c.build_json(vec![1, 2]).ok() });
    a.get("/no-json", |c: Context| async move { c.build_json(NoJson).ok() });
    a.get("/no-json-set", |c: Context| async move { c.build(Response::ok().json(NoJson)).ok() });
    a.get("/bytes", |c: Context| async move { c.build(vec![1u8, 2]).ok() });
    a.get("/file", |c: Context| async move { c.build(Response::ok().file("no such directory/no such file").await).ok() });
    a.get("/build-file", |c: Context| async move { c.build_file("no such directory/no such file").await.ok() });
    a.use_static_to("/static", "./no such directory/");
    a.get("/none", |c: Context| async move { c.build(None::<String>).ok() });
    a.get("/panics", |_c: Context| async move { if true { panic!("as asked") } else { Ok(_c) } });
    a
}

fn requests(id: &str) -> Vec<(&'static str, String, Option<&'static [u8]>)> {
    let mut v: Vec<(&'static str, String, Option<&'static [u8]>)> = vec![];
    let of = |l: &[&str]| -> Vec<(&'static str, String, Option<&'static [u8]>)> { l.iter().map(|x| ("GET", x.to_string(), None)).collect() };
    match id {
        "C10" => v.extend(of(&["/no-json", "/no-json-set", "/bytes", "/json", "/ok/b", "/none"])),
        "C17" => v.extend(of(&["/file", "/build-file", "/static/x", "/static/x/y", "/static/.."])),
        "C11" => {
            v.extend((0..NERR).map(|k| ("GET", format!("/err/{}", k), None)));
            v.extend(of(&["/nothing", "/ok/b/x", "/ok/b"]));
            v.push(("POST", "/ok/b".into(), Some(b"a=1")));
        }
        _ => {
            v.extend(of(&["/ok/b", "/ok/b/7", "/ok/b/x", "/nothing", "/json", "/bytes", "/none", "/nowhere", "/panics", "/ok/b?q=%00", "/static/x"]));
            v.extend((0..NERR).map(|k| ("GET", format!("/err/{}", k), None)));
            v.push(("POST", "/ok/b".into(), Some(b"a=1&b=%ff")));
            v.push(("BREW", "/ok/b".into(), None));
        }
    }
    v
}

/// One case (the streams belong to the whole process): every fault, on either stream and both, before every request, against the
/// same requests with the streams as they should be.
pub fn section_for(id: &'static str) -> Section {
    section("standard streams that cannot be written", 1, move |_, w| {
        let reqs = requests(id);
        let logs: &[u8] = if id == "C20" { &[1, 2, 3] } else { &[0] };
        let run = |w: &mut W, loggers: u8, fault: Option<(Fault, &[i32])>| -> Vec<wire::Reply> {
            w.wire.serve(
                || app(loggers),
                async |port| {
                    // the server greets on standard output once
                    let hello = wire::once(port, &wire::req("GET", "/ok/b", &[], None), false).await;
                    let _b = fault.map(|(f, fds)| broken(f, fds));
                    let mut rs = vec![hello];
                    for (m, p, b) in &reqs {
                        let mut c = wire::Conn::open(port).await;
                        for _ in 0..2 {
                            c.send(&wire::req(m, p, &[], *b)).await;
                            let r = c.recv(false).await;
                            let gone = !matches!(r, wire::Reply::Full { .. });
                            rs.push(r);
                            if gone {
                                break;
                            }
                        }
                    }
                    rs
                },
            )
        };
        for l in logs {
            for f in FAULTS {
                for fds in [&[1][..], &[2], &[1, 2]] {
                    // without loggers and, for what concerns the logger alone, with the streams in the same state
                    let base = if id == "C20" { run(w, 0, Some((f, fds))) } else { run(w, *l, None) };
                    let got = run(w, *l, Some((f, fds)));
                    w.st.traces += 1;
                    w.state(&(*l, f as u8, fds));
                    let whole = base.len() == got.len();
                    for (k, (b, g)) in base.iter().zip(&got).enumerate() {
                        w.st.evaluations += 1;
                        w.st.transitions += 1;
                        w.outcome(&g.key());
                        if b.key() != g.key() || std::mem::discriminant(b) != std::mem::discriminant(g) {
                            return Err(format!("{:?} on streams {:?}, loggers {}: reply {} of {:?}: expected {}, got {}", f, fds, l, k, reqs, b.show(), g.show()));
                        }
                    }
                    if !whole {
                        return Err(format!("{:?} on streams {:?}, loggers {}: {} replies instead of {}", f, fds, l, got.len(), base.len()));
                    }
                }
            }
        }
        Ok(())
    })
}
