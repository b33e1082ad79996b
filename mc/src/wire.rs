//! The real server (`App::listen`) on loopback and a raw HTTP/1.1 client, in one single-threaded runtime.
use obsidian::App;
use std::time::Duration;
use tokio::io::{AsyncReadExt, AsyncWriteExt};
use tokio::net::TcpStream;

pub const REPLY_TIMEOUT: Duration = Duration::from_secs(20);

pub struct WireBox {
    base: u16,
    off: u16,
}

const SPAN: u16 = 1400;

impl WireBox {
    pub fn new(worker: usize) -> WireBox {
        // spread concurrent processes a little; correctness does not depend on it (bind failures are retried)
        let pid = std::process::id() as u16 % 7;
        WireBox { base: 20000 + worker as u16 * SPAN, off: pid * 190 }
    }
    pub fn reset(&mut self) {}

    pub fn next_port(&mut self) -> u16 {
        for _ in 0..SPAN {
            self.off = (self.off + 1) % SPAN;
            let p = self.base + self.off;
            if std::net::TcpListener::bind(("127.0.0.1", p)).is_ok() {
                return p;
            }
        }
        panic!("no free loopback port");
    }

    /// Serve `mk()` and run `client` against it. The runtime, and with it every connection task, is dropped at the end.
    pub fn serve<T, R>(&mut self, mk: impl Fn() -> App<T>, client: impl AsyncFnOnce(u16) -> R) -> R
    where
        T: Clone + Send + Sync + 'static,
    {
        let rt = tokio::runtime::Builder::new_current_thread().enable_all().build().expect("runtime");
        let local = tokio::task::LocalSet::new();
        let r = local.block_on(&rt, async {
            let mut tries = 0;
            loop {
                let port = self.next_port();
                let app = mk();
                let h = tokio::task::spawn_local(app.listen(port));
                for _ in 0..3 {
                    tokio::task::yield_now().await;
                }
                if h.is_finished() {
                    tries += 1;
                    if tries > 20 {
                        return Err("App::listen ended at once 20 times".to_string());
                    }
                    continue;
                }
                let r = client(port).await;
                h.abort();
                let _ = h.await;
                return Ok(r);
            }
        });
        drop(local);
        rt.shutdown_background();
        match r {
            Ok(r) => r,
            Err(e) => panic!("{}", e),
        }
    }
}

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum Reply {
    Full { status: u16, headers: Vec<(String, String)>, body: Vec<u8> },
    Closed,
    Timeout,
    Garbage(String),
}

impl Reply {
    pub fn status(&self) -> u16 {
        match self {
            Reply::Full { status, .. } => *status,
            _ => 0,
        }
    }
    pub fn body(&self) -> &[u8] {
        match self {
            Reply::Full { body, .. } => body,
            _ => b"",
        }
    }
    pub fn text(&self) -> String {
        String::from_utf8_lossy(self.body()).into_owned()
    }
    pub fn header_all(&self, name: &str) -> Vec<String> {
        match self {
            Reply::Full { headers, .. } => headers.iter().filter(|(k, _)| k == name).map(|(_, v)| v.clone()).collect(),
            _ => vec![],
        }
    }
    pub fn show(&self) -> String {
        match self {
            Reply::Full { status, headers, body } => {
                let mut b = String::from_utf8_lossy(&body[..body.len().min(200)]).into_owned();
                if body.len() > 200 {
                    b.push_str(&format!("...({} bytes)", body.len()));
                }
                let hs: Vec<String> = headers.iter().filter(|(k, _)| k != "date").map(|(k, v)| format!("{}: {}", k, v)).collect();
                format!("{} [{}] {:?}", status, hs.join("; "), b)
            }
            o => format!("{:?}", o),
        }
    }
    /// status, headers without date, body
    pub fn key(&self) -> (u16, Vec<(String, String)>, Vec<u8>) {
        match self {
            Reply::Full { status, headers, body } => {
                let mut h: Vec<(String, String)> = headers.iter().filter(|(k, _)| k != "date").cloned().collect();
                h.sort();
                (*status, h, body.clone())
            }
            Reply::Closed => (1, vec![], vec![]),
            Reply::Timeout => (2, vec![], vec![]),
            Reply::Garbage(g) => (3, vec![], g.clone().into_bytes()),
        }
    }
}

pub struct Conn {
    pub s: TcpStream,
    buf: Vec<u8>,
    /// longest wait for the next bytes
    pub patience: Duration,
}

impl Conn {
    pub async fn open(port: u16) -> Conn {
        let mut last = None;
        for _ in 0..50 {
            match TcpStream::connect(("127.0.0.1", port)).await {
                Ok(s) => {
                    let _ = s.set_nodelay(true);
                    #[allow(deprecated)]
                    let _ = s.set_linger(Some(Duration::from_secs(0)));
                    return Conn { s, buf: vec![], patience: REPLY_TIMEOUT };
                }
                Err(e) => {
                    last = Some(e);
                    tokio::time::sleep(Duration::from_millis(10)).await;
                }
            }
        }
        panic!("cannot connect to the server under test: {:?}", last);
    }

    /// Errors (peer closed) are ignored: the following `recv` reports what came back.
    pub async fn send(&mut self, b: &[u8]) {
        let _ = self.s.write_all(b).await;
    }

    /// The server's socket has Nagle on: acknowledge at once so that its next small write is not held back.
    fn quickack(&self) {
        use std::os::fd::AsRawFd;
        let one: libc::c_int = 1;
        unsafe {
            libc::setsockopt(self.s.as_raw_fd(), libc::IPPROTO_TCP, libc::TCP_QUICKACK, &one as *const _ as *const _, 4);
        }
    }

    async fn fill(&mut self) -> Result<bool, Reply> {
        self.quickack();
        let mut tmp = [0u8; 16384];
        match tokio::time::timeout(self.patience, self.s.read(&mut tmp)).await {
            Err(_) => Err(Reply::Timeout),
            Ok(Ok(0)) | Ok(Err(_)) => Ok(false),
            Ok(Ok(n)) => {
                self.buf.extend_from_slice(&tmp[..n]);
                Ok(true)
            }
        }
    }

    async fn need(&mut self, n: usize) -> Result<(), Reply> {
        while self.buf.len() < n {
            if !self.fill().await? {
                return Err(Reply::Garbage(format!("connection closed inside a reply after {:?}", String::from_utf8_lossy(&self.buf[..self.buf.len().min(300)]))));
            }
        }
        Ok(())
    }

    pub async fn recv(&mut self, head: bool) -> Reply {
        loop {
            match self.recv_inner(head).await {
                // "go on and send the body": not the answer yet
                Ok(Reply::Full { status: 100, .. }) => continue,
                Ok(r) | Err(r) => return r,
            }
        }
    }

    async fn line_end(&mut self, from: usize) -> Result<usize, Reply> {
        loop {
            if let Some(p) = self.buf[from..].windows(2).position(|w| w == b"\r\n") {
                return Ok(from + p);
            }
            let l = self.buf.len();
            self.need(l + 1).await?;
        }
    }

    async fn recv_inner(&mut self, head: bool) -> Result<Reply, Reply> {
        let hend = loop {
            if let Some(p) = self.buf.windows(4).position(|w| w == b"\r\n\r\n") {
                break p;
            }
            if !self.fill().await? {
                return Err(if self.buf.is_empty() { Reply::Closed } else { Reply::Garbage(String::from_utf8_lossy(&self.buf).into_owned()) });
            }
        };
        let htext = String::from_utf8_lossy(&self.buf[..hend]).into_owned();
        let mut lines = htext.split("\r\n");
        let st = lines.next().unwrap_or("");
        let status: u16 = match st.split(' ').nth(1).and_then(|x| x.parse().ok()) {
            Some(s) if st.starts_with("HTTP/1.") => s,
            _ => return Err(Reply::Garbage(htext)),
        };
        let mut headers = vec![];
        for l in lines {
            match l.find(':') {
                Some(p) => headers.push((l[..p].to_ascii_lowercase(), l[p + 1..].trim().to_string())),
                None => return Err(Reply::Garbage(htext.clone())),
            }
        }
        let get = |n: &str| headers.iter().find(|(k, _)| k == n).map(|(_, v)| v.clone());
        let mut at = hend + 4;
        let mut body = vec![];
        if head || status == 204 || status == 304 || status / 100 == 1 {
        } else if get("transfer-encoding").map_or(false, |v| v.contains("chunked")) {
            loop {
                let e = self.line_end(at).await?;
                let sz = usize::from_str_radix(String::from_utf8_lossy(&self.buf[at..e]).trim(), 16)
                    .map_err(|_| Reply::Garbage("bad chunk size".into()))?;
                self.need(e + 2 + sz + 2).await?;
                body.extend_from_slice(&self.buf[e + 2..e + 2 + sz]);
                at = e + 2 + sz + 2;
                if sz == 0 {
                    break;
                }
            }
        } else if let Some(cl) = get("content-length") {
            let n: usize = cl.parse().map_err(|_| Reply::Garbage("bad content-length".into()))?;
            self.need(at + n).await?;
            body = self.buf[at..at + n].to_vec();
            at += n;
        } else {
            while self.fill().await? {}
            body = self.buf[at..].to_vec();
            at = self.buf.len();
        }
        self.buf.drain(..at);
        Ok(Reply::Full { status, headers, body })
    }

    /// True when the peer has closed and nothing is left to read (waits for it).
    pub async fn at_eof(&mut self) -> bool {
        self.buf.is_empty() && matches!(self.fill().await, Ok(false))
    }
}

pub fn req(method: &str, target: &str, headers: &[(&str, &str)], body: Option<&[u8]>) -> Vec<u8> {
    let mut v = format!("{} {} HTTP/1.1\r\nhost: localhost\r\n", method, target).into_bytes();
    for (k, val) in headers {
        v.extend_from_slice(format!("{}: {}\r\n", k, val).as_bytes());
    }
    if let Some(b) = body {
        v.extend_from_slice(format!("content-length: {}\r\n", b.len()).as_bytes());
    }
    v.extend_from_slice(b"\r\n");
    if let Some(b) = body {
        v.extend_from_slice(b);
    }
    v
}

/// One request on its own connection.
pub async fn once(port: u16, bytes: &[u8], head: bool) -> Reply {
    let mut c = Conn::open(port).await;
    c.send(bytes).await;
    c.recv(head).await
}

/// Several requests pipelined on one connection; after a dropped connection the rest go on a fresh one.
pub async fn batch(port: u16, reqs: &[(Vec<u8>, bool)]) -> Vec<Reply> {
    let mut res: Vec<Reply> = vec![];
    let mut i = 0;
    while i < reqs.len() {
        let mut c = Conn::open(port).await;
        // bounded pipelining so that neither side's socket buffer can fill up while the other is not reading
        let mut j = i;
        'conn: while j < reqs.len() {
            let hi = (j + 32).min(reqs.len());
            let mut all = vec![];
            for r in &reqs[j..hi] {
                all.extend_from_slice(&r.0);
            }
            c.send(&all).await;
            while j < hi {
                let r = c.recv(reqs[j].1).await;
                // a reply that announces the end of the connection: what follows was not taken, so it is sent again
                let last = r.header_all("connection").iter().any(|v| v.eq_ignore_ascii_case("close"));
                let dead = last || !matches!(r, Reply::Full { .. });
                res.push(r);
                j += 1;
                if dead {
                    break 'conn;
                }
            }
        }
        i = j;
    }
    res
}
