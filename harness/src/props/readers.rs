//! C12: reader adapters return exactly the requested bytes.
use crate::ensure;
use crate::io::*;
use crate::rng::{hash_bytes, Rng};
use crate::run::*;
use async_tiff::error::{AsyncTiffError, AsyncTiffResult};
use async_tiff::metadata::MetadataFetch;
use async_tiff::reader::{AsyncFileReader, ObjectReader, ReqwestReader, TokioReader};
use bytes::Bytes;
use futures::stream::BoxStream;
use object_store::{path::Path, *};
use serde_json::json;
use std::io::{Read, Write};
use std::ops::Range;
use std::pin::Pin;
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::{Arc, Mutex};
use std::task::{Context, Poll};
use std::time::Duration;

/// A range of a file of `len` bytes, sometimes past its end.
pub fn rand_range(rng: &mut Rng, len: u64, past: bool, empty: bool) -> Range<u64> {
    let s = match rng.below(5) { 0 => 0, 1 if len > 0 => len - 1, _ => rng.below(len.max(1)) };
    let e = match rng.below(5) { 0 => len, 1 => s + 1, 2 => (s + 2).min(len.max(s + 1)), _ => rng.range(s + 1, len.max(s + 1)) };
    if past && rng.chance(1, 6) {
        return match rng.below(5) {
            4 => s..s + len.max(1),
            0 => s..len + rng.range(1, 100),
            1 => len..len + rng.range(1, 10),
            2 => len + rng.below(50)..len + 50 + rng.below(1000),
            _ => s..s + (1 << 40),
        };
    }
    if empty && rng.chance(1, 12) { return s..s; }
    s..e
}
pub fn part(data: &[u8], r: &Range<u64>) -> Vec<u8> {
    let s = (r.start as usize).min(data.len());
    let e = (r.end.min(data.len() as u64) as usize).max(s);
    data[s..e].to_vec()
}
fn inside(data: &[u8], r: &Range<u64>) -> bool {
    r.end <= data.len() as u64
}

/// Verdict on one answered range when the source did not fail.
fn verdict(data: &[u8], r: &Range<u64>, got: &AsyncTiffResult<Bytes>, ctx: &str) -> Case {
    match got {
        Ok(b) => ensure!(b[..] == part(data, r)[..], "{ctx}: range {r:?} of a {}-byte file returned {} bytes {:?}.., expected {:?}..", data.len(), b.len(), &b[..b.len().min(12)], &part(data, r)[..part(data, r).len().min(12)]),
        Err(e) => ensure!(!inside(data, r), "{ctx}: range {r:?} of a {}-byte file failed: {e}", data.len()),
    }
    Ok(())
}

// ------------------------------------------------------------------ scripted AsyncRead+AsyncSeek
#[derive(Debug)]
pub struct Script {
    data: Vec<u8>,
    pos: u64,
    seeking: Option<u64>,
    rng: Rng,
    pend: u64,
    fault: u64,
    next_fault: u64,
    faults: Arc<Mutex<Vec<u64>>>,
    reads: Arc<AtomicU64>,
    max_read: usize,
}
impl Script {
    /// A source without faults that suspends often and answers with at most `max_read` bytes.
    pub fn suspending(data: Vec<u8>, rng: &mut Rng, max_read: usize) -> Script {
        Script { data, pos: rng.below(50), seeking: None, rng: rng.fork(), pend: rng.range(1, 4), fault: 0, next_fault: 0, faults: Default::default(), reads: Default::default(), max_read }
    }
    fn pause(&mut self, cx: &mut Context<'_>) -> bool {
        if self.pend > 0 && self.rng.below(self.pend + 1) > 0 && self.rng.chance(2, 3) {
            cx.waker().wake_by_ref();
            return true;
        }
        false
    }
    fn fail(&mut self) -> Option<std::io::Error> {
        if self.fault > 0 && self.rng.chance(1, self.fault) {
            let k = self.next_fault;
            self.next_fault += 1;
            self.faults.lock().unwrap().push(k);
            use std::io::ErrorKind::*;
            let kind = [Other, UnexpectedEof, TimedOut, InvalidData, ConnectionReset][self.rng.us(0, 4)];
            return Some(std::io::Error::new(kind, format!("{FAULT}{k}")));
        }
        None
    }
}
impl tokio::io::AsyncRead for Script {
    fn poll_read(mut self: Pin<&mut Self>, cx: &mut Context<'_>, buf: &mut tokio::io::ReadBuf<'_>) -> Poll<std::io::Result<()>> {
        if self.pause(cx) { return Poll::Pending; }
        if let Some(e) = self.fail() { return Poll::Ready(Err(e)); }
        self.reads.fetch_add(1, Ordering::Relaxed);
        let s = (self.pos as usize).min(self.data.len());
        let cap = self.max_read;
        let n = (self.data.len() - s).min(buf.remaining()).min(self.rng.us(1, cap));
        let d = self.data[s..s + n].to_vec();
        buf.put_slice(&d);
        self.pos += n as u64;
        Poll::Ready(Ok(()))
    }
}
impl tokio::io::AsyncSeek for Script {
    fn start_seek(mut self: Pin<&mut Self>, p: std::io::SeekFrom) -> std::io::Result<()> {
        if self.seeking.is_some() {
            return Err(std::io::Error::other("other file operation is pending, call poll_complete before start_seek"));
        }
        let t = match p {
            std::io::SeekFrom::Start(n) => n as i128,
            std::io::SeekFrom::End(n) => self.data.len() as i128 + n as i128,
            std::io::SeekFrom::Current(n) => self.pos as i128 + n as i128,
        };
        if t < 0 { return Err(std::io::ErrorKind::InvalidInput.into()); }
        self.seeking = Some(t as u64);
        Ok(())
    }
    fn poll_complete(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<std::io::Result<u64>> {
        if self.seeking.is_some() {
            if self.pause(cx) { return Poll::Pending; }
            if let Some(e) = self.fail() { self.seeking = None; return Poll::Ready(Err(e)); }
            self.pos = self.seeking.take().unwrap();
        }
        Poll::Ready(Ok(self.pos))
    }
}

fn io_fault(e: &AsyncTiffError) -> Option<u64> {
    let s = e.to_string();
    s.find(FAULT).and_then(|p| s[p + FAULT.len()..].chars().take_while(|c| c.is_ascii_digit()).collect::<String>().parse().ok())
}

fn scripted(rng: &mut Rng, obs: &mut Obs) -> Case {
    let len = *rng.pick(&[0usize, 1, 7, 100, 3000, 20000]);
    let huge = rng.chance(1, 200);
    let len = if huge { 3 << 20 } else { len };
    let len = rng.us(len / 2, len);
    let data = rng.bytes(len);
    let faults = Arc::new(Mutex::new(vec![]));
    let reads = Arc::new(AtomicU64::new(0));
    let faulty = rng.chance(1, 3);
    let max_read = *rng.pick(&[1usize, 3, 17, 1000, 1 << 20]);
    let max_read = if huge { max_read.max(30000) } else if len > 3000 { max_read.max(100) } else { max_read };
    let s = Script { data: data.clone(), pos: rng.below(50), seeking: None, rng: rng.fork(), pend: rng.below(4), fault: if faulty { rng.range(3, 40) } else { 0 }, next_fault: 0, faults: faults.clone(), reads: reads.clone(), max_read };
    let ctx = format!("TokioReader over {len} bytes, reads of at most {max_read}, faults {faulty}");
    let rd = TokioReader::new(s);
    let n = rng.us(1, 6);
    let mut tasks: Tasks<Vec<AsyncTiffResult<Bytes>>> = Tasks::new();
    let mut asked: Vec<Vec<Range<u64>>> = vec![];
    for _ in 0..n {
        let many = if !huge && len < 5000 && rng.chance(1, 60) { rng.us(20, 300) } else { rng.us(1, 4) };
        let rs: Vec<_> = (0..many).map(|_| rand_range(rng, len as u64, many < 20, true)).collect();
        let batch = rng.chance(1, 3) || many >= 20;
        if many >= 20 { obs.hit("large_batches"); }
        if huge { obs.hit("huge_files"); }
        let meta = rng.chance(1, 4);
        asked.push(rs.clone());
        let rd = &rd;
        tasks.spawn(async move {
            if batch {
                match rd.get_byte_ranges(rs.clone()).await { Ok(v) => v.into_iter().map(Ok).collect(), Err(e) => vec![Err(e)] }
            } else {
                let mut v = vec![];
                for r in rs { v.push(if meta { rd.fetch(r).await } else { rd.get_bytes(r).await }); }
                v
            }
        });
        if batch { obs.hit("batches"); }
    }
    let mut trace = String::new();
    let mut cancelled = vec![];
    let mut steps = 0u64;
    loop {
        let alive = tasks.alive();
        if alive.is_empty() { break; }
        let run = tasks.runnable();
        ensure!(!run.is_empty(), "{ctx}: deadlock: {} calls outstanding, none can proceed after schedule {trace}", alive.len());
        if rng.chance(1, 30) && alive.len() > 1 {
            let k = *rng.pick(&alive);
            tasks.cancel(k);
            cancelled.push(k);
            trace.push_str(&format!("x{k} "));
            obs.hit("calls_cancelled");
            continue;
        }
        let k = *rng.pick(&run);
        if steps < 60 { trace.push_str(&format!("{k} ")); }
        steps += 1;
        ensure!(steps < 2_000_000, "HARNESS: schedule too long");
        tasks.poll(k);
    }
    obs.sign(&format!("{len}{asked:?}{trace}"));
    obs.state("interleavings", hash_bytes(trace.as_bytes()));
    obs.sample(|| format!("{ctx} {asked:?} schedule {trace}"));
    obs.add("source_reads", reads.load(Ordering::Relaxed));
    let injected = faults.lock().unwrap().clone();
    let mut reported = std::collections::HashSet::new();
    let mut kept = vec![];
    for (k, rs) in asked.iter().enumerate() {
        if cancelled.contains(&k) { continue; }
        let out = tasks.tasks[k].out.take().ok_or("HARNESS: no result")?;
        let mut note = |e: &AsyncTiffError| -> Case {
            if let Some(f) = io_fault(e) {
                ensure!(injected.contains(&f), "{ctx}: failure {f} reported that did not happen");
                ensure!(reported.insert(f), "{ctx}: failure {f} reported by two calls");
                return Ok(());
            }
            Err("".into())
        };
        if out.len() == 1 && out[0].is_err() && rs.len() > 1 {
            let e = out[0].as_ref().unwrap_err();
            ensure!(note(e).is_ok() || rs.iter().any(|r| !inside(&data, r)), "{ctx}: batch {rs:?} failed: {e}");
            continue;
        }
        ensure!(out.len() == rs.len(), "{ctx}: {} buffers for {} ranges", out.len(), rs.len());
        for (r, g) in rs.iter().zip(&out) {
            if let Err(e) = g {
                match note(e) { Ok(()) => continue, Err(m) if !m.is_empty() => return Err(m), _ => {} }
            }
            verdict(&data, r, g, &format!("{ctx}, schedule {trace}"))?;
            obs.hit("ranges_compared");
            if let Ok(b) = g { kept.push((r.clone(), b.clone())); }
        }
    }
    obs.add("faults_reported", reported.len() as u64);
    if cancelled.is_empty() {
        ensure!(reported.len() == injected.len(), "{ctx}: {} injected failures, {} reported: data was returned over a failed read; schedule {trace}", injected.len(), reported.len());
    }
    // the reader is still good for the whole file (with the injected faults retried)
    for _ in 0..200 {
        let got = drive(rd.get_bytes(0..len as u64), &ctx)?;
        if let Err(e) = &got { if io_fault(e).is_some() { continue; } }
        verdict(&data, &(0..len as u64), &got, &format!("{ctx}: afterwards"))?;
        obs.hit("usable_afterwards");
        break;
    }
    // what was returned stays valid when the reader is gone
    drop(tasks);
    drop(rd);
    for (r, b) in kept { verdict(&data, &r, &Ok(b), &format!("{ctx}: after dropping the reader"))?; obs.hit("buffers_outliving_the_reader"); }
    Ok(())
}
fn drive<T>(f: impl std::future::Future<Output = T>, ctx: &str) -> Result<T, String> {
    let mut t = Tasks::new();
    t.spawn(f);
    loop {
        ensure!(!t.runnable().is_empty(), "{ctx}: a call after the schedule never finishes");
        if t.poll(0) { return Ok(t.tasks[0].out.take().unwrap()); }
    }
}

// ------------------------------------------------------------------------------ object stores
/// Delegates to an inner store; requests can fail, and the default get_ranges is used.
#[derive(Debug)]
struct Faulty {
    inner: Arc<dyn ObjectStore>,
    fail_at: Option<u64>,
    n: AtomicU64,
    log: Mutex<Vec<Option<GetRange>>>,
    native_ranges: bool,
}
impl std::fmt::Display for Faulty {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { write!(f, "Faulty") }
}
impl Faulty {
    fn check(&self) -> Result<()> {
        let k = self.n.fetch_add(1, Ordering::SeqCst);
        if self.fail_at == Some(k) {
            return Err(Error::Generic { store: "Faulty", source: format!("{FAULT}{k}").into() });
        }
        Ok(())
    }
}
#[async_trait::async_trait]
impl ObjectStore for Faulty {
    async fn put_opts(&self, l: &Path, p: PutPayload, o: PutOptions) -> Result<PutResult> { self.inner.put_opts(l, p, o).await }
    async fn put_multipart_opts(&self, l: &Path, o: PutMultipartOptions) -> Result<Box<dyn MultipartUpload>> { self.inner.put_multipart_opts(l, o).await }
    async fn get_opts(&self, l: &Path, o: GetOptions) -> Result<GetResult> {
        self.log.lock().unwrap().push(o.range.clone());
        self.check()?;
        self.inner.get_opts(l, o).await
    }
    async fn get_ranges(&self, l: &Path, ranges: &[Range<u64>]) -> Result<Vec<Bytes>> {
        if self.native_ranges {
            self.check()?;
            return self.inner.get_ranges(l, ranges).await;
        }
        object_store::coalesce_ranges(ranges, |r| self.get_range(l, r), OBJECT_STORE_COALESCE_DEFAULT).await
    }
    fn delete_stream(&self, l: BoxStream<'static, Result<Path>>) -> BoxStream<'static, Result<Path>> { self.inner.delete_stream(l) }
    fn list(&self, p: Option<&Path>) -> BoxStream<'static, Result<ObjectMeta>> { self.inner.list(p) }
    async fn list_with_delimiter(&self, p: Option<&Path>) -> Result<ListResult> { self.inner.list_with_delimiter(p).await }
    async fn copy_opts(&self, a: &Path, b: &Path, o: CopyOptions) -> Result<()> { self.inner.copy_opts(a, b, o).await }
}

pub struct Scratch(pub std::path::PathBuf);
impl Scratch {
    pub fn new(out: &std::path::Path, what: &str) -> Self {
        let p = out.join("target").join(format!("scratch-{what}-{}", std::process::id()));
        let _ = std::fs::remove_dir_all(&p);
        std::fs::create_dir_all(&p).expect("scratch");
        Scratch(p)
    }
}
impl Drop for Scratch {
    fn drop(&mut self) { let _ = std::fs::remove_dir_all(&self.0); }
}

// ------------------------------------------------------------------------------------- HTTP
struct Served {
    data: Vec<u8>,
    ranges: Mutex<Vec<(String, Option<String>)>>,
}
/// Minimal HTTP/1.1 server on the loopback interface; the path chooses the behaviour.
fn serve(data: Vec<u8>) -> std::io::Result<(u16, Arc<Served>)> {
    let l = std::net::TcpListener::bind("127.0.0.1:0")?;
    let port = l.local_addr()?.port();
    let s = Arc::new(Served { data, ranges: Default::default() });
    let sv = s.clone();
    std::thread::spawn(move || {
        for c in l.incoming().flatten() {
            let sv = sv.clone();
            std::thread::spawn(move || { let _ = connection(c, &sv); });
        }
    });
    Ok((port, s))
}
fn connection(mut c: std::net::TcpStream, s: &Served) -> std::io::Result<()> {
    c.set_read_timeout(Some(Duration::from_secs(600)))?;
    c.set_nodelay(true)?;
    let mut buf = vec![];
    loop {
        let end = loop {
            if let Some(p) = buf.windows(4).position(|w| w == b"\r\n\r\n") { break p; }
            let mut b = [0; 2048];
            let n = c.read(&mut b)?;
            if n == 0 { return Ok(()); }
            buf.extend_from_slice(&b[..n]);
        };
        let head = String::from_utf8_lossy(&buf[..end]).to_string();
        buf.drain(..end + 4);
        let path = head.split(' ').nth(1).unwrap_or("/").to_string();
        let range = head.lines().find_map(|l| l.split_once(':').filter(|(k, _)| k.eq_ignore_ascii_case("range")).map(|(_, v)| v.trim().to_string()));
        s.ranges.lock().unwrap().push((path.clone(), range.clone()));
        let len = s.data.len() as u64;
        let kind = path.split('/').nth(1).unwrap_or("");
        let parsed = range.as_deref().and_then(|r| r.strip_prefix("bytes=")).and_then(|r| r.split_once('-')).and_then(|(a, b)| Some((a.parse::<u64>().ok()?, b.parse::<u64>().ok()?)));
        let full = |st: &str| format!("HTTP/1.1 {st}\r\nContent-Length: {len}\r\n\r\n").into_bytes();
        match (kind, parsed) {
            ("missing", _) => c.write_all(b"HTTP/1.1 404 Not Found\r\nContent-Length: 9\r\n\r\nnot found")?,
            ("denied", _) => c.write_all(b"HTTP/1.1 403 Forbidden\r\nContent-Length: 4\r\n\r\nnope")?,
            ("broken", _) => c.write_all(b"HTTP/1.1 500 Internal Server Error\r\nContent-Length: 4\r\n\r\noops")?,
            ("busy", _) => c.write_all(b"HTTP/1.1 503 Service Unavailable\r\nContent-Length: 0\r\n\r\n")?,
            ("redirect", _) => { let to = path.replacen("/redirect", "/range", 1); c.write_all(format!("HTTP/1.1 302 Found\r\nLocation: {to}\r\nContent-Length: 0\r\n\r\n").as_bytes())? }
            ("norange", _) => { c.write_all(&full("200 OK"))?; c.write_all(&s.data)? }
            ("reset", _) => return Ok(()),
            ("range" | "fragments" | "chunked" | "cut", Some((a, b))) if a < len && a <= b => {
                let e = (b + 1).min(len);
                let body = &s.data[a as usize..e as usize];
                let h = format!("HTTP/1.1 206 Partial Content\r\nContent-Range: bytes {a}-{}/{len}\r\n", e - 1);
                match kind {
                    "chunked" => {
                        c.write_all(format!("{h}Transfer-Encoding: chunked\r\n\r\n").as_bytes())?;
                        for p in body.chunks(7.max(body.len() / 3)) { c.write_all(format!("{:x}\r\n", p.len()).as_bytes())?; c.write_all(p)?; c.write_all(b"\r\n")?; }
                        c.write_all(b"0\r\n\r\n")?;
                    }
                    "cut" => {
                        c.write_all(format!("{h}Content-Length: {}\r\n\r\n", body.len()).as_bytes())?;
                        c.write_all(&body[..body.len() / 2])?;
                        return Ok(());
                    }
                    "fragments" => {
                        c.write_all(format!("{h}Content-Length: {}\r\n\r\n", body.len()).as_bytes())?;
                        for p in body.chunks(1.max(body.len() / 4)) { c.write_all(p)?; c.flush()?; std::thread::yield_now(); }
                    }
                    _ => { c.write_all(format!("{h}Content-Length: {}\r\n\r\n", body.len()).as_bytes())?; c.write_all(body)? }
                }
            }
            ("range" | "fragments" | "chunked" | "cut", Some(_)) => c.write_all(format!("HTTP/1.1 416 Range Not Satisfiable\r\nContent-Range: bytes */{len}\r\nContent-Length: 5\r\n\r\nrange").as_bytes())?,
            _ => { c.write_all(&full("200 OK"))?; c.write_all(&s.data)? }
        }
        c.flush()?;
    }
}

pub fn runtime(workers: usize) -> tokio::runtime::Runtime {
    tokio::runtime::Builder::new_multi_thread().worker_threads(workers).enable_all().build().expect("runtime")
}

/// Mixed single and batch reads against one reader; every answer checked.
async fn read_mix(rd: Arc<dyn AsyncFileReader>, data: Arc<Vec<u8>>, asks: Vec<(Vec<Range<u64>>, u8)>, ctx: String) -> std::result::Result<u64, String> {
    let mut n = 0;
    let mut kept = vec![];
    for (rs, how) in asks {
        match how {
            0 => for r in &rs {
                let g = rd.get_bytes(r.clone()).await;
                verdict(&data, r, &g, &ctx)?;
                kept.push((r.clone(), g));
                n += 1;
            },
            _ => match rd.get_byte_ranges(rs.clone()).await {
                Ok(v) => {
                    ensure!(v.len() == rs.len(), "{ctx}: {} buffers for {} ranges", v.len(), rs.len());
                    for (r, b) in rs.iter().zip(v) { verdict(&data, r, &Ok(b), &format!("{ctx}: batch {rs:?}"))?; n += 1; }
                }
                Err(e) => ensure!(rs.iter().any(|r| !inside(&data, r)), "{ctx}: batch {rs:?} failed: {e}"),
            },
        }
    }
    drop(rd);
    for (r, g) in kept { verdict(&data, &r, &g, &format!("{ctx}: after later reads"))?; }
    Ok(n)
}

fn asks(rng: &mut Rng, len: u64, past: bool, empty: bool) -> Vec<(Vec<Range<u64>>, u8)> {
    (0..rng.us(1, 5)).map(|_| {
        let k = if len < 100_000 && rng.chance(1, 15) { rng.us(20, 150) } else { rng.us(0, 6) };
        let how = rng.below(2) as u8;
        let mut v: Vec<Range<u64>> = (0..k).map(|_| rand_range(rng, len, past, empty)).collect();
        if k > 1 && rng.chance(1, 3) { let d = v[0].clone(); v.push(d); }
        (v, how)
    }).collect()
}

pub const FINDING: &str = "object_store-coalesce-past-end";

fn large_verdict(data: &[u8], r: &Range<u64>, g: &AsyncTiffResult<Bytes>, ctx: &str) -> Case {
    match g {
        Err(e) => Err(format!("{ctx}: {r:?}: {e}")),
        Ok(b) => {
            let want = &data[r.start as usize..r.end as usize];
            ensure!(b.len() == want.len(), "{ctx}: {} bytes for {r:?}", b.len());
            ensure!(b[..] == want[..], "{ctx}: {r:?}: byte {:?} differs", b.iter().zip(want).position(|(a, b)| a != b));
            Ok(())
        }
    }
}

pub fn c12(mut r: Runner) -> i32 {
    r.rule("case = one source, a set of concurrent/sequential range reads through an adapter, possibly with injected faults, fragmentation and cancellation; every returned buffer compared with the file; distinct by (source, ranges, schedule)");
    r.require(&["ranges_compared", "faults_reported", "calls_cancelled", "usable_afterwards", "batches", "file_ranges", "memory_store_ranges", "local_store_ranges", "missing_objects_rejected", "store_faults_reported", "http_ranges", "http_errors_reported", "http_truncated_reported", "forwarded_calls", "default_batches", "aborted_file_reads", "large_batches", "huge_files", "large_ranges", "buffers_outliving_the_reader"]);
    r.assume("HTTP servers answer a range request with the range, the whole file, or an error; a 206 response for a different range is out of scope");
    r.assume("object stores reject empty ranges by contract; batches over stores with the default get_ranges do not start past the end of the object except in the listed known finding");
    r.family("tokio-scripted", 40000, 800000, |rng, obs, _| scripted(rng, obs));

    let rt = Arc::new(runtime(4));
    let scratch = Scratch::new(&r.out_dir, "c12");
    let dir = scratch.0.clone();
    r.family("tokio-file", 1500, 20000, |rng, obs, i| {
        let len = *rng.pick(&[0usize, 1, 50, 5000, 70000, if rng.clone().chance(1, 5) { 5 << 20 } else { 2_100_000 }]);
        let data = Arc::new(rng.bytes(len));
        let p = dir.join(format!("f{i}-{}", rng.u32()));
        std::fs::write(&p, &data[..]).map_err(|e| format!("HARNESS: {e}"))?;
        let sets: Vec<_> = (0..rng.us(1, 6)).map(|_| asks(rng, len as u64, true, true)).collect();
        let kills: Vec<bool> = sets.iter().map(|_| rng.chance(1, 4)).collect();
        let spins = rng.below(40);
        obs.sign(&format!("{len}{sets:?}"));
        let res: std::result::Result<(u64, u64), String> = rt.block_on(async {
            let f = tokio::fs::File::open(&p).await.map_err(|e| format!("HARNESS: {e}"))?;
            let rd: Arc<dyn AsyncFileReader> = Arc::new(TokioReader::new(f));
            let hs: Vec<_> = sets.iter().map(|s| tokio::spawn(read_mix(rd.clone(), data.clone(), s.clone(), format!("tokio::fs::File of {len} bytes")))).collect();
            for _ in 0..spins { tokio::task::yield_now().await; }
            let mut n = 0;
            let mut ab = 0;
            for (h, k) in hs.iter().zip(&kills) { if *k { h.abort(); ab += 1; } }
            for h in hs {
                match h.await { Ok(x) => n += x?, Err(e) if e.is_cancelled() => {} Err(e) => return Err(format!("a read of tokio::fs::File of {len} bytes panicked: {e}")) }
            }
            // usable after aborted reads
            let g = rd.get_bytes(0..len as u64).await;
            verdict(&data, &(0..len as u64), &g, "tokio::fs::File after aborted reads")?;
            Ok((n, ab))
        });
        let _ = std::fs::remove_file(&p);
        let (n, ab) = res?;
        obs.add("file_ranges", n);
        obs.add("aborted_file_reads", ab);
        obs.add("ranges_compared", n);
        Ok(())
    });
    r.family("object-store", 3000, 40000, |rng, obs, i| {
        let len = if rng.chance(1, 25) { rng.us(1 << 20, 6 << 20) } else { *rng.pick(&[1usize, 60, 3000, 50000]) };
        let data = Arc::new(rng.bytes(len));
        let local = rng.chance(1, 3);
        let wrapped = rng.chance(1, 2);
        let native = rng.chance(1, 2);
        let fail_at = if wrapped && rng.chance(1, 2) { Some(rng.below(6)) } else { None };
        let name = format!("o{i}-{}/a b.tif", rng.u32());
        let path = Path::from(name.as_str());
        let sets = asks(rng, len as u64, false, false);
        let past = asks(rng, len as u64, true, false);
        obs.sign(&format!("{local}{wrapped}{native}{fail_at:?}{sets:?}"));
        let sub = dir.join(format!("s{i}"));
        let kind = if local { "LocalFileSystem" } else { "InMemory" };
        let res: Case = rt.block_on(async {
            let store: Arc<dyn ObjectStore> = if local {
                std::fs::create_dir_all(&sub).map_err(|e| format!("HARNESS: {e}"))?;
                Arc::new(object_store::local::LocalFileSystem::new_with_prefix(&sub).map_err(|e| format!("HARNESS: {e}"))?)
            } else { Arc::new(object_store::memory::InMemory::new()) };
            store.put(&path, PutPayload::from(data.to_vec())).await.map_err(|e| format!("HARNESS: put: {e}"))?;
            store.put(&Path::from("other.tif"), PutPayload::from(vec![0xAA; 100])).await.map_err(|e| format!("HARNESS: put: {e}"))?;
            let f = Arc::new(Faulty { inner: store.clone(), fail_at, n: 0.into(), log: Default::default(), native_ranges: native });
            let store: Arc<dyn ObjectStore> = if wrapped { f.clone() } else { store };
            let rd = ObjectReader::new(store.clone(), path.clone());
            let ctx = format!("ObjectReader over {kind} ({} bytes{})", len, if wrapped { ", wrapped" } else { "" });
            for (rs, how) in &sets {
                let before = f.n.load(Ordering::SeqCst);
                let got: std::result::Result<Vec<Bytes>, AsyncTiffError> = if *how == 0 {
                    let mut v = vec![];
                    let mut err = None;
                    for r in rs { match rd.get_bytes(r.clone()).await { Ok(b) => v.push(b), Err(e) => { err = Some(e); break } } }
                    match err { Some(e) => Err(e), None => Ok(v) }
                } else { rd.get_byte_ranges(rs.clone()).await };
                let hit = wrapped && fail_at.is_some_and(|k| k >= before && k < f.n.load(Ordering::SeqCst));
                match got {
                    Ok(v) => {
                        ensure!(!hit, "{ctx}: request {fail_at:?} failed but {rs:?} succeeded");
                        ensure!(v.len() == rs.len(), "{ctx}: {} buffers for {} ranges", v.len(), rs.len());
                        for (r, b) in rs.iter().zip(v) { verdict(&data, r, &Ok(b), &format!("{ctx}: {rs:?}"))?; obs.hit(if local { "local_store_ranges" } else { "memory_store_ranges" }); obs.hit("ranges_compared"); }
                    }
                    Err(e) => {
                        ensure!(hit, "{ctx}: {rs:?} failed: {e}");
                        ensure!(e.to_string().contains(&format!("{FAULT}{}", fail_at.unwrap())), "{ctx}: the store failed with '{FAULT}', the caller sees: {e}");
                        obs.hit("store_faults_reported");
                    }
                }
            }
            // past the end: one range at a time
            let rd = ObjectReader::new(f.inner.clone(), path.clone());
            for (rs, _) in &past {
                for r in rs { let g = rd.get_bytes(r.clone()).await; verdict(&data, r, &g, &ctx)?; obs.hit("ranges_compared"); }
            }
            // no such object
            let rd = ObjectReader::new(f.inner.clone(), Path::from("missing.tif"));
            let g = rd.get_bytes(0..1).await;
            ensure!(g.is_err(), "{ctx}: reading an object that does not exist succeeded");
            let g = rd.get_byte_ranges(vec![0..1, 5..9]).await;
            ensure!(g.is_err(), "{ctx}: batch-reading an object that does not exist succeeded");
            obs.hit("missing_objects_rejected");
            Ok(())
        });
        if local { let _ = std::fs::remove_dir_all(&sub); }
        res
    });
    // ranges of tens of megabytes, through every adapter
    let n = if r.thorough { 12 } else { 4 };
    r.family_n("large-ranges", n, 1, |rng, obs, i| {
        let len = rng.us(68 << 20, 80 << 20) as u64;
        let data = Arc::new(rng.bytes(len as usize));
        let a = rng.below(1 << 20);
        let rs: Vec<Range<u64>> = vec![a..len - rng.below(1 << 20), 5..9 + (9 << 20), len - (17 << 20)..len];
        let sub = dir.join(format!("l{i}"));
        std::fs::create_dir_all(&sub).map_err(|e| format!("HARNESS: {e}"))?;
        let kind = ["tokio::fs::File", "InMemory", "LocalFileSystem", "HTTP"][i as usize % 4];
        obs.sign(&format!("{kind}{rs:?}"));
        let res: Case = rt.block_on(async {
            let har = |e: String| format!("HARNESS: {e}");
            let rd: Arc<dyn AsyncFileReader> = match kind {
                "HTTP" => {
                    let (port, _) = serve(data.to_vec()).map_err(|e| har(e.to_string()))?;
                    let client = reqwest::Client::builder().no_proxy().timeout(Duration::from_secs(300)).build().expect("client");
                    Arc::new(ReqwestReader::new(client, format!("http://127.0.0.1:{port}/range/l.tif").parse().unwrap()))
                }
                "tokio::fs::File" => {
                    std::fs::write(sub.join("f"), &data[..]).map_err(|e| har(e.to_string()))?;
                    Arc::new(TokioReader::new(tokio::fs::File::open(sub.join("f")).await.map_err(|e| har(e.to_string()))?))
                }
                _ => {
                    let store: Arc<dyn ObjectStore> = if kind == "InMemory" { Arc::new(object_store::memory::InMemory::new()) } else {
                        Arc::new(object_store::local::LocalFileSystem::new_with_prefix(&sub).map_err(|e| har(e.to_string()))?)
                    };
                    store.put(&Path::from("f"), PutPayload::from(data.to_vec())).await.map_err(|e| har(e.to_string()))?;
                    Arc::new(ObjectReader::new(store, Path::from("f")))
                }
            };
            let ctx = format!("{kind} of {len} bytes: {rs:?}");
            let slow = |e: &AsyncTiffError| { let e = format!("{e:?}"); e.contains("TimedOut") || e.contains("timed out") };
            for r in &rs {
                let g = rd.get_bytes(r.clone()).await;
                if let Err(e) = &g { if kind == "HTTP" && slow(e) { return Err(har(e.to_string())); } }
                large_verdict(&data, r, &g, &ctx)?;
                obs.hit("large_ranges");
            }
            match rd.get_byte_ranges(rs.clone()).await {
                Err(e) if kind == "HTTP" && slow(&e) => return Err(har(e.to_string())),
                Err(e) => return Err(format!("{ctx}: {e}")),
                Ok(v) => {
                    ensure!(v.len() == rs.len(), "{ctx}: {} buffers", v.len());
                    for (r, b) in rs.iter().zip(v) { large_verdict(&data, r, &Ok(b), &ctx)?; obs.hit("large_ranges"); }
                }
            }
            Ok(())
        });
        let _ = std::fs::remove_dir_all(&sub);
        res
    });
    // HTTP on the loopback interface
    let file = Arc::new(Rng::new(r.seed).bytes(2_500_000));
    match serve(file.to_vec()) {
        Err(e) => r.agg.lock().unwrap().errors.push(format!("no loopback server: {e}")),
        Ok((port, served)) => {
            let client = reqwest::Client::builder().no_proxy().pool_idle_timeout(Duration::from_secs(20)).timeout(Duration::from_secs(120)).build().expect("client");
            r.family("http", 1500, 20000, |rng, obs, i| {
                let kind = *rng.pick(&["range", "range", "fragments", "chunked", "norange", "redirect", "missing", "denied", "broken", "busy", "cut", "reset"]);
                let url: reqwest::Url = format!("http://127.0.0.1:{port}/{kind}/{i}-{}.tif?q=1", rng.u32()).parse().unwrap();
                let rd: Arc<dyn AsyncFileReader> = Arc::new(ReqwestReader::new(client.clone(), url.clone()));
                let ctx = format!("ReqwestReader from /{kind}");
                let len = file.len() as u64;
                match kind {
                    "range" | "fragments" | "chunked" | "norange" | "redirect" => {
                        let sets: Vec<_> = (0..rng.us(1, 3)).map(|_| asks(rng, len, true, true)).collect();
                        obs.sign(&format!("{kind}{sets:?}"));
                        obs.sample(|| format!("{ctx} {sets:?}"));
                        let n: std::result::Result<u64, String> = rt.block_on(async {
                            let hs: Vec<_> = sets.iter().map(|s| tokio::spawn(read_mix(rd.clone(), file.clone(), s.clone(), ctx.clone()))).collect();
                            let mut n = 0;
                            for h in hs { n += h.await.map_err(|e| format!("{ctx}: a read panicked: {e}"))??; }
                            Ok(n)
                        });
                        let n = n.map_err(|e| if e.contains("timed out") || e.contains("timeout") { format!("HARNESS: {e}") } else { e })?;
                        obs.add("http_ranges", n);
                        obs.add("ranges_compared", n);
                        // what went over the wire is a well-formed range header
                        let path = url.path();
                        for (p, h) in served.ranges.lock().unwrap().iter().filter(|(p, _)| p.starts_with(path)) {
                            ensure!(h.as_deref().is_some_and(|h| h.starts_with("bytes=")), "{ctx}: request {p} without a byte range: {h:?}");
                        }
                    }
                    _ => {
                        let r = rand_range(rng, len, false, false);
                        let batch = rng.chance(1, 2);
                        obs.sign(&format!("{kind}{r:?}"));
                        let g = rt.block_on(async { if batch { rd.get_byte_ranges(vec![0..1, r.clone()]).await.map(|_| ()) } else { rd.get_bytes(r.clone()).await.map(|_| ()) } });
                        ensure!(g.is_err(), "{ctx}: range {r:?} succeeded");
                        obs.hit(if matches!(kind, "cut" | "reset") { "http_truncated_reported" } else { "http_errors_reported" });
                    }
                }
                served.ranges.lock().unwrap().retain(|(p, _)| !p.starts_with(url.path()));
                Ok(())
            });
        }
    }
    r.family("forwarding", 20000, 300000, |rng, obs, _| {
        let len = rng.us(1, 400);
        let data = rng.bytes(len);
        let mem = Mem::new(Sparse::dense(data.clone()));
        let eof = *rng.pick(&[Eof::Truncate, Eof::Strict]);
        let mem = mem.with_eof(eof);
        if rng.chance(1, 3) { mem.fail_at(rng.below(6)); }
        let wrap = rng.below(5);
        let reader: Box<dyn AsyncFileReader> = match wrap {
            0 => Box::new(mem.clone()),
            1 => Box::new(Box::new(mem.clone()) as Box<dyn AsyncFileReader>),
            2 => Box::new(Arc::new(mem.clone()) as Arc<dyn AsyncFileReader>),
            3 => Box::new(Arc::new(Box::new(mem.clone()) as Box<dyn AsyncFileReader>) as Arc<dyn AsyncFileReader>),
            _ => Box::new(MemDefault(mem.clone())),
        };
        let direct = Mem::new(Sparse::dense(data.clone())).with_eof(eof);
        for f in mem.ctl.faults.lock().unwrap().iter() { direct.fail_at(*f); }
        obs.sign(&format!("{wrap}{}", hash_bytes(&data)));
        block_on(async {
            for _ in 0..rng.us(1, 4) {
                let rs: Vec<_> = (0..rng.us(0, 4)).map(|_| rand_range(rng, len as u64, true, true)).collect();
                let how = rng.below(3);
                let (a, b) = match how {
                    0 => {
                        let r = rand_range(rng, len as u64, true, true);
                        (reader.get_bytes(r.clone()).await.map(|b| vec![b]), direct.get_bytes(r).await.map(|b| vec![b]))
                    }
                    1 => {
                        let r = rand_range(rng, len as u64, true, true);
                        (reader.fetch(r.clone()).await.map(|b| vec![b]), direct.get_bytes(r).await.map(|b| vec![b]))
                    }
                    _ => {
                        let a = reader.get_byte_ranges(rs.clone()).await;
                        let b = if wrap == 4 {
                            obs.hit("default_batches");
                            let mut v = vec![];
                            let mut err = None;
                            for r in &rs { match direct.get_bytes(r.clone()).await { Ok(x) => v.push(x), Err(e) => { err = Some(e); break } } }
                            match err { Some(e) => Err(e), None => Ok(v) }
                        } else { direct.get_byte_ranges(rs.clone()).await };
                        (a, b)
                    }
                };
                let (x, y) = (mem.take_log(), direct.take_log());
                if wrap == 4 && a.is_err() && b.is_err() { obs.hit("forwarded_calls"); break; }
                // the default batching may issue its reads in any order, but each range once
                ensure!(x == y || (wrap == 4 && same_multiset(&x, &y)), "wrapping {wrap}: the inner reader saw {x:?}, called directly it sees {y:?}");
                match (a, b) {
                    (Ok(a), Ok(b)) => ensure!(a == b, "wrapping {wrap}: {a:?} vs {b:?}"),
                    (Err(a), Err(b)) => ensure!(a.to_string() == b.to_string(), "wrapping {wrap}: error '{a}' vs '{b}'"),
                    (a, b) => return Err(format!("wrapping {wrap}: {a:?} vs {b:?}")),
                }
                obs.hit("forwarded_calls");
            }
            Ok(())
        })
    });
    drop(scratch);
    r.finish("exploration", json!({}))
}
/// The known finding of DESIGN.md.
pub fn probe(r: &mut Runner) {
    // known finding: see DESIGN.md
    let known = std::fs::read_to_string(r.out_dir.join("known-findings.txt")).unwrap_or_default().lines().any(|l| l.starts_with("known: property=C12") && l.contains(FINDING));
    let rt = runtime(2);
    {
        let probe = no_panic(|| rt.block_on(async {
            let inner: Arc<dyn ObjectStore> = Arc::new(object_store::memory::InMemory::new());
            let p = Path::from("x");
            inner.put(&p, PutPayload::from(vec![1u8; 100])).await.unwrap();
            let f: Arc<dyn ObjectStore> = Arc::new(Faulty { inner, fail_at: None, n: 0.into(), log: Default::default(), native_ranges: false });
            ObjectReader::new(f, p).get_byte_ranges(vec![0..10, 1000..2000]).await
        }));
        match probe {
            Err(p) if known && p.contains("object_store") | p.contains("bytes") => println!("KNOWN-FINDING: property=C12 {FINDING}: ObjectReader::get_byte_ranges([0..10, 1000..2000]) of a 100-byte object panics when the store uses object_store's default get_ranges ({})", p.lines().next().unwrap_or("")),
            Err(p) => r.agg.lock().unwrap().violations.push(("known-finding-probe".into(), 0, p)),
            Ok(Ok(v)) if v.len() == 2 && v[0] == vec![1u8; 10] && v[1].is_empty() => {}
            Ok(Err(_)) => {}
            Ok(Ok(v)) => r.agg.lock().unwrap().violations.push(("known-finding-probe".into(), 0, format!("wrong bytes: {v:?}"))),
        }
    }
}
fn same_multiset(a: &[Ev], b: &[Ev]) -> bool {
    let f = |v: &[Ev]| { let mut s: Vec<String> = v.iter().map(|e| format!("{e:?}")).collect(); s.sort(); s };
    f(a) == f(b)
}
