//! Instrumented byte sources. Every request that crosses the public reader interface is logged
//! at the boundary; faults, short reads and suspension points are injected here.
use crate::rng::{mix, Rng};
use async_tiff::error::{AsyncTiffError, AsyncTiffResult};
use async_tiff::metadata::MetadataFetch;
use async_tiff::reader::AsyncFileReader;
use async_trait::async_trait;
use bytes::Bytes;
use std::ops::Range;
use std::pin::Pin;
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::{Arc, Mutex};
use std::task::{Context, Poll};

/// A file made of segments; everything between segments is deterministic junk, so that offsets
/// far beyond 4 GiB cost nothing and any stray read returns recognisably wrong bytes.
#[derive(Debug, Clone)]
pub struct Sparse {
    pub segs: Arc<Vec<(u64, Bytes)>>,
    pub len: u64,
    pub junk: u64,
}

impl Sparse {
    pub fn dense(b: impl Into<Bytes>) -> Self {
        let b: Bytes = b.into();
        Sparse { len: b.len() as u64, segs: Arc::new(vec![(0, b)]), junk: 1 }
    }
    fn junk_at(&self, off: u64) -> u8 {
        (mix(self.junk ^ (off >> 3)) >> ((off & 7) * 8)) as u8
    }
    /// bytes in range, truncated at the end of the file
    pub fn read(&self, r: Range<u64>) -> Bytes {
        let end = r.end.min(self.len);
        if r.start >= end {
            return Bytes::new();
        }
        // segments are sorted and do not overlap
        let first = self.segs.partition_point(|(o, b)| *o + b.len() as u64 <= r.start);
        if let Some((o, b)) = self.segs.get(first) {
            if *o <= r.start && end <= *o + b.len() as u64 {
                return b.slice((r.start - o) as usize..(end - o) as usize);
            }
        }
        let n = (end - r.start) as usize;
        let mut out: Vec<u8> = if cfg!(miri) { vec![0xA5; n] } else { (0..n as u64).map(|i| self.junk_at(r.start + i)).collect() };
        for (o, b) in self.segs[first..].iter().take_while(|(o, _)| *o < end) {
            let s = (*o).max(r.start);
            let e = (*o + b.len() as u64).min(end);
            if s < e {
                out[(s - r.start) as usize..(e - r.start) as usize]
                    .copy_from_slice(&b[(s - o) as usize..(e - o) as usize]);
            }
        }
        out.into()
    }
    /// materialise (only for small files)
    pub fn to_vec(&self) -> Vec<u8> {
        assert!(self.len < 1 << 30);
        self.read(0..self.len).to_vec()
    }
}

#[derive(Debug, Clone, PartialEq)]
pub enum Ev {
    Get(Range<u64>),
    Ranges(Vec<Range<u64>>),
    /// single request issued by the default get_byte_ranges implementation or a fault
    Fault(u64),
}

#[derive(Debug, Clone, Copy, PartialEq)]
pub enum Eof {
    /// return the in-file prefix, possibly empty
    Truncate,
    /// in-file prefix, error when the range starts at or after the end (object_store)
    TruncateErr,
    /// error whenever the range is not wholly inside the file
    Strict,
}

#[derive(Debug, Default)]
pub struct Ctl {
    pub log: Mutex<Vec<Ev>>,
    pub count: AtomicU64,
    pub bytes: AtomicU64,
    /// request numbers that fail
    pub faults: Mutex<Vec<u64>>,
    /// fail all requests once count >= this
    pub budget: AtomicU64,
    pub inverted: AtomicU64,
    /// maximum number of extra Pending results per request
    pub max_yields: AtomicU64,
    pub yield_seed: AtomicU64,
    pub quiet: std::sync::atomic::AtomicBool,
}

pub const FAULT: &str = "injected fault #";

#[derive(Debug, Clone)]
pub struct Mem {
    pub file: Sparse,
    pub eof: Eof,
    pub ctl: Arc<Ctl>,
}

pub struct YieldN(pub u64);
impl std::future::Future for YieldN {
    type Output = ();
    fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<()> {
        if self.0 == 0 {
            Poll::Ready(())
        } else {
            self.0 -= 1;
            cx.waker().wake_by_ref();
            Poll::Pending
        }
    }
}

impl Mem {
    pub fn new(file: Sparse) -> Self {
        let ctl = Ctl::default();
        ctl.budget.store(u64::MAX, Ordering::Relaxed);
        Mem { file, eof: Eof::Truncate, ctl: Arc::new(ctl) }
    }
    pub fn with_eof(mut self, e: Eof) -> Self {
        self.eof = e;
        self
    }
    pub fn fail_at(&self, k: u64) {
        self.ctl.faults.lock().unwrap().push(k);
    }
    pub fn take_log(&self) -> Vec<Ev> {
        std::mem::take(&mut *self.ctl.log.lock().unwrap())
    }
    pub fn requests(&self) -> u64 {
        self.ctl.count.load(Ordering::SeqCst)
    }
    fn begin(&self) -> AsyncTiffResult<u64> {
        let k = self.ctl.count.fetch_add(1, Ordering::SeqCst);
        if k >= self.ctl.budget.load(Ordering::Relaxed) {
            return Err(AsyncTiffError::General("request budget exhausted".into()));
        }
        if self.ctl.faults.lock().unwrap().contains(&k) {
            self.ctl.log.lock().unwrap().push(Ev::Fault(k));
            return Err(fault(k, self.file.len));
        }
        Ok(k)
    }
    fn one(&self, r: &Range<u64>) -> AsyncTiffResult<Bytes> {
        if r.start > r.end {
            self.ctl.inverted.fetch_add(1, Ordering::Relaxed);
            return Err(AsyncTiffError::General(format!("inverted range {r:?}")));
        }
        match self.eof {
            Eof::Strict if r.end > self.file.len => {
                return Err(AsyncTiffError::EndOfFile(
                    r.end - r.start,
                    self.file.len.saturating_sub(r.start),
                ))
            }
            Eof::TruncateErr if r.start >= self.file.len => {
                return Err(AsyncTiffError::General("range starts past end".into()))
            }
            _ => {}
        }
        if r.end.min(self.file.len).saturating_sub(r.start) > 1 << 28 {
            return Err(AsyncTiffError::General(format!("HARNESS source refuses {r:?}")));
        }
        let b = self.file.read(r.clone());
        self.ctl.bytes.fetch_add(b.len() as u64, Ordering::Relaxed);
        Ok(b)
    }
    async fn maybe_yield(&self, k: u64) {
        let m = self.ctl.max_yields.load(Ordering::Relaxed);
        if m > 0 {
            let s = self.ctl.yield_seed.load(Ordering::Relaxed);
            YieldN(mix(s ^ k) % (m + 1)).await;
        }
    }
}

#[async_trait]
impl AsyncFileReader for Mem {
    async fn get_bytes(&self, range: Range<u64>) -> AsyncTiffResult<Bytes> {
        if !self.ctl.quiet.load(Ordering::Relaxed) {
            self.ctl.log.lock().unwrap().push(Ev::Get(range.clone()));
        }
        let k = self.begin()?;
        self.maybe_yield(k).await;
        self.one(&range)
    }
    async fn get_byte_ranges(&self, ranges: Vec<Range<u64>>) -> AsyncTiffResult<Vec<Bytes>> {
        self.ctl.log.lock().unwrap().push(Ev::Ranges(ranges.clone()));
        let k = self.begin()?;
        self.maybe_yield(k).await;
        ranges.iter().map(|r| self.one(r)).collect()
    }
}

/// A reader that only implements get_bytes, so that the trait's default batching is used.
#[derive(Debug, Clone)]
pub struct MemDefault(pub Mem);

#[async_trait]
impl AsyncFileReader for MemDefault {
    async fn get_bytes(&self, range: Range<u64>) -> AsyncTiffResult<Bytes> {
        self.0.get_bytes(range).await
    }
}

// ---------------------------------------------------------------------------------------------
// Gate: a source whose requests complete only when the scheduler says so.

#[derive(Debug)]
pub struct GateReq {
    pub id: u64,
    pub range: Range<u64>,
    pub state: GateState,
    pub waker: Option<std::task::Waker>,
}
#[derive(Debug, Clone, PartialEq)]
pub enum GateState {
    Waiting,
    Ok(u64),
    Err,
    Done,
    Dropped,
}
#[derive(Debug, Default)]
pub struct GateInner {
    pub reqs: Vec<GateReq>,
    pub events: Vec<GateEv>,
}
#[derive(Debug, Clone, PartialEq)]
pub enum GateEv {
    Start(u64, Range<u64>),
    Ok(u64, u64),
    Err(u64),
    Cancelled(u64),
}
#[derive(Debug, Clone)]
pub struct Gate {
    pub file: Sparse,
    pub inner: Arc<Mutex<GateInner>>,
}
struct GateFut<'a> {
    gate: &'a Gate,
    id: Option<u64>,
    range: Range<u64>,
    finished: bool,
}
impl Gate {
    pub fn new(file: Sparse) -> Self {
        Gate { file, inner: Default::default() }
    }
    /// ids of requests in flight
    pub fn waiting(&self) -> Vec<u64> {
        self.inner
            .lock()
            .unwrap()
            .reqs
            .iter()
            .filter(|r| r.state == GateState::Waiting)
            .map(|r| r.id)
            .collect()
    }
    /// Complete a request successfully, returning at most `cap` bytes, or with an error.
    pub fn complete(&self, id: u64, ok: Option<u64>) {
        let mut g = self.inner.lock().unwrap();
        let r = &mut g.reqs[id as usize];
        r.state = match ok {
            Some(cap) => GateState::Ok(cap),
            None => GateState::Err,
        };
        if let Some(w) = r.waker.take() {
            w.wake();
        }
    }
}
impl std::future::Future for GateFut<'_> {
    type Output = AsyncTiffResult<Bytes>;
    fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Self::Output> {
        let gate = self.gate;
        let mut g = gate.inner.lock().unwrap();
        let id = match self.id {
            None => {
                let id = g.reqs.len() as u64;
                g.reqs.push(GateReq {
                    id,
                    range: self.range.clone(),
                    state: GateState::Waiting,
                    waker: Some(cx.waker().clone()),
                });
                g.events.push(GateEv::Start(id, self.range.clone()));
                drop(g);
                self.id = Some(id);
                return Poll::Pending;
            }
            Some(i) => i,
        };
        let st = g.reqs[id as usize].state.clone();
        match st {
            GateState::Waiting => {
                g.reqs[id as usize].waker = Some(cx.waker().clone());
                Poll::Pending
            }
            GateState::Ok(cap) => {
                g.reqs[id as usize].state = GateState::Done;
                let r = &self.range;
                let end = r.end.min(r.start.saturating_add(cap));
                let b = gate.file.read(r.start..end);
                g.events.push(GateEv::Ok(id, b.len() as u64));
                drop(g);
                self.finished = true;
                Poll::Ready(Ok(b))
            }
            GateState::Err => {
                g.reqs[id as usize].state = GateState::Done;
                g.events.push(GateEv::Err(id));
                drop(g);
                self.finished = true;
                Poll::Ready(Err(fault(id, gate.file.len)))
            }
            _ => unreachable!(),
        }
    }
}
impl Drop for GateFut<'_> {
    fn drop(&mut self) {
        if let (Some(id), false) = (self.id, self.finished) {
            let mut g = self.gate.inner.lock().unwrap();
            g.reqs[id as usize].state = GateState::Dropped;
            g.events.push(GateEv::Cancelled(id));
        }
    }
}
#[async_trait]
impl MetadataFetch for Gate {
    async fn fetch(&self, range: Range<u64>) -> AsyncTiffResult<Bytes> {
        GateFut { gate: self, id: None, range, finished: false }.await
    }
}

pub fn is_injected(e: &AsyncTiffError) -> Option<u64> {
    if let AsyncTiffError::EndOfFile(n, 0) = e {
        if n >> 32 == EOF_FAULT { return Some(n & 0xffff_ffff); }
    }
    let s = format!("{e} {e:?}");
    s.find(FAULT).and_then(|p| s[p + FAULT.len()..].chars().take_while(|c| c.is_ascii_digit()).collect::<String>().parse().ok())
}
const EOF_FAULT: u64 = 0xFA17;
/// Failures come in every shape a source may report; each carries its number.
pub fn fault(k: u64, salt: u64) -> AsyncTiffError {
    use std::io::ErrorKind::*;
    let m = format!("{FAULT}{k}");
    let kinds = [UnexpectedEof, TimedOut, NotFound, Interrupted, ConnectionReset, WouldBlock, InvalidData, Other];
    match crate::rng::mix(k ^ salt.wrapping_mul(31)) % 16 {
        0..=2 => AsyncTiffError::External(m.into()),
        3 => AsyncTiffError::General(m),
        4 => AsyncTiffError::EndOfFile((EOF_FAULT << 32) + k, 0),
        5 => AsyncTiffError::ObjectStore(object_store::Error::NotFound { path: "f".into(), source: m.into() }),
        6 => AsyncTiffError::ObjectStore(object_store::Error::Generic { store: "f", source: m.into() }),
        7 => AsyncTiffError::InternalTIFFError(async_tiff::error::TiffError::FormatError(async_tiff::error::TiffFormatError::Format(m))),
        n => AsyncTiffError::IOError(std::io::Error::new(kinds[n as usize - 8], m)),
    }
}

// ---------------------------------------------------------------------------------------------
// A cooperative executor whose schedule is chosen by the caller.

pub struct Flag(std::sync::atomic::AtomicBool);
impl futures::task::ArcWake for Flag {
    fn wake_by_ref(a: &Arc<Self>) {
        a.0.store(true, Ordering::SeqCst);
    }
}
pub struct Tasks<'a, T> {
    pub tasks: Vec<Task<'a, T>>,
}
pub struct Task<'a, T> {
    pub fut: Option<Pin<Box<dyn std::future::Future<Output = T> + 'a>>>,
    pub flag: Arc<Flag>,
    pub out: Option<T>,
    pub polls: u64,
}
impl<'a, T> Tasks<'a, T> {
    pub fn new() -> Self {
        Tasks { tasks: vec![] }
    }
    pub fn spawn(&mut self, f: impl std::future::Future<Output = T> + 'a) -> usize {
        self.tasks.push(Task {
            fut: Some(Box::pin(f)),
            flag: Arc::new(Flag(true.into())),
            out: None,
            polls: 0,
        });
        self.tasks.len() - 1
    }
    pub fn runnable(&self) -> Vec<usize> {
        (0..self.tasks.len())
            .filter(|&i| self.tasks[i].fut.is_some() && self.tasks[i].flag.0.load(Ordering::SeqCst))
            .collect()
    }
    pub fn alive(&self) -> Vec<usize> {
        (0..self.tasks.len()).filter(|&i| self.tasks[i].fut.is_some()).collect()
    }
    pub fn poll(&mut self, i: usize) -> bool {
        let t = &mut self.tasks[i];
        t.flag.0.store(false, Ordering::SeqCst);
        let w = futures::task::waker(t.flag.clone());
        let mut cx = Context::from_waker(&w);
        t.polls += 1;
        if let Poll::Ready(v) = t.fut.as_mut().unwrap().as_mut().poll(&mut cx) {
            t.out = Some(v);
            t.fut = None;
            true
        } else {
            false
        }
    }
    pub fn cancel(&mut self, i: usize) {
        self.tasks[i].fut = None;
    }
}

pub fn block_on<F: std::future::Future>(f: F) -> F::Output {
    futures::executor::block_on(f)
}

pub fn rand_file(rng: &mut Rng, len: usize) -> Sparse {
    Sparse::dense(rng.bytes(len))
}
