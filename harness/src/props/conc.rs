//! C19: shared caches, readers and registries under concurrency; every result is compared with the
//! one a single sequential caller got.
use crate::codecs::{self, Jpeg, JpegComp};
use crate::ensure;
use crate::image::*;
use crate::io::*;
use crate::props::codec::{lerc_blob, small_spec};
use crate::props::meta::canon;
use crate::props::readers::{runtime, Scratch};
use crate::props::tiles::rand_model;
use crate::rng::{hash_bytes, Rng};
use crate::run::*;
use crate::tiffmodel::*;
use async_tiff::decoder::{Decoder, DecoderRegistry};
use async_tiff::error::{AsyncTiffError, AsyncTiffResult};
use async_tiff::metadata::cache::ReadaheadMetadataCache;
use async_tiff::metadata::{MetadataFetch, TiffMetadataReader};
use async_tiff::reader::{AsyncFileReader, ObjectReader, TokioReader};
use async_tiff::tags::{Compression, PhotometricInterpretation};
use async_tiff::{DataType, ImageFileDirectory, Tile};
use bytes::Bytes;
use object_store::ObjectStoreExt;
use serde_json::json;
use std::ops::Range;
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::{Arc, Barrier, Mutex};

const CUSTOM: u16 = 60000;

/// An image in any codec the library ships (and one it does not).
pub fn any_image(rng: &mut Rng, m: &mut Model, max: u64) -> Result<Img, String> {
    let multi_ok = m.en == if cfg!(target_endian = "little") { En::Le } else { En::Be };
    Ok(match rng.below(10) {
        0 => { // JPEG with shared tables
            let s = small_spec(rng, DataType::UInt8, Compression::ModernJPEG, 1, false, max);
            let (nx, ny) = s.grid();
            let mut set = vec![(262u16, V::Short(vec![1]))];
            let mut enc = vec![];
            let mut tiles = vec![];
            let var = rng.u8();
            for _ in 0..nx * ny {
                let (mx, my) = Jpeg::mcus(s.tw as usize, s.th as usize, 1, 1);
                let j = Jpeg { w: s.tw as usize, h: s.th as usize, comps: vec![JpegComp { hs: 1, vs: 1, blocks: rng.bytes(mx * my), bw: mx }], restart: false, ids: 0, app: 0, var };
                tiles.push((0..s.tw as usize * s.th as usize).map(|i| j.comps[0].blocks[i / s.tw as usize / 8 * mx + i % s.tw as usize / 8] as u64).collect());
                let (t, b) = j.abbreviated();
                if set.len() == 1 { set.push((347, V::Undef(t))); }
                enc.push(b);
            }
            add_encoded(rng, m, s, tiles, enc, &set)
        }
        1 => {
            let s = small_spec(rng, DataType::UInt8, Compression::WebP, 3, false, max);
            let (nx, ny) = s.grid();
            let tiles: Vec<Vec<u64>> = (0..nx * ny).map(|_| rand_samples(rng, &s)).collect();
            let enc = tiles.iter().map(|v| codecs::webp(&v.iter().map(|x| *x as u8).collect::<Vec<_>>(), s.tw, s.th, 3)).collect();
            add_encoded(rng, m, s, tiles, enc, &[])
        }
        2 => {
            let d = if multi_ok && rng.chance(1, 2) { DataType::UInt16 } else { DataType::UInt8 };
            let s = small_spec(rng, d, Compression::JPEG2k, 1, false, max);
            let (nx, ny) = s.grid();
            let tiles: Vec<Vec<u64>> = (0..nx * ny).map(|_| rand_samples(rng, &s)).collect();
            let enc = tiles.iter().map(|v| codecs::j2k(&v.iter().map(|x| *x as u32).collect::<Vec<_>>(), s.tw, s.th, 1, bits(d) as u32, false)).collect();
            add_encoded(rng, m, s, tiles, enc, &[])
        }
        3 => {
            let d = if multi_ok { *rng.pick(&[DataType::UInt8, DataType::Int16, DataType::UInt32]) } else { DataType::UInt8 };
            let s = small_spec(rng, d, Compression::LERC, 1, false, max);
            let (nx, ny) = s.grid();
            let mut enc = vec![];
            let mut tiles = vec![];
            let inner = rng.below(3) as u32;
            for _ in 0..nx * ny {
                let v = rand_samples(rng, &s);
                let b = lerc_blob(&s, &v, s.tw as usize, s.th as usize, 1)?;
                enc.push(match inner { 1 => codecs::deflate(&b, 6), 2 => codecs::zstd(&b, 3), _ => b });
                tiles.push(v);
            }
            add_encoded(rng, m, s, tiles, enc, &[(50674, V::Long(vec![4, inner]))])
        }
        4 => { // user-registered codec: xor with the first byte
            let planar = rng.chance(1, 2);
            let s = small_spec(rng, DataType::UInt16, Compression::None, 2, planar, max);
            let i = add_image(rng, m, s);
            for b in &i.blocks {
                let k = rng.u8();
                let blk = &mut m.blocks[*b];
                blk.iter_mut().for_each(|x| *x ^= k);
                blk.insert(0, k);
            }
            let counts: Vec<u64> = i.blocks.iter().map(|b| m.blocks[*b].len() as u64).collect();
            m.ifds[i.ifd].set(259, V::Short(vec![CUSTOM]));
            m.ifds[i.ifd].set(325, V::Long(counts.iter().map(|c| *c as u32).collect()));
            i
        }
        _ => {
            let mut s = rand_spec(rng);
            if s.tw as u64 > max { s.tw = max as u32; }
            if s.th as u64 > max { s.th = max as u32; }
            if s.dtype == DataType::Bool { s.tw = (s.tw / 8 * 8).max(8); }
            s.w = s.w.min(3 * s.tw);
            s.h = s.h.min(3 * s.th);
            add_image(rng, m, s)
        }
    })
}

/// Undoes the xor; gives other threads a chance in the middle and counts overlapping calls.
#[derive(Debug, Default)]
pub struct XorDecoder { inside: AtomicU64, overlaps: AtomicU64, calls: AtomicU64 }
#[derive(Debug)]
struct Shared(Arc<XorDecoder>);
impl Decoder for Shared {
    fn decode_tile(&self, b: Bytes, _p: PhotometricInterpretation, _t: Option<&[u8]>, _s: u16, _b: u16, _l: Option<&[u32]>) -> AsyncTiffResult<Vec<u8>> {
        if self.0.inside.fetch_add(1, Ordering::SeqCst) > 0 { self.0.overlaps.fetch_add(1, Ordering::SeqCst); }
        self.0.calls.fetch_add(1, Ordering::SeqCst);
        std::thread::yield_now();
        let r = match b.first() {
            Some(k) => Ok(b[1..].iter().map(|x| x ^ k).collect()),
            None => Err(AsyncTiffError::General("empty".into())),
        };
        self.0.inside.fetch_sub(1, Ordering::SeqCst);
        r
    }
}
pub fn registry() -> (Arc<DecoderRegistry>, Arc<XorDecoder>) {
    let x = Arc::new(XorDecoder::default());
    let mut r = DecoderRegistry::default();
    r.as_mut().insert(crate::enums::compression_of(CUSTOM), Box::new(Shared(x.clone())));
    (Arc::new(r), x)
}

/// What a sequential caller sees: the IFDs, and per tile the digest of the decoded array or the error.
pub struct Expect {
    pub ifds: Vec<String>,
    pub tiles: Vec<Vec<((usize, usize), Answer)>>,
}
pub type Answer = Result<u64, String>;
pub fn digest(t: Tile, reg: &DecoderRegistry) -> Answer {
    match t.decode(reg) {
        Ok(a) => {
            let b: &[u8] = a.data().as_ref();
            Ok(hash_bytes(b) ^ hash_bytes(format!("{:?}{:?}{}", a.shape(), a.data_type(), b.len()).as_bytes()))
        }
        Err(e) => Err(e.to_string()),
    }
}
/// Digest of the pixels the generator encoded.
pub fn truth(im: &Img, i: usize) -> u64 {
    let b = native(&im.tiles[i], im.spec.dtype);
    hash_bytes(&b) ^ hash_bytes(format!("{:?}{:?}{}", im.spec.shape(), Some(im.spec.dtype), b.len()).as_bytes())
}
/// The sequential answer of a process that has done nothing else before.
pub fn fresh(file: &[u8], ifd: usize, x: usize, y: usize) -> Option<Answer> {
    let p = std::env::temp_dir().join(format!("vmon-digest-{}-{}", std::process::id(), hash_bytes(file)));
    std::fs::write(&p, file).ok()?;
    let o = std::process::Command::new(std::env::current_exe().ok()?).arg("digest").arg(&p).args([ifd.to_string(), x.to_string(), y.to_string()]).output();
    let _ = std::fs::remove_file(&p);
    let o = o.ok()?;
    let s = String::from_utf8_lossy(&o.stdout);
    if let Some(d) = s.strip_prefix("OK ") { return d.trim().parse().ok().map(Ok); }
    s.strip_prefix("ERR ").map(|e| Err(e.trim_end().to_string()))
}
pub fn print_digest(path: &str, ifd: usize, x: usize, y: usize) {
    let mem = Mem::new(Sparse::dense(std::fs::read(path).expect("read")));
    let (reg, _) = registry();
    let ifds = block_on(read_ifds(&mem)).expect("ifds");
    match digest(block_on(ifds[ifd].fetch_tile(x, y, &mem)).expect("fetch"), &reg) {
        Ok(d) => println!("OK {d}"),
        Err(e) => println!("ERR {e}"),
    }
}
/// A sequential answer that is not what was encoded is either a decoding fault, which other
/// properties decide, or left over from an earlier caller in this process: a process that did
/// nothing else tells which.
fn untainted(got: &Answer, im: &Img, i: usize, x: usize, y: usize, file: &[u8], damaged: Option<usize>, obs: &mut Obs) -> Case {
    if damaged.is_some_and(|d| im.blocks.contains(&d)) { return Ok(()); }
    obs.hit("sequential_answers_verified");
    if *got == Ok(truth(im, i)) { obs.hit("sequential_answers_as_encoded"); return Ok(()); }
    if let Some(f) = fresh(file, im.ifd, x, y) {
        ensure!(f == *got, "{:?} tile ({x},{y}) decodes to {got:?}, in a process of its own to {f:?}: the result depends on what other callers decoded before", im.spec.comp);
    }
    Ok(())
}
pub async fn read_ifds<F: MetadataFetch>(f: &F) -> Result<Vec<ImageFileDirectory>, String> {
    let mut mr = TiffMetadataReader::try_open(f).await.map_err(|e| format!("open: {e}"))?;
    mr.read_all_ifds(f).await.map_err(|e| format!("read: {e}"))
}
async fn expect(mem: &Mem, reg: &DecoderRegistry, imgs: &[Img], damaged: Option<usize>, obs: &mut Obs) -> Result<(Vec<ImageFileDirectory>, Expect), String> {
    let ifds = read_ifds(mem).await?;
    let mut tiles = vec![];
    for im in imgs {
        let (nx, ny) = im.spec.grid();
        let mut v = vec![];
        for y in 0..ny { for x in 0..nx {
            let t = ifds[im.ifd].fetch_tile(x, y, mem).await.map_err(|e| format!("fetch_tile: {e}"))?;
            let d = digest(t, reg);
            untainted(&d, im, y * nx + x, x, y, &mem.file.to_vec(), damaged, obs)?;
            v.push(((x, y), d));
        } }
        tiles.push(v);
    }
    Ok((ifds.clone(), Expect { ifds: ifds.iter().map(canon).collect(), tiles }))
}

#[derive(Debug, Clone)]
enum Op {
    ReadAll,
    Step,
    Tile(usize, usize),
    Tiles(usize, Vec<usize>),
    Raw(Vec<Range<u64>>),
}
fn rand_ops(rng: &mut Rng, e: &Expect, len: u64, n: usize) -> Vec<Op> {
    (0..n).map(|_| {
        let k = rng.us(0, e.tiles.len() - 1);
        let nt = e.tiles[k].len();
        match rng.below(8) {
            0 => Op::ReadAll,
            1 => Op::Step,
            2 => Op::Raw((0..rng.us(1, 4)).map(|_| { let a = rng.below(len.max(1)); a..a + rng.below(len - a + 1) }).collect()),
            3 | 4 => Op::Tiles(k, (0..rng.us(0, 5)).map(|_| rng.us(0, nt - 1)).collect()),
            _ => Op::Tile(k, rng.us(0, nt - 1)),
        }
    }).collect()
}

struct World<F, R> { cache: F, reader: R, ifds: Vec<ImageFileDirectory>, exp: Expect, map: Vec<usize>, reg: Arc<DecoderRegistry>, file: Vec<u8>, inflight: AtomicU64, overlapped: AtomicU64 }

/// Perform one operation and compare with the sequential expectation; number of comparisons.
async fn perform<F: MetadataFetch, R: AsyncFileReader>(w: &World<F, R>, op: &Op) -> Result<u64, String> {
    if w.inflight.fetch_add(1, Ordering::SeqCst) > 0 { w.overlapped.fetch_add(1, Ordering::SeqCst); }
    struct G<'a>(&'a AtomicU64);
    impl Drop for G<'_> { fn drop(&mut self) { self.0.fetch_sub(1, Ordering::SeqCst); } }
    let _g = G(&w.inflight);
    match op {
        Op::ReadAll => {
            let v = read_ifds(&w.cache).await?;
            let got: Vec<String> = v.iter().map(canon).collect();
            ensure!(got == w.exp.ifds, "IFDs read concurrently through the shared cache differ from the sequential result: {} vs {}", got.len(), w.exp.ifds.len());
            Ok(got.len() as u64)
        }
        Op::Step => {
            let mut mr = TiffMetadataReader::try_open(&w.cache).await.map_err(|e| format!("open: {e}"))?;
            let mut n = 0;
            while let Some(i) = mr.read_next_ifd(&w.cache).await.map_err(|e| format!("read_next_ifd: {e}"))? {
                ensure!(w.exp.ifds.get(n).is_some_and(|x| *x == canon(&i)), "IFD #{n} read concurrently through the shared cache differs");
                n += 1;
            }
            ensure!(n == w.exp.ifds.len(), "{n} IFDs read step by step, sequentially {}", w.exp.ifds.len());
            Ok(n as u64)
        }
        Op::Tile(k, i) => {
            let ((x, y), want) = &w.exp.tiles[*k][*i];
            let t = w.ifds[w.map[*k]].fetch_tile(*x, *y, &w.reader).await.map_err(|e| format!("fetch_tile: {e}"))?;
            ensure!((t.x(), t.y()) == (*x, *y), "tile ({x},{y}) is labelled ({},{})", t.x(), t.y());
            let got = digest(t, &w.reg);
            ensure!(got == *want, "image {k} tile ({x},{y}): {got:?}, sequentially {want:?}");
            Ok(1)
        }
        Op::Tiles(k, is) => {
            let xy: Vec<(usize, usize)> = is.iter().map(|i| w.exp.tiles[*k][*i].0).collect();
            let ts = w.ifds[w.map[*k]].fetch_tiles(&xy, &w.reader).await.map_err(|e| format!("fetch_tiles: {e}"))?;
            ensure!(ts.len() == xy.len(), "{} tiles for {} positions", ts.len(), xy.len());
            for ((t, i), p) in ts.into_iter().zip(is).zip(&xy) {
                ensure!((t.x(), t.y()) == *p, "tile {p:?} is labelled ({},{})", t.x(), t.y());
                let got = digest(t, &w.reg);
                let want = &w.exp.tiles[*k][*i].1;
                ensure!(got == *want, "image {k} tile {p:?} of a batch: {got:?}, sequentially {want:?}");
            }
            Ok(is.len() as u64)
        }
        Op::Raw(rs) => {
            let one = w.cache.fetch(rs[0].clone()).await.map_err(|e| format!("fetch: {e}"))?;
            ensure!(one[..] == w.file[rs[0].start as usize..rs[0].end as usize], "cache fetch {:?} returned other bytes", rs[0]);
            let rs: Vec<_> = rs.iter().filter(|r| r.start < r.end).cloned().collect();
            let many = w.reader.get_byte_ranges(rs.clone()).await.map_err(|e| format!("get_byte_ranges: {e}"))?;
            ensure!(many.len() == rs.len(), "{} buffers for {} ranges", many.len(), rs.len());
            for (r, b) in rs.iter().zip(&many) { ensure!(b[..] == w.file[r.start as usize..r.end as usize], "reader range {r:?} returned other bytes"); }
            Ok(1 + rs.len() as u64)
        }
    }
}

/// The native codecs leave parts of their answer undefined for some damaged streams (LERC reads
/// uninitialised fields of a header it could not parse), so their blocks are damaged beyond
/// recognition, which is an error for certain.
pub fn wiped(m: &mut Model, imgs: &[Img], k: usize) -> bool {
    let native = imgs.iter().any(|i| i.blocks.contains(&k) && matches!(i.spec.comp, Compression::LERC | Compression::JPEG2k | Compression::WebP));
    if native { m.blocks[k].fill(0); }
    native
}
fn scene(rng: &mut Rng, max: u64) -> Result<(Model, Vec<Img>, Vec<u8>, Option<usize>), String> {
    let mut m = rand_model(rng);
    m.layout = *rng.pick(&[Layout::Cog, Layout::Shuffled, Layout::Trailer]);
    let mut imgs = vec![];
    for _ in 0..rng.us(1, 4) { imgs.push(any_image(rng, &mut m, max)?); }
    // some tiles are damaged: errors have to stay with their own caller
    let mut damaged = None;
    if rng.chance(1, 3) {
        let k = rng.us(0, m.blocks.len() - 1);
        damaged = Some(k);
        let n = m.blocks[k].len();
        if !wiped(&mut m, &imgs, k) {
            for _ in 0..rng.us(1, 6) { if n > 1 { let p = rng.us(n / 2, n - 1); m.blocks[k][p] ^= 1 << rng.below(8); } }
        }
    }
    let built = m.build(rng);
    let v = built.file.to_vec();
    Ok((m, imgs, v, damaged))
}

pub fn c19(mut r: Runner) -> i32 {
    r.rule("case = one multi-image file in mixed codecs, several callers sharing one metadata cache, one reader and one registry, on threads or under a seeded cooperative schedule, some of them cancelled; every result compared with the sequential caller's; distinct by (file, operations, schedule)");
    r.require(&["results_compared", "overlapping_operations", "overlapping_decodes", "schedules_with_cancellation", "decodes_in_threads", "shared_file_reader", "shared_object_reader", "shared_memory_reader", "sequential_answers_verified"]);
    r.assume("timeouts of real threads are inconclusive; deadlocks are decided by the cooperative scheduler (no task can proceed) or by a case that blocks without using the CPU, twice");
    // 1. seeded cooperative schedules: every interleaving of suspension points, exactly reproducible
    r.family("schedules", 4000, 80000, |rng, obs, _| {
        let (m, imgs, file, damaged) = scene(rng, 12)?;
        let (reg, _) = registry();
        let mem = Mem::new(Sparse::dense(file.clone()));
        let (ifds, exp) = block_on(expect(&mem, &reg, &imgs, damaged, obs))?;
        let slow = Mem::new(Sparse::dense(file.clone()));
        slow.ctl.max_yields.store(rng.range(1, 5), Ordering::Relaxed);
        slow.ctl.yield_seed.store(rng.u64(), Ordering::Relaxed);
        let cache = ReadaheadMetadataCache::new(slow.clone()).with_initial_size(rng.range(1, 400)).with_multiplier(*rng.pick(&[1.0, 1.5, 2.0, 4.0]));
        let map = imgs.iter().map(|i| i.ifd).collect();
        let w = World { cache, reader: slow, ifds, exp, map, reg, file: file.clone(), inflight: 0.into(), overlapped: 0.into() };
        let n = rng.us(2, 7);
        let ops: Vec<Vec<Op>> = (0..n).map(|_| { let k = rng.us(1, 4); rand_ops(rng, &w.exp, file.len() as u64, k) }).collect();
        let mut tasks: Tasks<Result<u64, String>> = Tasks::new();
        for o in &ops {
            let w = &w;
            tasks.spawn(async move { let mut n = 0; for x in o { n += perform(w, x).await?; } Ok(n) });
        }
        let mut trace = String::new();
        let mut cancelled = 0;
        let mut steps = 0u64;
        let mut bias = 0usize;
        loop {
            let alive = tasks.alive();
            if alive.is_empty() { break; }
            let run = tasks.runnable();
            ensure!(!run.is_empty(), "deadlock: {} of {n} callers wait and none can proceed; {:?} schedule {trace}", alive.len(), m.en);
            steps += 1;
            ensure!(steps < 1_000_000, "livelock: 1000000 scheduling steps without finishing; schedule {trace}");
            if alive.len() > 1 && rng.chance(1, 80) {
                let k = *rng.pick(&alive);
                tasks.cancel(k);
                cancelled += 1;
                trace.push_str(&format!("x{k} "));
                continue;
            }
            // mostly random, sometimes one task far ahead of the others
            if rng.chance(1, 10) { bias = rng.us(0, n - 1); }
            let k = if rng.chance(1, 2) && run.contains(&bias) { bias } else { *rng.pick(&run) };
            if steps < 80 { trace.push_str(&format!("{k} ")); }
            let done = no_panic(|| tasks.poll(k)).map_err(|p| format!("caller {k} panicked after schedule {trace}: {p}"))?;
            if done {
                let got = tasks.tasks[k].out.take().unwrap().map_err(|e| format!("caller {k} {:?}: {e}; schedule {trace}", ops[k]))?;
                obs.add("results_compared", got);
            }
        }
        if cancelled > 0 { obs.hit("schedules_with_cancellation"); }
        obs.sign(&format!("{}{ops:?}{trace}", hash_bytes(&file)));
        obs.state("interleavings", hash_bytes(trace.as_bytes()));
        obs.sample(|| format!("{} callers {ops:?} schedule {trace}", n));
        obs.add("overlapping_operations", w.overlapped.load(Ordering::SeqCst));
        drop(tasks);
        obs.add("results_compared", block_on(perform(&w, &Op::ReadAll)).map_err(|e| format!("after the schedule: {e}; schedule {trace}"))?);
        Ok(())
    });
    // 2. real threads on a multi-threaded runtime
    let rt = Arc::new(runtime(6));
    let scratch = Scratch::new(&r.out_dir, "c19");
    let dir = scratch.0.clone();
    r.family("threads", 1200, 20000, |rng, obs, i| {
        let max = if rng.chance(1, 40) { 200 } else { 24 };
        let (m, imgs, file, damaged) = scene(rng, max)?;
        let (reg, xd) = registry();
        let mem = Mem::new(Sparse::dense(file.clone()));
        let (ifds, exp) = block_on(expect(&mem, &reg, &imgs, damaged, obs))?;
        let kind = rng.below(3);
        let n = rng.us(2, 12);
        let ops: Vec<Vec<Op>> = (0..n).map(|_| { let k = rng.us(1, 6); rand_ops(rng, &exp, file.len() as u64, k) }).collect();
        let kills: Vec<bool> = (0..n).map(|_| rng.chance(1, 6)).collect();
        let (init, mult) = (rng.range(1, 400), *rng.pick(&[1.0, 2.0, 3.0]));
        obs.sign(&format!("{kind}{}{ops:?}", hash_bytes(&file)));
        obs.sample(|| format!("{n} tasks on 6 threads, reader kind {kind}, {ops:?}"));
        let p = dir.join(format!("f{i}"));
        let path = object_store::path::Path::from("x.tif");
        let map = imgs.iter().map(|i| i.ifd).collect();
        let res: Result<(u64, u64), String> = rt.block_on(async {
            let reader: Arc<dyn AsyncFileReader> = match kind {
                0 => {
                    std::fs::write(&p, &file).map_err(|e| format!("HARNESS: {e}"))?;
                    Arc::new(TokioReader::new(tokio::fs::File::open(&p).await.map_err(|e| format!("HARNESS: {e}"))?))
                }
                1 => {
                    let s: Arc<dyn object_store::ObjectStore> = Arc::new(object_store::memory::InMemory::new());
                    s.put(&path, file.clone().into()).await.map_err(|e| format!("HARNESS: {e}"))?;
                    Arc::new(ObjectReader::new(s, path.clone()))
                }
                _ => { let y = Mem::new(Sparse::dense(file.clone())); y.ctl.max_yields.store(3, Ordering::Relaxed); Arc::new(y) }
            };
            let cache = ReadaheadMetadataCache::new(reader.clone()).with_initial_size(init).with_multiplier(mult);
            let w = Arc::new(World { cache, reader, ifds, exp, map, reg, file: file.clone(), inflight: 0.into(), overlapped: 0.into() });
            let start = Arc::new(tokio::sync::Barrier::new(n));
            let hs: Vec<_> = ops.iter().map(|o| {
                let (w, o, b) = (w.clone(), o.clone(), start.clone());
                tokio::spawn(async move { b.wait().await; let mut k = 0; for x in &o { k += perform(&w, x).await.map_err(|e| format!("{x:?}: {e}"))?; } Ok::<u64, String>(k) })
            }).collect();
            tokio::task::yield_now().await;
            // a task is aborted only after the barrier can no longer wait for it
            let mut total = 0;
            let hs: Vec<_> = hs.into_iter().zip(&kills).collect();
            for (h, k) in &hs { if **k { while w.inflight.load(Ordering::SeqCst) == 0 && !h.is_finished() { tokio::task::yield_now().await; } h.abort(); } }
            for (h, _) in hs {
                match h.await { Ok(x) => total += x.map_err(|e| format!("reader kind {kind}, {:?}: {e}", m.en))?, Err(e) if e.is_cancelled() => {} Err(e) => return Err(format!("a task panicked: {e}")) }
            }
            total += perform(&w, &Op::Step).await.map_err(|e| format!("after the tasks: {e}"))?;
            Ok((total, w.overlapped.load(Ordering::SeqCst)))
        });
        if kind == 0 { let _ = std::fs::remove_file(&p); }
        let (total, over) = res?;
        obs.add("results_compared", total);
        obs.add("overlapping_operations", over);
        obs.add("overlapping_decodes", xd.overlaps.load(Ordering::SeqCst));
        obs.hit(["shared_file_reader", "shared_object_reader", "shared_memory_reader"][kind as usize]);
        Ok(())
    });
    // 3. decoding storms: the same tiles decoded by several threads at once with one registry
    r.family("decode-storm", 250, 5000, |rng, obs, _| {
        let max = if rng.chance(1, 8) { 320 } else { 64 };
        let (_m, imgs, file, damaged) = scene(rng, max)?;
        let (reg, xd) = registry();
        let mem = Mem::new(Sparse::dense(file.clone()));
        let ifds = block_on(read_ifds(&mem))?;
        let mut tiles: Vec<(Tile, Answer)> = vec![];
        for im in &imgs {
            let (nx, ny) = im.spec.grid();
            for y in 0..ny { for x in 0..nx {
                let t = block_on(ifds[im.ifd].fetch_tile(x, y, &mem)).map_err(|e| format!("fetch_tile: {e}"))?;
                let a = digest(t.clone(), &reg);
                untainted(&a, im, y * nx + x, x, y, &file, damaged, obs)?;
                tiles.push((t, a));
            } }
        }
        let nt = rng.us(2, 6);
        let orders: Vec<Vec<usize>> = (0..nt).map(|_| { let mut v: Vec<usize> = (0..tiles.len()).collect(); rng.shuffle(&mut v); v }).collect();
        obs.sign(&format!("{}{orders:?}", hash_bytes(&file)));
        let bar = Barrier::new(nt);
        let bad: Mutex<Option<String>> = Mutex::new(None);
        let inside = AtomicU64::new(0);
        let over = AtomicU64::new(0);
        std::thread::scope(|s| for o in &orders {
            let (tiles, bar, bad, reg, inside, over) = (&tiles, &bar, &bad, &reg, &inside, &over);
            s.spawn(move || {
                bar.wait();
                for rep in 0..3 { for i in o {
                    if inside.fetch_add(1, Ordering::SeqCst) > 0 { over.fetch_add(1, Ordering::SeqCst); }
                    let got = no_panic(|| digest(tiles[*i].0.clone(), reg));
                    inside.fetch_sub(1, Ordering::SeqCst);
                    match got {
                        Err(p) => { *bad.lock().unwrap() = Some(format!("tile {i} round {rep}: {p}")); return; }
                        Ok(g) if g != tiles[*i].1 => { *bad.lock().unwrap() = Some(format!("{:?} tile {i} round {rep}: {g:?}, sequentially {:?}", tiles[*i].0.compression_method(), tiles[*i].1)); return; }
                        _ => {}
                    }
                } }
            });
        });
        if let Some(b) = bad.into_inner().unwrap() { return Err(format!("decoded by {nt} threads at once: {b}")); }
        obs.add("decodes_in_threads", (nt * tiles.len() * 3) as u64);
        obs.add("results_compared", (nt * tiles.len() * 3) as u64);
        obs.add("overlapping_decodes", over.load(Ordering::SeqCst) + xd.overlaps.load(Ordering::SeqCst));
        Ok(())
    });
    drop(scratch);
    r.finish("exploration", json!({}))
}

/// The same workload in the ThreadSanitizer build; any report is a data race.
pub fn tsan(r: &mut Runner) {
    use crate::props::sani;
    let bin = sani::built(r, "tsan");
    if let Err(e) = sani::control(&bin, &[("race", "ThreadSanitizer")]) {
        eprintln!("[C19] ThreadSanitizer part skipped: {e}");
        r.assume(&format!("ThreadSanitizer could not run here: {e}"));
        return;
    }
    if !r.agg.lock().unwrap().violations.is_empty() { return; }
    let scale = if r.thorough { 0.15 } else { 0.2 };
    let o = crate::iso::Opts { bin, env: vec![("TSAN_OPTIONS", sani::TSAN.into()), ("VMON_SCALE", scale.to_string()), ("VMON_KEEP_GOING", "1".into())], deaths_only: true, prop: "C19", label: "tsan", soft: false };
    crate::iso::run(r, &o);
    *r.agg.lock().unwrap().counters.entry("tsan_controls".into()).or_default() += 1;
}
