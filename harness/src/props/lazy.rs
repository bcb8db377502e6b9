//! C25 (metadata reads request metadata only) and C26 (dropped calls have no effect).
use crate::ensure;
use crate::image::*;
use crate::io::*;
use crate::props::meta::{canon, canon_tiff, rand_entry};
use crate::props::tiles::{open, rand_model};
use crate::rng::{mix, Rng};
use crate::run::*;
use crate::tiffmodel::*;
use async_tiff::decoder::DecoderRegistry;
use async_tiff::metadata::cache::ReadaheadMetadataCache;
use async_tiff::metadata::{MetadataFetch, TiffMetadataReader};
use crate::props::readers::Script;
use async_tiff::reader::{AsyncFileReader, TokioReader};
use async_tiff::{ImageFileDirectory, Tile, TIFF};
use serde_json::json;
use std::future::Future;
use std::ops::Range;
use std::sync::atomic::Ordering;

// ------------------------------------------------------------------------------------------ C25

fn asked(log: Vec<Ev>) -> Vec<Range<u64>> {
    log.into_iter().flat_map(|e| match e { Ev::Get(r) => vec![r], Ev::Ranges(r) => r, Ev::Fault(_) => vec![] }).filter(|r| !r.is_empty()).collect()
}
/// `r` lies in the union of `spans`.
fn covered(r: &Range<u64>, spans: &[(u64, u64)]) -> bool {
    let mut at = r.start;
    while at < r.end {
        match spans.iter().filter(|s| s.0 <= at && at < s.1).map(|s| s.1).max() { Some(e) => at = e, None => return false }
    }
    true
}

fn metadata_only(rng: &mut Rng, obs: &mut Obs, big_values: bool) -> Case {
    let mut m = rand_model(rng);
    let n = rng.us(1, 4);
    let mut imgs = vec![];
    for _ in 0..n {
        let s = rand_spec(rng);
        let img = add_image(rng, &mut m, s);
        let ifd = m.ifds.last_mut().unwrap();
        for k in 0..rng.us(0, 4) {
            ifd.push(40000 + k as u16, rand_entry(rng, if big_values { 5000 } else { 40 }));
        }
        sort_sometimes(rng, ifd);
        imgs.push(img);
    }
    let built = m.build(rng);
    let mem = Mem::new(built.file.clone());
    let hdr = if m.big { 16 } else { 8 };
    let ctx = format!("{:?} big={} {:?} {n} IFDs of {:?} entries", m.en, m.big, m.layout, m.ifds.iter().map(|i| i.entries.len()).collect::<Vec<_>>());
    obs.sign(&format!("{ctx}{:?}", built.ifd_offsets));
    obs.sample(|| ctx.clone());
    block_on(async {
        let mut r = TiffMetadataReader::try_open(&mem).await.map_err(|e| format!("{ctx}: open: {e}"))?;
        let a = asked(mem.take_log());
        obs.add("requests_seen", a.len() as u64);
        ensure!(a.iter().all(|r| r.end <= hdr), "{ctx}: opening requested {a:?}, the header is {hdr} bytes");
        ensure!(a.iter().map(|r| r.end - r.start).sum::<u64>() <= 2 * hdr, "{ctx}: opening requested {a:?}");
        obs.hit("opens_within_the_header");
        let upto = rng.us(0, n);
        let mut ifds: Vec<ImageFileDirectory> = vec![];
        for i in 0..upto {
            let ifd = r.read_next_ifd(&mem).await.map_err(|e| format!("{ctx}: IFD {i}: {e}"))?.ok_or(format!("{ctx}: IFD {i} missing"))?;
            ifds.push(ifd);
            let a = asked(mem.take_log());
            obs.add("requests_seen", a.len() as u64);
            let mine: Vec<(u64, u64)> = built.meta_ranges.iter().zip(&built.meta_owner).filter(|(_, o)| **o == i).map(|(r, _)| *r).collect();
            for q in &a {
                if !covered(q, &mine) && !(q.end <= hdr) {
                    let what = if built.block_offsets.iter().zip(&m.blocks).any(|(o, b)| q.start < o + b.len() as u64 && *o < q.end) { "image data" }
                        else if built.meta_ranges.iter().zip(&built.meta_owner).any(|(r, o)| *o != i && q.start < r.1 && r.0 < q.end) { "another IFD" }
                        else { "bytes that are not metadata" };
                    return Err(format!("{ctx}: reading IFD {i} requested {q:?}, {what}; the IFD and its values are at {mine:?}"));
                }
            }
            let size: u64 = mine.iter().map(|s| s.1 - s.0).sum();
            let total: u64 = a.iter().map(|r| r.end - r.start).sum();
            ensure!(total <= 2 * size + hdr, "{ctx}: reading IFD {i} requested {total} bytes in {} requests, the IFD and its values have {size}", a.len());
            obs.hit("ifds_read_from_their_own_bytes");
        }
        // nothing that takes no reader reads, and a tile costs the tile
        for (i, ifd) in ifds.iter().enumerate() {
            let img = &imgs[i];
            let (nx, ny) = img.spec.grid();
            let (x, y) = (rng.us(0, nx - 1), rng.us(0, ny - 1));
            let _ = (canon(ifd), ifd.tile_count(), ifd.tile_byte_range(x, y).is_some());
            ensure!(mem.take_log().is_empty(), "{ctx}: accessors issued requests");
            let t = ifd.fetch_tile(x, y, &mem).await.map_err(|e| format!("{ctx}: fetch: {e}"))?;
            let bands = if img.spec.planar { img.spec.spp as usize } else { 1 };
            let own: Vec<(u64, u64)> = (0..bands).map(|b| img.blocks[b * nx * ny + y * nx + x]).map(|id| (built.block_offsets[id], built.block_offsets[id] + m.blocks[id].len() as u64)).collect();
            let a = asked(mem.take_log());
            ensure!(a.iter().all(|q| covered(q, &own)), "{ctx}: fetching tile ({x},{y}) of IFD {i} requested {a:?}, its bytes are at {own:?}");
            ensure!(a.iter().map(|r| r.end - r.start).sum::<u64>() <= own.iter().map(|s| s.1 - s.0).sum(), "{ctx}: fetching tile ({x},{y}) of IFD {i} requested {a:?}, its bytes are at {own:?}");
            obs.hit("tiles_fetched_from_their_own_bytes");
            let _ = t.decode(&DecoderRegistry::default());
            ensure!(mem.take_log().is_empty(), "{ctx}: decoding issued requests");
        }
        // all at once: the rest of the chain, each IFD once
        let rest = if rng.chance(1, 2) { r.read_all_ifds(&mem).await.map(|v| v.len()) } else { r.read(&mem).await.map(|t| t.ifds().len()) };
        let rest = rest.map_err(|e| format!("{ctx}: reading the rest: {e}"))?;
        ensure!(rest == n - upto, "{ctx}: {rest} IFDs after {upto}");
        let a = asked(mem.take_log());
        obs.add("requests_seen", a.len() as u64);
        let mine: Vec<(u64, u64)> = built.meta_ranges.iter().zip(&built.meta_owner).filter(|(_, o)| **o >= upto).map(|(r, _)| *r).collect();
        for q in &a {
            ensure!(covered(q, &mine) || q.end <= hdr, "{ctx}: reading the IFDs from {upto} on requested {q:?}; they and their values are at {mine:?}");
        }
        let size: u64 = mine.iter().map(|s| s.1 - s.0).sum();
        ensure!(a.iter().map(|r| r.end - r.start).sum::<u64>() <= 2 * size + hdr, "{ctx}: reading the IFDs from {upto} on requested more than twice their {size} bytes");
        obs.hit("chains_read_from_their_own_bytes");
        Ok(())
    })
}

pub fn c25(mut r: Runner) -> i32 {
    r.rule("case = one multi-IFD file read step by step without a cache; every byte range crossing the reader interface is checked against the generator's map of the file (header, IFDs, out-of-line values per IFD, tiles); distinct by (configuration, physical layout)");
    r.require(&["requests_seen", "opens_within_the_header", "ifds_read_from_their_own_bytes", "tiles_fetched_from_their_own_bytes", "chains_read_from_their_own_bytes"]);
    r.assume("re-reading up to as many bytes as the metadata has is allowed (the library reads some entries' offset fields wider than needed)");
    r.family("layouts", 6000, 120000, |rng, obs, _| metadata_only(rng, obs, false));
    r.family("big-values", 300, 6000, |rng, obs, _| metadata_only(rng, obs, true));
    r.finish("exploration", json!({}))
}

// ------------------------------------------------------------------------------------------ C26

/// Poll `f` at most `n` times, then drop it.
fn poll_then_drop<T>(f: impl Future<Output = T>, n: u64) -> Option<T> {
    let mut f = Box::pin(f);
    let w = futures::task::noop_waker();
    let mut cx = std::task::Context::from_waker(&w);
    for _ in 0..n {
        if let std::task::Poll::Ready(v) = f.as_mut().poll(&mut cx) { return Some(v); }
    }
    None
}
fn suspending(file: &Sparse, rng: &mut Rng) -> Mem {
    let mem = Mem::new(file.clone());
    mem.ctl.quiet.store(true, Ordering::Relaxed);
    mem.ctl.max_yields.store(rng.range(1, 3), Ordering::Relaxed);
    mem.ctl.yield_seed.store(rng.u64(), Ordering::Relaxed);
    mem
}
fn points(rng: &mut Rng) -> u64 {
    match rng.below(4) { 0 => rng.below(4), 1 => rng.below(40), 2 => rng.below(300), _ => rng.below(3000) }
}

fn read_with_drops<F: MetadataFetch>(f: &F, rng: &mut Rng, obs: &mut Obs) -> Result<TIFF, String> {
    let mut drops = 0;
    let mut r = loop {
        let k = if drops > 6 { u64::MAX } else { points(rng) };
        match poll_then_drop(TiffMetadataReader::try_open(f), k) {
            Some(r) => break r.map_err(|e| format!("open: {e}"))?,
            None => { drops += 1; obs.hit("opens_dropped") }
        }
    };
    let mut ifds = vec![];
    let mut drops = 0;
    loop {
        let before = (r.next_ifd_offset(), r.has_next_ifd());
        let k = if drops > 12 { u64::MAX } else { points(rng) };
        match poll_then_drop(r.read_next_ifd(f), k) {
            Some(Ok(Some(i))) => ifds.push(i),
            Some(Ok(None)) => break,
            Some(Err(e)) => return Err(format!("IFD {} after {drops} dropped reads: {e}", ifds.len())),
            None => {
                drops += 1;
                ensure!((r.next_ifd_offset(), r.has_next_ifd()) == before, "a dropped read moved the reader from {before:?} to {:?}", r.next_ifd_offset());
                obs.hit("ifd_reads_dropped");
            }
        }
    }
    Ok(TIFF::new(ifds, r.endianness()))
}

pub fn c26(mut r: Runner) -> i32 {
    r.rule("case = one file whose metadata reads or tile fetches are dropped at random suspension points (every request suspends up to three times) and repeated, alone or next to other calls over the same reader and cache; distinct by (configuration, drop points)");
    r.require(&["opens_dropped", "ifd_reads_dropped", "metadata_identical_after_drops", "cached_metadata_identical_after_drops", "tile_fetches_dropped", "tiles_identical_after_drops", "neighbours_finished", "neighbours_dropped", "bulk_reads_dropped", "handle_reads_dropped", "handle_tiles_identical_after_drops"]);
    r.family("metadata", 3000, 60000, |rng, obs, _| {
        let mut m = rand_model(rng);
        for _ in 0..rng.us(1, 4) { let s = rand_spec(rng); add_image(rng, &mut m, s); }
        let cached = m.layout != Layout::Huge && rng.chance(1, 2);
        let built = m.build(rng);
        let plain = block_on(open(&Mem::new(built.file.clone()), false))?;
        let mem = suspending(&built.file, rng);
        obs.sign(&format!("{:?}{}{cached}{}", m.en, m.big, rng.clone().u64()));
        obs.sample(|| format!("{:?} big={} {:?} {} IFDs, cached {cached}", m.en, m.big, m.layout, m.ifds.len()));
        let t = if cached {
            let c = ReadaheadMetadataCache::new(mem).with_initial_size(rng.range(16, 400));
            read_with_drops(&c, rng, obs)
        } else { read_with_drops(&mem, rng, obs) }.map_err(|e| format!("cached {cached}: {e}"))?;
        ensure!(canon_tiff(&t) == canon_tiff(&plain), "cached {cached}: metadata differ after dropped reads: {} vs {} IFDs", t.ifds().len(), plain.ifds().len());
        obs.hit(if cached { "cached_metadata_identical_after_drops" } else { "metadata_identical_after_drops" });
        Ok(())
    });
    // a bulk read that is dropped may have consumed IFDs, but whole ones, and the rest follows
    r.family("bulk", 2000, 40000, |rng, obs, _| {
        let mut m = rand_model(rng);
        let n = rng.us(1, 6);
        for i in 0..n { let mut ifd = Ifd::default(); basic_tags(rng, &mut ifd, 100 + i as u32, 7); m.ifds.push(ifd); }
        let built = m.build(rng);
        let mem = suspending(&built.file, rng);
        let mut r = block_on(TiffMetadataReader::try_open(&mem)).map_err(|e| format!("open: {e}"))?;
        let k = rng.below(2 * n as u64 * 30);
        obs.sign(&format!("{:?}{}{n}{k}", m.en, m.big));
        let got = match if rng.chance(1, 2) { poll_then_drop(r.read_all_ifds(&mem), k) } else { poll_then_drop(async { r.read(&mem).await.map(|t| t.ifds().to_vec()) }, k) } {
            Some(v) => { let v = v.map_err(|e| format!("read_all: {e}"))?; ensure!(v.len() == n, "{} of {n} IFDs", v.len()); return Ok(()); }
            None => r.next_ifd_offset(),
        };
        obs.hit("bulk_reads_dropped");
        let at = match got { Some(o) => built.ifd_offsets.iter().position(|x| *x == o).ok_or(format!("after a dropped bulk read the reader is at {o}, IFDs are at {:?}", built.ifd_offsets))?, None => n };
        let rest = block_on(r.read_all_ifds(&mem)).map_err(|e| format!("reading on after a dropped bulk read: {e}"))?;
        let w: Vec<u32> = rest.iter().map(|i| i.image_width()).collect();
        let want: Vec<u32> = (at..n).map(|i| 100 + i as u32).collect();
        ensure!(w == want, "reading on after a dropped bulk read at IFD {at} gives {w:?}, expected {want:?}");
        Ok(())
    });
    r.family("tiles", 3000, 60000, |rng, obs, _| {
        let mut m = rand_model(rng);
        let s = rand_spec(rng);
        let img = add_image(rng, &mut m, s);
        let built = m.build(rng);
        let mem = suspending(&built.file, rng);
        let t = block_on(open(&mem, false))?;
        let ifd = &t.ifds()[0];
        let (nx, ny) = img.spec.grid();
        let n = rng.us(1, 8);
        let xy: Vec<(usize, usize)> = (0..n).map(|_| (rng.us(0, nx - 1), rng.us(0, ny - 1))).collect();
        let def = MemDefault(mem.clone());
        let reader: &dyn AsyncFileReader = if rng.chance(1, 2) { &def } else { &mem };
        let single = rng.chance(1, 3);
        let ctx = format!("{} xy {xy:?} single {single}", img.spec.describe());
        obs.sign(&format!("{}{n}{}", img.spec.sig(&m), rng.clone().u64()));
        let fetch = || async { if single { ifd.fetch_tile(xy[0].0, xy[0].1, reader).await.map(|t| vec![t]) } else { ifd.fetch_tiles(&xy, reader).await } };
        let mut tiles = None;
        for _ in 0..rng.us(1, 4) {
            match poll_then_drop(fetch(), rng.below(3 * n as u64 + 2)) {
                Some(t) => { tiles = Some(t); break }
                None => obs.hit("tile_fetches_dropped"),
            }
        }
        let tiles: Vec<Tile> = match tiles { Some(t) => t, None => block_on(fetch()) }.map_err(|e| format!("{ctx}: {e}"))?;
        let reg = DecoderRegistry::default();
        let list = if single { &xy[..1] } else { &xy[..] };
        ensure!(tiles.len() == list.len(), "{ctx}: {} tiles", tiles.len());
        for (t, (x, y)) in tiles.into_iter().zip(list) {
            let a = t.decode(&reg).map_err(|e| format!("{ctx}: decode: {e}"))?;
            check_array(&a, img.spec.shape(), img.spec.dtype, &native(&img.tiles[y * nx + x], img.spec.dtype), &ctx)?;
            obs.hit("tiles_identical_after_drops");
        }
        Ok(())
    });
    // a file handle: one position shared by all calls, moved by reads that were dropped half-way
    r.family("file-handle", 2000, 40000, |rng, obs, _| {
        let mut m = rand_model(rng);
        if m.layout == Layout::Huge { m.layout = Layout::Shuffled; }
        let s = rand_spec(rng);
        let img = add_image(rng, &mut m, s);
        let built = m.build(rng);
        let data = built.file.to_vec();
        let plain = block_on(open(&Mem::new(built.file.clone()), false))?;
        let max_read = *rng.pick(&[50usize, 300, 5000]);
        let len = data.len();
        let rd = TokioReader::new(Script::suspending(data, rng, max_read));
        let ctx = format!("TokioReader over {len} bytes, reads of at most {max_read}, {}", img.spec.describe());
        obs.sign(&format!("{ctx}{}", rng.clone().u64()));
        obs.sample(|| ctx.clone());
        let t = read_with_drops(&rd, rng, obs).map_err(|e| format!("{ctx}: {e}"))?;
        ensure!(canon_tiff(&t) == canon_tiff(&plain), "{ctx}: metadata differ after dropped reads");
        let ifd = &t.ifds()[0];
        let (nx, ny) = img.spec.grid();
        let reg = DecoderRegistry::default();
        for _ in 0..rng.us(1, 4) {
            let xy: Vec<(usize, usize)> = (0..rng.us(1, 4)).map(|_| (rng.us(0, nx - 1), rng.us(0, ny - 1))).collect();
            let mut tiles = None;
            for _ in 0..rng.us(0, 3) {
                let k = points(rng);
                match poll_then_drop(ifd.fetch_tiles(&xy, &rd), k) {
                    Some(t) => { tiles = Some(t); break }
                    None => obs.hit("handle_reads_dropped"),
                }
            }
            let tiles = match tiles { Some(t) => t, None => block_on(ifd.fetch_tiles(&xy, &rd)) }.map_err(|e| format!("{ctx}: {e}"))?;
            for (t, (x, y)) in tiles.into_iter().zip(&xy) {
                let a = t.decode(&reg).map_err(|e| format!("{ctx}: tile ({x},{y}): {e}"))?;
                check_array(&a, img.spec.shape(), img.spec.dtype, &native(&img.tiles[y * nx + x], img.spec.dtype), &ctx)?;
                obs.hit("handle_tiles_identical_after_drops");
            }
        }
        Ok(())
    });
    // calls next to the dropped ones, over one reader and one cache
    r.family("neighbours", 1500, 30000, |rng, obs, _| {
        let mut m = rand_model(rng);
        if m.layout == Layout::Huge { m.layout = Layout::Shuffled; }
        let s = rand_spec(rng);
        let img = add_image(rng, &mut m, s);
        let built = m.build(rng);
        let plain = canon_tiff(&block_on(open(&Mem::new(built.file.clone()), false))?);
        let mem = suspending(&built.file, rng);
        let tiff = block_on(open(&Mem::new(built.file.clone()), false))?;
        let ifd = &tiff.ifds()[0];
        let cache = ReadaheadMetadataCache::new(mem.clone()).with_initial_size(rng.range(8, 300));
        let (nx, ny) = img.spec.grid();
        let n = rng.us(2, 6);
        let reg = DecoderRegistry::default();
        let mut tasks: Tasks<Result<(), String>> = Tasks::new();
        for _ in 0..n {
            let (cache, mem, plain, img, reg) = (&cache, &mem, &plain, &img, &reg);
            let (x, y) = (rng.us(0, nx - 1), rng.us(0, ny - 1));
            if rng.chance(2, 3) {
                tasks.spawn(async move {
                    let mut r = TiffMetadataReader::try_open(cache).await.map_err(|e| format!("open: {e}"))?;
                    let t = r.read(cache).await.map_err(|e| format!("read: {e}"))?;
                    ensure!(canon_tiff(&t) == *plain, "metadata read next to a dropped call differ");
                    Ok(())
                });
            } else {
                tasks.spawn(async move {
                    let t = ifd.fetch_tiles(&[(x, y), (x, y)], mem).await.map_err(|e| format!("fetch: {e}"))?;
                    for t in t {
                        let a = t.decode(reg).map_err(|e| format!("decode: {e}"))?;
                        check_array(&a, img.spec.shape(), img.spec.dtype, &native(&img.tiles[y * nx + x], img.spec.dtype), "tile fetched next to a dropped call")?;
                    }
                    Ok(())
                });
            }
        }
        let mut sched = 0;
        let mut dropped = 0;
        loop {
            let run = tasks.runnable();
            if run.is_empty() { break; }
            let i = *rng.pick(&run);
            sched = mix(sched ^ i as u64);
            if dropped < n - 1 && rng.chance(1, 40) {
                let alive = tasks.alive();
                let k = *rng.pick(&alive);
                tasks.cancel(k);
                dropped += 1;
                obs.hit("neighbours_dropped");
                continue;
            }
            if tasks.poll(i) {
                tasks.tasks[i].out.take().unwrap()?;
                obs.hit("neighbours_finished");
            }
        }
        ensure!(tasks.alive().is_empty(), "{} of {n} calls wait forever after {dropped} were dropped", tasks.alive().len());
        obs.sign(&format!("{sched}"));
        obs.state("schedules", sched);
        Ok(())
    });
    r.finish("exploration", json!({}))
}
