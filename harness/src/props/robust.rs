//! C14: malformed metadata. C15: malformed tile data. Both run in worker processes (iso.rs), so an
//! abort, stack overflow or endless loop is observed as such.
use crate::alloc;
use crate::codecs::{self, Jpeg, JpegComp};
use crate::ensure;
use crate::image::*;
use crate::io::*;
use crate::props::arrays::consistent;
use crate::props::codec::{lerc_blob, small_spec};
use crate::props::meta::{canon, rand_entry};
use crate::props::tiles::rand_model;
use crate::rng::{hash_bytes, mix, Rng};
use crate::run::*;
use crate::tiffmodel::*;
use async_tiff::decoder::DecoderRegistry;
use async_tiff::error::AsyncTiffResult;
use async_tiff::metadata::cache::ReadaheadMetadataCache;
use async_tiff::metadata::{MetadataFetch, TiffMetadataReader};
use async_tiff::tags::{Compression, PhotometricInterpretation, PlanarConfiguration, Predictor, Tag};
use async_tiff::{DataType, ImageFileDirectory, TIFF};
use bytes::Bytes;
use serde_json::json;
use std::collections::HashMap;
use std::sync::atomic::Ordering;

// ------------------------------------------------------------------------------------------ C14

/// Peak memory the library may use for a file of `len` bytes. A one-byte tag element becomes a
/// TagValue of 32 bytes in a growing vector; everything beyond that is headroom.
fn mem_bound(len: u64) -> u64 {
    (16 << 20) + 512 * len
}
fn request_bound(len: u64) -> u64 {
    2000 + 16 * len
}

const KNOWN_TAGS: [u16; 46] = [
    254, 255, 256, 257, 258, 259, 262, 269, 270, 271, 272, 273, 274, 277, 278, 279, 280, 281, 282, 283, 284, 296, 305, 306,
    315, 316, 317, 320, 322, 323, 324, 325, 330, 338, 339, 347, 33432, 33550, 33922, 34264, 34735, 34736, 34737, 42112, 42113, 50674,
];

async fn read_budgeted<F: MetadataFetch>(f: &F, bulk: bool) -> AsyncTiffResult<TIFF> {
    let mut r = TiffMetadataReader::try_open(f).await?;
    if bulk {
        return r.read(f).await;
    }
    let mut v = vec![];
    while let Some(i) = r.read_next_ifd(f).await? {
        v.push(i);
    }
    Ok(TIFF::new(v, r.endianness()))
}

/// Open `file`, read everything, query everything.
fn exercise(rng: &mut Rng, obs: &mut Obs, file: Vec<u8>, ctx: &str) -> Case {
    let len = file.len() as u64;
    let src = Sparse::dense(file);
    let eof = *rng.pick(&[Eof::Truncate, Eof::Truncate, Eof::TruncateErr, Eof::Strict]);
    let cached = rng.chance(1, 2);
    let bulk = rng.chance(1, 2);
    let mem = Mem::new(src).with_eof(eof);
    mem.ctl.quiet.store(true, Ordering::Relaxed);
    mem.ctl.budget.store(request_bound(len), Ordering::Relaxed);
    let init = *rng.pick(&[1u64, 16, 256, 32768]);
    let mult = *rng.pick(&[1.1, 2.0, 10.0]);
    let ctx = format!("{ctx} ({len} bytes, {eof:?}, {})", if cached { format!("cache {init} x{mult}") } else { "no cache".into() });
    let (res, peak, biggest) = alloc::measure(|| {
        block_on(async {
            if cached {
                let c = ReadaheadMetadataCache::new(mem.clone()).with_initial_size(init).with_multiplier(mult);
                read_budgeted(&c, bulk).await
            } else {
                read_budgeted(&mem, bulk).await
            }
        })
    });
    ensure!(peak <= mem_bound(len), "{ctx}: reading the metadata took {peak} bytes of memory (largest allocation {biggest})");
    ensure!(mem.requests() < request_bound(len), "{ctx}: more than {} requests for the metadata", request_bound(len));
    obs.add("requests_observed", mem.requests());
    obs.state("peak_memory_log2", 64 - peak.leading_zeros() as u64);
    let t = match res {
        Ok(t) => t,
        Err(e) => {
            let s = e.to_string();
            let kind: String = s.chars().filter(|c| !c.is_ascii_digit()).take(40).collect();
            obs.state("distinct_errors", hash_bytes(kind.as_bytes()));
            obs.hit("rejected_with_error");
            return Ok(());
        }
    };
    obs.hit("accepted");
    for ifd in t.ifds().iter().take(40) {
        let s = canon(ifd);
        obs.add("accessor_bytes", s.len() as u64);
        if let Some(g) = ifd.geo_key_directory() {
            let _ = g.epsg_code();
            let _ = format!("{g:?}");
            obs.hit("geo_directories");
        }
        address(rng, obs, ifd, &mem, &ctx)?;
    }
    Ok(())
}

/// Tile addressing on whatever dimensions and arrays the file claims.
fn address(rng: &mut Rng, obs: &mut Obs, ifd: &ImageFileDirectory, mem: &Mem, ctx: &str) -> Case {
    let tc = ifd.tile_count();
    let (nx, ny) = tc.unwrap_or((1, 1));
    let mut xy = vec![(0, 0), (nx.saturating_sub(1), ny.saturating_sub(1)), (nx, 0), (0, ny), (usize::MAX, usize::MAX), (usize::MAX, 0), (1, usize::MAX)];
    for _ in 0..3 {
        xy.push((rng.below(nx as u64 + 2) as usize, rng.below(ny as u64 + 2) as usize));
    }
    mem.ctl.budget.store(u64::MAX, Ordering::Relaxed);
    for p in &xy {
        let r = ifd.tile_byte_range(p.0, p.1);
        ensure!(r.is_none() || (p.0 < nx && p.1 < ny && tc.is_some()), "{ctx}: byte range for tile {p:?} outside the {tc:?} grid");
        let n = mem.requests();
        let (t, peak, _) = alloc::measure(|| block_on(ifd.fetch_tile(p.0, p.1, mem)));
        ensure!(peak <= mem_bound(mem.file.len) + 64 * ifd.samples_per_pixel() as u64 * 8, "{ctx}: fetching a tile took {peak} bytes of memory");
        ensure!(mem.requests() - n <= 1, "{ctx}: {} requests for one tile", mem.requests() - n);
        match t {
            Ok(t) => { ensure!(r.is_some() && (t.x(), t.y()) == *p, "{ctx}: tile {p:?} fetched as ({},{}) (has range: {})", t.x(), t.y(), r.is_some()); obs.hit("tiles_fetched"); }
            Err(_) => obs.hit("tiles_refused"),
        }
    }
    let k = rng.us(0, xy.len());
    let _ = ifd.tiles_byte_ranges(&xy[..k]);
    let _ = block_on(ifd.fetch_tiles(&xy[..k], mem));
    obs.hit("grids_addressed");
    Ok(())
}

/// A plausible file with tiled and stripped images, geo keys and odd extra tags.
pub fn plausible(rng: &mut Rng) -> (Model, Built) {
    let mut m = rand_model(rng);
    if m.layout == Layout::Huge { m.layout = Layout::Shuffled; }
    let n = rng.us(1, 3);
    for _ in 0..n {
        let s = rand_spec(rng);
        let (nx, ny) = s.grid();
        let k = nx * ny * if s.planar { s.spp as usize } else { 1 };
        let enc = (0..k).map(|_| { let n = rng.us(0, 12); rng.bytes(n) }).collect();
        let img = add_encoded(rng, &mut m, s.clone(), vec![], enc, &[]);
        let ifd = &mut m.ifds[img.ifd];
        if rng.chance(1, 4) { // stripped
            let o = ifd.get(324).cloned().unwrap();
            let c = ifd.get(325).cloned().unwrap();
            for t in [322, 323, 324, 325] { ifd.remove(t); }
            ifd.push(273, o);
            ifd.push(279, c);
            ifd.push(278, V::Long(vec![s.th]));
        }
        if rng.chance(1, 2) {
            let nk = rng.us(0, 6);
            let mut d = vec![1u16, 1, rng.below(3) as u16, nk as u16];
            for _ in 0..nk {
                let key = *rng.pick(&[1024u16, 1025, 1026, 2048, 2049, 2050, 2054, 2057, 2059, 2062, 3072, 3073, 3075, 3076, 3080, 3081, 4096, 4099, 5120, 9999]);
                match rng.below(3) {
                    0 => d.extend([key, 0, 1, rng.u64() as u16]),
                    1 => d.extend([key, 34736, rng.range(1, 3) as u16, rng.below(4) as u16]),
                    _ => d.extend([key, 34737, rng.range(1, 6) as u16, rng.below(12) as u16]),
                }
            }
            ifd.push(34735, V::Short(d));
            let n = rng.us(1, 8);
            ifd.push(34736, V::Double((0..n).map(|_| (rng.below(1000) as f64 / 7.0).to_bits()).collect()));
            ifd.push(34737, V::Ascii(b"WGS 84|Some name|x|\0".to_vec()));
        }
        let extra = rng.us(0, 4);
        for _ in 0..extra {
            let t = *rng.pick(&KNOWN_TAGS);
            if ifd.get(t).is_none() {
                let v = rand_entry(rng, 40);
                ifd.push(t, v);
            }
        }
    }
    if rng.chance(1, 8) { m.loop_to = Some(rng.us(0, m.ifds.len() - 1)); }
    let b = m.build(rng);
    (m, b)
}

fn put(f: &mut [u8], at: u64, bytes: &[u8]) {
    let at = at as usize;
    for (i, b) in bytes.iter().enumerate() {
        if at + i < f.len() { f[at + i] = *b; }
    }
}

/// Damage that knows where the fields are.
pub fn damage(rng: &mut Rng, m: &Model, b: &Built, f: &mut Vec<u8>) -> String {
    let e = m.en;
    let k = rng.us(0, m.ifds.len() - 1);
    let ifd = b.ifd_offsets[k];
    let nent = m.ifds[k].entries.len() as u64;
    let (cnt, ent) = if m.big { (8, 20) } else { (2, 12) };
    let j = rng.below(nent);
    let at = ifd + cnt + ent * j;
    let len = f.len() as u64;
    // values that are interesting for offsets and counts of this file
    let val = |rng: &mut Rng, bits: u32| -> u64 {
        let v = match rng.below(7) {
            0 => len,
            1 => len.wrapping_sub(rng.below(20)),
            2 => rng.below(len + 10),
            3 => ifd,
            4 => 0u64.wrapping_sub(rng.below(40)),
            _ => rng.edgy(bits),
        };
        if bits == 64 { v } else { v & ((1 << bits) - 1) }
    };
    let tag = m.ifds[k].entries[j as usize].tag;
    match rng.below(12) {
        0 => { let t = *rng.pick(&[0u16, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 16, 17, 18, 14, 15, 19, 255, 65535]); put(f, at + 2, &e.u16(t)); format!("type of tag {tag} := {t}") }
        1 | 2 => { let v = val(rng, if m.big { 64 } else { 32 }); if m.big { put(f, at + 4, &e.u64(v)) } else { put(f, at + 4, &e.u32(v as u32)) }; format!("count of tag {tag} := {v}") }
        3 | 4 => { let v = val(rng, if m.big { 64 } else { 32 }); if m.big { put(f, at + 12, &e.u64(v)) } else { put(f, at + 8, &e.u32(v as u32)) }; format!("value/offset of tag {tag} := {v}") }
        5 => { let t = if rng.chance(1, 2) { *rng.pick(&KNOWN_TAGS) } else { rng.u64() as u16 }; put(f, at, &e.u16(t)); format!("tag {tag} := {t}") }
        6 => { let v = if m.big { let v = val(rng, 64); put(f, ifd, &e.u64(v)); v } else { let v = val(rng, 16); put(f, ifd, &e.u16(v as u16)); v }; format!("entry count of IFD {k} := {v}") }
        7 => { let v = val(rng, if m.big { 64 } else { 32 }); let p = ifd + cnt + ent * nent; if m.big { put(f, p, &e.u64(v)) } else { put(f, p, &e.u32(v as u32)) }; format!("next IFD of {k} := {v}") }
        8 => { let v = val(rng, if m.big { 64 } else { 32 }); if m.big { put(f, 8, &e.u64(v)) } else { put(f, 4, &e.u32(v as u32)) }; format!("first IFD := {v}") }
        9 => { let n = rng.below(len + 1); f.truncate(n as usize); format!("cut at {n}") }
        10 => { let (s, t) = *rng.pick(&b.meta_ranges); let p = rng.range(s, t - 1); let bit = rng.below(8); if (p as usize) < f.len() { f[p as usize] ^= 1 << bit; } format!("bit {bit} of byte {p}") }
        _ => { let (s, t) = *rng.pick(&b.meta_ranges); let p = rng.range(s, t - 1); let n = rng.us(1, 16); let x = if rng.chance(1, 3) { vec![0xFF; n] } else { rng.bytes(n) }; put(f, p, &x); format!("{n} bytes at {p}") }
    }
}

/// Any value a file can express, for any tag.
fn wild(rng: &mut Rng) -> V {
    match rng.below(8) {
        0 => { let t = *rng.pick(&TYPES); let b = if rng.chance(1, 2) { 32 } else { 64 }; let c = rng.edgy(b); let n = rng.us(9, 60); V::Raw(t, c, rng.bytes(n)) }
        1 => { let t = rng.below(22) as u16; let c = rng.below(20); V::RawInline(t, c, rng.bytes(8)) }
        2 => { let v = rng.edgy(16) as u16; V::Short(vec![v]) }
        3 => { let v = rng.edgy(32) as u32; V::Long(vec![v]) }
        4 => { let n = rng.us(0, 12); V::Short((0..n).map(|_| rng.edgy(16) as u16).collect()) }
        _ => rand_entry(rng, 60),
    }
}

pub fn c14(mut r: Runner) -> i32 {
    alloc::REFUSE.store(1 << 30, Ordering::Relaxed);
    r.rule("case = one malformed file read through one reader configuration, with every accessor and tile address queried afterwards; distinct by file content and configuration; monitors: panics, process death, CPU time, requests (2000+16/byte), peak memory (16 MiB+512/byte)");
    r.require(&["rejected_with_error", "accepted", "grids_addressed", "tiles_fetched", "tiles_refused", "geo_directories", "from_tags_ok", "from_tags_err", "long_cycles"]);
    r.assume("readers return at most the bytes the file has; memory is what the library allocates beyond the buffers the reader hands it");
    r.family("damaged", 400000, 12000000, |rng, obs, _| {
        let (m, b) = plausible(rng);
        let mut f = b.file.to_vec();
        let n = match rng.below(4) { 0 => 2, 1 => rng.us(1, 8), _ => 1 };
        let what: Vec<String> = (0..n).map(|_| damage(rng, &m, &b, &mut f)).collect();
        obs.sign(&format!("{}", hash_bytes(&f)));
        let ctx = format!("{:?} big={} {what:?}", m.en, m.big);
        obs.sample(|| ctx.clone());
        exercise(rng, obs, f, &ctx)
    });
    r.family("wild-entries", 300000, 9000000, |rng, obs, _| {
        let (mut m, _) = plausible(rng);
        let nifd = m.ifds.len();
        for _ in 0..rng.us(1, 5) {
            let k = rng.us(0, nifd - 1);
            let t = *rng.pick(&KNOWN_TAGS);
            if rng.chance(1, 6) { m.ifds[k].remove(t); } else { let v = wild(rng); m.ifds[k].set(t, v); }
        }
        // inline raw values must fill the value field exactly
        let cap = m.inline_cap();
        for i in &mut m.ifds { for e in &mut i.entries { if let V::RawInline(_, _, d) = &mut e.v { d.truncate(cap); } } }
        let f = m.build(rng).file.to_vec();
        obs.sign(&format!("{}", hash_bytes(&f)));
        let ctx = format!("{:?} big={} wild entries", m.en, m.big);
        exercise(rng, obs, f, &ctx)
    });
    r.family("geo", 150000, 4000000, |rng, obs, _| {
        let (mut m, _) = plausible(rng);
        let ifd = &mut m.ifds[0];
        let nk = rng.us(0, 8);
        let claimed = if rng.chance(1, 3) { rng.edgy(16) as u16 } else { nk as u16 };
        let mut d = vec![rng.below(3) as u16, 1, 0, claimed];
        for _ in 0..nk {
            let key = *rng.pick(&[1024u16, 1025, 1026, 2048, 2049, 2052, 2054, 2057, 2062, 3072, 3073, 3080, 4096, 4097]);
            let loc = *rng.pick(&[0u16, 34736, 34737, 34735, 1, 65535, 33550]);
            d.extend([key, loc, if rng.chance(1, 2) { rng.below(9) as u16 } else { rng.edgy(16) as u16 }, if rng.chance(1, 2) { rng.below(12) as u16 } else { rng.edgy(16) as u16 }]);
        }
        if rng.chance(1, 3) { let n = rng.us(0, d.len()); d.truncate(n); }
        ifd.set(34735, if rng.chance(1, 10) { V::Long(d.iter().map(|x| *x as u32 * 3).collect()) } else { V::Short(d.clone()) });
        match rng.below(3) { 0 => ifd.remove(34736), 1 => { let v = rand_entry(rng, 6); ifd.set(34736, v) } _ => ifd.set(34736, V::Double(vec![1, 2, 3])) }
        match rng.below(3) { 0 => ifd.remove(34737), 1 => { let v = rand_entry(rng, 12); ifd.set(34737, v) } _ => ifd.set(34737, V::Ascii("h\u{e9}|\u{20ac}uro|abc\0".as_bytes().to_vec())) }
        let f = m.build(rng).file.to_vec();
        obs.sign(&format!("{}", hash_bytes(&f)));
        let ctx = format!("geo keys {d:?}");
        obs.sample(|| ctx.clone());
        exercise(rng, obs, f, &ctx)
    });
    // chains that come back to an IFD read long before
    r.family("long-cycles", 400, 8000, |rng, obs, _| {
        let n = if rng.chance(1, 8) { rng.us(500, 5000) } else { rng.us(2, 500) };
        let mut m = super::meta::chain_model(rng, n, 0);
        if m.layout == Layout::Huge { m.layout = Layout::Shuffled; }
        m.loop_to = Some(if rng.chance(1, 2) { 0 } else { rng.us(0, n - 1) });
        let f = m.build(rng).file.to_vec();
        obs.sign(&format!("{}", hash_bytes(&f)));
        let ctx = format!("{:?} big={} chain of {n} looping to {:?}", m.en, m.big, m.loop_to);
        obs.sample(|| ctx.clone());
        obs.hit("long_cycles");
        exercise(rng, obs, f, &ctx)
    });
    r.family("random", 300000, 9000000, |rng, obs, _| {
        let n = match rng.below(3) { 0 => rng.us(0, 40), 1 => rng.us(0, 400), _ => rng.us(0, 5000) };
        let mut f = rng.bytes(n);
        let big = rng.chance(1, 2);
        let e = if rng.chance(1, 2) { En::Le } else { En::Be };
        if rng.chance(9, 10) {
            put(&mut f, 0, if e == En::Le { b"II" } else { b"MM" });
            put(&mut f, 2, &e.u16(if big { 43 } else { 42 }));
            if big {
                put(&mut f, 4, &e.u16(8));
                put(&mut f, 6, &e.u16(0));
                let v = if rng.chance(2, 3) { rng.below(n as u64 + 1) } else { rng.edgy(64) };
                put(&mut f, 8, &e.u64(v));
            } else {
                let v = if rng.chance(2, 3) { rng.below(n as u64 + 1) } else { rng.edgy(32) };
                put(&mut f, 4, &e.u32(v as u32));
            }
            // sprinkle plausible entries so that parsing gets past the first type code
            let step = if big { 20 } else { 12 };
            let base = rng.range(16, 24) as usize;
            if rng.chance(1, 2) {
                let cnt = rng.us(1, 30);
                if big { put(&mut f, 8, &e.u64(base as u64)); put(&mut f, base as u64, &e.u64(cnt as u64)); } else { put(&mut f, 4, &e.u32(base as u32)); put(&mut f, base as u64, &e.u16(cnt as u16)); }
                let mut p = base + if big { 8 } else { 2 };
                for _ in 0..cnt {
                    let t = *rng.pick(&KNOWN_TAGS);
                    put(&mut f, p as u64, &e.u16(t));
                    put(&mut f, p as u64 + 2, &e.u16(*rng.pick(&TYPES)));
                    let c = match rng.below(4) { 0 => 1, 1 => rng.below(10), 2 => rng.below(n as u64 + 1), _ => rng.edgy(32) };
                    let o = match rng.below(3) { 0 => rng.below(5), _ => rng.below(n as u64 + 1) };
                    if big { put(&mut f, p as u64 + 4, &e.u64(c)); put(&mut f, p as u64 + 12, &e.u64(o)); } else { put(&mut f, p as u64 + 4, &e.u32(c as u32)); put(&mut f, p as u64 + 8, &e.u32(o as u32)); }
                    p += step;
                }
                let nx = if rng.chance(1, 2) { 0 } else { rng.below(n as u64 + 1) };
                if big { put(&mut f, p as u64, &e.u64(nx)); } else { put(&mut f, p as u64, &e.u32(nx as u32)); }
            }
        }
        obs.sign(&format!("{}", hash_bytes(&f)));
        exercise(rng, obs, f, &format!("random bytes {e:?} big={big}"))
    });
    // the low-level entry point with any tag set a file can express
    r.family("from-tags", 300000, 9000000, |rng, obs, _| {
        let n = rng.us(0, 14);
        let mut tags = HashMap::new();
        let base = rng.chance(3, 4);
        let mut ifd = Ifd::default();
        if base {
            let s = rand_spec(rng);
            let m = Model::new(En::Le, false);
            image_tags(rng, &m, &mut ifd, &s);
            let k = rng.us(0, 9);
            ifd.push(324, V::Long((0..k).map(|_| rng.edgy(32) as u32).collect()));
            ifd.push(325, V::Long((0..k).map(|_| rng.edgy(32) as u32).collect()));
        }
        for _ in 0..n {
            let t = *rng.pick(&KNOWN_TAGS);
            let v = loop { let v = wild(rng); if !matches!(v, V::Raw(..) | V::RawInline(..)) { break v; } };
            ifd.set(t, v);
        }
        for e in &ifd.entries { tags.insert(crate::enums::tag_of(e.tag), e.v.expect(&[])); }
        obs.sign(&format!("{:?}", ifd.entries));
        match ImageFileDirectory::from_tags(tags, async_tiff::reader::Endianness::LittleEndian) {
            Ok(i) => {
                obs.hit("from_tags_ok");
                let s = canon(&i);
                obs.add("accessor_bytes", s.len() as u64);
                let mem = Mem::new(Sparse::dense(vec![7u8; 100]));
                mem.ctl.quiet.store(true, Ordering::Relaxed);
                address(rng, obs, &i, &mem, "from_tags")
            }
            Err(_) => { obs.hit("from_tags_err"); Ok(()) }
        }
    });
    r.finish("exploration", json!({"memory_bound": "16 MiB + 512 bytes per file byte", "request_bound": "2000 + 16 per file byte"}))
}

// ------------------------------------------------------------------------------------------ C15

/// One tile's valid payloads (one per band when planar) and the tags they need.
fn payload(rng: &mut Rng, en: En) -> (Spec, Vec<Vec<u8>>, Vec<(u16, V)>) {
    let kind = rng.below(10);
    let mut set = vec![];
    let planar = rng.chance(1, 3);
    match kind {
        0 => {
            let dtype = *rng.pick(&[DataType::Int8, DataType::UInt8, DataType::UInt16, DataType::Int32, DataType::Float32, DataType::Float64]);
            let spp = rng.range(1, 4) as u16;
            let mut s = small_spec(rng, dtype, Compression::LERC, spp, planar, 40);
            s.w = s.tw; s.h = s.th;
            let mut v = rand_samples(rng, &s);
            if is_float(dtype) { v = v.iter().map(|x| { let f = *x as i32 as f64; if dtype == DataType::Float32 { (f as f32).to_bits() as u64 } else { f.to_bits() } }).collect(); }
            let inner = rng.below(3) as u32;
            set.push((50674, V::Long(vec![4, inner])));
            let per = (s.tw * s.th) as usize;
            let wrap = |b: Vec<u8>| match inner { 1 => codecs::deflate(&b, 6), 2 => codecs::zstd(&b, 3), _ => b };
            let enc = if planar {
                (0..spp as usize).map(|b| wrap(lerc_blob(&s, &v[b * per..(b + 1) * per], s.tw as usize, s.th as usize, 1).unwrap())).collect()
            } else { vec![wrap(lerc_blob(&s, &v, s.tw as usize, s.th as usize, spp as usize).unwrap())] };
            (s, enc, set)
        }
        1 | 2 => {
            let grey = rng.chance(1, 2);
            let spp = if grey { if planar { rng.range(1, 4) as u16 } else { 1 } } else { 3 };
            let mut s = small_spec(rng, DataType::UInt8, Compression::ModernJPEG, spp, planar && grey, 40);
            s.w = s.tw; s.h = s.th;
            let (hs, vs) = if grey { (1, 1) } else { *rng.pick(&[(1, 1), (2, 1), (2, 2)]) };
            set.push((262, V::Short(vec![if grey { 1 } else { *rng.pick(&[6, 2]) }])));
            let abbr = rng.chance(1, 2);
            let restart = rng.chance(1, 3);
            let n = if s.planar { spp as usize } else { 1 };
            let mut enc = vec![];
            for _ in 0..n {
                let (mx, my) = Jpeg::mcus(s.tw as usize, s.th as usize, hs, vs);
                let comps = (0..if grey { 1 } else { 3 }).map(|c| {
                    let (ch, cv) = if c == 0 { (hs, vs) } else { (1, 1) };
                    JpegComp { hs: ch, vs: cv, blocks: rng.bytes(mx * ch * my * cv), bw: mx * ch }
                }).collect();
                let j = Jpeg { w: s.tw as usize, h: s.th as usize, comps, restart, ids: rng.below(3) as u8, app: rng.below(5) as u8, var: rng.u8() };
                if abbr { let (t, b) = j.abbreviated(); if enc.is_empty() { set.push((347, V::Undef(t))); } enc.push(b); } else { enc.push(j.full()); }
            }
            (s, enc, set)
        }
        3 => {
            let spp = rng.range(3, 4) as u16;
            let mut s = small_spec(rng, DataType::UInt8, Compression::WebP, spp, false, 32);
            s.w = s.tw; s.h = s.th;
            let v: Vec<u8> = rand_samples(rng, &s).iter().map(|x| *x as u8).collect();
            let e = codecs::webp(&v, s.tw, s.th, spp as usize);
            (s, vec![e], set)
        }
        4 => {
            let dtype = *rng.pick(&[DataType::UInt8, DataType::UInt16]);
            let spp = if planar { rng.range(1, 3) } else { *rng.pick(&[1, 3, 4]) } as u16;
            let mut s = small_spec(rng, dtype, Compression::JPEG2k, spp, planar, 24);
            s.w = s.tw; s.h = s.th;
            let v: Vec<u32> = rand_samples(rng, &s).iter().map(|x| *x as u32).collect();
            let per = (s.tw * s.th) as usize;
            let jp2 = rng.chance(1, 2);
            let enc = if planar { (0..spp as usize).map(|b| codecs::j2k(&v[b * per..(b + 1) * per], s.tw, s.th, 1, bits(dtype) as u32, jp2)).collect() }
                else { vec![codecs::j2k(&v, s.tw, s.th, spp as usize, bits(dtype) as u32, jp2)] };
            (s, enc, set)
        }
        _ => {
            let mut s = rand_spec(rng);
            s.w = s.tw; s.h = s.th;
            let v = rand_samples(rng, &s);
            let per = (s.tw * s.th) as usize;
            let enc = if s.planar { (0..s.spp as usize).map(|b| encode_plane(rng, &s, en, &v[b * per..(b + 1) * per], 1)).collect() }
                else { vec![encode_plane(rng, &s, en, &v, s.spp as usize)] };
            (s, enc, set)
        }
    }
}

fn mutate(rng: &mut Rng, v: &mut Vec<u8>) -> &'static str {
    let n = v.len();
    match rng.below(11) {
        0 => { v.truncate(rng.us(0, n)); "truncated" }
        1 => { let k = rng.us(1, 40); v.extend(rng.bytes(k)); "extended" }
        2 if n > 0 => { let p = rng.us(0, n - 1); v[p] ^= 1 << rng.below(8); "bit flipped" }
        3 if n > 0 => { let p = rng.us(0, n - 1); v[p] = *rng.pick(&[0, 0xFF, 0x7F, 0x80, 1]); "byte set" }
        4 if n > 0 => { let p = rng.us(0, n - 1); let q = rng.us(p, n); v.drain(p..q); "range removed" }
        5 if n > 0 => { let p = rng.us(0, n - 1); let q = rng.us(p, n.min(p + 64)); let c = v[p..q].to_vec(); let at = rng.us(0, n); v.splice(at..at, c); "range duplicated" }
        6 if n > 0 => { let p = rng.us(0, n - 1); let k = rng.us(1, 8); for i in p..(p + k).min(n) { v[i] = rng.u8(); } "bytes scrambled" }
        7 => { v.clear(); "emptied" }
        8 => { let k = rng.us(0, 200); *v = rng.bytes(k); "replaced by random bytes" }
        9 if n > 1 => { v.reverse(); "reversed" }
        _ => "unchanged",
    }
}

/// Streams whose header asks for images far larger than any tile are out of scope (decompression
/// bombs); so are damaged headers that happen to say so.
fn bomb(c: Compression, payload: &[u8], tables: &[u8]) -> bool {
    let scan = |b: &[u8]| -> bool {
        match c {
            Compression::ModernJPEG => b.windows(9).any(|w| {
                w[0] == 0xFF && (0xC0..=0xCF).contains(&w[1]) && !matches!(w[1], 0xC4 | 0xC8 | 0xCC)
                    && u16::from_be_bytes([w[5], w[6]]) as u64 * u16::from_be_bytes([w[7], w[8]]) as u64 > 1 << 20
            }),
            Compression::JPEG2k => b.windows(38).any(|w| {
                let g = |i: usize| u32::from_be_bytes(w[i..i + 4].try_into().unwrap());
                w[0] == 0xFF && w[1] == 0x51 && ([6, 10, 22, 26].iter().any(|i| g(*i) > 4096) || [14, 18, 30, 34].iter().any(|i| g(*i) > 4096))
            }),
            _ => false,
        }
    };
    scan(payload) || scan(&[tables, payload].concat()) || scan(&[&tables[..tables.len().saturating_sub(2)], payload.get(2..).unwrap_or(&[])].concat())
}

/// A tile that was (usually) damaged: its payload, the tags around it, or both.
pub fn damaged_tile(rng: &mut Rng, obs: &mut Obs) -> Result<Option<(ImageFileDirectory, async_tiff::Tile, String)>, String> {
    let mut m = rand_model(rng);
    if m.layout == Layout::Huge { m.layout = Layout::Cog; }
    let (s, mut enc, mut set) = payload(rng, m.en);
    let mut what = vec![];
    if rng.chance(3, 4) {
        for _ in 0..rng.us(1, 3) {
            let k = rng.us(0, enc.len() - 1);
            what.push(mutate(rng, &mut enc[k]).to_string());
        }
    }
    // tags that disagree with the payload
    let ntags = if rng.chance(1, 2) { rng.us(1, 3) } else { 0 };
    for _ in 0..ntags {
        let dims = |rng: &mut Rng, d: u32| match rng.below(5) { 0 => d + 1, 1 => d.saturating_sub(1), 2 => rng.edgy(32) as u32, 3 => d * 2, _ => rng.below(100) as u32 };
        let (t, v) = match rng.below(9) {
            0 => (322, V::Long(vec![dims(rng, s.tw)])),
            1 => (323, V::Long(vec![dims(rng, s.th)])),
            2 => { let b = *rng.pick(&[0u16, 1, 2, 3, 4, 7, 8, 12, 16, 24, 32, 33, 64, 128, 65535]); (258, V::Short(vec![b; if rng.chance(1, 3) { 1 } else { s.spp as usize }])) }
            3 => (277, V::Short(vec![*rng.pick(&[0u16, 1, 2, 3, 4, 5, 255, 65535])])),
            4 => (339, V::Short(vec![rng.below(7) as u16; s.spp as usize])),
            5 => (317, V::Short(vec![rng.range(1, 3) as u16])),
            6 => (284, V::Short(vec![rng.range(1, 2) as u16])),
            7 => (262, V::Short(vec![rng.below(9) as u16])),
            _ => (259, V::Short(vec![*rng.pick(&[1u16, 5, 7, 8, 0x80B2, 50000, 34925, 34887, 50001, 34712])])),
        };
        what.push(format!("tag {t} := {v:?}"));
        set.push((t, v));
    }
    if rng.chance(1, 6) {
        let mut t = match set.iter().find(|x| x.0 == 347) { Some((_, V::Undef(t))) => t.clone(), _ => rng.bytes(30) };
        what.push(format!("JPEG tables {}", mutate(rng, &mut t)));
        set.push((347, V::Undef(t)));
    }
    if rng.chance(1, 8) { let n = rng.us(0, 3); set.push((50674, V::Long((0..n).map(|_| rng.below(4) as u32).collect()))); }
    let ctx = format!("{:?} {} {what:?}", m.en, s.describe());
    let hash = enc.iter().fold(0, |h, e| mix(h ^ hash_bytes(e)));
    obs.sign(&format!("{hash}{set:?}"));
    obs.sample(|| ctx.clone());
    let img = add_encoded(rng, &mut m, s.clone(), vec![], enc.clone(), &set);
    let _ = img;
    let built = m.build(rng);
    let mem = Mem::new(built.file);
    mem.ctl.quiet.store(true, Ordering::Relaxed);
    let tile = block_on(async {
        let mut r = TiffMetadataReader::try_open(&mem).await.map_err(|e| format!("HARNESS: open: {e}"))?;
        let t = match r.read(&mem).await { Ok(t) => t, Err(_) => return Ok(None) };
        let ifd = t.ifds()[0].clone();
        Ok::<_, String>(match ifd.fetch_tile(0, 0, &mem).await { Ok(t) => Some((ifd, t)), Err(_) => None })
    })?;
    let Some((ifd, tile)) = tile else { obs.hit("rejected_before_decode"); return Ok(None) };
    let tables = ifd.jpeg_tables().unwrap_or(&[]).to_vec();
    if enc.iter().any(|e| bomb(ifd.compression(), e, &tables)) { obs.hit("bombs_skipped"); return Ok(None) }
    match ifd.compression() {
        Compression::LERC => obs.hit("lerc_cases"),
        Compression::ModernJPEG => obs.hit("jpeg_cases"),
        Compression::WebP => obs.hit("webp_cases"),
        Compression::JPEG2k => obs.hit("j2k_cases"),
        _ => {}
    }
    if ifd.planar_configuration() == PlanarConfiguration::Planar { obs.hit("planar_cases"); }
    if ifd.predictor().is_some_and(|p| p != Predictor::None) { obs.hit("predictor_cases"); }
    Ok(Some((ifd, tile, ctx)))
}

pub fn c15(mut r: Runner) -> i32 {
    alloc::REFUSE.store(16 << 30, Ordering::Relaxed);
    r.rule("case = one tile whose payload and/or tags were damaged, decoded through the default registry, or one arbitrary buffer given to a decoder; result must be an error or a self-consistent array of the tags' shape; distinct by payload and tags; monitors: panics, process death, CPU time");
    r.require(&["decode_errors", "decoded_consistent", "lerc_cases", "jpeg_cases", "webp_cases", "j2k_cases", "planar_cases", "predictor_cases", "wrong_length_rejected", "wrong_length_consistent", "direct_calls", "depths_rejected", "depths_consistent"]);
    r.assume("streams whose own header declares images beyond 2^20 pixels (JPEG, JPEG 2000) are out of scope");
    r.family("damaged-tiles", 200000, 4000000, |rng, obs, _| {
        let Some((ifd, tile, ctx)) = damaged_tile(rng, obs)? else { return Ok(()) };
        match tile.decode(&DecoderRegistry::default()) {
            Err(_) => obs.hit("decode_errors"),
            Ok(a) => {
                let (w, h, n) = (ifd.tile_width().unwrap_or(0) as usize, ifd.tile_height().unwrap_or(0) as usize, ifd.samples_per_pixel() as usize);
                let want = if ifd.planar_configuration() == PlanarConfiguration::Planar { [n, h, w] } else { [h, w, n] };
                ensure!(a.shape() == want, "{ctx}: shape {:?}, the tags say {want:?}", a.shape());
                consistent(&a, &ctx)?;
                obs.hit("decoded_consistent");
            }
        }
        Ok(())
    });
    // well-formed streams that hold slightly more or fewer bytes than the tags call for
    r.family("wrong-length", 60000, 1200000, |rng, obs, _| {
        let mut m = rand_model(rng);
        if m.layout == Layout::Huge { m.layout = Layout::Cog; }
        let mut s = rand_spec(rng);
        if rng.chance(1, 4) { s.dtype = DataType::Bool; s.pred = None; s.tw = rng.range(1, 5) as u32 * 8; s.th = rng.range(1, 9) as u32; }
        s.w = s.tw; s.h = s.th;
        let (dtype, comp, pred, spp, planar) = (s.dtype, s.comp, s.pred, s.spp, s.planar);
        let mut rows = s.clone();
        // 1-bit tiles of any width: whatever the layout, an accepted array has all its samples
        if dtype == DataType::Bool && rng.chance(1, 2) { s.tw = rng.range(1, 40) as u32; s.w = s.tw; }
        rows.comp = Compression::None;
        rows.pred = None;
        let v = rand_samples(rng, &rows);
        let per = (rows.tw * rows.th) as usize;
        let n = if planar { spp as usize } else { 1 };
        let which = rng.us(0, n - 1);
        let delta = *rng.pick(&[-9i64, -8, -4, -3, -2, -1, -1, -1, 1, 1, 2, 4, 8, 9]);
        let enc = (0..n).map(|b| {
            let mut raw = if planar { encode_plane(rng, &rows, m.en, &v[b * per..(b + 1) * per], 1) } else { encode_plane(rng, &rows, m.en, &v, spp as usize) };
            if b == which {
                let l = (raw.len() as i64 + delta).max(0) as usize;
                raw.resize(l, 0x55);
            }
            compress(rng, comp, &raw)
        }).collect::<Vec<_>>();
        let mut set = vec![];
        if let (None, true) = (pred, rng.chance(1, 4)) { set.push((317u16, V::Short(vec![rng.range(1, 3) as u16]))); }
        let ctx = format!("{:?} {} payload {which} of {n} {delta:+} bytes, predictor tag {set:?}", m.en, s.describe());
        obs.sign(&format!("{}{delta}{which}{set:?}", s.sig(&m)));
        obs.sample(|| ctx.clone());
        add_encoded(rng, &mut m, s, vec![], enc, &set);
        let mem = Mem::new(m.build(rng).file);
        mem.ctl.quiet.store(true, Ordering::Relaxed);
        let (ifd, tile) = block_on(async {
            let mut r = TiffMetadataReader::try_open(&mem).await.map_err(|e| format!("HARNESS: open: {e}"))?;
            let t = r.read(&mem).await.map_err(|e| format!("HARNESS: read: {e}"))?;
            let ifd = t.ifds()[0].clone();
            let tile = ifd.fetch_tile(0, 0, &mem).await.map_err(|e| format!("HARNESS: fetch: {e}"))?;
            Ok::<_, String>((ifd, tile))
        })?;
        match tile.decode(&DecoderRegistry::default()) {
            Err(_) => obs.hit("wrong_length_rejected"),
            Ok(a) => {
                let (w, h, n) = (ifd.tile_width().unwrap() as usize, ifd.tile_height().unwrap() as usize, spp as usize);
                ensure!(a.shape() == if planar { [n, h, w] } else { [h, w, n] }, "{ctx}: shape {:?}", a.shape());
                consistent(&a, &ctx)?;
                obs.hit("wrong_length_consistent");
            }
        }
        Ok(())
    });
    // every bit depth with every predictor, over buffers of whole rows for some sample size
    r.family("bit-depths", 60000, 1200000, |rng, obs, i| {
        let mut m = rand_model(rng);
        if m.layout == Layout::Huge { m.layout = Layout::Cog; }
        let mut s = rand_spec(rng);
        s.dtype = *rng.pick(&[DataType::UInt8, DataType::UInt16, DataType::Float32, DataType::Float64]);
        s.pred = None;
        s.comp = *rng.pick(&[Compression::None, Compression::Deflate, Compression::LZW, Compression::ZSTD]);
        (s.tw, s.th, s.spp) = (rng.range(1, 20) as u32, rng.range(1, 6) as u32, rng.range(1, 4) as u16);
        s.w = s.tw;
        s.h = s.th;
        let b = if i < 400 { i as u16 % 134 } else { match rng.below(8) { 0 => rng.u32() as u16, 1 => 8 * rng.range(0, 40) as u16, _ => rng.below(134) as u16 } };
        let pred = rng.range(1, 3) as u16;
        let format = rng.range(1, 6) as u16;
        let per = s.tw as usize * s.th as usize * if s.planar { 1 } else { s.spp as usize };
        let n = if s.planar { s.spp as usize } else { 1 };
        let len = match rng.below(4) { 0 => per * *rng.pick(&[1usize, 2, 3, 4, 8, 16]), 1 => per * (b as usize % 256).div_ceil(8), 2 => (per * (b as usize % 256)).div_ceil(8), _ => per * b.div_ceil(8).next_power_of_two().min(64) as usize };
        let enc: Vec<Vec<u8>> = (0..n).map(|_| { let raw = rng.bytes(len); compress(rng, s.comp, &raw) }).collect();
        let uneven = rng.chance(1, 20) && s.spp > 1;
        let mut depths = vec![b; s.spp as usize];
        if uneven { depths[1] = rng.below(70) as u16; }
        let set = [(258u16, V::Short(depths)), (317, V::Short(vec![pred])), (339, V::Short(vec![format; s.spp as usize]))];
        let ctx = format!("{:?} {}x{}x{} planar {} {:?} bits {b} predictor {pred} format {format}, {len} decoded bytes", m.en, s.tw, s.th, s.spp, s.planar, s.comp);
        obs.sign(&ctx);
        obs.sample(|| ctx.clone());
        let (spp, planar) = (s.spp as usize, s.planar);
        add_encoded(rng, &mut m, s, vec![], enc, &set);
        let mem = Mem::new(m.build(rng).file);
        mem.ctl.quiet.store(true, Ordering::Relaxed);
        let got = block_on(async {
            let mut r = TiffMetadataReader::try_open(&mem).await.map_err(|e| format!("HARNESS: open: {e}"))?;
            let Ok(t) = r.read(&mem).await else { return Ok(None) };
            let ifd = t.ifds()[0].clone();
            Ok::<_, String>(ifd.fetch_tile(0, 0, &mem).await.ok().map(|t| (ifd, t)))
        })?;
        let Some((ifd, tile)) = got else { obs.hit("rejected_before_decode"); return Ok(()) };
        match tile.decode(&DecoderRegistry::default()) {
            Err(_) => obs.hit("depths_rejected"),
            Ok(a) => {
                let (w, h) = (ifd.tile_width().unwrap() as usize, ifd.tile_height().unwrap() as usize);
                ensure!(a.shape() == if planar { [spp, h, w] } else { [h, w, spp] }, "{ctx}: shape {:?}", a.shape());
                consistent(&a, &ctx)?;
                obs.hit("depths_consistent");
            }
        }
        Ok(())
    });
    r.family("direct", 200000, 4000000, |rng, obs, _| {
        let reg = DecoderRegistry::default();
        let mut keys: Vec<Compression> = reg.as_ref().keys().copied().collect();
        keys.sort_by_key(|k| k.to_u16());
        let (s, enc, set) = payload(rng, En::Le);
        let c = if rng.chance(1, 3) { *rng.pick(&keys) } else { s.comp };
        let mut b = enc[0].clone();
        let what = mutate(rng, &mut b);
        let mut tables = set.iter().find_map(|(t, v)| match (t, v) { (347, V::Undef(t)) => Some(t.clone()), _ => None });
        if rng.chance(1, 6) { let n = rng.us(0, 20); tables = Some(rng.bytes(n)); }
        if let (Some(t), true) = (&mut tables, rng.chance(1, 3)) { mutate(rng, t); }
        let lerc: Option<Vec<u32>> = match rng.below(3) { 0 => None, 1 => set.iter().find_map(|(t, v)| match (t, v) { (50674, V::Long(l)) => Some(l.clone()), _ => None }), _ => { let n = rng.us(0, 3); Some((0..n).map(|_| rng.below(4) as u32).collect()) } };
        let photo = crate::enums::photo_of(*rng.pick(&[0u16, 1, 2, 3, 4, 5, 6, 8])).unwrap();
        let (spp, bps) = (*rng.pick(&[0u16, 1, 3, 4, 65535]), *rng.pick(&[0u16, 1, 8, 16, 65535]));
        let ctx = format!("{c:?} decoder on a {:?} payload, {what}, photometric {photo:?}, tables {:?}", s.comp, tables.as_ref().map(|t| t.len()));
        obs.sign(&format!("{c:?}{photo:?}{}{:?}{lerc:?}{spp}{bps}", hash_bytes(&b), tables.as_ref().map(|t| hash_bytes(t))));
        obs.sample(|| ctx.clone());
        if bomb(c, &b, tables.as_deref().unwrap_or(&[])) { obs.hit("bombs_skipped"); return Ok(()) }
        let res = reg.as_ref()[&c].decode_tile(Bytes::from(b.clone()), photo, tables.as_deref(), spp, bps, lerc.as_deref());
        obs.hit("direct_calls");
        if c == Compression::None {
            ensure!(res.as_ref().is_ok_and(|v| *v == b), "{ctx}: uncompressed data changed");
        }
        obs.hit(if res.is_ok() { "direct_ok" } else { "direct_err" });
        Ok(())
    });
    r.finish("exploration", json!({}))
}
