//! C07 (tile addressing) and C08 (batched fetching).
use crate::ensure;
use crate::image::*;
use crate::io::*;
use crate::props::tiles::{open, rand_model};
use crate::rng::{mix, Rng};
use crate::run::*;
use crate::tiffmodel::*;
use async_tiff::decoder::DecoderRegistry;
use async_tiff::reader::AsyncFileReader;
use async_tiff::tags::Tag;
use async_tiff::{CompressedBytes, ImageFileDirectory, TagValue, Tile, TileByteRange, TilesByteRanges};
use serde_json::json;
use std::collections::HashMap;
use std::ops::Range;

struct Grid {
    w: u32,
    h: u32,
    tw: u32,
    th: u32,
    spp: u16,
    planar: bool,
    offs: Vec<u64>,
    cnts: Vec<u64>,
}

fn tags(f: &Ifd) -> HashMap<Tag, TagValue> {
    f.entries.iter().map(|e| (crate::enums::tag_of(e.tag), e.v.expect(&[]))).collect()
}

impl Grid {
    fn dims(&self) -> (usize, usize) {
        ((self.w as u64).div_ceil(self.tw as u64) as usize, (self.h as u64).div_ceil(self.th as u64) as usize)
    }
    fn ifd(&self, rng: &mut Rng) -> Ifd {
        let mut f = Ifd::default();
        f.push(256, V::Long(vec![self.w]));
        f.push(257, V::Long(vec![self.h]));
        f.push(258, V::Short(vec![8; self.spp as usize]));
        f.push(262, V::Short(vec![1]));
        f.push(277, V::Short(vec![self.spp]));
        if self.planar {
            f.push(284, V::Short(vec![2]));
        } else if rng.chance(1, 2) {
            f.push(284, V::Short(vec![1]));
        }
        f.push(322, V::Long(vec![self.tw]));
        f.push(323, V::Long(vec![self.th]));
        f.push(324, V::Long8(self.offs.clone()));
        f.push(325, V::Long8(self.cnts.clone()));
        f
    }
    /// Byte ranges of the tile in file order of its bands, None when there is no such tile.
    fn expect(&self, x: usize, y: usize) -> Option<Vec<Range<u64>>> {
        let (nx, ny) = self.dims();
        if x >= nx || y >= ny {
            return None;
        }
        let bands = if self.planar { self.spp as usize } else { 1 };
        (0..bands)
            .map(|b| {
                let i = b * nx * ny + y * nx + x;
                let o = *self.offs.get(i)?;
                let c = *self.cnts.get(i)?;
                Some(o..o.checked_add(c)?)
            })
            .collect()
    }
}

fn rand_grid(rng: &mut Rng) -> Grid {
    let tw = *rng.pick(&[1u32, 3, 16, 16, 64, 256, 1 << 20]);
    let th = *rng.pick(&[1u32, 5, 16, 16, 64, 256, 1 << 20]);
    let (nx, ny) = (rng.range(1, 9) as u32, rng.range(1, 9) as u32);
    let w = tw * nx - if rng.chance(1, 2) { rng.below(tw as u64) as u32 } else { 0 };
    let h = th * ny - if rng.chance(1, 2) { rng.below(th as u64) as u32 } else { 0 };
    let spp = rng.range(1, 5) as u16;
    let planar = rng.chance(1, 2);
    let n = nx as usize * ny as usize * if planar { spp as usize } else { 1 };
    let bits = *rng.pick(&[16u32, 32, 40, 63]);
    Grid {
        w,
        h,
        tw,
        th,
        spp,
        planar,
        offs: (0..n).map(|_| rng.edgy(bits)).collect(),
        cnts: (0..n).map(|_| if rng.chance(1, 10) { 0 } else { rng.edgy(20) }).collect(),
    }
}

fn rand_xy(rng: &mut Rng, nx: usize, ny: usize) -> (usize, usize) {
    let mut c = |n: usize| match rng.below(12) {
        0 => n,
        1 => n + rng.us(0, 3),
        2 => usize::MAX - rng.us(0, 2),
        3 => 1usize << rng.below(64),
        4 => n - 1,
        _ => rng.us(0, n - 1),
    };
    (c(nx), c(ny))
}

fn ranges(r: &TileByteRange, planar: bool) -> Result<Vec<Range<u64>>, String> {
    match (r, planar) {
        (TileByteRange::Chunky(r), false) => Ok(vec![r.clone()]),
        (TileByteRange::Planar(r), true) => Ok(r.clone()),
        _ => Err("byte range does not match the planar configuration".into()),
    }
}

fn grid_case(rng: &mut Rng, obs: &mut Obs, g: &Grid) -> Case {
    let f = g.ifd(rng);
    let ifd = ImageFileDirectory::from_tags(tags(&f), En::Le.rt()).map_err(|e| format!("from_tags: {e}"))?;
    grid_queries(rng, obs, g, &ifd)
}

/// The same, with the directory read from a file whose arrays have the narrowest or a wider type.
fn file_case(rng: &mut Rng, obs: &mut Obs, g: &Grid) -> Case {
    let mut f = g.ifd(rng);
    let mut m = rand_model(rng);
    for (tag, v) in [(324, &g.offs), (325, &g.cnts)] {
        let top = v.iter().copied().max().unwrap_or(0);
        let fits: Vec<u16> = [(3u16, 16), (4, 32), (16, 64)].into_iter().filter(|(t, b)| (*b == 64 || top >> *b == 0) && (*t != 16 || m.big)).map(|x| x.0).collect();
        let v = match rng.pick(&fits) { 3 => V::Short(v.iter().map(|x| *x as u16).collect()), 4 => V::Long(v.iter().map(|x| *x as u32).collect()), _ => V::Long8(v.clone()) };
        // (one LONG or LONG8 value of an array is read as well)
        f.set(tag, v);
    }
    m.ifds.push(f);
    let built = m.build(rng);
    let mem = Mem::new(built.file.clone());
    mem.ctl.quiet.store(true, std::sync::atomic::Ordering::Relaxed);
    let cached = m.layout != Layout::Huge && rng.chance(1, 2);
    let t = block_on(open(&mem, cached)).map_err(|e| format!("{} tile offsets, {:?} big={}: {e}", g.offs.len(), m.en, m.big))?;
    ensure!(t.ifds().len() == 1, "{} IFDs", t.ifds().len());
    let ifd = &t.ifds()[0];
    ensure!(ifd.tile_offsets() == Some(&g.offs[..]) && ifd.tile_byte_counts() == Some(&g.cnts[..]), "{} tile offsets, {:?} big={}: the arrays are not those of the file", g.offs.len(), m.en, m.big);
    obs.hit("grids_read_from_files");
    if g.offs.len() > 65536 { obs.hit("large_grids_read_from_files"); }
    grid_queries(rng, obs, g, ifd)
}

fn grid_queries(rng: &mut Rng, obs: &mut Obs, g: &Grid, ifd: &ImageFileDirectory) -> Case {
    let (nx, ny) = g.dims();
    let ctx = format!("{}x{} tiles {}x{} spp {} planar {} ({} offsets, {} counts)", g.w, g.h, g.tw, g.th, g.spp, g.planar, g.offs.len(), g.cnts.len());
    obs.sign(&ctx);
    obs.sample(|| ctx.clone());
    ensure!(ifd.tile_count() == Some((nx, ny)), "{ctx}: tile_count {:?}, expected {:?}", ifd.tile_count(), (nx, ny));
    let mut list: Vec<(usize, usize)> = if nx * ny <= 40 {
        (0..ny).flat_map(|y| (0..nx).map(move |x| (x, y))).collect()
    } else {
        vec![]
    };
    for _ in 0..20 {
        list.push(rand_xy(rng, nx, ny));
    }
    let mem = Mem::new(Sparse { segs: Default::default(), len: u64::MAX, junk: 5 });
    for (x, y) in &list {
        let want = g.expect(*x, *y);
        let got = ifd.tile_byte_range(*x, *y);
        match (&want, &got) {
            (None, None) => {
                obs.hit("absent_tiles_refused");
                // fetching it is an error and reads nothing
                let r = block_on(ifd.fetch_tile(*x, *y, &mem));
                ensure!(r.is_err(), "{ctx}: fetch_tile({x},{y}) of a tile that does not exist returned a tile");
                let r = block_on(ifd.fetch_tiles(&[(*x, *y)], &mem));
                ensure!(r.is_err(), "{ctx}: fetch_tiles(({x},{y})) of a tile that does not exist returned a tile");
                let log = mem.take_log();
                ensure!(log.is_empty(), "{ctx}: requests {log:?} for a tile that does not exist");
            }
            (Some(w), Some(r)) => {
                let r = ranges(r, g.planar).map_err(|e| format!("{ctx}: {e}"))?;
                ensure!(&r == w, "{ctx}: tile ({x},{y}) byte ranges {r:?}, file says {w:?}");
                obs.hit("tile_ranges_compared");
            }
            (w, r) => return Err(format!("{ctx}: tile_byte_range({x},{y}) is {:?}, expected {w:?}", r.as_ref().map(|r| ranges(r, g.planar)))),
        }
    }
    // several at once
    for _ in 0..4 {
        let big = rng.chance(1, 20);
        let n = if big { rng.us(20, 700) } else { rng.us(0, 6) };
        let xy: Vec<(usize, usize)> = (0..n)
            .map(|_| if rng.chance(1, if big { 4000 } else { 12 }) { rand_xy(rng, nx, ny) } else { (rng.us(0, nx - 1), rng.us(0, ny - 1)) })
            .collect();
        let want: Option<Vec<Vec<Range<u64>>>> = xy.iter().map(|(x, y)| g.expect(*x, *y)).collect();
        let got: Option<Vec<Vec<Range<u64>>>> = match ifd.tiles_byte_ranges(&xy) {
            None => None,
            Some(TilesByteRanges::Chunky(v)) => {
                ensure!(!g.planar, "{ctx}: chunky ranges for a planar file");
                Some(v.into_iter().map(|r| vec![r]).collect())
            }
            Some(TilesByteRanges::Planar(v)) => {
                ensure!(g.planar, "{ctx}: planar ranges for a chunky file");
                Some(v)
            }
        };
        ensure!(got == want, "{ctx}: tiles_byte_ranges({xy:?}) = {got:?}, file says {want:?}");
        obs.hit("batch_ranges_compared");
    }
    Ok(())
}

pub fn c07(mut r: Runner) -> i32 {
    r.rule("case = one tile grid (image/tile size, samples, planar, offset and count arrays); every in-grid and many out-of-grid coordinates queried through tile_byte_range / tiles_byte_ranges / fetch_tile(s); distinct by grid");
    r.require(&["tile_ranges_compared", "absent_tiles_refused", "batch_ranges_compared", "not_tiled_refused", "grids_read_from_files", "large_grids_read_from_files"]);
    r.family("grids", 5000, 80000, |rng, obs, _| {
        let g = rand_grid(rng);
        grid_case(rng, obs, &g)
    });
    // offset/count arrays that do not cover the grid, and ranges that do not fit in 64 bits
    r.family("short-arrays", 2000, 30000, |rng, obs, _| {
        let mut g = rand_grid(rng);
        let n = g.offs.len();
        match rng.below(3) {
            0 => g.offs.truncate(rng.us(1, n)),
            1 => g.cnts.truncate(rng.us(1, n)),
            _ => {
                let k = rng.us(0, n - 1);
                g.offs[k] = u64::MAX - rng.below(3);
                g.cnts[k] = rng.range(0, 5);
            }
        }
        grid_case(rng, obs, &g)
    });
    // large grids
    r.family("large-grids", 30, 400, |rng, obs, _| {
        let (nx, ny) = (rng.range(100, 400) as u32, rng.range(100, 300) as u32);
        let planar = rng.chance(1, 2);
        let spp = if planar { 3 } else { 1 };
        let n = (nx * ny) as usize * if planar { spp as usize } else { 1 };
        let k = rng.u64();
        let g = Grid {
            w: nx * 256 - rng.below(256) as u32,
            h: ny * 256 - rng.below(256) as u32,
            tw: 256,
            th: 256,
            spp,
            planar,
            offs: (0..n as u64).map(|i| mix(k ^ i) >> 8).collect(),
            cnts: (0..n as u64).map(|i| mix(k ^ i ^ 77) >> 40).collect(),
        };
        for _ in 0..10 {
            grid_case(rng, obs, &g)?;
        }
        Ok(())
    });
    r.family("files", 1500, 30000, |rng, obs, _| {
        let mut g = rand_grid(rng);
        for o in g.offs.iter_mut().chain(g.cnts.iter_mut()) { *o &= 0xffff_ffff; }
        if g.offs.iter().any(|o| *o > 0xffff) || rng.chance(1, 2) { for o in g.offs.iter_mut() { *o |= 1 << 20; } }
        file_case(rng, obs, &g)
    });
    // up to more tiles than any sensible-looking limit
    r.family("large-files", 5, 60, |rng, obs, i| {
        let (nx, ny) = match i % 5 { 0 => (1024u32, rng.range(1025, 1100) as u32), 1 => (rng.range(66000, 70000) as u32, 1), _ => (rng.range(256, 400) as u32, rng.range(257, 300) as u32) };
        let planar = i % 5 == 3;
        let spp = if planar { 3 } else { 1 };
        let n = (nx * ny) as usize * spp as usize;
        let k = rng.u64();
        let bits = if i % 2 == 0 { 24 } else { 31 };
        let g = Grid { w: nx * 16 - rng.below(16) as u32, h: ny * 16 - rng.below(16) as u32, tw: 16, th: 16, spp, planar,
            offs: (0..n as u64).map(|i| mix(k ^ i) >> (64 - bits)).collect(), cnts: (0..n as u64).map(|i| mix(k ^ i ^ 77) >> 40).collect() };
        file_case(rng, obs, &g)
    });
    // the dimensions can be anything a u32 holds
    r.family("extreme-dims", 2000, 20000, |rng, obs, _| {
        let mut g = rand_grid(rng);
        g.w = rng.edgy(32).max(1) as u32;
        g.h = rng.edgy(32).max(1) as u32;
        g.tw = rng.edgy(32).max(1) as u32;
        g.th = rng.edgy(32).max(1) as u32;
        grid_case(rng, obs, &g)
    });
    r.family("not-tiled", 600, 5000, |rng, obs, _| {
        let g = rand_grid(rng);
        let mut f = g.ifd(rng);
        let mut drop: Vec<u16> = vec![];
        match rng.below(4) {
            0 => {
                drop = vec![322, 323, 324, 325];
                f.push(273, V::Long(vec![100, 200]));
                f.push(279, V::Long(vec![50, 50]));
                f.push(278, V::Long(vec![8]));
            }
            _ => {
                drop.push(*rng.pick(&[322u16, 323, 324, 325]));
            }
        }
        for t in &drop {
            f.remove(*t);
        }
        if rng.chance(1, 6) {
            f.set(322, V::Long(vec![0]));
        }
        let ifd = ImageFileDirectory::from_tags(tags(&f), En::Le.rt()).map_err(|e| format!("from_tags: {e}"))?;
        let mem = Mem::new(Sparse { segs: Default::default(), len: 1 << 40, junk: 5 });
        let (x, y) = if rng.chance(1, 2) { (0, 0) } else { rand_xy(rng, 3, 3) };
        ensure!(ifd.tile_byte_range(x, y).is_none(), "byte range for a tile of an IFD without tags {drop:?}");
        ensure!(ifd.tiles_byte_ranges(&[(x, y)]).is_none(), "byte ranges for a tile of an IFD without tags {drop:?}");
        ensure!(block_on(ifd.fetch_tile(x, y, &mem)).is_err(), "tile of an IFD without tags {drop:?}");
        ensure!(block_on(ifd.fetch_tiles(&[(x, y)], &mem)).is_err(), "tiles of an IFD without tags {drop:?}");
        if drop.contains(&322) && f.get(322).is_none() || drop.contains(&323) {
            ensure!(ifd.tile_count().is_none(), "tile_count {:?} without tile dimensions", ifd.tile_count());
        }
        ensure!(mem.take_log().is_empty(), "requests for a tile that does not exist");
        obs.hit("not_tiled_refused");
        obs.sign(&format!("{drop:?}{x}{y}"));
        Ok(())
    });
    r.finish("exploration", json!({}))
}

// ------------------------------------------------------------------------------------------ C08

fn raw(t: &Tile) -> Vec<bytes::Bytes> {
    match t.compressed_bytes() {
        CompressedBytes::Chunky(b) => vec![b.clone()],
        CompressedBytes::Planar(v) => v.clone(),
    }
}

/// The bytes requested are those of the tiles: nothing else, none missing, none more often than asked
/// (repeats left out and neighbours asked for as one range are the same bytes).
fn same_ranges(got: &[Range<u64>], want: &[Range<u64>]) -> bool {
    let union = |v: &[Range<u64>]| {
        let mut v: Vec<(u64, u64)> = v.iter().filter(|r| !r.is_empty()).map(|r| (r.start, r.end)).collect();
        v.sort();
        let mut out: Vec<(u64, u64)> = vec![];
        for r in v {
            match out.last_mut() { Some(l) if r.0 <= l.1 => l.1 = l.1.max(r.1), _ => out.push(r) }
        }
        out
    };
    let total = |v: &[Range<u64>]| v.iter().map(|r| (r.end - r.start) as u128).sum::<u128>();
    got.len() <= want.len() && total(got) <= total(want) && union(got) == union(want)
}

/// Many small tiles.
fn many_tiles(rng: &mut Rng) -> Spec {
    let mut s = rand_spec(rng);
    s.comp = *rng.pick(&[async_tiff::tags::Compression::None, async_tiff::tags::Compression::None, async_tiff::tags::Compression::LZW, async_tiff::tags::Compression::Deflate]);
    s.pred = None;
    s.spp = *rng.pick(&[1, 1, 2, 3, 5]);
    (s.tw, s.th) = (rng.range(1, 4) as u32, rng.range(1, 3) as u32);
    if s.dtype == async_tiff::DataType::Bool { s.tw = 8; }
    s.w = s.tw * rng.range(3, 60) as u32 - rng.below(s.tw as u64) as u32;
    s.h = s.th * rng.range(3, 40) as u32 - rng.below(s.th as u64) as u32;
    if rng.chance(1, 10) {
        // coordinates beyond 16 bits
        s.dtype = async_tiff::DataType::UInt8;
        s.comp = async_tiff::tags::Compression::None;
        (s.tw, s.th, s.spp) = (1, 1, 1);
        (s.w, s.h) = (rng.range(65600, 66200) as u32, 1);
        if rng.chance(1, 2) { (s.w, s.h) = (s.h, s.w) }
    }
    s
}

fn batch_case(rng: &mut Rng, obs: &mut Obs, large: bool) -> Case {
    let mut m = rand_model(rng);
    let nimg = rng.us(1, 2);
    let imgs: Vec<Img> = (0..nimg).map(|_| { let s = if large { many_tiles(rng) } else { rand_spec(rng) }; add_image(rng, &mut m, s) }).collect();
    let built = m.build(rng);
    let mem = Mem::new(built.file.clone());
    let tiff = block_on(open(&mem, false))?;
    mem.take_log();
    let reg = DecoderRegistry::default();
    let which = rng.us(0, nimg - 1);
    let img = &imgs[which];
    let ifd = &tiff.ifds()[img.ifd];
    let (nx, ny) = img.spec.grid();
    let n = match rng.below(6) { _ if large => { let k = *rng.pick(&[20, 70, 140, 300, 1100, 4200]); rng.us(k / 2, k) } 0 => 0, 1 => 1, _ => rng.us(2, 9) };
    let xy: Vec<(usize, usize)> = match rng.below(5) {
        // whole grids in row-major or column-major order
        0 if large => (0..ny).flat_map(|y| (0..nx).map(move |x| (x, y))).collect(),
        1 if large => (0..nx).flat_map(|x| (0..ny).map(move |y| (x, y))).collect(),
        2 if !large && rng.chance(1, 2) => (0..ny).flat_map(|y| (0..nx).map(move |x| (x, y))).collect(),
        _ => (0..n).map(|_| (rng.us(0, nx - 1), rng.us(0, ny - 1))).collect(),
    };
    let n = xy.len();
    if n >= 100 { obs.hit("batches_of_hundreds"); }
    if xy.iter().any(|p| p.0.max(p.1) > 65535) { obs.hit("coordinates_beyond_16_bits"); }
    let ctx = format!("{:?} big={} {} {n} positions xy={:?}", m.en, m.big, img.spec.describe(), &xy[..n.min(12)]);
    obs.sign(&format!("{}{xy:?}", img.spec.sig(&m)));
    obs.sample(|| ctx.clone());
    let want_ranges: Vec<Range<u64>> = xy.iter().flat_map(|(x, y)| {
        let bands = if img.spec.planar { img.spec.spp as usize } else { 1 };
        let built = &built;
        let m = &m;
        (0..bands).map(move |b| {
            let id = img.blocks[b * nx * ny + y * nx + x];
            let o = built.block_offsets[id];
            o..o + m.blocks[id].len() as u64
        })
    }).collect();
    let dflt = rng.chance(1, 3);
    let def = MemDefault(mem.clone());
    let reader: &dyn AsyncFileReader = if dflt { &def } else { &mem };
    let tiles = block_on(ifd.fetch_tiles(&xy, reader)).map_err(|e| format!("{ctx}: fetch_tiles: {e}"))?;
    let log = mem.take_log();
    if dflt {
        // the trait's default implementation: one get_bytes per range, in order
        let mut got = vec![];
        for e in &log { match e { Ev::Get(r) => got.push(r.clone()), e => return Err(format!("{ctx}: unexpected {e:?}")) } }
        ensure!(same_ranges(&got, &want_ranges), "{ctx}: fetch_tiles requested {log:?}, tiles are at {want_ranges:?}");
    } else {
        let mut all = vec![];
        let mut calls = 0;
        for e in &log {
            match e {
                Ev::Ranges(r) => { calls += 1; all.extend(r.clone()) }
                Ev::Get(r) => { calls += 1; all.push(r.clone()) }
                Ev::Fault(_) => {}
            }
        }
        ensure!(same_ranges(&all, &want_ranges), "{ctx}: fetch_tiles requested {all:?}, tiles are at {want_ranges:?}");
        ensure!(calls <= 1, "{ctx}: fetch_tiles made {calls} calls to the reader instead of one batch");
        obs.hit("batched_calls_observed");
    }
    ensure!(tiles.len() == n, "{ctx}: {} tiles returned", tiles.len());
    obs.hit("batches_compared");
    if n == 0 { obs.hit("empty_batches"); }
    let mut seen = std::collections::HashSet::new();
    for (k, (t, (x, y))) in tiles.into_iter().zip(&xy).enumerate() {
        let one = block_on(ifd.fetch_tile(*x, *y, reader)).map_err(|e| format!("{ctx}: fetch_tile: {e}"))?;
        let log = mem.take_log();
        let per: Vec<Range<u64>> = {
            let b = if img.spec.planar { img.spec.spp as usize } else { 1 };
            want_ranges[k * b..(k + 1) * b].to_vec()
        };
        let mut all = vec![];
        for e in &log {
            match e {
                Ev::Ranges(r) => all.extend(r.clone()),
                Ev::Get(r) => all.push(r.clone()),
                Ev::Fault(_) => {}
            }
        }
        ensure!(same_ranges(&all, &per), "{ctx}: fetch_tile({x},{y}) requested {all:?}, tile is at {per:?}");
        ensure!(dflt || log.len() == 1, "{ctx}: fetch_tile({x},{y}) made {} calls", log.len());
        ensure!((t.x(), t.y()) == (*x, *y), "{ctx}: tile #{k} labelled ({},{})", t.x(), t.y());
        ensure!((one.x(), one.y()) == (*x, *y), "{ctx}: fetch_tile({x},{y}) labelled ({},{})", one.x(), one.y());
        ensure!(raw(&t) == raw(&one), "{ctx}: tile #{k} ({x},{y}): batched and single fetch return different bytes");
        let file: Vec<bytes::Bytes> = per.iter().map(|r| built.file.read(r.clone())).collect();
        ensure!(raw(&t) == file, "{ctx}: tile #{k} ({x},{y}): bytes differ from the file");
        ensure!(t.compression_method() == one.compression_method() && t.photometric_interpretation() == one.photometric_interpretation() && t.jpeg_tables() == one.jpeg_tables(), "{ctx}: tile attributes differ");
        ensure!(t.compression_method() == img.spec.comp, "{ctx}: tile compression {:?}", t.compression_method());
        let a = t.decode(&reg).map_err(|e| format!("{ctx}: decode: {e}"))?;
        let b = one.decode(&reg).map_err(|e| format!("{ctx}: decode: {e}"))?;
        let want = native(&img.tiles[y * nx + x], img.spec.dtype);
        check_array(&a, img.spec.shape(), img.spec.dtype, &want, &format!("{ctx} batched #{k}"))?;
        check_array(&b, img.spec.shape(), img.spec.dtype, &want, &format!("{ctx} single #{k}"))?;
        ensure!(mem.take_log().is_empty(), "{ctx}: decoding issued requests");
        obs.hit("tiles_compared_batched_vs_single");
        if !seen.insert((*x, *y)) { obs.hit("duplicate_requests"); }
        if img.spec.planar { obs.hit("planar_tiles"); }
    }
    // one bad coordinate fails the whole batch without I/O
    if n > 0 && rng.chance(1, 3) {
        let mut bad = xy.clone();
        let k = rng.us(0, n - 1);
        if rng.chance(1, 2) { bad[k].0 = nx + rng.us(0, 2) } else { bad[k].1 = ny + rng.us(0, 2) }
        let r = block_on(ifd.fetch_tiles(&bad, reader));
        ensure!(r.is_err(), "{ctx}: batch with out-of-grid tile {:?} returned {} tiles", bad[k], r.unwrap().len());
        ensure!(mem.take_log().is_empty(), "{ctx}: batch with out-of-grid tile issued requests");
        obs.hit("bad_batches_refused");
    }
    Ok(())
}

/// Tile arrays that share bytes: equal, nested, neighbouring and overlapping ranges, ranges that start or
/// end together, and empty ones.
fn overlap_case(rng: &mut Rng, obs: &mut Obs) -> Case {
    let mut m = rand_model(rng);
    if m.layout == Layout::Huge { m.layout = Layout::Cog; }
    let planar = rng.chance(1, 2);
    let spp = if planar { rng.us(1, 4) } else { 1 };
    let (nx, ny) = (rng.us(1, 6), rng.us(1, 4));
    let n = nx * ny * spp;
    let marks: Vec<u64> = (0..rng.us(2, 6)).map(|_| rng.below(900)).collect();
    let ranges: Vec<Range<u64>> = (0..n).map(|_| {
        let (a, b) = (*rng.pick(&marks), if rng.chance(1, 4) { rng.below(900) } else { *rng.pick(&marks) });
        a.min(b)..a.max(b)
    }).collect();
    let mut ifd = Ifd::default();
    basic_tags(rng, &mut ifd, nx as u32 * 16, ny as u32 * 16);
    ifd.set(277, V::Short(vec![spp as u16]));
    ifd.set(258, V::Short(vec![8; spp]));
    ifd.push(284, V::Short(vec![1 + planar as u16]));
    ifd.push(322, V::Short(vec![16]));
    ifd.push(323, V::Short(vec![16]));
    ifd.push(324, V::Long(ranges.iter().map(|r| r.start as u32).collect()));
    ifd.push(325, V::Long(ranges.iter().map(|r| (r.end - r.start) as u32).collect()));
    m.ifds.push(ifd);
    let b = rng.bytes(1000);
    m.blocks.push(b);
    let built = m.build(rng);
    let mem = Mem::new(built.file.clone());
    let tiff = block_on(open(&mem, false))?;
    let ifd = &tiff.ifds()[0];
    mem.take_log();
    let k = rng.us(1, 2 * nx * ny);
    let xy: Vec<(usize, usize)> = (0..k).map(|_| (rng.us(0, nx - 1), rng.us(0, ny - 1))).collect();
    let ctx = format!("planar={planar} spp={spp} {nx}x{ny} tiles at {ranges:?} xy={xy:?}");
    obs.sign(&ctx);
    obs.sample(|| ctx.clone());
    let def = MemDefault(mem.clone());
    let reader: &dyn AsyncFileReader = if rng.chance(1, 3) { &def } else { &mem };
    let tiles = block_on(ifd.fetch_tiles(&xy, reader)).map_err(|e| format!("{ctx}: fetch_tiles: {e}"))?;
    let per = |x: usize, y: usize| -> Vec<Range<u64>> { (0..spp).map(|b| ranges[b * nx * ny + y * nx + x].clone()).collect() };
    let all: Vec<Range<u64>> = mem.take_log().into_iter().flat_map(|e| match e { Ev::Get(r) => vec![r], Ev::Ranges(r) => r, _ => vec![] }).collect();
    let want: Vec<Range<u64>> = xy.iter().flat_map(|p| per(p.0, p.1)).collect();
    ensure!(same_ranges(&all, &want), "{ctx}: fetch_tiles requested {all:?}, tiles are at {want:?}");
    ensure!(tiles.len() == k, "{ctx}: {} tiles returned", tiles.len());
    for (i, (t, (x, y))) in tiles.iter().zip(&xy).enumerate() {
        let one = block_on(ifd.fetch_tile(*x, *y, reader)).map_err(|e| format!("{ctx}: fetch_tile: {e}"))?;
        let file: Vec<bytes::Bytes> = per(*x, *y).into_iter().map(|r| built.file.read(r)).collect();
        ensure!((t.x(), t.y()) == (*x, *y), "{ctx}: tile #{i} labelled ({},{})", t.x(), t.y());
        ensure!(raw(t) == file && raw(&one) == file, "{ctx}: tile #{i} ({x},{y}): bytes differ from the file (batched {}, single {})", raw(t) == file, raw(&one) == file);
        obs.hit("tiles_sharing_bytes");
    }
    Ok(())
}

pub fn c08(mut r: Runner) -> i32 {
    r.rule("case = one image and one random list of tile coordinates (order, duplicates, empty, one bad); every request crossing the reader interface is logged and compared with the tiles' ranges; distinct by (image configuration, coordinate list)");
    r.require(&["batches_compared", "tiles_compared_batched_vs_single", "duplicate_requests", "planar_tiles", "empty_batches", "bad_batches_refused", "batched_calls_observed", "batches_of_hundreds", "coordinates_beyond_16_bits", "tiles_sharing_bytes"]);
    r.family("batches", 6000, 90000, |rng, obs, _| batch_case(rng, obs, false));
    r.family("shared-bytes", 2000, 40000, |rng, obs, _| overlap_case(rng, obs));
    r.family("large-batches", 60, 1500, |rng, obs, _| batch_case(rng, obs, true));
    r.finish("exploration", json!({}))
}
