//! C04 (tag values), C05 (IFD chain), C06 (accessors), C16 (geo keys), C20 (header size), C22
//! (truncated files).
use crate::ensure;
use crate::image::*;
use crate::io::*;
use crate::props::tiles::{open, rand_model};
use crate::rng::{mix, Rng};
use crate::run::*;
use crate::tiffmodel::*;
use async_tiff::metadata::cache::ReadaheadMetadataCache;
use async_tiff::metadata::{ImageFileDirectoryReader, MetadataFetch, TiffMetadataReader};
use async_tiff::tags::*;
use async_tiff::{ImageFileDirectory, TagValue, TIFF};
use serde_json::json;
use std::collections::{BTreeMap, HashMap};
use std::sync::atomic::Ordering;

/// Everything observable of an IFD, in a canonical order.
pub fn canon(i: &ImageFileDirectory) -> String {
    text_is_utf8(i);
    crate::canon::canon_raw(i)
}
/// A `String` that is not UTF-8 is undefined behaviour; fatal in the instrumented runs of C21.
fn text_is_utf8(i: &ImageFileDirectory) {
    let mut t: Vec<&[u8]> = [i.document_name(), i.image_description(), i.software(), i.date_time(), i.artist(), i.host_computer(), i.copyright(), i.gdal_nodata(), i.gdal_metadata()]
        .into_iter().flatten().map(str::as_bytes).collect();
    fn add<'a>(v: &'a TagValue, t: &mut Vec<&'a [u8]>) {
        match v {
            TagValue::Ascii(s) => t.push(s.as_bytes()),
            TagValue::List(l) => l.iter().for_each(|x| add(x, t)),
            _ => {}
        }
    }
    for v in i.other_tags().values() { add(v, &mut t); }
    if let Some(g) = i.geo_key_directory() {
        t.extend([&g.citation, &g.geog_citation, &g.proj_citation, &g.vertical_citation].into_iter().flatten().map(|s| s.as_bytes()));
    }
    if !t.iter().all(|x| std::str::from_utf8(std::hint::black_box(x)).is_ok()) && std::env::var_os("VMON_SANITIZED").is_some() {
        eprintln!("error: Undefined Behavior: a String that is not UTF-8");
        std::process::abort();
    }
}
pub fn canon_tiff(t: &TIFF) -> String {
    let mut s = format!("{:?};", t.endianness());
    for i in t.ifds() {
        s.push_str(&canon(i));
        s.push('\n');
    }
    s
}

// ------------------------------------------------------------------------------------------ C04

fn rand_ascii(rng: &mut Rng, n: usize) -> V {
    // n bytes in total
    let mut v: Vec<u8> = vec![];
    if rng.chance(1, 8) {
        // Latin-1 and other text that is not UTF-8
        v = rng.bytes(n);
        if n > 0 && rng.chance(3, 4) { v[n - 1] = 0; }
        return V::Ascii(v);
    }
    let utf8 = rng.chance(1, 4);
    while v.len() < n {
        if utf8 && v.len() + 2 <= n && rng.chance(1, 3) {
            v.extend("é".as_bytes());
        } else {
            v.push(rng.range(1, 127) as u8);
        }
    }
    if n > 0 {
        match rng.below(5) {
            // not terminated
            0 => {}
            // terminated early
            1 => {
                let k = rng.us(0, n - 1);
                v[k] = 0;
                if utf8 {
                    // keep the part before the terminator valid
                    for b in v[..k].iter_mut() {
                        if *b >= 128 { *b = b'x' }
                    }
                }
            }
            _ => {
                v[n - 1] = 0;
                if n >= 2 && v[n - 2] >= 128 {
                    // do not cut a character in half
                    v[n - 2] = b'z';
                }
            }
        }
    }
    let end = v.iter().position(|b| *b == 0).unwrap_or(v.len());
    if String::from_utf8(v[..end].to_vec()).is_err() {
        for b in v.iter_mut() {
            if *b >= 128 { *b = b'q' }
        }
    }
    V::Ascii(v)
}

pub fn rand_entry(rng: &mut Rng, max: usize) -> V {
    let ty = *rng.pick(&TYPES);
    let n = match rng.below(10) {
        0 => 0,
        1..=3 => 1,
        4..=6 => rng.us(2, 9),
        7 | 8 => rng.us(1, 40),
        _ => rng.us(1, max),
    };
    if ty == 2 { rand_ascii(rng, n) } else { rand_vals(rng, ty, n) }
}

fn ifd_reader_case(rng: &mut Rng, obs: &mut Obs, max: usize, many: usize) -> Case {
    let mut m = rand_model(rng);
    let nifd = if many > 0 { 1 } else { rng.us(1, 3) };
    for _ in 0..nifd {
        let mut ifd = Ifd::default();
        // 65535 is as many as a classic IFD can have, 65536 as many as there are tags
        let n = if many >= 65536 { if m.big { 65536 } else { 65535 } } else if many > 0 { rng.us(many / 2, many) } else { rng.us(1, 24) };
        if many > 0 { obs.hit("ifds_of_hundreds_of_entries"); }
        let mut used = std::collections::HashSet::new();
        for _ in 0..n {
            let t = if many >= 65536 { used.len() as u16 } else if rng.chance(1, 3) { *rng.pick(&[256u16, 258, 270, 273, 282, 324, 325, 339, 33550, 34735, 42113]) } else { rng.u64() as u16 };
            if used.insert(t) {
                ifd.push(t, rand_entry(rng, max));
            }
        }
        m.ifds.push(ifd);
    }
    let k = rng.us(0, 3);
    for _ in 0..k {
        let n = rng.us(0, 50);
        let b = rng.bytes(n);
        m.blocks.push(b);
    }
    let built = m.build(rng);
    let cached = m.layout != Layout::Huge && rng.chance(1, 3);
    let mem = Mem::new(built.file.clone());
    async fn go<F: MetadataFetch>(f: &F, m: &Model, built: &Built, rng: &mut Rng, obs: &mut Obs) -> Case {
        for (i, ifd) in m.ifds.iter().enumerate() {
            let r = ImageFileDirectoryReader::open(f, built.ifd_offsets[i], m.big, m.en.rt())
                .await
                .map_err(|e| format!("open IFD: {e}"))?;
            let mut order: Vec<usize> = (0..ifd.entries.len()).collect();
            rng.shuffle(&mut order);
            for j in order {
                let e = &ifd.entries[j];
                let ctx = format!("{:?} big={} {:?} tag {} type {} count {}", m.en, m.big, m.layout, e.tag, e.v.ty(), e.v.count());
                let (tag, val) = r.read_tag(f, j as u64).await.map_err(|e| format!("{ctx}: {e}"))?;
                ensure!(tag.to_u16() == e.tag, "{ctx}: reported as tag {tag:?}");
                let want = e.v.expect(&built.block_offsets);
                ensure!(tv_eq(&val, &want), "{ctx}: got {val:?}, file encodes {want:?}");
                obs.hit("tag_values_compared");
                let inl = e.v.size() <= m.inline_cap();
                obs.hit(if inl { "inline_values" } else { "out_of_line_values" });
                if e.v.ty() == 2 { obs.hit("ascii_values"); }
                obs.state("type_x_count_x_order_x_big", mix(e.v.ty() as u64 ^ (e.v.count().min(12) << 8) ^ ((m.big as u64) << 20) ^ (((m.en == En::Be) as u64) << 21)));
                obs.sample(|| ctx.clone());
                obs.sign(&format!("{:?}{}{}{}", m.en, m.big, e.v.ty(), e.v.count()));
            }
            let next = r.finish(f).await.map_err(|e| format!("finish: {e}"))?;
            let want = built.ifd_offsets.get(i + 1).copied();
            ensure!(next == want, "next IFD offset {next:?}, file encodes {want:?}");
            obs.hit("next_pointers_compared");
        }
        Ok(())
    }
    block_on(async {
        if cached {
            go(&ReadaheadMetadataCache::new(mem).with_initial_size(64), &m, &built, rng, obs).await
        } else {
            go(&mem, &m, &built, rng, obs).await
        }
    })
}

pub fn c04(mut r: Runner) -> i32 {
    r.rule("case = one generated IFD set whose every entry is read back through ImageFileDirectoryReader::read_tag and compared with the generator's value (floats by bits); distinct by the sequence of (byte order, classic/Big, type, count) read");
    r.require(&["tag_values_compared", "inline_values", "out_of_line_values", "ascii_values", "next_pointers_compared", "ifds_of_hundreds_of_entries", "values_of_millions", "values_in_whole_files"]);
    r.assume("the value of an ASCII entry is the text before the first NUL, terminated or not, bytes that are not UTF-8 replaced");
    r.family("entries", 6000, 120000, |rng, obs, _| ifd_reader_case(rng, obs, 80, 0));
    r.family("long-values", 150, 3000, |rng, obs, _| ifd_reader_case(rng, obs, 3000, 0));
    r.family("huge-values", 3, 100, |rng, obs, _| ifd_reader_case(rng, obs, 150_000, 0));
    r.family("many-entries", 8, 200, |rng, obs, i| ifd_reader_case(rng, obs, 20, [300, 1000, 9000, 65536][i as usize % 4]));
    // more values than any sensible-looking limit on counts: the tile arrays of a large mosaic have millions
    r.family("million-values", 16, 64, |rng, obs, i| {
        let ty = TYPES[i as usize % TYPES.len()];
        let n = rng.us(1_048_577, 1_200_000);
        let mut m = rand_model(rng);
        let mut ifd = Ifd::default();
        ifd.push(rng.u64() as u16, if ty == 2 { V::Ascii(vec![b'a' + rng.below(26) as u8; n - 1].into_iter().chain([0]).collect()) } else { rand_vals(rng, ty, n) });
        m.ifds.push(ifd);
        let built = m.build(rng);
        let mem = Mem::new(built.file.clone());
        mem.ctl.quiet.store(true, Ordering::Relaxed);
        let e = &m.ifds[0].entries[0];
        let ctx = format!("{:?} big={} {:?} tag {} type {ty} count {n}", m.en, m.big, m.layout, e.tag);
        obs.sign(&ctx);
        obs.sample(|| ctx.clone());
        block_on(async {
            let r = ImageFileDirectoryReader::open(&mem, built.ifd_offsets[0], m.big, m.en.rt()).await.map_err(|e| format!("{ctx}: open IFD: {e}"))?;
            let (_, val) = r.read_tag(&mem, 0).await.map_err(|e| format!("{ctx}: {e}"))?;
            ensure!(tv_eq(&val, &e.v.expect(&built.block_offsets)), "{ctx}: other values than the file encodes");
            obs.hit("values_of_millions");
            Ok(())
        })
    });
    // the values as they arrive in the directory a caller gets
    r.family("whole-file", 1500, 30000, |rng, obs, i| {
        let entries = match i { 0..=5 => [400, 1500, 5000, 400, 1500, 20000][i as usize], _ => rng.us(1, 24) };
        let nifd = if i <= 5 { 1 } else { rng.us(1, 3) };
        let m = chain_model(rng, nifd, entries);
        let built = m.build(rng);
        let mem = Mem::new(built.file.clone());
        mem.ctl.quiet.store(true, Ordering::Relaxed);
        let ctx = format!("{:?} big={} {:?} {} entries", m.en, m.big, m.layout, m.ifds[0].entries.len());
        obs.sign(&format!("{ctx} {:?}", m.ifds.iter().map(|i| i.entries.iter().map(|e| (e.v.ty(), e.v.count())).collect::<Vec<_>>()).collect::<Vec<_>>()));
        obs.sample(|| ctx.clone());
        let tiff = block_on(crate::props::tiles::open(&mem, m.layout != Layout::Huge && rng.chance(1, 3))).map_err(|e| format!("{ctx}: {e}"))?;
        ensure!(tiff.ifds().len() == nifd, "{ctx}: {} IFDs, file has {nifd}", tiff.ifds().len());
        for (f, got) in m.ifds.iter().zip(tiff.ifds()) {
            for e in f.entries.iter().filter(|e| e.tag >= 40000) {
                let g = got.other_tags().get(&crate::enums::tag_of(e.tag));
                let want = e.v.expect(&built.block_offsets);
                ensure!(g.is_some_and(|g| tv_eq(g, &want)), "{ctx}: tag {} type {} count {}: got {g:?}, file encodes {want:?}", e.tag, e.v.ty(), e.v.count());
                obs.hit("values_in_whole_files");
            }
        }
        Ok(())
    });
    r.finish("exploration", json!({}))
}

// ------------------------------------------------------------------------------------------ C05

pub fn chain_model(rng: &mut Rng, n: usize, entries: usize) -> Model {
    let mut m = rand_model(rng);
    for i in 0..n {
        let mut ifd = Ifd::default();
        let h = 7 + rng.below(1000) as u32;
        basic_tags(rng, &mut ifd, 1000 + i as u32, h);
        let extra = if entries > 0 { rng.us(entries / 2, entries) } else { rng.us(0, 5) };
        for k in 0..extra {
            // every number from here on is either unknown or free of a type of its own, except these
            if matches!(40000 + k as u16, 42112 | 42113 | 50674) { continue; }
            ifd.push(40000 + k as u16, rand_entry(rng, 20));
        }
        sort_sometimes(rng, &mut ifd);
        m.ifds.push(ifd);
    }
    let k = rng.us(0, 2);
    for _ in 0..k {
        let b = rng.bytes(20);
        m.blocks.push(b);
    }
    m
}

fn chain_case(rng: &mut Rng, obs: &mut Obs, n: usize, cyclic: bool, entries: usize) -> Case {
    let mut m = chain_model(rng, n, entries);
    if cyclic {
        m.loop_to = Some(rng.us(0, n - 1));
    }
    let entries: usize = m.ifds.iter().map(|i| i.entries.len()).sum();
    let built = m.build(rng);
    let mem = Mem::new(built.file.clone());
    // far more requests than reading every IFD twice could need
    let elems: u64 = m.ifds.iter().flat_map(|i| &i.entries).map(|e| e.v.count()).sum();
    mem.ctl.budget.store(3 * (20 + 8 * entries as u64 + 3 * elems) * 4 + 1000, Ordering::Relaxed);
    mem.ctl.quiet.store(true, Ordering::Relaxed);
    let ctx = format!("{:?} big={} {:?} n={n} loop_to={:?}", m.en, m.big, m.layout, m.loop_to);
    obs.sign(&format!("{:?}{}{:?}{n}{:?}{:?}", m.en, m.big, m.layout, m.loop_to, &built.ifd_offsets[..n.min(12)]));
    obs.sample(|| ctx.clone());
    let check = |i: usize, ifd: &ImageFileDirectory| -> Case {
        let want = &m.ifds[i];
        ensure!(ifd.image_width() == 1000 + i as u32, "{ctx}: IFD #{i} is the one with width {}", ifd.image_width());
        for e in want.entries.iter().filter(|e| e.tag >= 40000) {
            let got = ifd.other_tags().get(&crate::enums::tag_of(e.tag));
            ensure!(got.is_some_and(|g| tv_eq(g, &e.v.expect(&built.block_offsets))), "{ctx}: IFD #{i} tag {} = {got:?}", e.tag);
        }
        Ok(())
    };
    block_on(async {
        let mut a = TiffMetadataReader::try_open(&mem).await.map_err(|e| format!("{ctx}: open: {e}"))?;
        ensure!(a.bigtiff() == m.big && a.endianness() == m.en.rt(), "{ctx}: header misread: big={} {:?}", a.bigtiff(), a.endianness());
        // incremental
        for i in 0..n {
            ensure!(a.has_next_ifd(), "{ctx}: no next IFD before #{i}");
            ensure!(a.next_ifd_offset() == Some(built.ifd_offsets[i]), "{ctx}: next_ifd_offset {:?} before #{i}, file says {}", a.next_ifd_offset(), built.ifd_offsets[i]);
            let ifd = a.read_next_ifd(&mem).await.map_err(|e| format!("{ctx}: IFD #{i}: {e}"))?;
            let ifd = ifd.ok_or(format!("{ctx}: IFD #{i} missing"))?;
            check(i, &ifd)?;
            obs.hit("ifds_read_incrementally");
        }
        if cyclic {
            let e = a.read_next_ifd(&mem).await;
            ensure!(!matches!(e, Ok(Some(_))), "{ctx}: an IFD is returned again after the chain loops: {:?}", e.map(|i| i.map(|i| i.image_width())));
            obs.hit("cycles_detected");
        } else {
            let before = mem.requests();
            for _ in 0..3 {
                ensure!(!a.has_next_ifd() && a.next_ifd_offset().is_none(), "{ctx}: next IFD after the end");
                let e = a.read_next_ifd(&mem).await.map_err(|e| format!("{ctx}: at end: {e}"))?;
                ensure!(e.is_none(), "{ctx}: IFD after the end");
            }
            ensure!(mem.requests() == before, "{ctx}: asking for an IFD after the last one reads from the source");
            obs.hit("ends_observed");
        }
        // all at once, possibly after reading a few one by one
        let mut b = TiffMetadataReader::try_open(&mem).await.map_err(|e| format!("{ctx}: open: {e}"))?;
        let skip = rng.us(0, n.min(3)).min(n);
        for i in 0..skip {
            let ifd = b.read_next_ifd(&mem).await.map_err(|e| format!("{ctx}: IFD #{i}: {e}"))?.ok_or("missing")?;
            check(i, &ifd)?;
        }
        let r = if rng.chance(1, 2) {
            b.read_all_ifds(&mem).await
        } else {
            b.read(&mem).await.map(|t| t.ifds().to_vec())
        };
        if cyclic {
            let r = r.map(|v| v.len());
            let ends = match &r { Ok(k) => *k == n - skip, Err(e) => !e.to_string().contains("budget") };
            ensure!(ends, "{ctx}: reading a looping chain gave {r:?} (must be an error or end at the cycle, without reading on for ever)");
        } else {
            let v = r.map_err(|e| format!("{ctx}: read_all: {e}"))?;
            ensure!(v.len() == n - skip, "{ctx}: {} IFDs after {skip}, file has {n}", v.len());
            for (i, ifd) in v.iter().enumerate() {
                check(i + skip, ifd)?;
                obs.hit("ifds_read_at_once");
            }
        }
        Ok(())
    })
}

pub fn c05(mut r: Runner) -> i32 {
    r.rule("case = one IFD chain (length, physical order, optional loop) walked incrementally and at once; distinct by (byte order, classic/Big, layout, length, loop target)");
    r.require(&["ifds_read_incrementally", "ifds_read_at_once", "cycles_detected", "ends_observed", "very_long_chains", "ifds_of_thousands_of_entries"]);
    r.family("chains", 3000, 50000, |rng, obs, _| {
        let n = rng.us(1, 12);
        chain_case(rng, obs, n, false, 0)
    });
    r.family("loops", 1500, 25000, |rng, obs, _| {
        let n = rng.us(1, 10);
        chain_case(rng, obs, n, true, 0)
    });
    let n = if r.thorough { 40 } else { 8 };
    r.family_n("very-long-chains", n, 1, |rng, obs, i| {
        let n = match i % 4 { 0 => rng.us(65530, 66000), 1 => rng.us(4090, 4100), 2 => rng.us(1000, 1100), _ => rng.us(2000, 12000) };
        obs.hit("very_long_chains");
        chain_case(rng, obs, n, rng.clone().chance(1, 3), 0)
    });
    r.family("long-chains", 40, 400, |rng, obs, i| {
        let n = rng.us(60, 700);
        chain_case(rng, obs, n, i % 3 == 0, 0)
    });
    r.family("many-entries", 6, 100, |rng, obs, i| {
        obs.hit("ifds_of_thousands_of_entries");
        chain_case(rng, obs, 3, i % 3 == 2, [500, 5000, 25000][i as usize % 3])
    });
    r.finish("exploration", json!({}))
}

// ------------------------------------------------------------------------------------------ C06

fn uint(rng: &mut Rng, v: u64, bits: u32) -> V {
    // any unsigned type that can hold the value
    let mut opts = vec![];
    if v < 256 { opts.push(0) }
    if v < 65536 { opts.push(1) }
    if v <= u32::MAX as u64 { opts.push(2) }
    if bits > 0 { opts.push(3) }
    match rng.pick(&opts) {
        0 => V::Byte(vec![v as u8]),
        1 => V::Short(vec![v as u16]),
        2 => V::Long(vec![v as u32]),
        _ => V::Long8(vec![v]),
    }
}
fn uints(rng: &mut Rng, v: &[u64], scalar_long_ok: bool) -> V {
    let max = v.iter().copied().max().unwrap_or(0);
    let mut opts = vec![];
    if max < 256 { opts.push(0) }
    if max < 65536 { opts.push(1) }
    if v.len() != 1 || scalar_long_ok {
        if max <= u32::MAX as u64 { opts.push(2) }
        opts.push(3);
    }
    match rng.pick(&opts) {
        0 => V::Byte(v.iter().map(|x| *x as u8).collect()),
        1 => V::Short(v.iter().map(|x| *x as u16).collect()),
        2 => V::Long(v.iter().map(|x| *x as u32).collect()),
        _ => V::Long8(v.to_vec()),
    }
}
fn text(rng: &mut Rng) -> (String, V) {
    let n = match rng.below(400) { 0 => rng.us(1000, 70000), 1..=10 => rng.us(30, 600), _ => rng.us(0, 30) };
    let s: String = (0..n).map(|_| rng.range(32, 126) as u8 as char).collect();
    let mut b = s.clone().into_bytes();
    b.push(0);
    (s, V::Ascii(b))
}
fn vec_u16(rng: &mut Rng, lo: usize, hi: usize) -> Vec<u64> {
    let n = rng.us(lo, hi);
    (0..n).map(|_| rng.edgy(16)).collect()
}

#[derive(Default, Debug, Clone)]
struct Want {
    e: BTreeMap<&'static str, String>,
}
macro_rules! w {
    ($w:expr, $k:literal, $v:expr) => {
        $w.e.insert($k, format!("{:?}", $v));
    };
}

fn observed(i: &ImageFileDirectory) -> BTreeMap<&'static str, String> {
    let mut w = Want::default();
    let fb = |v: Option<&[f64]>| v.map(|v| v.iter().map(|x| x.to_bits()).collect::<Vec<u64>>());
    w!(w, "new_subfile_type", i.new_subfile_type());
    w!(w, "image_width", i.image_width());
    w!(w, "image_height", i.image_height());
    w!(w, "bits_per_sample", i.bits_per_sample());
    w!(w, "compression", crate::enums::any_compression_code(i.compression()));
    w!(w, "photometric", crate::enums::photo_code(i.photometric_interpretation()));
    w!(w, "document_name", i.document_name());
    w!(w, "image_description", i.image_description());
    w!(w, "strip_offsets", i.strip_offsets());
    w!(w, "orientation", i.orientation());
    w!(w, "samples_per_pixel", i.samples_per_pixel());
    w!(w, "rows_per_strip", i.rows_per_strip());
    w!(w, "strip_byte_counts", i.strip_byte_counts());
    w!(w, "min_sample_value", i.min_sample_value());
    w!(w, "max_sample_value", i.max_sample_value());
    w!(w, "x_resolution", i.x_resolution().map(f64::to_bits));
    w!(w, "y_resolution", i.y_resolution().map(f64::to_bits));
    w!(w, "planar", crate::enums::planar_code(i.planar_configuration()));
    w!(w, "resolution_unit", i.resolution_unit().map(crate::enums::unit_code));
    w!(w, "software", i.software());
    w!(w, "date_time", i.date_time());
    w!(w, "artist", i.artist());
    w!(w, "host_computer", i.host_computer());
    w!(w, "predictor", i.predictor().map(crate::enums::predictor_code));
    w!(w, "colormap", i.colormap().map(|c| c.to_vec()));
    w!(w, "tile_width", i.tile_width());
    w!(w, "tile_height", i.tile_height());
    w!(w, "tile_offsets", i.tile_offsets());
    w!(w, "tile_byte_counts", i.tile_byte_counts());
    w!(w, "extra_samples", i.extra_samples().map(|v| v.iter().map(|e| crate::enums::extra_code(*e)).collect::<Vec<_>>()));
    w!(w, "sample_format", i.sample_format().iter().map(|e| crate::enums::format_code(*e)).collect::<Vec<_>>());
    w!(w, "jpeg_tables", i.jpeg_tables());
    w!(w, "copyright", i.copyright());
    w!(w, "model_pixel_scale", fb(i.model_pixel_scale()));
    w!(w, "model_tiepoint", fb(i.model_tiepoint()));
    w!(w, "model_transformation", fb(i.model_transformation()));
    w!(w, "gdal_nodata", i.gdal_nodata());
    w!(w, "gdal_metadata", i.gdal_metadata());
    w!(w, "lerc_parameters", i.lerc_parameters());
    w!(w, "geo_key_directory", i.geo_key_directory().is_some());
    w.e
}

/// A random IFD over the whole supported tag set, and what the accessors must report.
pub fn full_ifd(rng: &mut Rng) -> (Ifd, BTreeMap<&'static str, String>, Vec<u16>) {
    let mut f = Ifd::default();
    let mut w = Want::default();
    let mut other = vec![];
    let p = rng.range(1, 4); // density
    let on = |rng: &mut Rng| rng.chance(p, 4);
    macro_rules! opt_uint {
        ($k:literal, $tag:expr, $bits:expr) => {
            if on(rng) {
                let v = rng.edgy($bits);
                f.push($tag, uint(rng, v, 1));
                w!(w, $k, Some(v));
            } else {
                w!(w, $k, None::<u64>);
            }
        };
    }
    macro_rules! opt_text {
        ($k:literal, $tag:expr) => {
            if on(rng) {
                let (s, v) = text(rng);
                f.push($tag, v);
                w!(w, $k, Some(s));
            } else {
                w!(w, $k, None::<String>);
            }
        };
    }
    macro_rules! opt_vec16 {
        ($k:literal, $tag:expr, $lo:expr, $hi:expr) => {
            if on(rng) {
                let v = vec_u16(rng, $lo, $hi);
                f.push($tag, uints(rng, &v, false));
                w!(w, $k, Some(v));
            } else {
                w!(w, $k, None::<Vec<u64>>);
            }
        };
    }
    macro_rules! opt_vec64 {
        ($k:literal, $tag:expr) => {
            if on(rng) {
                let n = if rng.chance(1, 200) { *rng.pick(&[200, 1500, 70000]) } else { rng.us(1, 12) };
                let b = *rng.pick(&[8, 16, 32, 64]);
                let v: Vec<u64> = (0..n).map(|_| rng.edgy(b)).collect();
                f.push($tag, uints(rng, &v, true));
                w!(w, $k, Some(v));
            } else {
                w!(w, $k, None::<Vec<u64>>);
            }
        };
    }
    macro_rules! opt_f64 {
        ($k:literal, $tag:expr, $lo:expr, $hi:expr) => {
            if on(rng) {
                let n = rng.us($lo, $hi);
                let v: Vec<u64> = (0..n).map(|_| rng.u64()).collect();
                f.push($tag, V::Double(v.clone()));
                w!(w, $k, Some(v));
            } else {
                w!(w, $k, None::<Vec<u64>>);
            }
        };
    }
    macro_rules! opt_ratio {
        ($k:literal, $tag:expr) => {
            if on(rng) {
                let (a, b) = (rng.edgy(32) as u32, rng.edgy(32) as u32);
                f.push($tag, V::Rational(vec![(a, b)]));
                w!(w, $k, Some((a as f64 / b as f64).to_bits()));
            } else {
                w!(w, $k, None::<u64>);
            }
        };
    }
    opt_uint!("new_subfile_type", 254, 32);
    let v = rng.edgy(32);
    f.push(256, uint(rng, v, 1));
    w!(w, "image_width", v);
    let v = rng.edgy(32);
    f.push(257, uint(rng, v, 1));
    w!(w, "image_height", v);
    let spp = match rng.below(4) { 0 => 1, 1 => 3, _ => rng.range(1, 12) };
    f.push(277, uint(rng, spp, 1));
    w!(w, "samples_per_pixel", spp);
    let bps: Vec<u64> = (0..spp).map(|_| rng.edgy(16)).collect();
    f.push(258, uints(rng, &bps, false));
    w!(w, "bits_per_sample", bps);
    if on(rng) {
        let c = *rng.pick(&[1u64, 5, 7, 8, 0x80B2, 0xC350, 34887, 34925, 50001, 34712, 6, 2, 3, 4, 0x8005, 4711, 65535]);
        f.push(259, uint(rng, c, 1));
        w!(w, "compression", c);
    } else {
        w!(w, "compression", 1);
    }
    let c = *rng.pick(&[0u64, 1, 2, 3, 4, 5, 6, 8]);
    f.push(262, uint(rng, c, 1));
    w!(w, "photometric", c);
    opt_text!("document_name", 269);
    opt_text!("image_description", 270);
    opt_vec64!("strip_offsets", 273);
    opt_uint!("orientation", 274, 16);
    opt_uint!("rows_per_strip", 278, 32);
    opt_vec64!("strip_byte_counts", 279);
    opt_vec16!("min_sample_value", 280, 1, 5);
    opt_vec16!("max_sample_value", 281, 1, 5);
    opt_ratio!("x_resolution", 282);
    opt_ratio!("y_resolution", 283);
    if on(rng) {
        let v = rng.range(1, 2);
        f.push(284, uint(rng, v, 1));
        w!(w, "planar", v);
    } else {
        w!(w, "planar", 1);
    }
    if on(rng) {
        let v = rng.range(1, 3);
        f.push(296, uint(rng, v, 1));
        w!(w, "resolution_unit", Some(v));
    } else {
        w!(w, "resolution_unit", None::<u64>);
    }
    opt_text!("software", 305);
    opt_text!("date_time", 306);
    opt_text!("artist", 315);
    opt_text!("host_computer", 316);
    if on(rng) {
        let v = rng.range(1, 3);
        f.push(317, uint(rng, v, 1));
        w!(w, "predictor", Some(v));
    } else {
        w!(w, "predictor", None::<u64>);
    }
    opt_vec16!("colormap", 320, 2, 30);
    opt_uint!("tile_width", 322, 32);
    opt_uint!("tile_height", 323, 32);
    opt_vec64!("tile_offsets", 324);
    opt_vec64!("tile_byte_counts", 325);
    if on(rng) {
        let n = rng.us(1, 5);
        let v: Vec<u64> = (0..n).map(|_| rng.below(3)).collect();
        f.push(338, uints(rng, &v, false));
        w!(w, "extra_samples", Some(v));
    } else {
        w!(w, "extra_samples", None::<Vec<u64>>);
    }
    if on(rng) {
        let v: Vec<u64> = (0..spp).map(|_| rng.range(1, 6)).collect();
        f.push(339, uints(rng, &v, false));
        w!(w, "sample_format", v);
    } else {
        w!(w, "sample_format", vec![1; spp as usize]);
    }
    if on(rng) {
        let n = rng.us(1, 60);
        let v = rng.bytes(n);
        f.push(347, if rng.chance(1, 2) { V::Undef(v.clone()) } else { V::Byte(v.clone()) });
        w!(w, "jpeg_tables", Some(v));
    } else {
        w!(w, "jpeg_tables", None::<Vec<u8>>);
    }
    opt_text!("copyright", 33432);
    opt_f64!("model_pixel_scale", 33550, 1, 4);
    opt_f64!("model_tiepoint", 33922, 1, 12);
    opt_f64!("model_transformation", 34264, 1, 16);
    opt_text!("gdal_nodata", 42113);
    opt_text!("gdal_metadata", 42112);
    if on(rng) {
        let n = rng.us(1, 4);
        let v: Vec<u64> = (0..n).map(|_| rng.edgy(32)).collect();
        f.push(0xC5F2, uints(rng, &v, true));
        w!(w, "lerc_parameters", Some(v));
    } else {
        w!(w, "lerc_parameters", None::<Vec<u64>>);
    }
    w!(w, "geo_key_directory", false);
    // tags without a dedicated accessor, known and unknown
    let n = if rng.chance(1, 100) { rng.us(50, 1200) } else { rng.us(0, 6) };
    let mut used = std::collections::HashSet::new();
    for _ in 0..n {
        let t = match rng.below(3) {
            0 => *rng.pick(&[255u16, 263, 264, 265, 266, 271, 272, 288, 289, 290, 291, 340, 341]),
            1 => rng.range(50000, 65535) as u16,
            _ => rng.range(400, 33000) as u16,
        };
        if used.insert(t) && f.get(t).is_none() && ![0xC5F2, 33432].contains(&t) {
            f.push(t, rand_entry(rng, 30));
            other.push(t);
        }
    }
    (f, w.e, other)
}

fn check_ifd(i: &ImageFileDirectory, f: &Ifd, want: &BTreeMap<&'static str, String>, other: &[u16], ctx: &str) -> Case {
    let got = observed(i);
    for (k, v) in &got {
        ensure!(want.get(k) == Some(v), "{ctx}: accessor {k} reports {v}, tags say {:?}", want.get(k));
    }
    ensure!(i.other_tags().len() == other.len(), "{ctx}: other_tags has {:?}, expected tags {other:?}", i.other_tags().keys());
    for t in other {
        let g = i.other_tags().get(&crate::enums::tag_of(*t));
        let w = f.get(*t).unwrap().expect(&[]);
        ensure!(g.is_some_and(|g| tv_eq(g, &w)), "{ctx}: other tag {t} = {g:?}, file says {w:?}");
    }
    Ok(())
}

pub fn c06(mut r: Runner) -> i32 {
    r.rule("case = one random IFD over the whole supported tag set (each field's value stored in any type wide enough), read back through every accessor; or one IFD with a single out-of-range/mistyped/missing field; distinct by the set of tags and their types");
    r.require(&["ifds_compared_through_file", "ifds_compared_from_tags", "out_of_range_rejected", "missing_required_rejected", "spec_defaults_used", "codes_compared"]);
    r.assume("single SHORT-array fields (BitsPerSample, SampleFormat, ...) with one value are stored as BYTE or SHORT");
    let sig = |f: &Ifd| f.entries.iter().map(|e| format!("{}:{};", e.tag, e.v.ty())).collect::<String>();
    r.family("accessors", 6000, 100000, |rng, obs, _| {
        let (mut f, want, other) = full_ifd(rng);
        sort_sometimes(rng, &mut f);
        obs.sign(&sig(&f));
        if rng.chance(1, 2) {
            let tags: HashMap<Tag, TagValue> =
                f.entries.iter().map(|e| (crate::enums::tag_of(e.tag), e.v.expect(&[]))).collect();
            let en = if rng.chance(1, 2) { En::Le } else { En::Be };
            let i = ImageFileDirectory::from_tags(tags, en.rt()).map_err(|e| format!("from_tags: {e}"))?;
            obs.hit("ifds_compared_from_tags");
            check_ifd(&i, &f, &want, &other, "from_tags")
        } else {
            let mut m = rand_model(rng);
            m.ifds.push(f.clone());
            let built = m.build(rng);
            let mem = Mem::new(built.file);
            let cached = m.layout != Layout::Huge && rng.chance(1, 2);
            let t = block_on(open(&mem, cached))?;
            ensure!(t.ifds().len() == 1, "{} IFDs", t.ifds().len());
            obs.hit("ifds_compared_through_file");
            obs.sample(|| format!("{:?} big={} {:?}", m.en, m.big, want));
            check_ifd(&t.ifds()[0], &f, &want, &other, &format!("{:?} big={}", m.en, m.big))
        }
    });
    // tag numbers and enumeration codes carry the names TIFF gives them
    r.family_n("codes", 65536, 1, |_, obs, i| {
        use crate::enums::*;
        use async_tiff::tags::*;
        let n = i as u16;
        macro_rules! chk { ($t:ty, $of:ident) => {
            let got = <$t>::from_u16(n);
            match $of(n) {
                Some(w) => { ensure!(got == Some(w) && w.to_u16() == n, "{} code {n} is {got:?} (whose code is {:?}), TIFF says {w:?}", stringify!($t), w.to_u16()); obs.hit("codes_compared"); }
                None => ensure!(got.is_none_or(|g| g.to_u16() == n), "{} code {n} became {got:?}", stringify!($t)),
            }
        } }
        chk!(Tag, known_tag); chk!(Compression, known_compression); chk!(PhotometricInterpretation, photo_of); chk!(PlanarConfiguration, planar_of);
        chk!(Predictor, predictor_of); chk!(ResolutionUnit, unit_of); chk!(SampleFormat, known_format); chk!(ExtraSamples, extra_of); chk!(Type, type_of);
        ensure!(Tag::from_u16_exhaustive(n).to_u16() == n && Compression::from_u16_exhaustive(n).to_u16() == n && SampleFormat::from_u16_exhaustive(n).to_u16() == n, "code {n} does not survive the conversion");
        Ok(())
    });
    // a value that does not fit the field is an error, never a truncated number
    r.family("out-of-range", 3000, 30000, |rng, obs, _| {
        let (mut f, _, _) = full_ifd(rng);
        let u32s: &[u16] = &[254, 256, 257, 278, 322, 323, 0xC5F2];
        let u16s: &[u16] = &[259, 262, 274, 277, 284, 296, 317];
        let u16v: &[u16] = &[258, 280, 281, 320, 338, 339];
        let texts: &[u16] = &[269, 270, 305, 306, 315, 316, 33432, 42112, 42113];
        let (t, v) = match rng.below(5) {
            0 => (*rng.pick(u32s), V::Long8(vec![(1 << 32) + rng.edgy(31)])),
            1 => {
                let x = 65536 + rng.edgy(31);
                (*rng.pick(u16s), if rng.chance(1, 2) { V::Long(vec![x as u32]) } else { V::Long8(vec![x << rng.below(20)]) })
            }
            2 => {
                let n = rng.us(2, 5);
                let mut v: Vec<u32> = (0..n).map(|_| rng.below(3) as u32 + 1).collect();
                let k = rng.us(0, n - 1);
                v[k] = 65536 + rng.edgy(16) as u32;
                (*rng.pick(u16v), V::Long(v))
            }
            3 => (*rng.pick(texts), V::Short(vec![1, 2])),
            _ => (*rng.pick(&[324u16, 325, 273, 279]), if rng.chance(1, 2) { V::SLong(vec![-1, 5]) } else { V::Double(vec![rng.u64(); 2]) }),
        };
        f.set(t, v.clone());
        let tags: HashMap<Tag, TagValue> =
            f.entries.iter().map(|e| (crate::enums::tag_of(e.tag), e.v.expect(&[]))).collect();
        let res = ImageFileDirectory::from_tags(tags, En::Le.rt());
        ensure!(res.is_err(), "tag {t} = {v:?} does not fit its field but the IFD was accepted: {}", canon(&res.unwrap()));
        obs.hit("out_of_range_rejected");
        obs.sign(&format!("oor{t}:{v:?}"));
        Ok(())
    });
    r.family("missing", 400, 4000, |rng, obs, _| {
        let (mut f, mut want, other) = full_ifd(rng);
        let t = *rng.pick(&[256u16, 257, 262, 258, 277]);
        f.remove(t);
        if t == 277 {
            // one sample per pixel unless stated; the arrays sized by it follow
            w_set(&mut want, "samples_per_pixel", "1".into());
            if f.get(339).is_none() { w_set(&mut want, "sample_format", "[1]".into()); }
        }
        if t == 258 {
            let n: usize = want["samples_per_pixel"].parse().unwrap();
            w_set(&mut want, "bits_per_sample", format!("{:?}", vec![1; n]));
        }
        obs.sign(&format!("missing{t}{}", f.entries.len()));
        let tags: HashMap<Tag, TagValue> =
            f.entries.iter().map(|e| (crate::enums::tag_of(e.tag), e.v.expect(&[]))).collect();
        let res = ImageFileDirectory::from_tags(tags, En::Le.rt());
        match (t, res) {
            (258 | 277, Ok(i)) => {
                obs.hit("spec_defaults_used");
                check_ifd(&i, &f, &want, &other, &format!("without tag {t}"))
            }
            (_, Ok(i)) => Err(format!("IFD without required tag {t} accepted: {}", canon(&i))),
            (258 | 277, Err(_)) => {
                // TIFF 6.0 gives both a default of 1; refusing such a file outright is also safe
                obs.hit("spec_defaults_used");
                Ok(())
            }
            (_, Err(_)) => {
                obs.hit("missing_required_rejected");
                Ok(())
            }
        }
    });
    r.finish("exploration", json!({}))
}
fn w_set(w: &mut BTreeMap<&'static str, String>, k: &'static str, v: String) {
    w.insert(k, v);
}

// ------------------------------------------------------------------------------------------ C16

const GEO: [(u16, &str, char); 46] = [
    (1024, "model_type", 'u'), (1025, "raster_type", 'u'), (1026, "citation", 's'),
    (2048, "geographic_type", 'u'), (2049, "geog_citation", 's'), (2050, "geog_geodetic_datum", 'u'),
    (2051, "geog_prime_meridian", 'u'), (2052, "geog_linear_units", 'u'), (2053, "geog_linear_unit_size", 'd'),
    (2054, "geog_angular_units", 'u'), (2055, "geog_angular_unit_size", 'd'), (2056, "geog_ellipsoid", 'u'),
    (2057, "geog_semi_major_axis", 'd'), (2058, "geog_semi_minor_axis", 'd'), (2059, "geog_inv_flattening", 'd'),
    (2060, "geog_azimuth_units", 'u'), (2061, "geog_prime_meridian_long", 'd'),
    (3072, "projected_type", 'u'), (3073, "proj_citation", 's'), (3074, "projection", 'u'),
    (3075, "proj_coord_trans", 'u'), (3076, "proj_linear_units", 'u'), (3077, "proj_linear_unit_size", 'd'),
    (3078, "proj_std_parallel1", 'd'), (3079, "proj_std_parallel2", 'd'), (3080, "proj_nat_origin_long", 'd'),
    (3081, "proj_nat_origin_lat", 'd'), (3082, "proj_false_easting", 'd'), (3083, "proj_false_northing", 'd'),
    (3084, "proj_false_origin_long", 'd'), (3085, "proj_false_origin_lat", 'd'), (3086, "proj_false_origin_easting", 'd'),
    (3087, "proj_false_origin_northing", 'd'), (3088, "proj_center_long", 'd'), (3089, "proj_center_lat", 'd'),
    (3090, "proj_center_easting", 'd'), (3091, "proj_center_northing", 'd'), (3092, "proj_scale_at_nat_origin", 'd'),
    (3093, "proj_scale_at_center", 'd'), (3094, "proj_azimuth_angle", 'd'), (3095, "proj_straight_vert_pole_long", 'd'),
    (4096, "vertical", 'u'), (4097, "vertical_citation", 's'), (4098, "vertical_datum", 'u'), (4099, "vertical_units", 'u'),
    (0, "", '-'),
];

fn geo_observed(g: &async_tiff::geo::GeoKeyDirectory) -> BTreeMap<&'static str, String> {
    let mut w = Want::default();
    macro_rules! g { ($($k:ident)*) => { $( w.e.insert(stringify!($k), format!("{:?}", g.$k)); )* } }
    macro_rules! gd { ($($k:ident)*) => { $( w.e.insert(stringify!($k), format!("{:?}", g.$k.map(f64::to_bits))); )* } }
    g!(model_type raster_type citation geographic_type geog_citation geog_geodetic_datum geog_prime_meridian
       geog_linear_units geog_angular_units geog_ellipsoid geog_azimuth_units projected_type proj_citation projection
       proj_coord_trans proj_linear_units vertical vertical_citation vertical_datum vertical_units);
    gd!(geog_linear_unit_size geog_angular_unit_size geog_semi_major_axis geog_semi_minor_axis geog_inv_flattening
        geog_prime_meridian_long proj_linear_unit_size proj_std_parallel1 proj_std_parallel2 proj_nat_origin_long
        proj_nat_origin_lat proj_false_easting proj_false_northing proj_false_origin_long proj_false_origin_lat
        proj_false_origin_easting proj_false_origin_northing proj_center_long proj_center_lat proj_center_easting
        proj_center_northing proj_scale_at_nat_origin proj_scale_at_center proj_azimuth_angle proj_straight_vert_pole_long);
    w.e
}

pub fn c16(mut r: Runner) -> i32 {
    r.rule("case = one GeoKeyDirectory with random keys stored inline, in GeoAsciiParams and in GeoDoubleParams (random positions, unknown keys interleaved), every key compared with its field and every absent key with None; distinct by the set of keys");
    r.require(&["geo_short_keys", "geo_ascii_keys", "geo_double_keys", "geo_unknown_keys", "geo_absent_keys", "epsg_projected", "epsg_geographic", "epsg_none", "geo_large", "geo_text_with_bar", "geo_short_in_directory", "malformed_rejected"]);
    r.family("directories", 5000, 80000, |rng, obs, _| {
        let mut keys = vec![];
        let mut want: BTreeMap<&'static str, String> = BTreeMap::new();
        let mut ascii = String::new();
        let mut doubles: Vec<u64> = vec![];
        let p = rng.range(0, 6);
        let large = rng.chance(1, 150);
        if large {
            // parameters and directories of many thousands of entries
            ascii = (0..rng.us(1000, 60000)).map(|i| if i % 17 == 5 { '|' } else { 'x' }).collect();
            doubles = (0..rng.us(100, 40000)).map(|i| (i as f64).to_bits()).collect();
            for _ in 0..*rng.pick(&[0, 300, 5000, 16000]) { keys.extend([rng.range(33000, 65535) as u16, 0, 1, 77]); }
            obs.hit("geo_large");
        }
        let mut list: Vec<usize> = (0..45).collect();
        if rng.chance(1, 3) { rng.shuffle(&mut list); }
        let mut epsg = (None, None);
        let mut in_dir: Vec<u16> = vec![];
        for k in list {
            let (id, name, kind) = GEO[k];
            if !rng.chance(p, 6) {
                want.insert(name, "None".into());
                obs.hit("geo_absent_keys");
                continue;
            }
            if rng.chance(1, 8) {
                // a key this library does not know
                let unk = *rng.pick(&[2062u16, 3096, 5120, 1027, 4100, 32768, 1, 65535]);
                match rng.below(2) {
                    0 => keys.extend([unk, 0, 1, rng.u64() as u16]),
                    _ => {
                        // points outside the parameters; must be skipped, not followed
                        keys.extend([unk, *rng.pick(&[34736u16, 34737]), 9999, 9999])
                    }
                }
                obs.hit("geo_unknown_keys");
            }
            match kind {
                'u' => {
                    let v = rng.edgy(16) as u16;
                    if rng.chance(1, 12) {
                        // the value lies in the directory itself, behind the keys
                        keys.extend([id, 34735, 1, in_dir.len() as u16]);
                        in_dir.push(v);
                        obs.hit("geo_short_in_directory");
                    } else {
                        keys.extend([id, 0, 1, v]);
                    }
                    want.insert(name, format!("{:?}", Some(v)));
                    if id == 3072 { epsg.0 = Some(v) }
                    if id == 2048 { epsg.1 = Some(v) }
                    obs.hit("geo_short_keys");
                }
                's' => {
                    // junk before the value is never part of it
                    for _ in 0..rng.below(4) { ascii.push('#') }
                    let n = if rng.chance(1, 30) { rng.us(100, 700) } else { rng.us(0, 20) };
                    let terminated = rng.chance(3, 4);
                    let wide = rng.chance(1, 4);
                    let mut s: String = (0..n).map(|_| if wide { *rng.pick(&['a', '|', 'é', '日', ' ', '𝄞']) } else { *rng.pick(&['a', 'B', ' ', '7', '/', '=', '.']) }).collect();
                    // only the terminating '|' is not part of the text
                    if terminated && rng.chance(1, 8) { s.push('|'); obs.hit("geo_text_with_bar"); }
                    if !terminated { while s.ends_with('|') { s.pop(); } }
                    let off = ascii.len() as u16;
                    ascii.push_str(&s);
                    let mut cnt = s.len() as u16;
                    if terminated {
                        ascii.push('|');
                        cnt += 1;
                    }
                    keys.extend([id, 34737, cnt, off]);
                    want.insert(name, format!("{:?}", Some(s)));
                    obs.hit("geo_ascii_keys");
                }
                _ => {
                    for _ in 0..rng.below(3) { doubles.push(rng.u64()) }
                    let v = rng.u64();
                    keys.extend([id, 34736, 1, doubles.len() as u16]);
                    doubles.push(v);
                    want.insert(name, format!("{:?}", Some(v)));
                    obs.hit("geo_double_keys");
                }
            }
        }
        let nkeys = keys.len() / 4;
        for c in keys.chunks_mut(4) { if c[1] == 34735 { c[3] += 4 + 4 * nkeys as u16; } }
        let mut dir = vec![1u16, 1, rng.below(3) as u16, nkeys as u16];
        obs.sign(&format!("{:?}", keys.chunks(4).map(|c| (c[0], c[1])).collect::<Vec<_>>()));
        dir.extend(&keys);
        dir.extend(&in_dir);
        if rng.chance(1, 6) { dir.extend([9999, 0, 1, 7]); } // beyond the declared number of keys
        let mut m = rand_model(rng);
        let mut f = Ifd::default();
        basic_tags(rng, &mut f, 5, 5);
        f.push(34735, V::Short(dir));
        if !doubles.is_empty() { f.push(34736, V::Double(doubles)); }
        if !ascii.is_empty() || rng.chance(1, 2) {
            let mut a = ascii.into_bytes();
            a.push(0);
            f.push(34737, V::Ascii(a));
        } else if want.iter().any(|(_, v)| v == "Some(\"\")") {
            f.push(34737, V::Ascii(vec![0]));
        }
        sort_sometimes(rng, &mut f);
        m.ifds.push(f);
        let built = m.build(rng);
        let t = block_on(open(&Mem::new(built.file), false))?;
        let ifd = &t.ifds()[0];
        let g = ifd.geo_key_directory().ok_or("no geo key directory")?;
        for (k, v) in geo_observed(g) {
            let w = want.get(k).cloned().unwrap_or_else(|| "None".into());
            ensure!(v == w, "geo key {k}: reported {v}, file says {w}");
        }
        let e = epsg.0.or(epsg.1);
        ensure!(g.epsg_code() == e, "epsg_code {:?}, projected {:?} geographic {:?}", g.epsg_code(), epsg.0, epsg.1);
        obs.hit(if epsg.0.is_some() { "epsg_projected" } else if epsg.1.is_some() { "epsg_geographic" } else { "epsg_none" });
        obs.sample(|| format!("{want:?}"));
        Ok(())
    });
    r.family("malformed", 1500, 20000, |rng, obs, _| {
        // out-of-bounds references, missing parameter tags, short directories
        let mut f = Ifd::default();
        basic_tags(rng, &mut f, 5, 5);
        let (da, aa) = (rng.chance(1, 2), rng.chance(1, 2));
        let nd = rng.us(1, 4);
        let na = rng.us(1, 9);
        if da { f.push(34736, V::Double(vec![1; nd])); }
        if aa {
            let mut s = vec![b'x'; na];
            s.push(0);
            f.push(34737, V::Ascii(s));
        }
        let dir = match rng.below(5) {
            4 => { let o = rng.range(8, 20) as u16; vec![1, 1, 0, 1, 1024, 34735, 1, o] }
            0 => vec![1, 1, 0, 1, 2057, 34736, 1, if da { nd as u16 + rng.below(3) as u16 } else { 0 }],
            1 => {
                let off = rng.below(na as u64 + 3) as u16;
                let over = na as u16 + 1 - off.min(na as u16);
                vec![1, 1, 0, 1, 1026, 34737, if aa { over + rng.below(5) as u16 } else { 1 }, off]
            }
            2 => {
                let n = rng.range(1, 9) as u16;
                let k = rng.us(0, 4 * n as usize - 1);
                let mut v = vec![1, 1, 0, n];
                v.extend((0..k).map(|i| [1024u16, 0, 1, 1][i % 4]));
                v
            }
            _ => { let n = rng.us(2, 3); vec![1u16; n] }
        };
        f.push(34735, V::Short(dir.clone()));
        let mut m = rand_model(rng);
        m.ifds.push(f);
        let built = m.build(rng);
        let res = block_on(open(&Mem::new(built.file), false));
        ensure!(res.is_err(), "geo key directory {dir:?} (doubles: {da} {nd}, ascii: {aa} {na}) refers to data that does not exist but was accepted: {:?}", res.unwrap().ifds()[0].geo_key_directory());
        obs.hit("malformed_rejected");
        obs.sign(&format!("{dir:?}{da}{aa}"));
        Ok(())
    });
    r.finish("exploration", json!({}))
}

// ------------------------------------------------------------------------------------------ C20

pub fn c20(mut r: Runner) -> i32 {
    r.rule("case = one multi-IFD file with tile and/or strip offset arrays (zeros for sparse tiles included); distinct by (layout, byte order, classic/Big, offsets); nontrivial when header_byte_size was compared with the minimum over the generator's offsets");
    r.require(&["sizes_compared", "with_sparse_zero_offsets", "strip_only_ifds", "single_request_opens", "large_headers"]);
    r.family("min-offset", 4000, 60000, |rng, obs, _| {
        let big = rng.chance(1, 2);
        let n = if rng.chance(1, 40) { rng.us(6, 60) } else { rng.us(1, 5) };
        let mut ifds = vec![];
        let mut min = u64::MAX;
        for k in 0..n {
            let mut tags: HashMap<Tag, TagValue> = HashMap::new();
            let mut f = Ifd::default();
            basic_tags(rng, &mut f, 64, 64);
            let mut put = |rng: &mut Rng, t: u16, f: &mut Ifd| {
                let c = if rng.chance(1, 60) { *rng.pick(&[300, 1025, 5000, 70000]) } else { rng.us(1, 9) };
                let bits = *rng.pick(&[4u32, 12, 20, 31, 32, if big { 64 } else { 32 }]);
                let mut v: Vec<u64> = (0..c).map(|_| if rng.chance(1, 4) { 0 } else { rng.edgy(bits) }).collect();
                if k == 0 && v.iter().all(|x| *x == 0) { v[0] = 1 + rng.edgy(bits) / 2; }
                if v.contains(&0) { obs.hit("with_sparse_zero_offsets"); }
                for x in &v { if *x != 0 { min = min.min(*x) } }
                f.push(t, if bits > 32 { V::Long8(v) } else { V::Long(v.iter().map(|x| *x as u32).collect()) });
            };
            match rng.below(3) {
                0 => put(rng, 324, &mut f),
                1 => { put(rng, 273, &mut f); obs.hit("strip_only_ifds"); }
                _ => { put(rng, 324, &mut f); if rng.chance(1, 3) { put(rng, 273, &mut f) } }
            }
            for e in &f.entries { tags.insert(crate::enums::tag_of(e.tag), e.v.expect(&[])); }
            ifds.push(ImageFileDirectory::from_tags(tags, En::Le.rt()).map_err(|e| e.to_string())?);
        }
        let t = TIFF::new(ifds, En::Le.rt());
        let got = t.header_byte_size();
        ensure!(got == min, "header_byte_size {got}, smallest non-zero offset {min}");
        obs.hit("sizes_compared");
        obs.sign(&format!("{n}{min}"));
        Ok(())
    });
    r.family("cog-prefetch", 1500, 20000, |rng, obs, _| {
        let mut m = rand_model(rng);
        m.layout = Layout::Cog;
        let n = if rng.chance(1, 30) { rng.us(5, 40) } else { rng.us(1, 4) };
        for _ in 0..n { let s = rand_spec(rng); add_image(rng, &mut m, s); }
        if rng.chance(1, 20) {
            // metadata far larger than any default
            for i in 0..m.ifds.len() { for k in 0..rng.us(1, 4) { let v = V::Double((0..rng.us(100, 9000)).map(|_| rng.u64()).collect()); m.ifds[i].push(40000 + k as u16, v); } }
            obs.hit("large_headers");
        }
        let built = m.build(rng);
        let first = *built.block_offsets.iter().min().unwrap();
        let mem = Mem::new(built.file.clone());
        let t = block_on(open(&mem, false))?;
        let h = t.header_byte_size();
        ensure!(h == first, "header_byte_size {h}, first data block at {first}");
        ensure!(h >= built.meta_end, "metadata ends at {} beyond header size {h}", built.meta_end);
        obs.hit("sizes_compared");
        // a later open that prefetches exactly that many bytes needs one request
        let mem2 = Mem::new(built.file.clone());
        // ... and so does any larger one, or one of just the metadata
        let init = match rng.below(3) { 0 => h, 1 => built.meta_end, _ => h + rng.edgy(20) };
        let mut c = ReadaheadMetadataCache::new(mem2.clone()).with_initial_size(init);
        if rng.chance(1, 2) { c = c.with_multiplier(*rng.pick(&[1.0, 0.5, 3.0])); }
        let t2 = block_on(async {
            let mut mr = TiffMetadataReader::try_open(&c).await?;
            mr.read(&c).await
        }).map_err(|e| format!("cached open: {e}"))?;
        ensure!(canon_tiff(&t) == canon_tiff(&t2), "metadata differs when read through the prefetch cache");
        let log = mem2.take_log();
        ensure!(log == vec![Ev::Get(0..init)], "opening with a prefetch of {init} bytes (header_byte_size={h}, metadata ends {}) issued {log:?}", built.meta_end);
        obs.hit("single_request_opens");
        obs.sign(&format!("{:?}{}{n}{h}", m.en, m.big));
        obs.sample(|| format!("header {h} requests {log:?}"));
        Ok(())
    });
    r.finish("exploration", json!({}))
}

// ------------------------------------------------------------------------------------------ C22

pub fn c22(mut r: Runner) -> i32 {
    r.rule("case = one prefix length of one generated file (every length around structure boundaries, or all of them for small files) opened through a reader with one of three end-of-file behaviours, cached or not; distinct by (file, length, mode)");
    r.require(&["prefixes_opened", "prefixes_rejected", "prefixes_accepted_identical", "header_only_opens", "cut_tiles_rejected", "complete_tiles_identical"]);
    r.family("prefixes", 400, 6000, |rng, obs, idx| {
        let mut m = rand_model(rng);
        if m.layout == Layout::Huge { m.layout = Layout::Shuffled; }
        let n = rng.us(1, 3);
        for _ in 0..n {
            let mut s = rand_spec(rng);
            s.tw = s.tw.min(16).div_ceil(8) * 8;
            s.th = s.th.min(4);
            s.w = s.tw * 2;
            s.h = s.th;
            add_image(rng, &mut m, s);
            let i = m.ifds.len() - 1;
            for k in 0..rng.us(0, 3) {
                let v = rand_entry(rng, 20);
                m.ifds[i].push(40000 + k as u16, v);
            }
        }
        let built = m.build(rng);
        let all = built.file.to_vec();
        let full = block_on(open(&Mem::new(built.file.clone()), false))?;
        let want = canon_tiff(&full);
        let mut cuts: Vec<usize> = if all.len() < 400 { (0..=all.len()).collect() } else {
            let mut v: Vec<usize> = (0..20).collect();
            for (a, b) in &built.meta_ranges {
                for d in -3i64..=3 {
                    v.push((*a as i64 + d).clamp(0, all.len() as i64) as usize);
                    v.push((*b as i64 + d).clamp(0, all.len() as i64) as usize);
                }
            }
            for _ in 0..60 { v.push(rng.us(0, all.len())) }
            v
        };
        cuts.sort();
        cuts.dedup();
        for c in cuts {
            let eof = *rng.pick(&[Eof::Truncate, Eof::TruncateErr, Eof::Strict]);
            // the readahead cache asks for more than it needs, so it is used over readers that truncate
            let cached = eof == Eof::Truncate && rng.chance(1, 2);
            let mem = Mem::new(Sparse::dense(all[..c].to_vec())).with_eof(eof);
            mem.ctl.quiet.store(true, Ordering::Relaxed);
            mem.ctl.budget.store(2_000_000, Ordering::Relaxed);
            let res = block_on(open(&mem, cached));
            obs.hit("prefixes_opened");
            match res {
                Ok(t) => {
                    let got = canon_tiff(&t);
                    ensure!(got == want, "file cut to {c} of {} bytes ({:?}, metadata ends {}) opened with different metadata:\n got {got}\nwant {want}", all.len(), eof, built.meta_end);
                    obs.hit("prefixes_accepted_identical");
                }
                Err(e) => {
                    ensure!((c as u64) < built.meta_end, "file cut to {c} of {} bytes keeps all metadata (ends {}) but fails ({eof:?}, cached {cached}): {e}", all.len(), built.meta_end);
                    obs.hit("prefixes_rejected");
                }
            }
            if c as u64 == built.meta_end { obs.hit("header_only_opens"); }
            obs.state("file_x_prefix", mix(idx ^ mix(c as u64)));
        }
        obs.sign(&format!("{idx}"));
        obs.sample(|| format!("{} bytes, metadata ends {}", all.len(), built.meta_end));
        Ok(())
    });
    // tiles whose bytes are cut off, in every codec
    r.family("cut-tiles", 1500, 40000, |rng, obs, _| {
        let mut m = rand_model(rng);
        m.layout = *rng.pick(&[Layout::Cog, Layout::Shuffled]);
        let mut imgs = vec![];
        let max = *rng.pick(&[8, 16, 48]);
        for _ in 0..rng.us(1, 2) { imgs.push(crate::props::conc::any_image(rng, &mut m, max)?); }
        let built = m.build(rng);
        let all = built.file.to_vec();
        let reg = crate::props::conc::registry().0;
        let mem = Mem::new(Sparse::dense(all.clone()));
        let t = block_on(open(&mem, false))?;
        let im = rng.pick(&imgs);
        let ifd = &t.ifds()[im.ifd];
        let (nx, ny) = im.spec.grid();
        let bands = if im.spec.planar { im.spec.spp as usize } else { 1 };
        for _ in 0..6 {
            let (x, y) = (rng.us(0, nx - 1), rng.us(0, ny - 1));
            let ids: Vec<usize> = (0..bands).map(|b| im.blocks[b * nx * ny + y * nx + x]).collect();
            let want = block_on(ifd.fetch_tile(x, y, &mem)).map_err(|e| format!("fetch_tile: {e}"))?.decode(&reg).map_err(|e| format!("decode: {e}"))?;
            // cut somewhere inside one of the tile's blocks, mostly near an end
            let id = *rng.pick(&ids);
            let (o, n) = (built.block_offsets[id] as usize, m.blocks[id].len());
            let cut = o + match rng.below(5) { 0 => n.saturating_sub(rng.us(1, 12)), 1 => rng.us(0, 12.min(n)), 2 => n - n / 8 * rng.us(0, 8) / 8, _ => rng.us(0, n) };
            let eof = *rng.pick(&[Eof::Truncate, Eof::Truncate, Eof::TruncateErr, Eof::Strict]);
            let short = Mem::new(Sparse::dense(all[..cut].to_vec())).with_eof(eof);
            let whole = ids.iter().all(|i| built.block_offsets[*i] as usize + m.blocks[*i].len() <= cut);
            let ctx = format!("{:?} {} tile ({x},{y}) of a file cut at {cut}, the block cut is {o}..{} ({eof:?})", m.en, im.spec.describe(), o + n);
            obs.sign(&format!("{}{}{}", im.spec.sig(&m), (cut - o) * 16 / n.max(1), n - (cut - o).min(n) < 10));
            obs.sample(|| ctx.clone());
            let batch = rng.chance(1, 3);
            let got = block_on(async { if batch { ifd.fetch_tiles(&[(x, y)], &short).await.map(|mut v| v.pop().unwrap()) } else { ifd.fetch_tile(x, y, &short).await } });
            match got.map_err(|e| e.to_string()).and_then(|t| t.decode(&reg).map_err(|e| e.to_string())) {
                Err(e) => { ensure!(!whole, "{ctx}: the tile is complete but fails: {e}"); obs.hit("cut_tiles_rejected"); }
                Ok(a) => {
                    let (g, w): (&[u8], &[u8]) = (a.data().as_ref(), want.data().as_ref());
                    ensure!(a.shape() == want.shape() && g == w, "{ctx}: decoded to other pixels than the complete tile ({} bytes, first difference at {:?})", g.len(), g.iter().zip(w).position(|(a, b)| a != b));
                    obs.hit(if whole { "complete_tiles_identical" } else { "cut_tiles_identical" });
                }
            }
        }
        Ok(())
    });
    r.finish("exploration", json!({}))
}
