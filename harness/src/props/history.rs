//! C28 (headers) and C29 (results depend on the file alone, not on what was done before).
use crate::ensure;
use crate::image::*;
use crate::io::*;
use crate::props::conc::{any_image, digest, fresh, read_ifds, registry, truth, wiped, Answer};
use crate::props::meta::{canon, canon_tiff, rand_entry};
use crate::props::tiles::rand_model;
use crate::rng::{hash_bytes, mix, Rng};
use crate::run::*;
use crate::tiffmodel::*;
use async_tiff::decoder::{Decoder, DecoderRegistry};
use async_tiff::error::AsyncTiffResult;
use async_tiff::metadata::cache::ReadaheadMetadataCache;
use async_tiff::metadata::{ImageFileDirectoryReader, TiffMetadataReader};
use async_tiff::reader::AsyncFileReader;
use async_tiff::tags::{Compression, PhotometricInterpretation};
use async_tiff::{ImageFileDirectory, Tile, TIFF};
use bytes::Bytes;
use serde_json::json;
use std::collections::HashMap;
use std::ops::Range;
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::{Arc, Mutex};

// ------------------------------------------------------------------------------------------ C28

/// What a header says: byte order, BigTIFF, offset of the first IFD.
fn header(b: &[u8]) -> Option<(En, bool, u64)> {
    let en = match b.get(..2)? { b"II" => En::Le, b"MM" => En::Be, _ => return None };
    let num = |r: std::ops::Range<usize>| -> Option<u64> {
        let v = b.get(r)?;
        let f = |a: u64, x: &u8| a << 8 | *x as u64;
        Some(if en == En::Be { v.iter().fold(0, f) } else { v.iter().rev().fold(0, f) })
    };
    match num(2..4)? {
        42 => Some((en, false, num(4..8)?)),
        43 if num(4..6)? == 8 && num(6..8)? == 0 => Some((en, true, num(8..16)?)),
        _ => None,
    }
}
fn open_case(file: Vec<u8>, eof: Eof, cached: bool, obs: &mut Obs) -> Case {
    let want = header(&file);
    let head = &file[..file.len().min(16)];
    let ctx = format!("header {head:02x?}{}", if cached { " through a cache" } else { "" });
    obs.sample(|| ctx.clone());
    let mem = Mem::new(Sparse::dense(file.clone())).with_eof(eof);
    mem.ctl.quiet.store(true, Ordering::Relaxed);
    let got = if cached {
        block_on(TiffMetadataReader::try_open(&ReadaheadMetadataCache::new(mem).with_initial_size(4)))
    } else { block_on(TiffMetadataReader::try_open(&mem)) };
    match (got, want) {
        (Err(_), None) => obs.hit("headers_refused"),
        (Ok(r), None) => return Err(format!("{ctx}: opened as {:?}, BigTIFF {}, first IFD {:?}", r.endianness(), r.bigtiff(), r.next_ifd_offset())),
        (Err(e), Some(w)) => return Err(format!("{ctx}: a header of {w:?} is refused: {e}")),
        (Ok(r), Some((en, big, first))) => {
            ensure!(r.endianness() == en.rt() && r.bigtiff() == big, "{ctx}: opened as {:?}, BigTIFF {}", r.endianness(), r.bigtiff());
            ensure!(first == 0 || r.next_ifd_offset() == Some(first), "{ctx}: first IFD at {:?}, the header says {first}", r.next_ifd_offset());
            ensure!(first == 0 || r.has_next_ifd(), "{ctx}: no IFD to read");
            obs.hit(match (en, big) { (En::Le, false) => "little_classic", (En::Be, false) => "big_endian_classic", (En::Le, true) => "little_bigtiff", _ => "big_endian_bigtiff" });
        }
    }
    Ok(())
}
fn well_formed(en: En, big: bool, first: u64) -> Vec<u8> {
    let mut v = if en == En::Le { b"II".to_vec() } else { b"MM".to_vec() };
    v.extend(en.u16(if big { 43 } else { 42 }));
    if big { v.extend(en.u16(8)); v.extend(en.u16(0)); v.extend(en.u64(first)); } else { v.extend(en.u32(first as u32)); }
    v
}
const KINDS: [(En, bool); 4] = [(En::Le, false), (En::Be, false), (En::Le, true), (En::Be, true)];

pub fn c28(mut r: Runner) -> i32 {
    r.rule("case = 64 headers (every value of one 16-bit field, byte-order mark, version, offset size or reserved word, with the rest well formed), one header of random fields or cut short, or one file whose IFDs are read at both levels; distinct by header and by file");
    r.require(&["headers_refused", "little_classic", "big_endian_classic", "little_bigtiff", "big_endian_bigtiff", "fields_swept", "low_level_ifds_compared"]);
    // every value of each 16-bit field of each kind of header
    r.family("fields", 16384, 16384, |rng, obs, i| {
        let field = i as usize / 1024 % 4;
        let (en, big) = KINDS[i as usize / 4096 % 4];
        for k in 0..64 {
            let v = (i % 1024 * 64 + k) as u16;
            let mut h = well_formed(en, big, rng.range(1, u32::MAX as u64));
            h[field * 2..field * 2 + 2].copy_from_slice(&en.u16(v));
            h.extend(rng.bytes(8));
            open_case(h, Eof::Truncate, false, obs)?;
            obs.hit("fields_swept");
        }
        obs.sign(&format!("{i}"));
        Ok(())
    });
    r.family("headers", 60000, 1000000, |rng, obs, _| {
        let (en, big) = *rng.pick(&KINDS);
        let first = rng.edgy(if big { 64 } else { 32 });
        let mut h = well_formed(en, big, first);
        let n = rng.us(0, 8);
        h.extend(rng.bytes(n));
        for _ in 0..rng.below(3) {
            let p = rng.us(0, 7);
            h[p] = *rng.pick(&[0, 8, 42, 43, 0x49, 0x4D, 0xFF, rng.clone().u8()]);
        }
        if rng.chance(1, 4) { let n = rng.us(0, h.len()); h.truncate(n); }
        obs.sign(&format!("{h:?}"));
        // a cache asks for more than a strict source has
        let eof = *rng.pick(&[Eof::Truncate, Eof::Strict]);
        let cached = matches!(eof, Eof::Truncate) && rng.chance(1, 3);
        open_case(h, eof, cached, obs)
    });
    // the reader of single IFDs sees what the reader of files sees
    r.family("levels", 3000, 60000, |rng, obs, _| {
        let mut m = rand_model(rng);
        for i in 0..rng.us(1, 3) {
            let mut ifd = Ifd::default();
            basic_tags(rng, &mut ifd, 10 + i as u32, 7);
            for t in 0..rng.below(8) as u16 { let e = rand_entry(rng, 40); ifd.push(50900 + 7 * t, e); }
            sort_sometimes(rng, &mut ifd);
            m.ifds.push(ifd);
        }
        let built = m.build(rng);
        let mem = Mem::new(built.file.clone());
        mem.ctl.quiet.store(true, Ordering::Relaxed);
        let ctx = format!("{:?} big={} {:?} {} IFDs", m.en, m.big, m.layout, m.ifds.len());
        obs.sign(&format!("{ctx}{}", rng.clone().u64()));
        obs.sample(|| ctx.clone());
        block_on(async {
            let mut r = TiffMetadataReader::try_open(&mem).await.map_err(|e| format!("{ctx}: open: {e}"))?;
            ensure!(r.endianness() == m.en.rt() && r.bigtiff() == m.big, "{ctx}: opened as {:?}, BigTIFF {}", r.endianness(), r.bigtiff());
            let mut k = 0;
            while let Some(at) = r.next_ifd_offset() {
                ensure!(at == built.ifd_offsets[k], "{ctx}: IFD {k} said to be at {at}, it is at {}", built.ifd_offsets[k]);
                let low = ImageFileDirectoryReader::open(&mem, at, r.bigtiff(), r.endianness()).await.map_err(|e| format!("{ctx}: open IFD {k}: {e}"))?;
                let whole = low.read(&mem).await.map_err(|e| format!("{ctx}: IFD {k}: {e}"))?;
                let mut tags = HashMap::new();
                for j in 0..m.ifds[k].entries.len() as u64 {
                    let (t, v) = low.read_tag(&mem, j).await.map_err(|e| format!("{ctx}: entry {j} of IFD {k}: {e}"))?;
                    tags.insert(t, v);
                }
                let made = ImageFileDirectory::from_tags(tags, r.endianness()).map_err(|e| format!("{ctx}: from_tags: {e}"))?;
                let next = low.finish(&mem).await.map_err(|e| format!("{ctx}: finish: {e}"))?;
                let high = r.read_next_ifd(&mem).await.map_err(|e| format!("{ctx}: read_next_ifd: {e}"))?.ok_or(format!("{ctx}: no IFD {k}"))?;
                ensure!(canon(&whole) == canon(&high), "{ctx}: IFD {k}: ImageFileDirectoryReader::read and read_next_ifd differ");
                ensure!(canon(&made) == canon(&high), "{ctx}: IFD {k}: the directory made of read_tag's values and read_next_ifd's differ");
                ensure!(next == r.next_ifd_offset(), "{ctx}: IFD {k}: finish says {next:?}, the file reader {:?}", r.next_ifd_offset());
                obs.hit("low_level_ifds_compared");
                k += 1;
            }
            ensure!(k == m.ifds.len(), "{ctx}: {k} IFDs");
            Ok(())
        })
    });
    r.finish("exploration", json!({}))
}

// ------------------------------------------------------------------------------------------ C29

/// Another decoder for a built-in code: turns every bit round.
#[derive(Debug)]
struct Invert;
impl Decoder for Invert {
    fn decode_tile(&self, b: Bytes, _p: PhotometricInterpretation, _t: Option<&[u8]>, _s: u16, _b: u16, _l: Option<&[u32]>) -> AsyncTiffResult<Vec<u8>> {
        Ok(b.iter().map(|x| !x).collect())
    }
}

/// A source that reads into the same memory again once its buffers are no longer used.
#[derive(Clone, Debug)]
struct Pooled { data: Bytes, pool: Arc<Mutex<Vec<Vec<u8>>>>, reused: Arc<AtomicU64> }
struct Lent(Vec<u8>, Arc<Mutex<Vec<Vec<u8>>>>);
impl AsRef<[u8]> for Lent { fn as_ref(&self) -> &[u8] { &self.0 } }
impl Drop for Lent { fn drop(&mut self) { self.1.lock().unwrap().push(std::mem::take(&mut self.0)); } }
#[async_trait::async_trait]
impl AsyncFileReader for Pooled {
    async fn get_bytes(&self, r: Range<u64>) -> AsyncTiffResult<Bytes> {
        let n = self.data.len() as u64;
        let part = &self.data[r.start.min(n) as usize..r.end.min(n) as usize];
        let mut v = self.pool.lock().unwrap().pop().unwrap_or_default();
        if v.capacity() >= part.len() && !part.is_empty() { self.reused.fetch_add(1, Ordering::Relaxed); }
        v.clear();
        v.reserve(4096.max(part.len()));
        v.extend_from_slice(part);
        Ok(Bytes::from_owner(Lent(v, self.pool.clone())))
    }
}

struct Twin {
    model: Model,
    imgs: Vec<Img>,
    data: Vec<u8>,
    /// description and private tag of the first IFD
    text: String,
    private: V,
    damaged: bool,
    /// answers already given: (image, tile) -> answer
    seen: HashMap<(usize, usize), Answer>,
    meta: Option<String>,
}

pub fn print_canon(path: &str) {
    let mem = Mem::new(Sparse::dense(std::fs::read(path).expect("read")));
    match block_on(crate::props::tiles::open(&mem, false)) {
        Ok(t) => println!("OK {}", hash_bytes(canon_tiff(&t).as_bytes())),
        Err(e) => println!("ERR {e}"),
    }
}
/// The metadata as a process sees them that has done nothing else.
fn fresh_canon(file: &[u8]) -> Option<u64> {
    let p = std::env::temp_dir().join(format!("vmon-canon-{}-{}", std::process::id(), hash_bytes(file)));
    std::fs::write(&p, file).ok()?;
    let o = std::process::Command::new(std::env::current_exe().ok()?).arg("canon").arg(&p).output();
    let _ = std::fs::remove_file(&p);
    String::from_utf8_lossy(&o.ok()?.stdout).strip_prefix("OK ")?.trim().parse().ok()
}

/// Files alike in everything but some content: what takes one for another shows.
fn twins(rng: &mut Rng) -> Result<Vec<Twin>, String> {
    let shape = rng.fork();
    let mut base = rand_model(rng);
    if base.layout == Layout::Huge { base.layout = Layout::Cog; }
    let n = rng.us(2, 4);
    let nimg = rng.us(1, 2);
    let plain = rng.chance(1, 2);
    let max = 24;
    let specs: Vec<Spec> = (0..nimg).map(|_| { let mut s = rand_spec(rng); s.tw = s.tw.min(max); s.th = s.th.min(max); if s.dtype == async_tiff::DataType::Bool { s.tw = (s.tw / 8 * 8).max(8); } s.w = s.w.min(3 * s.tw); s.h = s.h.min(3 * s.th); if plain { s.comp = Compression::None; s.pred = None; } s }).collect();
    let any = rng.chance(1, 3);
    let mut out: Vec<Twin> = vec![];
    for k in 0..n {
        // a copy of the first one, damaged: everything has the same place and length
        let copy = k > 0 && rng.chance(1, 3);
        let mut m = base.clone();
        // the other byte order with the same layout
        if k == 1 && rng.chance(1, 3) { m.en = if m.en == En::Le { En::Be } else { En::Le }; }
        let mut imgs: Vec<Img> = vec![];
        if copy {
            let t: &Twin = &out[0];
            m = t.model.clone();
            imgs = t.imgs.clone();
        }
        for s in specs.iter().take(if copy { 0 } else { specs.len() }) {
            let img = if any { any_image(rng, &mut m, max as u64)? } else { let mut r2 = rng.fork(); add_image(&mut r2, &mut m, s.clone()) };
            imgs.push(img);
        }
        let text: String = (0..20).map(|_| (b'a' + rng.below(26) as u8) as char).collect();
        let private = V::Byte(rng.bytes(30));
        let d = &mut m.ifds[imgs[0].ifd];
        d.set(270, V::Ascii(format!("{text}\0").into_bytes()));
        d.set(65001, private.clone());
        let mut damaged = false;
        if copy || k > 0 && rng.chance(1, 3) {
            damaged = true;
            for i in 0..m.blocks.len() {
                let n = rng.us(0, 3);
                if n > 0 && wiped(&mut m, &imgs, i) { continue; }
                let b = &mut m.blocks[i];
                for _ in 0..n { if !b.is_empty() { let p = rng.us(0, b.len() - 1); b[p] ^= 1 << rng.below(8); } }
            }
        }
        let data = m.build(&mut shape.clone()).file.to_vec();
        out.push(Twin { model: m, imgs, data, text, private, damaged, seen: HashMap::new(), meta: None });
    }
    Ok(out)
}

fn judge(t: &mut Twin, im: usize, i: usize, got: Answer, ctx: &str, obs: &mut Obs) -> Case {
    if let Some(w) = t.seen.get(&(im, i)) {
        ensure!(*w == got, "{ctx}: decodes to {got:?}, earlier to {w:?}");
        obs.hit("repeated_answers_equal");
        return Ok(());
    }
    let img = &t.imgs[im];
    if t.damaged || got != Ok(truth(img, i)) {
        // not as encoded: damaged, or a fault of decoding, or left over from other work here
        let nx = img.spec.grid().0;
        if let Some(f) = fresh(&t.data, img.ifd, i % nx, i / nx) {
            ensure!(f == got, "{ctx}: decodes to {got:?}, in a process of its own to {f:?}");
            obs.hit("answers_of_fresh_processes");
        }
    } else {
        obs.hit("answers_as_encoded");
    }
    t.seen.insert((im, i), got);
    Ok(())
}

pub fn c29(mut r: Runner) -> i32 {
    r.rule("case = two to four files of the same layout and different content, worked on in turns by one caller (metadata with and without a cache, failing reads, single and batched fetches, decodes with two registries, decodes of damaged tiles), each answer compared with what was encoded, with earlier answers and with a fresh process; distinct by files and history");
    r.require(&["repeated_answers_equal", "answers_as_encoded", "answers_of_fresh_processes", "metadata_repeated_equal", "metadata_as_encoded", "other_registry_answers", "failed_reads_between", "clones_decoded", "buffers_reused"]);
    r.assume("damaged tiles of the native codecs (LERC, JPEG 2000, WebP) are wiped, not bit-flipped: their libraries answer from undefined memory for some");
    r.family("twins", 4000, 80000, |rng, obs, i| {
        let mut ts = twins(rng)?;
        let (reg, _) = registry();
        let mut inv = DecoderRegistry::default();
        inv.as_mut().insert(Compression::None, Box::new(Invert));
        let steps = rng.us(8, 30);
        let pool: Arc<Mutex<Vec<Vec<u8>>>> = Default::default();
        let reused: Arc<AtomicU64> = Default::default();
        let mut hist = String::new();
        obs.sign(&format!("{}{steps}", ts.iter().fold(0, |h, t| mix(h ^ hash_bytes(&t.data)))));
        let mut held: Vec<(usize, usize, usize, Tile)> = vec![];
        let mut tiffs: Vec<Option<TIFF>> = ts.iter().map(|_| None).collect();
        for _ in 0..steps {
            let k = rng.us(0, ts.len() - 1);
            let op = rng.below(8);
            hist.push_str(&format!("{k}:{op} "));
            let ctx = format!("{:?} {} after {hist}", ts[k].model.en, ts[k].imgs[0].spec.describe());
            // a source of its own, often where the previous one was in memory
            let mem = Pooled { data: ts[k].data.clone().into(), pool: pool.clone(), reused: reused.clone() };
            if tiffs[k].is_none() || op < 2 {
                let cached = op == 1;
                let t = block_on(crate::props::tiles::open(&mem, cached)).map_err(|e| format!("{ctx}: {e}"))?;
                let c = canon_tiff(&t);
                let d = &t.ifds()[ts[k].imgs[0].ifd];
                let as_encoded = d.image_description() == Some(&ts[k].text) && d.other_tags().get(&crate::enums::tag_of(65001)).is_some_and(|v| tv_eq(v, &ts[k].private.expect(&[])));
                match &ts[k].meta {
                    Some(w) => { ensure!(*w == c, "{ctx}: metadata differ from those read earlier"); obs.hit("metadata_repeated_equal") }
                    None => {
                        if !as_encoded || (i + k as u64) % 150 == 0 {
                            if let Some(f) = fresh_canon(&ts[k].data) { ensure!(f == hash_bytes(c.as_bytes()), "{ctx}: metadata differ from those a fresh process reads"); obs.hit("metadata_of_fresh_processes"); }
                        }
                        if as_encoded { obs.hit("metadata_as_encoded"); }
                        ts[k].meta = Some(c);
                    }
                }
                // the clone is as good as the original
                tiffs[k] = Some(if rng.chance(1, 2) { t.clone() } else { t });
            }
            if op == 2 {
                // a read that fails on the way
                let bad = Mem::new(Sparse::dense(ts[k].data.clone()));
                bad.fail_at(rng.below(40));
                if block_on(read_ifds(&bad)).is_err() { obs.hit("failed_reads_between"); }
                continue;
            }
            let im = rng.us(0, ts[k].imgs.len() - 1);
            let img = &ts[k].imgs[im];
            let (nx, ny) = img.spec.grid();
            let ifd = &tiffs[k].as_ref().unwrap().ifds()[img.ifd];
            match op {
                3 | 4 => {
                    let xy: Vec<(usize, usize)> = (0..rng.us(1, 4)).map(|_| (rng.us(0, nx - 1), rng.us(0, ny - 1))).collect();
                    let tiles = block_on(ifd.fetch_tiles(&xy, &mem)).map_err(|e| format!("{ctx}: {e}"))?;
                    for (t, (x, y)) in tiles.into_iter().zip(xy) {
                        if rng.chance(1, 3) { held.push((k, im, y * nx + x, t.clone())); }
                        judge(&mut ts[k], im, y * nx + x, digest(t, &reg), &format!("{ctx}: tile ({x},{y}) of a batch"), obs)?;
                    }
                }
                5 if img.spec.comp == Compression::None && img.spec.pred.is_none() && !ts[k].damaged && ts[k].model.ifds[img.ifd].get(259).is_none_or(|v| matches!(v, V::Short(c) if c == &[1]) || matches!(v, V::Long(c) if c == &[1])) => {
                    let (x, y) = (rng.us(0, nx - 1), rng.us(0, ny - 1));
                    let t = block_on(ifd.fetch_tile(x, y, &mem)).map_err(|e| format!("{ctx}: {e}"))?;
                    let a = t.clone().decode(&inv).map_err(|e| format!("{ctx}: {e}"))?;
                    let size = bits(img.spec.dtype);
                    let mask = if size == 64 { u64::MAX } else { (1 << size) - 1 };
                    let want: Vec<u64> = img.tiles[y * nx + x].iter().map(|v| !v & mask).collect();
                    check_array(&a, img.spec.shape(), img.spec.dtype, &native(&want, img.spec.dtype), &format!("{ctx}: another registry"))?;
                    obs.hit("other_registry_answers");
                    judge(&mut ts[k], im, y * nx + x, digest(t, &reg), &format!("{ctx}: tile ({x},{y}) after another registry"), obs)?;
                }
                6 if !held.is_empty() => {
                    // tiles fetched long ago, decoded again, in any order
                    let h = rng.us(0, held.len() - 1);
                    let (k, im, i, t) = held[h].clone();
                    judge(&mut ts[k], im, i, digest(t, &reg), &format!("{ctx}: a tile kept from before"), obs)?;
                    obs.hit("clones_decoded");
                }
                _ => {
                    let (x, y) = (rng.us(0, nx - 1), rng.us(0, ny - 1));
                    let t = block_on(ifd.fetch_tile(x, y, &mem)).map_err(|e| format!("{ctx}: {e}"))?;
                    if rng.chance(1, 4) { held.push((k, im, y * nx + x, t.clone())); }
                    judge(&mut ts[k], im, y * nx + x, digest(t, &reg), &format!("{ctx}: tile ({x},{y})"), obs)?;
                }
            }
        }
        obs.add("buffers_reused", reused.load(Ordering::Relaxed));
        obs.sample(|| format!("{} files, history {hist}", ts.len()));
        Ok(())
    });
    r.finish("exploration", json!({}))
}
