//! C03: codec fidelity and dispatch. C23: the contract with user-supplied decoders.
use crate::codecs::{self, Jpeg, JpegComp};
use crate::ensure;
use crate::image::*;
use crate::io::*;
use crate::props::tiles::{open, rand_model};
use crate::rng::{hash_bytes, Rng};
use crate::run::*;
use crate::tiffmodel::*;
use async_tiff::decoder::{Decoder, DecoderRegistry};
use async_tiff::error::{AsyncTiffError, AsyncTiffResult};
use async_tiff::tags::{Compression, PhotometricInterpretation, Predictor};
use async_tiff::{Array, DataType};
use bytes::Bytes;
use serde_json::json;
use std::sync::{Arc, Mutex};

fn decode_all(rng: &mut Rng, m: &Model, img: &Img, reg: &DecoderRegistry) -> Result<Vec<Result<Array, String>>, String> {
    let built = m.build(rng);
    let mem = Mem::new(built.file);
    block_on(async {
        let t = open(&mem, false).await?;
        let ifd = &t.ifds()[img.ifd];
        let (nx, ny) = img.spec.grid();
        let mut out = vec![];
        for y in 0..ny {
            for x in 0..nx {
                let tile = ifd.fetch_tile(x, y, &mem).await.map_err(|e| format!("fetch_tile: {e}"))?;
                out.push(tile.decode(reg).map_err(|e| e.to_string()));
            }
        }
        Ok(out)
    })
}

fn exact(rng: &mut Rng, obs: &mut Obs, m: &Model, img: &Img, key: &'static str, extra: &str) -> Case {
    let ctx = format!("{:?} {} {extra}", m.en, img.spec.describe());
    obs.sign(&format!("{}{extra}", img.spec.sig(m)));
    obs.sample(|| ctx.clone());
    for (i, a) in decode_all(rng, m, img, &DecoderRegistry::default())?.into_iter().enumerate() {
        let a = a.map_err(|e| format!("{ctx}: tile {i}: decode failed: {e}"))?;
        check_array(&a, img.spec.shape(), img.spec.dtype, &native(&img.tiles[i], img.spec.dtype), &ctx)?;
        obs.hit(key);
    }
    Ok(())
}

/// Contents with the statistics that drive dictionary coders through their states.
fn content(rng: &mut Rng, max: usize) -> Vec<u8> {
    let n = match rng.below(6) {
        0 => rng.us(0, 4),
        1 => rng.us(0, 300),
        _ => { let k = rng.us(0, 12); rng.us(0, (max >> k).max(1)) }
    };
    match rng.below(6) {
        0 => vec![rng.u8(); n],
        1 => rng.bytes(n),
        2 => { let k = rng.us(1, 20); let p = rng.bytes(k); (0..n).map(|i| p[i % k]).collect() }
        3 => { let k = rng.range(2, 6); (0..n).map(|_| rng.below(k) as u8).collect() }
        4 => { // self-similar with far matches
            let mut v = rng.bytes(n.min(64));
            while v.len() < n {
                let s = rng.us(0, v.len().max(1) - 1);
                let l = rng.us(1, 200).min(n - v.len()).min(v.len() - s);
                if l == 0 { v.push(rng.u8()); continue; }
                let c = v[s..s + l].to_vec();
                v.extend(c);
            }
            v
        }
        _ => { let st = rng.u8(); (0..n).map(|i| (i as u8).wrapping_mul(st)).collect() }
    }
}

fn call(reg: &DecoderRegistry, c: Compression, b: Vec<u8>) -> AsyncTiffResult<Vec<u8>> {
    reg.as_ref().get(&c).ok_or_else(|| AsyncTiffError::General(format!("no decoder registered for {c:?}")))?
        .decode_tile(Bytes::from(b), PhotometricInterpretation::BlackIsZero, None, 1, 8, None)
}

pub fn lerc_blob(s: &Spec, v: &[u64], w: usize, h: usize, depth: usize) -> Result<Vec<u8>, String> {
    macro_rules! go { ($t:ty, $f:expr) => {{
        let d: Vec<$t> = v.iter().map($f).collect();
        lerc::encode(&d, None, w, h, depth, 1, 0, 0.0).map_err(|e| format!("HARNESS: lerc encode: {e}"))
    }}; }
    match s.dtype {
        DataType::Int8 => go!(i8, |x| *x as i8),
        DataType::UInt8 => go!(u8, |x| *x as u8),
        DataType::Int16 => go!(i16, |x| *x as i16),
        DataType::UInt16 => go!(u16, |x| *x as u16),
        DataType::Int32 => go!(i32, |x| *x as i32),
        DataType::UInt32 => go!(u32, |x| *x as u32),
        DataType::Float32 => go!(f32, |x| f32::from_bits(*x as u32)),
        DataType::Float64 => go!(f64, |x| f64::from_bits(*x)),
        _ => unreachable!(),
    }
}

pub fn small_spec(rng: &mut Rng, dtype: DataType, comp: Compression, spp: u16, planar: bool, max: u64) -> Spec {
    let (tw, th) = (rng.range(1, max) as u32, rng.range(1, max) as u32);
    let w = rng.range(1, 2 * tw as u64) as u32;
    let h = rng.range(1, 2 * th as u64) as u32;
    Spec { w, h, tw, th, spp, planar, dtype, comp, pred: None }
}

pub fn c03(mut r: Runner) -> i32 {
    r.rule("case = one encoded buffer or tiled image for a codec; distinct by codec configuration and content; decoded output compared byte for byte (JPEG: against the exact DC-only reconstruction, colour-converted streams within 2 levels)");
    r.require(&["streams_compared", "lerc_tiles", "jpeg_grey", "jpeg_ycbcr", "jpeg_rgb", "jpeg_three_bands", "jpeg_misleading_markers", "jpeg_abbreviated", "webp_tiles", "webp_opaque", "j2k_8", "j2k_16", "unsupported_rejected", "lerc_deflate", "lerc_zstd", "lerc_planar", "zstd_multi_frame", "lzw_long", "jpeg_planar", "big_streams", "jpeg_redundant_tables", "jpeg_large", "webp_large", "j2k_large", "lerc_large", "blank_streams", "codes_swept"]);
    r.assume("the reference encoders (flate2, weezl, libzstd, lzma-rust2, liblerc, libwebp, openjpeg, the harness's DC-only JPEG writer) are correct");
    r.assume("big-endian files do not combine with multi-byte LERC or JPEG 2000 samples (codec output byte order is not defined by the TIFF byte order)");
    r.family("streams", 6000, 60000, |rng, obs, _| {
        let reg = DecoderRegistry::default();
        let d = content(rng, 60000);
        let c = *rng.pick(&LOSSLESS);
        let enc = match c {
            Compression::ZSTD if rng.chance(1, 3) => {
                let mut o = vec![];
                let mut rest = &d[..];
                let n = rng.us(1, 5);
                for k in 0..n {
                    let cut = if k + 1 == n { rest.len() } else { rng.us(0, rest.len()) };
                    let l = rng.range(1, 15) as i32;
                    o.extend(codecs::zstd(&rest[..cut], l));
                    rest = &rest[cut..];
                }
                obs.hit("zstd_multi_frame");
                o
            }
            _ => compress(rng, c, &d),
        };
        if c == Compression::LZW && d.len() > 6000 { obs.hit("lzw_long"); }
        let ctx = format!("{c:?} stream of {} bytes encoding {} bytes", enc.len(), d.len());
        obs.sign(&format!("{c:?}{}", hash_bytes(&enc)));
        obs.sample(|| ctx.clone());
        let got = call(&reg, c, enc).map_err(|e| format!("{ctx}: {e}"))?;
        ensure!(got == d, "{ctx}: decoded {} bytes, first difference at {:?}", got.len(), got.iter().zip(&d).position(|(a, b)| a != b));
        obs.hit("streams_compared");
        Ok(())
    });
    // long outputs: more than any internal buffer, window or limit of 16, 32 or 64 MiB
    r.family("big-streams", 14, 84, |rng, obs, i| {
        let c = LOSSLESS[i as usize % LOSSLESS.len()];
        let n = if i < LOSSLESS.len() as u64 { rng.us(65 << 20, 68 << 20) } else if i < 2 * LOSSLESS.len() as u64 { rng.us(33 << 20, 36 << 20) } else { rng.us(1 << 20, 20 << 20) };
        let k = rng.us(1, 5000);
        let p = rng.bytes(k);
        let mut d: Vec<u8> = Vec::with_capacity(n);
        let mut j = 0u64;
        while d.len() < n { d.extend(&p[..k.min(n - d.len())]); d.extend(&j.to_le_bytes()[..8.min(n - d.len())]); j += 1; }
        let enc = match c {
            Compression::ZSTD => { let w = Some(rng.range(25, 27) as u32); codecs::zstd_opts(&d, 1, rng.chance(1, 2), i >= LOSSLESS.len() as u64 && rng.chance(1, 2), w, &[]) }
            Compression::Deflate | Compression::OldDeflate => codecs::deflate(&d, 1),
            Compression::LZMA => codecs::lzma(&d, rng.u8(), None, if rng.chance(1, 2) { Some(rng.range(1 << 20, 5 << 20)) } else { None }),
            _ => compress(rng, c, &d),
        };
        let ctx = format!("{c:?} stream of {} bytes encoding {} bytes", enc.len(), d.len());
        obs.sign(&format!("{c:?}{}", hash_bytes(&enc)));
        obs.sample(|| ctx.clone());
        let got = call(&DecoderRegistry::default(), c, enc).map_err(|e| format!("{ctx}: {e}"))?;
        ensure!(got == d, "{ctx}: decoded {} bytes, first difference at {:?}", got.len(), got.iter().zip(&d).position(|(a, b)| a != b));
        obs.hit("big_streams");
        Ok(())
    });
    // blank images: the highest ratios that the formats reach
    r.family("blank-streams", 42, 420, |rng, obs, i| {
        let c = LOSSLESS[i as usize % LOSSLESS.len()];
        let n = rng.us(1 << 20, if i < 14 { 24 << 20 } else { 6 << 20 });
        let v = if rng.chance(1, 2) { 0 } else { rng.u8() };
        let d = vec![v; n];
        let enc = match c {
            Compression::ZSTD => { let l = rng.range(1, 19) as i32; codecs::zstd_opts(&d, if n > 6 << 20 { 3 } else { l }, rng.chance(1, 2), rng.chance(1, 2), None, &[]) }
            Compression::Deflate | Compression::OldDeflate => { let l = rng.range(1, 9) as u32; codecs::deflate(&d, l) }
            Compression::LZMA => codecs::lzma(&d, rng.u8(), None, None),
            _ => compress(rng, c, &d),
        };
        let ctx = format!("{c:?} stream of {} bytes encoding {n} times {v}", enc.len());
        obs.sign(&ctx);
        obs.sample(|| ctx.clone());
        let got = call(&DecoderRegistry::default(), c, enc).map_err(|e| format!("{ctx}: {e}"))?;
        ensure!(got == d, "{ctx}: decoded {} bytes, first difference at {:?}", got.len(), got.iter().zip(&d).position(|(a, b)| a != b));
        obs.hit("blank_streams");
        Ok(())
    });
    r.family("lerc", 1500, 20000, |rng, obs, _| {
        let dtype = *rng.pick(&[DataType::Int8, DataType::UInt8, DataType::Int16, DataType::UInt16, DataType::Int32, DataType::UInt32, DataType::Float32, DataType::Float64]);
        let mut m = rand_model(rng);
        if bits(dtype) > 8 { m.en = if cfg!(target_endian = "little") { En::Le } else { En::Be }; }
        let spp = rng.range(1, 4) as u16;
        let planar = rng.chance(1, 3);
        let large = rng.chance(1, 40);
        let s = small_spec(rng, dtype, Compression::LERC, spp, planar, if large { 400 } else { 40 });
        if large { obs.hit("lerc_large"); }
        let (nx, ny) = s.grid();
        let mut tiles = vec![];
        for _ in 0..nx * ny {
            let mut v = rand_samples(rng, &s);
            if is_float(dtype) { // LERC treats NaN as invalid; use finite values
                let k = rng.range(1, 1000) as f64;
                v = v.iter().map(|x| { let f = (*x as i32 as f64) / k; if dtype == DataType::Float32 { (f as f32).to_bits() as u64 } else { f.to_bits() } }).collect();
            }
            tiles.push(v);
        }
        let inner = rng.below(3) as u32;
        let per = (s.tw * s.th) as usize;
        let wrap = |b: Vec<u8>| match inner { 1 => codecs::deflate(&b, 6), 2 => codecs::zstd(&b, 3), _ => b };
        let mut enc = vec![];
        if planar {
            for b in 0..spp as usize { for t in &tiles { enc.push(wrap(lerc_blob(&s, &t[b * per..(b + 1) * per], s.tw as usize, s.th as usize, 1)?)); } }
            obs.hit("lerc_planar");
        } else {
            for t in &tiles { enc.push(wrap(lerc_blob(&s, t, s.tw as usize, s.th as usize, spp as usize)?)); }
        }
        // without the tag the blob is stored as it is
        let set: Vec<(u16, V)> = if inner == 0 && rng.chance(1, 2) { vec![] } else { vec![(50674, V::Long(vec![4, inner]))] };
        match inner { 1 => obs.hit("lerc_deflate"), 2 => obs.hit("lerc_zstd"), _ => {} }
        let img = add_encoded(rng, &mut m, s, tiles, enc, &set);
        exact(rng, obs, &m, &img, "lerc_tiles", &format!("inner {inner}"))
    });
    r.family("jpeg", 1500, 20000, |rng, obs, _| {
        let mut m = rand_model(rng);
        let kind = rng.below(4); // 0 grey, 1 ycbcr, 2 rgb, 3 three components that are not colours
        let (ids, app) = (rng.below(3) as u8, rng.below(5) as u8);
        let planar = kind == 0 && rng.chance(1, 3);
        let spp = match kind { 0 => if planar { rng.range(1, 4) as u16 } else { 1 }, _ => 3 };
        let large = rng.chance(1, 20);
        let mut s = small_spec(rng, DataType::UInt8, Compression::ModernJPEG, spp, planar, if large { 700 } else { 70 });
        if large { obs.hit("jpeg_large"); }
        s.w = rng.range(1, s.tw as u64) as u32;
        s.h = rng.range(1, 2 * s.th as u64) as u32;
        let (nx, ny) = s.grid();
        let (hs, vs) = if kind == 1 { *rng.pick(&[(1, 1), (2, 1), (2, 2), (1, 2)]) } else { (1, 1) };
        let abbreviated = rng.chance(1, 2);
        let var0 = rng.u8();
        let restart = rng.chance(1, 3);
        let ncomp = if kind == 0 { 1 } else { 3 };
        let n = if planar { nx * ny * spp as usize } else { nx * ny };
        let mut jpegs = vec![];
        for _ in 0..n {
            let (mx, my) = Jpeg::mcus(s.tw as usize, s.th as usize, hs, vs);
            let comps = (0..ncomp).map(|c| {
                let (ch, cv) = if c == 0 { (hs, vs) } else { (1, 1) };
                let bw = mx * ch;
                // with subsampled chroma keep each tile's chroma constant: upsampling is then exact
                let flat = c > 0 && (hs, vs) != (1, 1);
                let f = rng.u8();
                let blocks = (0..bw * my * cv).map(|_| if flat { f } else { rng.u8() }).collect();
                JpegComp { hs: ch, vs: cv, blocks, bw }
            }).collect();
            // tiles that share tables use the same ones
            let var = if abbreviated { var0 } else { rng.u8() };
            jpegs.push(Jpeg { w: s.tw as usize, h: s.th as usize, comps, restart, ids, app, var });
        }
        let mut set = vec![(262u16, V::Short(vec![match kind { 0 if planar => *rng.pick(&[0, 1, 2, 6]), 0 => *rng.pick(&[0, 1, 1, 4]), 1 => 6, 2 => 2, _ => *rng.pick(&[0, 1, 4]) }]))];
        let mut enc = vec![];
        // complete streams next to a JPEGTables tag: the stream's own tables count
        let redundant = !abbreviated && rng.chance(1, 3);
        if redundant { set.push((347, V::Undef(Jpeg::other_tables()))); obs.hit("jpeg_redundant_tables"); }
        for j in &jpegs {
            if abbreviated {
                let (t, b) = j.abbreviated();
                if set.len() == 1 { set.push((347, V::Undef(t))); }
                enc.push(b);
            } else {
                enc.push(j.full());
            }
        }
        if abbreviated { obs.hit("jpeg_abbreviated"); }
        if planar { obs.hit("jpeg_planar"); }
        if (kind == 1 && (ids == 1 || app == 2)) || (kind >= 2 && (app == 1 || app > 2)) { obs.hit("jpeg_misleading_markers"); }
        let shape = s.shape();
        let (tw, th) = (s.tw as usize, s.th as usize);
        let img = add_encoded(rng, &mut m, s, vec![], enc, &set);
        let ctx = format!("{:?} {} kind {kind} sampling {hs}x{vs} ids {ids} app {app} abbreviated {abbreviated} redundant tables {redundant} restart {restart}", m.en, img.spec.describe());
        obs.sign(&format!("{}{kind}{ids}{app}{hs}{vs}{abbreviated}{redundant}{restart}", img.spec.sig(&m)));
        obs.sample(|| ctx.clone());
        for (i, a) in decode_all(rng, &m, &img, &DecoderRegistry::default())?.into_iter().enumerate() {
            let a = a.map_err(|e| format!("{ctx}: decode failed: {e}"))?;
            ensure!(a.shape() == shape, "{ctx}: shape {:?}", a.shape());
            let got: &[u8] = a.data().as_ref();
            ensure!(got.len() == shape.iter().product::<usize>(), "{ctx}: {} bytes", got.len());
            for y in 0..th { for x in 0..tw {
                let at = |j: &Jpeg, c: usize| { let cp = &j.comps[c];
                    let (bx, by) = if c == 0 || (hs, vs) == (1, 1) { (x / 8, y / 8) } else { (0, 0) };
                    cp.blocks[by * cp.bw + bx] };
                if planar {
                    for b in 0..spp as usize {
                        let want = at(&jpegs[b * nx * ny + i], 0);
                        let g = got[(b * th + y) * tw + x];
                        ensure!(g == want, "{ctx}: band {b} pixel ({x},{y}) is {g}, expected {want}");
                    }
                } else if kind == 0 {
                    let want = at(&jpegs[i], 0);
                    let g = got[y * tw + x];
                    ensure!(g == want, "{ctx}: pixel ({x},{y}) is {g}, expected {want}");
                } else {
                    let v = [at(&jpegs[i], 0), at(&jpegs[i], 1), at(&jpegs[i], 2)];
                    let want = if kind == 1 { codecs::ycc(v[0], v[1], v[2]) } else { v.map(|v| v as f64) };
                    for c in 0..3 {
                        let g = got[(y * tw + x) * 3 + c];
                        let tol = if kind == 1 { 2.0 } else { 0.0 };
                        ensure!((g as f64 - want[c]).abs() <= tol, "{ctx}: pixel ({x},{y}) channel {c} is {g}, expected {}", want[c]);
                    }
                }
            } }
            obs.hit(["jpeg_grey", "jpeg_ycbcr", "jpeg_rgb", "jpeg_three_bands"][kind as usize]);
        }
        Ok(())
    });
    r.family("webp", 600, 8000, |rng, obs, _| {
        let mut m = rand_model(rng);
        let spp = *rng.pick(&[3u16, 4, 4]);
        let large = rng.chance(1, 30);
        let s = small_spec(rng, DataType::UInt8, Compression::WebP, spp, false, if large { 400 } else { 40 });
        if large { obs.hit("webp_large"); }
        let opaque = spp == 4 && rng.chance(1, 2);
        let (nx, ny) = s.grid();
        let mut tiles = vec![];
        let mut enc = vec![];
        for _ in 0..nx * ny {
            let mut v = rand_samples(rng, &s);
            if opaque { v.chunks_mut(4).for_each(|p| p[3] = 255); }
            let b: Vec<u8> = v.iter().map(|x| *x as u8).collect();
            // an encoder may drop an alpha channel that is fully opaque
            if opaque && rng.chance(1, 2) {
                let rgb: Vec<u8> = b.chunks(4).flat_map(|p| p[..3].to_vec()).collect();
                enc.push(codecs::webp(&rgb, s.tw, s.th, 3));
                obs.hit("webp_opaque");
            } else {
                enc.push(codecs::webp(&b, s.tw, s.th, spp as usize));
            }
            tiles.push(v);
        }
        let img = add_encoded(rng, &mut m, s, tiles, enc, &[]);
        exact(rng, obs, &m, &img, "webp_tiles", &format!("opaque {opaque}"))
    });
    r.family("j2k", 500, 6000, |rng, obs, _| {
        let mut m = rand_model(rng);
        let dtype = *rng.pick(&[DataType::UInt8, DataType::UInt16]);
        if bits(dtype) > 8 { m.en = if cfg!(target_endian = "little") { En::Le } else { En::Be }; }
        let planar = rng.chance(1, 4);
        let jp2 = rng.chance(1, 2);
        // two components need the JP2 channel definition box that marks alpha
        let spp = if planar { rng.range(1, 3) } else if jp2 { rng.range(1, 4) } else { *rng.pick(&[1, 3, 4]) } as u16;
        let large = rng.chance(1, 30);
        let mut s = small_spec(rng, dtype, Compression::JPEG2k, spp, planar, if large { 300 } else { 40 });
        if large { obs.hit("j2k_large"); }
        s.w = s.tw;
        let (nx, ny) = s.grid();
        let tiles: Vec<Vec<u64>> = (0..nx * ny).map(|_| rand_samples(rng, &s)).collect();
        let per = (s.tw * s.th) as usize;
        let u = |v: &[u64]| v.iter().map(|x| *x as u32).collect::<Vec<_>>();
        let mut enc = vec![];
        if planar {
            for b in 0..spp as usize { for t in &tiles { enc.push(codecs::j2k(&u(&t[b * per..(b + 1) * per]), s.tw, s.th, 1, bits(dtype) as u32, jp2)); } }
        } else {
            for t in &tiles { enc.push(codecs::j2k(&u(t), s.tw, s.th, spp as usize, bits(dtype) as u32, jp2)); }
        }
        let img = add_encoded(rng, &mut m, s, tiles, enc, &[]);
        exact(rng, obs, &m, &img, if bits(dtype) == 8 { "j2k_8" } else { "j2k_16" }, &format!("jp2 {jp2}"))
    });
    // codes without a decoder
    r.family("unsupported", 1500, 20000, |rng, obs, i| {
        let mut m = rand_model(rng);
        let known = [2u16, 3, 4, 6, 0x8005];
        let reg = if rng.chance(1, 4) { DecoderRegistry::empty() } else { DecoderRegistry::default() };
        let empty = reg.as_ref().is_empty();
        let code = if empty && rng.chance(1, 2) { *rng.pick(&[1u16, 5, 7, 8, 0x80B2, 0xC350, 34925, 34887, 50001, 34712]) }
            else if (i as usize) < known.len() * 4 { known[i as usize % known.len()] }
            else { loop { let c = rng.u64() as u16; if ![1u16, 5, 7, 8, 0x80B2, 0xC350, 34925, 34887, 50001, 34712].contains(&c) { break c; } } };
        let mut s = rand_spec(rng);
        s.pred = None;
        let img = add_image(rng, &mut m, s);
        m.ifds[img.ifd].set(259, V::Short(vec![code]));
        let ctx = format!("compression code {code} empty registry {empty}");
        obs.sign(&ctx);
        obs.sample(|| ctx.clone());
        let c = crate::enums::compression_of(code);
        ensure!(!reg.as_ref().contains_key(&c), "{ctx}: a decoder is registered");
        for a in decode_all(rng, &m, &img, &reg)? {
            ensure!(a.is_err(), "{ctx}: a tile decoded although no decoder is registered for it");
            obs.hit("unsupported_rejected");
        }
        Ok(())
    });
    // every code there is, over payloads that each of the decoders would accept
    r.family("every-code", 256, 256, |rng, obs, i| {
        let d = rng.bytes(64);
        let mut payloads: Vec<Vec<u8>> = LOSSLESS.iter().map(|c| compress(rng, *c, &d)).collect();
        payloads.push(codecs::webp(&rng.bytes(64 * 3)[..], 8, 8, 3));
        let reg = DecoderRegistry::default();
        for low in 0..256u64 {
            let code = (i % 256 * 256 + low) as u16;
            if [1u16, 5, 7, 8, 0x80B2, 0xC350, 34925, 34887, 50001, 34712].contains(&code) { continue; }
            let c = crate::enums::compression_of(code);
            ensure!(!reg.as_ref().contains_key(&c), "code {code} ({c:?}) has a decoder in the default registry");
            for p in &payloads {
                let mut f = Ifd::default();
                for (t, v) in [(256u16, 8u16), (257, 8), (258, 8), (259, code), (262, 1), (277, 1), (322, 8), (323, 8), (324, 0), (325, p.len() as u16)] { f.push(t, V::Short(vec![v])); }
                let tags = f.entries.iter().map(|e| (crate::enums::tag_of(e.tag), e.v.expect(&[]))).collect();
                let ifd = async_tiff::ImageFileDirectory::from_tags(tags, En::Le.rt()).map_err(|e| format!("code {code}: {e}"))?;
                let t = block_on(ifd.fetch_tile(0, 0, &Mem::new(Sparse::dense(p.clone())))).map_err(|e| format!("code {code}: fetch: {e}"))?;
                ensure!(t.decode(&reg).is_err(), "code {code} ({c:?}): a tile decoded although no decoder is registered for it");
            }
            obs.hit("codes_swept");
        }
        obs.sign(&format!("codes {i}"));
        obs.sample(|| format!("codes {}..{}", i % 256 * 256, (i % 256 + 1) * 256));
        Ok(())
    });
    r.finish("exploration", json!({}))
}

// ------------------------------------------------------------------------------------ C23
#[derive(Debug, Clone, PartialEq)]
struct Call {
    who: u32,
    buffer: Vec<u8>,
    photo: PhotometricInterpretation,
    tables: Option<Vec<u8>>,
    spp: u16,
    bits: u16,
    lerc: Option<Vec<u32>>,
}
/// Records its arguments; the output is the reversed buffer (so that nothing else explains it).
#[derive(Debug)]
struct Rec {
    who: u32,
    log: Arc<Mutex<Vec<Call>>>,
    fail_at: Option<usize>,
    /// the output for an empty buffer
    blank: Vec<u8>,
}
impl Decoder for Rec {
    fn decode_tile(&self, buffer: Bytes, photo: PhotometricInterpretation, tables: Option<&[u8]>, spp: u16, bits: u16, lerc: Option<&[u32]>) -> AsyncTiffResult<Vec<u8>> {
        let mut l = self.log.lock().unwrap();
        let n = l.len();
        l.push(Call { who: self.who, buffer: buffer.to_vec(), photo, tables: tables.map(|t| t.to_vec()), spp, bits, lerc: lerc.map(|t| t.to_vec()) });
        if self.fail_at == Some(n) {
            return Err(fault(n as u64, buffer.len() as u64));
        }
        if buffer.is_empty() { return Ok(self.blank.clone()); }
        let mut v = buffer.to_vec();
        v.reverse();
        Ok(v)
    }
}

pub fn c23(mut r: Runner) -> i32 {
    r.rule("case = one image decoded with a registry in which several codes have recording decoders; arguments, call counts, which decoder ran, post-processing and errors checked; distinct by (code, image configuration, tags, failing call)");
    r.require(&["calls_checked", "overridden_builtin", "unknown_code", "planar_calls", "with_jpeg_tables", "with_lerc_parameters", "predicted_output", "decoder_errors_propagated", "removed_decoder_rejected", "empty_buffers"]);
    r.family("custom", 5000, 60000, |rng, obs, _| {
        let mut m = rand_model(rng);
        let mut s = rand_spec(rng);
        let codes: Vec<u16> = vec![1, 5, 7, 8, 0x80B2, 0xC350, 34925, 34887, 50001, 34712, 2, 6, 0x8005, 51234, 0, 65535];
        let code = *rng.pick(&codes);
        let comp = crate::enums::compression_of(code);
        // payload: the reversed raw (predicted) samples
        s.comp = Compression::None;
        s.pred = match rng.below(3) {
            0 => None,
            _ if bits(s.dtype) == 1 => None,
            _ if is_float(s.dtype) => Some(Predictor::FloatingPoint),
            _ => Some(Predictor::Horizontal),
        };
        let (nx, ny) = s.grid();
        let mut tiles: Vec<Vec<u64>> = (0..nx * ny).map(|_| rand_samples(rng, &s)).collect();
        let per = (s.tw * s.th) as usize;
        let mut enc = vec![];
        // some payloads are empty: what they stand for is the decoder's business
        let sample = rand_samples(rng, &s);
        let blank_samples = if s.planar { &sample[..per] } else { &sample[..] };
        let blank = encode_plane(rng, &s, m.en, blank_samples, if s.planar { 1 } else { s.spp as usize });
        let mut empty = vec![];
        if rng.chance(1, 5) {
            for b in 0..if s.planar { s.spp as usize } else { 1 } {
                for (t, v) in tiles.iter_mut().enumerate() {
                    if rng.chance(1, 3) { v[b * blank_samples.len()..(b + 1) * blank_samples.len()].copy_from_slice(blank_samples); empty.push(b * nx * ny + t); }
                }
            }
        }
        if s.planar {
            for b in 0..s.spp as usize { for t in &tiles { enc.push(encode_plane(rng, &s, m.en, &t[b * per..(b + 1) * per], 1)); } }
        } else {
            for t in &tiles { enc.push(encode_plane(rng, &s, m.en, t, s.spp as usize)); }
        }
        enc.iter_mut().for_each(|e| e.reverse());
        for k in &empty { enc[*k].clear(); }
        let photo = *rng.pick(&[0u16, 1, 2, 3, 4, 5, 6, 8]);
        let mut set = vec![(259, V::Short(vec![code])), (262, V::Short(vec![photo]))];
        let tables = if rng.chance(1, 2) { let n = rng.us(5, 40); Some(rng.bytes(n)) } else { None };
        if let Some(t) = &tables { set.push((347, V::Undef(t.clone()))); }
        let lp = if rng.chance(1, 2) { let n = rng.us(2, 4); Some((0..n).map(|_| rng.u32()).collect::<Vec<_>>()) } else { None };
        if let Some(l) = &lp { set.push((50674, V::Long(l.clone()))); }
        let kept = enc.clone();
        let img = add_encoded(rng, &mut m, s.clone(), tiles, enc, &set);
        if tables.is_none() { m.ifds[img.ifd].remove(347); }
        if lp.is_none() { m.ifds[img.ifd].remove(50674); }
        let log = Arc::new(Mutex::new(vec![]));
        let mut reg = if rng.chance(1, 3) { DecoderRegistry::empty() } else { DecoderRegistry::default() };
        let calls_per_tile = if s.planar { s.spp as usize } else { 1 };
        let fail_at = if rng.chance(1, 4) { Some(rng.us(0, nx * ny * calls_per_tile - 1)) } else { None };
        let removed = rng.chance(1, 12);
        for c in &codes {
            if *c == code || rng.chance(1, 2) {
                if rng.chance(1, 6) { // replaced twice: the last one counts
                    reg.as_mut().insert(crate::enums::compression_of(*c), Box::new(Rec { who: 999999, log: log.clone(), fail_at: None, blank: blank.clone() }));
                }
                reg.as_mut().insert(crate::enums::compression_of(*c), Box::new(Rec { who: *c as u32, log: log.clone(), fail_at: if *c == code { fail_at } else { None }, blank: blank.clone() }));
            }
        }
        if removed { reg.as_mut().remove(&comp); }
        let ctx = format!("{:?} code {code} photometric {photo} tables {} lerc {lp:?} failing call {fail_at:?} removed {removed} {}", m.en, tables.is_some(), s.describe());
        obs.sign(&format!("{code}{photo}{}{:?}{removed}{}", tables.is_some(), fail_at, s.sig(&m)));
        obs.sample(|| ctx.clone());
        let built = m.build(rng);
        let mem = Mem::new(built.file);
        block_on(async {
            let t = open(&mem, false).await?;
            let ifd = &t.ifds()[img.ifd];
            for y in 0..ny { for x in 0..nx {
                let before = log.lock().unwrap().len();
                let tile = ifd.fetch_tile(x, y, &mem).await.map_err(|e| format!("{ctx}: fetch: {e}"))?;
                ensure!(tile.compression_method() == comp, "{ctx}: compression_method {:?}", tile.compression_method());
                let res = tile.decode(&reg);
                let calls: Vec<Call> = log.lock().unwrap()[before..].to_vec();
                if removed {
                    ensure!(calls.is_empty(), "{ctx}: a decoder of another code ran: {:?}", calls[0].who);
                    ensure!(res.is_err(), "{ctx}: decoded without a decoder");
                    obs.hit("removed_decoder_rejected");
                    continue;
                }
                let failing = fail_at.filter(|f| (before..before + calls.len()).contains(f));
                let want_calls = match failing { Some(f) => f - before + 1, None => calls_per_tile };
                ensure!(calls.len() == want_calls, "{ctx}: tile ({x},{y}): decoder called {} times, expected {want_calls}", calls.len());
                for (b, c) in calls.iter().enumerate() {
                    let want = Call {
                        who: code as u32,
                        buffer: kept[if s.planar { b * nx * ny + y * nx + x } else { y * nx + x }].clone(),
                        photo: crate::enums::photo_of(photo).unwrap(),
                        tables: tables.clone(),
                        spp: if s.planar { 1 } else { s.spp },
                        bits: bits(s.dtype),
                        lerc: lp.clone(),
                    };
                    ensure!(*c == want, "{ctx}: tile ({x},{y}) call {b}: the decoder received {c:?}, expected {want:?}");
                    obs.hit("calls_checked");
                    if c.buffer.is_empty() { obs.hit("empty_buffers"); }
                    if s.planar { obs.hit("planar_calls"); }
                    if tables.is_some() { obs.hit("with_jpeg_tables"); }
                    if lp.is_some() { obs.hit("with_lerc_parameters"); }
                }
                obs.hit(if DecoderRegistry::default().as_ref().contains_key(&comp) { "overridden_builtin" } else { "unknown_code" });
                match (res, failing) {
                    (Err(e), Some(f)) => {
                        ensure!(is_injected(&e) == Some(f as u64), "{ctx}: the decoder failed with '{FAULT}{f}', the caller sees: {e}");
                        obs.hit("decoder_errors_propagated");
                    }
                    (Ok(_), Some(_)) => return Err(format!("{ctx}: the decoder failed but an array was returned")),
                    (Err(e), None) => return Err(format!("{ctx}: tile ({x},{y}): {e}")),
                    (Ok(a), None) => {
                        check_array(&a, s.shape(), s.dtype, &native(&img.tiles[y * nx + x], s.dtype), &ctx)?;
                        if s.pred.is_some() { obs.hit("predicted_output"); }
                    }
                }
            } }
            Ok(())
        })
    });
    r.finish("exploration", json!({}))
}
