//! Tiled image generator: pixel values -> encoded tiles -> TIFF file, and the array a reader must
//! produce. Encoders and predictors are written from the TIFF specification.
use crate::codecs;
use crate::rng::Rng;
use crate::tiffmodel::*;
use async_tiff::tags::{Compression, Predictor};
use async_tiff::{Array, DataType, TypedArray};

pub const DTYPES: [DataType; 11] = [
    DataType::Bool,
    DataType::UInt8,
    DataType::UInt16,
    DataType::UInt32,
    DataType::UInt64,
    DataType::Int8,
    DataType::Int16,
    DataType::Int32,
    DataType::Int64,
    DataType::Float32,
    DataType::Float64,
];
pub fn bits(d: DataType) -> u16 {
    match d {
        DataType::Bool => 1,
        DataType::UInt8 | DataType::Int8 => 8,
        DataType::UInt16 | DataType::Int16 => 16,
        DataType::UInt32 | DataType::Int32 | DataType::Float32 => 32,
        _ => 64,
    }
}
pub fn sample_format(d: DataType) -> u16 {
    match d {
        DataType::Int8 | DataType::Int16 | DataType::Int32 | DataType::Int64 => 2,
        DataType::Float32 | DataType::Float64 => 3,
        _ => 1,
    }
}
pub fn is_float(d: DataType) -> bool {
    sample_format(d) == 3
}

#[derive(Clone, Debug)]
pub struct Spec {
    pub w: u32,
    pub h: u32,
    pub tw: u32,
    pub th: u32,
    pub spp: u16,
    pub planar: bool,
    pub dtype: DataType,
    pub comp: Compression,
    pub pred: Option<Predictor>,
}

impl Spec {
    pub fn grid(&self) -> (usize, usize) {
        ((self.w as usize).div_ceil(self.tw as usize), (self.h as usize).div_ceil(self.th as usize))
    }
    pub fn describe(&self) -> String {
        format!(
            "{}x{} tiles {}x{} spp={} {} {:?} {:?} pred={:?}",
            self.w, self.h, self.tw, self.th, self.spp,
            if self.planar { "planar" } else { "chunky" },
            self.dtype, self.comp, self.pred
        )
    }
    pub fn shape(&self) -> [usize; 3] {
        let (w, h, s) = (self.tw as usize, self.th as usize, self.spp as usize);
        if self.planar {
            [s, h, w]
        } else {
            [h, w, s]
        }
    }
    pub fn sig(&self, m: &Model) -> String {
        format!(
            "{:?}{:?}{}{}{:?}{:?}{:?}tw{}th{}",
            m.en, m.big, self.spp, self.planar, self.dtype, self.comp, self.pred,
            self.tw.min(40), self.th.min(8)
        )
    }
}

pub const LOSSLESS: [Compression; 6] = [
    Compression::None,
    Compression::Deflate,
    Compression::OldDeflate,
    Compression::LZW,
    Compression::ZSTD,
    Compression::LZMA,
];

pub fn rand_spec(rng: &mut Rng) -> Spec {
    let dtype = *rng.pick(&DTYPES);
    let comp = *rng.pick(&LOSSLESS);
    let mut spp = *rng.pick(&[1u16, 1, 2, 3, 3, 4, 5, 7]);
    if rng.chance(1, 30) && !cfg!(miri) { spp = *rng.pick(&[8, 9, 16, 17, 33, 64, 200, 255, 256, 257, 300]); }
    let planar = rng.chance(2, 5);
    let mut tw = match rng.below(4) {
        0 => 16 * rng.range(1, 4),
        1 => rng.range(1, 9),
        _ => rng.range(1, 48),
    } as u32;
    let th = match rng.below(3) {
        0 => 16 * rng.range(1, 2),
        _ => rng.range(1, 24),
    } as u32;
    let mut th = th;
    if spp > 7 {
        tw = tw.min(12);
        th = th.min(6);
    }
    if dtype == DataType::Bool {
        tw = tw.div_ceil(8) * 8;
    }
    let w = match rng.below(4) {
        0 => tw * rng.range(1, 3) as u32,
        1 => rng.range(1, tw as u64) as u32,
        _ => rng.range(1, 3 * tw as u64) as u32,
    };
    let h = match rng.below(4) {
        0 => th * rng.range(1, 3) as u32,
        _ => rng.range(1, 3 * th as u64) as u32,
    };
    let pred = match rng.below(4) {
        0 => None,
        1 => Some(Predictor::None),
        _ if comp == Compression::None || dtype == DataType::Bool => None,
        2 => Some(Predictor::Horizontal),
        _ if is_float(dtype) => Some(Predictor::FloatingPoint),
        _ => Some(Predictor::Horizontal),
    };
    // horizontal differencing is defined on integer samples
    let pred = if is_float(dtype) && pred == Some(Predictor::Horizontal) {
        Some(Predictor::FloatingPoint)
    } else {
        pred
    };
    tame(Spec { w, h, tw, th, spp, planar, dtype, comp, pred })
}

/// The undefined-behaviour interpreter can only run small, pure-Rust cases.
pub fn tame(mut s: Spec) -> Spec {
    if cfg!(miri) {
        if matches!(s.comp, Compression::ZSTD | Compression::LZMA) { s.comp = Compression::LZW; }
        s.tw = if s.dtype == DataType::Bool { 8 } else { s.tw % 5 + 1 };
        s.th = s.th % 3 + 1;
        s.w = s.w % (2 * s.tw) + 1;
        s.h = s.h % (2 * s.th) + 1;
        s.spp = s.spp.min(3);
    }
    s
}

/// Samples of one tile, in file element order of the tile's storage:
/// chunky: [row][col][sample]; planar: [band][row][col]. Values are raw bit patterns.
pub fn rand_samples(rng: &mut Rng, s: &Spec) -> Vec<u64> {
    let n = s.tw as usize * s.th as usize * s.spp as usize;
    let b = bits(s.dtype) as u32;
    let mask = if b == 64 { u64::MAX } else { (1u64 << b) - 1 };
    match rng.below(5) {
        // every element distinct (position encoding): a misplaced element is visible
        0 => {
            let k = rng.u64() | 1;
            (0..n as u64).map(|i| i.wrapping_mul(k) & mask).collect()
        }
        1 => (0..n).map(|_| rng.edgy(b)).collect(),
        // smooth, so that dictionary coders produce long matches
        2 => {
            let step = rng.below(5);
            let c = rng.us(1, 9);
            (0..n).map(|i| ((i / c) as u64 * step) & mask).collect()
        }
        3 => {
            let v = rng.edgy(b);
            vec![v; n]
        }
        _ => (0..n).map(|_| rng.u64() & mask).collect(),
    }
}

/// Pack raw bit patterns into bytes in the given byte order.
pub fn pack(v: &[u64], d: DataType, en: En) -> Vec<u8> {
    match bits(d) {
        1 => {
            let mut o = vec![0u8; v.len().div_ceil(8)];
            for (i, x) in v.iter().enumerate() {
                if *x != 0 {
                    o[i / 8] |= 0x80 >> (i % 8);
                }
            }
            o
        }
        8 => v.iter().map(|x| *x as u8).collect(),
        16 => v.iter().flat_map(|x| en.u16(*x as u16)).collect(),
        32 => v.iter().flat_map(|x| en.u32(*x as u32)).collect(),
        _ => v.iter().flat_map(|x| en.u64(*x)).collect(),
    }
}

/// Expected native-endian bytes of the decoded array (`Bool` expands to one byte per element).
pub fn native(v: &[u64], d: DataType) -> Vec<u8> {
    match d {
        DataType::Bool => v.iter().map(|x| *x as u8).collect(),
        _ => pack(v, d, if cfg!(target_endian = "little") { En::Le } else { En::Be }),
    }
}

/// Apply the TIFF horizontal predictor to rows of `width` pixels of `samples` samples.
pub fn predict_h(v: &[u64], width: usize, samples: usize, b: u16) -> Vec<u64> {
    let mask = if b == 64 { u64::MAX } else { (1u64 << b) - 1 };
    let mut o = v.to_vec();
    for row in o.chunks_mut(width * samples) {
        for i in (samples..row.len()).rev() {
            row[i] = row[i].wrapping_sub(row[i - samples]) & mask;
        }
    }
    o
}

/// Apply the TIFF floating point predictor (Tech Note 3): per row, most significant bytes of all
/// samples first, then byte-wise differencing with a stride of `samples`.
pub fn predict_f(v: &[u64], width: usize, samples: usize, b: u16) -> Vec<u8> {
    let nb = b as usize / 8;
    let mut out = vec![];
    for row in v.chunks(width * samples) {
        let n = row.len();
        let mut r = vec![0u8; n * nb];
        for (i, x) in row.iter().enumerate() {
            for k in 0..nb {
                r[k * n + i] = (x >> (8 * (nb - 1 - k))) as u8;
            }
        }
        for i in (samples..r.len()).rev() {
            r[i] = r[i].wrapping_sub(r[i - samples]);
        }
        out.extend(r);
    }
    out
}

/// Places at which an encoder is flushed.
fn cuts(rng: &mut Rng, n: usize) -> Vec<usize> {
    let k = rng.us(0, 3);
    let mut v: Vec<usize> = (0..k).map(|_| rng.us(0, n)).collect();
    v.sort();
    v
}

pub fn compress(rng: &mut Rng, c: Compression, d: &[u8]) -> Vec<u8> {
    match c {
        Compression::None => d.to_vec(),
        Compression::Deflate | Compression::OldDeflate => {
            let l = rng.below(10) as u32;
            if rng.chance(1, 4) { let cuts = cuts(rng, d.len()); codecs::deflate_flushed(d, l, &cuts) } else { codecs::deflate(d, l) }
        }
        Compression::LZW => {
            let clear = if rng.chance(1, 3) { Some(rng.us(1, 5000)) } else { None };
            codecs::lzw(d, clear)
        }
        Compression::ZSTD => {
            let l = rng.range(1, 9) as i32;
            match rng.below(6) {
                0 if d.len() > 2 => { // concatenated frames
                    let k = rng.us(1, d.len() - 1);
                    let mut o = codecs::zstd(&d[..k], l);
                    o.extend(codecs::zstd(&d[k..], l));
                    o
                }
                1 | 2 => {
                    let w = if rng.chance(1, 3) { Some(rng.range(10, 24) as u32) } else { None };
                    let cuts = cuts(rng, d.len());
                    codecs::zstd_opts(d, l, rng.chance(1, 2), rng.chance(1, 2), w, &cuts)
                }
                _ => codecs::zstd(d, l),
            }
        }
        Compression::LZMA => {
            let delta = if rng.chance(1, 2) { Some(*rng.pick(&[1u32, 2, 3, 4, 8])) } else { None };
            codecs::lzma(d, rng.u8(), delta, if rng.chance(1, 8) { Some(rng.range(4096, 9000)) } else { None })
        }
        _ => unreachable!(),
    }
}

/// Encode one plane/tile given its samples: `samples` interleaved samples per pixel.
pub fn encode_plane(rng: &mut Rng, s: &Spec, en: En, v: &[u64], samples: usize) -> Vec<u8> {
    let raw = match s.pred {
        Some(Predictor::Horizontal) => {
            pack(&predict_h(v, s.tw as usize, samples, bits(s.dtype)), s.dtype, en)
        }
        Some(Predictor::FloatingPoint) => predict_f(v, s.tw as usize, samples, bits(s.dtype)),
        _ => pack(v, s.dtype, en),
    };
    compress(rng, s.comp, &raw)
}

/// One image added to a model.
#[derive(Clone)]
pub struct Img {
    pub spec: Spec,
    /// per tile (row major over the grid): samples in storage order
    pub tiles: Vec<Vec<u64>>,
    /// block ids in TileOffsets order
    pub blocks: Vec<usize>,
    pub ifd: usize,
}

/// Generate pixel data for `spec`, encode it, and append an IFD + blocks to the model.
pub fn add_image(rng: &mut Rng, m: &mut Model, spec: Spec) -> Img {
    let (nx, ny) = spec.grid();
    let mut tiles: Vec<Vec<u64>> = (0..nx * ny).map(|_| rand_samples(rng, &spec)).collect();
    // tiles that differ in a single sample, encoded alike: anything that takes them for equal shows
    let near = rng.chance(1, 6);
    if near {
        for k in 1..tiles.len() {
            let mut t = tiles[0].clone();
            let j = if rng.chance(1, 2) { t.len() - 1 } else { rng.us(0, t.len() - 1) };
            t[j] = tiles[k][j];
            tiles[k] = t;
        }
    }
    let mut enc: Vec<Vec<u8>> = vec![];
    let fixed = rng.clone();
    let mut encode = |v: &[u64], n: usize| if near { encode_plane(&mut fixed.clone(), &spec, m.en, v, n) } else { encode_plane(rng, &spec, m.en, v, n) };
    if spec.planar {
        let per = spec.tw as usize * spec.th as usize;
        for b in 0..spec.spp as usize {
            for t in &tiles {
                enc.push(encode(&t[b * per..(b + 1) * per], 1));
            }
        }
    } else {
        for t in &tiles {
            enc.push(encode(t, spec.spp as usize));
        }
    }
    add_encoded(rng, m, spec, tiles, enc, &[])
}

/// Append an IFD and blocks for already encoded tiles; `set` overrides or adds tags.
pub fn add_encoded(rng: &mut Rng, m: &mut Model, spec: Spec, tiles: Vec<Vec<u64>>, enc: Vec<Vec<u8>>, set: &[(u16, V)]) -> Img {
    let base = m.blocks.len();
    let counts: Vec<u64> = enc.iter().map(|e| e.len() as u64).collect();
    let blocks: Vec<usize> = (base..base + enc.len()).collect();
    m.blocks.extend(enc);
    let mut ifd = Ifd::default();
    image_tags(rng, m, &mut ifd, &spec);
    let oty = if m.big {
        if rng.chance(1, 5) && m.layout != Layout::Huge { 4 } else { 16 }
    } else {
        4
    };
    ifd.push(324, V::Offsets(oty, blocks.clone()));
    ifd.push(325, count_value(rng, m.big, &counts));
    for (t, v) in set {
        ifd.set(*t, v.clone());
    }
    sort_sometimes(rng, &mut ifd);
    m.ifds.push(ifd);
    Img { spec, tiles, blocks, ifd: m.ifds.len() - 1 }
}

pub fn count_value(rng: &mut Rng, big: bool, counts: &[u64]) -> V {
    let max = counts.iter().copied().max().unwrap_or(0);
    let k = rng.below(3);
    if k == 0 && max < 65536 && counts.len() > 1 {
        V::Short(counts.iter().map(|c| *c as u16).collect())
    } else if k == 1 && big {
        V::Long8(counts.to_vec())
    } else {
        V::Long(counts.iter().map(|c| *c as u32).collect())
    }
}

/// The spec asks for ascending tags; writers in the wild do not always comply.
pub fn sort_sometimes(rng: &mut Rng, ifd: &mut Ifd) {
    ifd.entries.sort_by_key(|e| e.tag);
    if rng.chance(1, 6) {
        rng.shuffle(&mut ifd.entries);
    }
}

fn short_or_long(rng: &mut Rng, v: u32) -> V {
    if v < 65536 && rng.chance(1, 2) {
        V::Short(vec![v as u16])
    } else {
        V::Long(vec![v])
    }
}

/// Tags that do not bear on how pixels are stored.
/// `codec`: codec parameters, too, which the image's own codec does not use.
fn decorate(rng: &mut Rng, ifd: &mut Ifd, codec: bool) {
    for _ in 0..rng.us(1, 4) {
        let (t, v) = match rng.below(20) {
            0 => (254, V::Long(vec![rng.below(8) as u32])),
            1 => (270, V::Ascii(b"a description that does not fit inline\0".to_vec())),
            2 => (305, V::Ascii(b"sw\0".to_vec())),
            3 => (282, V::Rational(vec![(rng.u32(), 1)])),
            4 => (338, V::Short(vec![rng.below(3) as u16])),
            5 => (42113, V::Ascii(b"-9999\0".to_vec())),
            6 => (33550, V::Double(vec![1f64.to_bits(), 1f64.to_bits(), 0])),
            7 => (34735, V::Short(vec![1, 1, 0, 1, 1024, 0, 1, 1])),
            8 => (rng.range(50900, 60000) as u16, V::Byte({ let n = rng.us(1, 20); rng.bytes(n) })),
            9 if codec => (347, V::Undef({ let n = rng.us(5, 20); rng.bytes(n) })),
            10 if codec => (50674, V::Long(vec![4, rng.below(3) as u32])),
            11 => (266, V::Short(vec![1])),
            12 => (280, V::Short(vec![rng.below(300) as u16])),
            13 => (281, V::Short(vec![rng.below(70000) as u16])),
            14 => (320, V::Short({ let n = 3 * rng.us(1, 9); (0..n).map(|_| rng.u32() as u16).collect() })),
            15 => (42112, V::Ascii(b"<GDALMetadata><Item name=\"SCALE\" sample=\"0\" role=\"scale\">0.5</Item></GDALMetadata>\0".to_vec())),
            16 => (296, V::Short(vec![rng.range(1, 3) as u16])),
            17 => (330, V::Long(vec![rng.u32()])),
            18 => (33922, V::Double(vec![0, 0, 0, 1f64.to_bits(), 2f64.to_bits(), 0])),
            _ => (274, V::Short(vec![rng.range(1, 8) as u16])),
        };
        if ifd.get(t).is_none() { ifd.push(t, v); }
    }
}

/// Everything except the offset/count arrays.
pub fn image_tags(rng: &mut Rng, _m: &Model, ifd: &mut Ifd, s: &Spec) {
    ifd.push(256, short_or_long(rng, s.w));
    ifd.push(257, short_or_long(rng, s.h));
    // Many writers store a single BitsPerSample / SampleFormat value for all samples.
    let n = if rng.chance(1, 5) { 1 } else { s.spp as usize };
    if s.dtype != DataType::Bool || rng.chance(3, 4) { ifd.push(258, V::Short(vec![bits(s.dtype); n])); }
    if s.comp != Compression::None || rng.chance(1, 2) {
        ifd.push(259, V::Short(vec![crate::enums::any_compression_code(s.comp)]));
    }
    // (codecs that care about the interpretation set their own)
    let photo = if rng.chance(1, 3) { *rng.pick(&[0u16, 1, 2, 3, 4, 5, 6, 8]) } else if s.spp >= 3 { 2 } else { 1 };
    ifd.push(262, V::Short(vec![photo]));
    if rng.chance(1, 3) { decorate(rng, ifd, LOSSLESS.contains(&s.comp)); }
    if s.spp > 1 || rng.chance(3, 4) { ifd.push(277, V::Short(vec![s.spp])); }
    if s.planar {
        ifd.push(284, V::Short(vec![2]));
    } else if rng.chance(1, 2) {
        ifd.push(284, V::Short(vec![1]));
    }
    if let Some(p) = s.pred {
        ifd.push(317, V::Short(vec![crate::enums::predictor_code(p)]));
    } else if rng.chance(1, 8) {
        ifd.push(317, V::Short(vec![1]));
    }
    ifd.push(322, short_or_long(rng, s.tw));
    ifd.push(323, short_or_long(rng, s.th));
    if sample_format(s.dtype) != 1 || rng.chance(1, 2) {
        let n = if rng.chance(1, 5) { 1 } else { s.spp as usize };
        ifd.push(339, V::Short(vec![sample_format(s.dtype); n]));
    }
}

pub fn variant(d: &TypedArray) -> DataType {
    match d {
        TypedArray::Bool(_) => DataType::Bool,
        TypedArray::UInt8(_) => DataType::UInt8,
        TypedArray::UInt16(_) => DataType::UInt16,
        TypedArray::UInt32(_) => DataType::UInt32,
        TypedArray::UInt64(_) => DataType::UInt64,
        TypedArray::Int8(_) => DataType::Int8,
        TypedArray::Int16(_) => DataType::Int16,
        TypedArray::Int32(_) => DataType::Int32,
        TypedArray::Int64(_) => DataType::Int64,
        TypedArray::Float32(_) => DataType::Float32,
        TypedArray::Float64(_) => DataType::Float64,
    }
}

/// Compare a decoded array with the expected one, element by element.
pub fn check_array(a: &Array, shape: [usize; 3], d: DataType, want: &[u8], ctx: &str) -> Result<(), String> {
    if a.shape() != shape {
        return Err(format!("{ctx}: shape {:?}, expected {shape:?}", a.shape()));
    }
    if a.data_type() != Some(d) {
        return Err(format!("{ctx}: data_type {:?}, expected {d:?}", a.data_type()));
    }
    if variant(a.data()) != d {
        return Err(format!("{ctx}: array variant {:?}, expected {d:?}", variant(a.data())));
    }
    if a.data().len() != shape.iter().product::<usize>() {
        return Err(format!("{ctx}: {} elements for shape {shape:?}", a.data().len()));
    }
    let got: &[u8] = a.data().as_ref();
    if got != want {
        let p = got.iter().zip(want).position(|(x, y)| x != y);
        return Err(format!(
            "{ctx}: decoded bytes differ (len {} vs {}) first at byte {:?}: got {:?} want {:?}",
            got.len(), want.len(), p,
            p.map(|p| got[p]), p.map(|p| want[p])
        ));
    }
    Ok(())
}
