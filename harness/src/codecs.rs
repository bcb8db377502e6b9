//! Reference encoders (independent of async-tiff's decoders).
use openjpeg_sys as opj;
use std::io::Write;

pub fn deflate(d: &[u8], level: u32) -> Vec<u8> {
    if cfg!(miri) { // stored blocks: the compressor's tables are too slow to interpret
        let mut o = vec![0x78, 1];
        let n = d.chunks(65535).count().max(1);
        for k in 0..n {
            let c = &d[k * 65535..d.len().min((k + 1) * 65535)];
            o.push((k + 1 == n) as u8);
            o.extend((c.len() as u16).to_le_bytes());
            o.extend((!(c.len() as u16)).to_le_bytes());
            o.extend(c);
        }
        let (mut a, mut b) = (1u32, 0u32);
        for x in d { a = (a + *x as u32) % 65521; b = (b + a) % 65521; }
        o.extend((b << 16 | a).to_be_bytes());
        return o;
    }
    let mut e = flate2::write::ZlibEncoder::new(Vec::new(), flate2::Compression::new(level));
    e.write_all(d).unwrap();
    e.finish().unwrap()
}
/// A zlib stream whose encoder was flushed on the way (several blocks, byte-aligned empty ones).
pub fn deflate_flushed(d: &[u8], level: u32, cuts: &[usize]) -> Vec<u8> {
    if cfg!(miri) { return deflate(d, level); }
    let mut e = flate2::write::ZlibEncoder::new(Vec::new(), flate2::Compression::new(level));
    let mut at = 0;
    for c in cuts {
        let c = (*c).clamp(at, d.len());
        e.write_all(&d[at..c]).unwrap();
        e.flush().unwrap();
        at = c;
    }
    e.write_all(&d[at..]).unwrap();
    e.finish().unwrap()
}
/// TIFF LZW, written from the specification. The table is cleared when it is full (as the
/// specification says) and, with `clear`, every so many codes as well (as libtiff does when the
/// compression ratio drops).
pub fn lzw(d: &[u8], clear: Option<usize>) -> Vec<u8> {
    let (mut o, mut acc, mut n) = (vec![], 0u32, 0u32);
    let mut put = |code: u32, w: u32| {
        acc = acc << w | code;
        n += w;
        while n >= 8 {
            n -= 8;
            o.push((acc >> n) as u8);
            acc &= (1 << n) - 1;
        }
    };
    let mut table = std::collections::HashMap::new();
    let (mut w, mut next, mut codes) = (9u32, 258u32, 0usize);
    put(256, w);
    let mut cur: Option<u32> = None;
    for b in d {
        let Some(c) = cur else { cur = Some(*b as u32); continue };
        if let Some(x) = table.get(&(c, *b)) { cur = Some(*x); continue; }
        put(c, w);
        codes += 1;
        cur = Some(*b as u32);
        table.insert((c, *b), next);
        next += 1;
        if next == 512 || next == 1024 || next == 2048 { w += 1; }
        if next == 4094 || clear.is_some_and(|k| codes % k == 0) {
            put(256, w);
            table.clear();
            next = 258;
            w = 9;
        }
    }
    if let Some(c) = cur {
        put(c, w);
        next += 1;
        if next == 512 || next == 1024 || next == 2048 { w += 1; }
    }
    put(257, w);
    if n > 0 { o.push((acc << (8 - n)) as u8); }
    o
}
pub fn zstd(d: &[u8], level: i32) -> Vec<u8> {
    zstd::encode_all(d, level).unwrap()
}
/// Frame variations: checksum, declared content size, long-distance window, flushed blocks.
pub fn zstd_opts(d: &[u8], level: i32, checksum: bool, size: bool, window: Option<u32>, cuts: &[usize]) -> Vec<u8> {
    let mut e = zstd::Encoder::new(Vec::new(), level).unwrap();
    e.include_checksum(checksum).unwrap();
    if size { e.set_pledged_src_size(Some(d.len() as u64)).unwrap(); e.include_contentsize(true).unwrap(); } else { e.include_contentsize(false).unwrap(); }
    if let Some(w) = window { e.long_distance_matching(true).unwrap(); e.window_log(w).unwrap(); }
    let mut at = 0;
    for c in cuts {
        let c = (*c).clamp(at, d.len());
        e.write_all(&d[at..c]).unwrap();
        e.flush().unwrap();
        at = c;
    }
    e.write_all(&d[at..]).unwrap();
    e.finish().unwrap()
}
/// An xz stream; `delta` is the distance of a delta filter in front of LZMA2 (libtiff writes one).
pub fn lzma(d: &[u8], check: u8, delta: Option<u32>, block: Option<u64>) -> Vec<u8> {
    let mut o = lzma_rust2::XzOptions::with_preset(1);
    o.set_check_sum_type([lzma_rust2::CheckType::None, lzma_rust2::CheckType::Crc32, lzma_rust2::CheckType::Crc64, lzma_rust2::CheckType::Sha256][check as usize % 4]);
    if let Some(x) = delta { o.prepend_pre_filter(lzma_rust2::FilterType::Delta, x); }
    o.set_block_size(block.and_then(std::num::NonZeroU64::new));
    let mut w = lzma_rust2::XzWriter::new(Vec::new(), o).unwrap();
    w.write_all(d).unwrap();
    w.finish().unwrap()
}
pub fn webp(d: &[u8], w: u32, h: u32, ch: usize) -> Vec<u8> {
    let mut cfg = webp::WebPConfig::new().unwrap();
    cfg.lossless = 1;
    cfg.exact = 1;
    cfg.quality = 20.0;
    cfg.method = 0;
    let enc = if ch == 4 {
        webp::Encoder::from_rgba(d, w, h)
    } else {
        webp::Encoder::from_rgb(d, w, h)
    };
    enc.encode_advanced(&cfg).unwrap().to_vec()
}

// ------------------------------------------------------------------------------- JPEG 2000
unsafe extern "C" fn wr(p: *mut libc::c_void, n: usize, u: *mut libc::c_void) -> usize {
    let s = &mut *(u as *mut (Vec<u8>, usize));
    let b = std::slice::from_raw_parts(p as *const u8, n);
    if s.0.len() < s.1 + n {
        s.0.resize(s.1 + n, 0);
    }
    s.0[s.1..s.1 + n].copy_from_slice(b);
    s.1 += n;
    n
}
unsafe extern "C" fn skip(n: i64, u: *mut libc::c_void) -> i64 {
    let s = &mut *(u as *mut (Vec<u8>, usize));
    s.1 = (s.1 as i64 + n) as usize;
    n
}
unsafe extern "C" fn seek(n: i64, u: *mut libc::c_void) -> i32 {
    let s = &mut *(u as *mut (Vec<u8>, usize));
    s.1 = n as usize;
    1
}
/// Lossless J2K codestream of interleaved samples.
pub fn j2k(samples: &[u32], w: u32, h: u32, comps: usize, prec: u32, jp2: bool) -> Vec<u8> {
    unsafe {
        let mut p: opj::opj_cparameters_t = std::mem::zeroed();
        opj::opj_set_default_encoder_parameters(&mut p);
        p.tcp_numlayers = 1;
        p.tcp_rates[0] = 0.0;
        p.cp_disto_alloc = 1;
        p.irreversible = 0;
        p.tcp_mct = if comps == 3 { 1 } else { 0 };
        let mut nres = 1;
        while nres < 5 && (w.min(h) >> nres) > 0 {
            nres += 1;
        }
        p.numresolution = nres;
        let mut cp: Vec<opj::opj_image_cmptparm_t> = (0..comps)
            .map(|_| {
                let mut c: opj::opj_image_cmptparm_t = std::mem::zeroed();
                c.dx = 1;
                c.dy = 1;
                c.w = w;
                c.h = h;
                c.prec = prec;
                c.bpp = prec;
                c
            })
            .collect();
        let cs = if comps >= 3 {
            opj::OPJ_COLOR_SPACE::OPJ_CLRSPC_SRGB
        } else {
            opj::OPJ_COLOR_SPACE::OPJ_CLRSPC_GRAY
        };
        let img = opj::opj_image_create(comps as u32, cp.as_mut_ptr(), cs);
        assert!(!img.is_null());
        (*img).x0 = 0;
        (*img).y0 = 0;
        (*img).x1 = w;
        (*img).y1 = h;
        for c in 0..comps {
            let comp = &mut *(*img).comps.add(c);
            if comps == 4 && c == 3 || comps == 2 && c == 1 {
                comp.alpha = 1;
            }
            for i in 0..(w * h) as usize {
                *comp.data.add(i) = samples[i * comps + c] as i32;
            }
        }
        let codec = opj::opj_create_compress(if jp2 {
            opj::OPJ_CODEC_FORMAT::OPJ_CODEC_JP2
        } else {
            opj::OPJ_CODEC_FORMAT::OPJ_CODEC_J2K
        });
        assert_eq!(opj::opj_setup_encoder(codec, &mut p, img), 1);
        let mut out: (Vec<u8>, usize) = (vec![], 0);
        let st = opj::opj_stream_create(1 << 16, 0);
        opj::opj_stream_set_user_data(st, &mut out as *mut _ as *mut _, None);
        opj::opj_stream_set_write_function(st, Some(wr));
        opj::opj_stream_set_skip_function(st, Some(skip));
        opj::opj_stream_set_seek_function(st, Some(seek));
        assert_eq!(opj::opj_start_compress(codec, img, st), 1);
        assert_eq!(opj::opj_encode(codec, st), 1);
        assert_eq!(opj::opj_end_compress(codec, st), 1);
        opj::opj_stream_destroy(st);
        opj::opj_destroy_codec(codec);
        opj::opj_image_destroy(img);
        out.0
    }
}

// ------------------------------------------------------------------------------------ JPEG
/// A baseline JPEG whose every 8x8 block is constant: the DC-only inverse DCT is exact, so the
/// decoder's output is known exactly. `planes[c]` holds block values, row major,
/// `bw(c) x bh(c)` blocks; `samp[c]` the sampling factors.
pub struct Jpeg {
    pub w: usize,
    pub h: usize,
    pub comps: Vec<JpegComp>,
    pub restart: bool,
    /// component identifiers: 0 = 1,2,3; 1 = 'R','G','B'; 2 = 0,1,2
    pub ids: u8,
    /// application marker: 0 none, 1 JFIF, 2 + t an Adobe marker with transform t. Neither may
    /// override what PhotometricInterpretation says.
    pub app: u8,
    /// which tables: bits 0-1 quantiser, 2-5 order of the Huffman symbols, 6 length of the codes
    pub var: u8,
}
pub struct JpegComp {
    pub hs: usize,
    pub vs: usize,
    /// block value at (bx, by) in this component's block grid
    pub blocks: Vec<u8>,
    pub bw: usize,
}
impl Jpeg {
    /// size in MCUs
    pub fn mcus(w: usize, h: usize, hmax: usize, vmax: usize) -> (usize, usize) {
        (w.div_ceil(8 * hmax), h.div_ceil(8 * vmax))
    }
    fn seg(o: &mut Vec<u8>, m: u8, d: &[u8]) {
        o.extend([0xFF, m]);
        o.extend(((d.len() + 2) as u16).to_be_bytes());
        o.extend_from_slice(d);
    }
    fn dc_len(&self) -> u32 { 4 + (self.var as u32 >> 6 & 1) }
    /// the DC symbol with code k
    fn dc_sym(&self, k: u8) -> u8 { (k + (self.var >> 2 & 15)) % 12 }
    fn tables(&self, o: &mut Vec<u8>) {
        let mut q = vec![0u8];
        q.extend([1u8 << (self.var & 3); 64]);
        Self::seg(o, 0xDB, &q);
        // DC: 12 symbols, all with codes 0..11 of 4 or 5 bits
        let mut d = vec![0x00u8];
        let mut cnt = [0u8; 16];
        cnt[self.dc_len() as usize - 1] = 12;
        d.extend(cnt);
        d.extend((0u8..12).map(|k| self.dc_sym(k)));
        Self::seg(o, 0xC4, &d);
        // AC: EOB only, code '0'
        let mut a = vec![0x10u8];
        let mut cnt = [0u8; 16];
        cnt[0] = 1;
        a.extend(cnt);
        a.push(0);
        Self::seg(o, 0xC4, &a);
    }
    /// A JPEGTables stream that differs from what `tables` writes.
    pub fn other_tables() -> Vec<u8> {
        let mut o = vec![0xFF, 0xD8];
        let mut q = vec![0u8];
        q.extend([3u8; 64]);
        Self::seg(&mut o, 0xDB, &q);
        let mut d = vec![0x00u8];
        let mut cnt = [0u8; 16];
        cnt[5] = 12;
        d.extend(cnt);
        d.extend((0u8..12).rev());
        Self::seg(&mut o, 0xC4, &d);
        o.extend([0xFF, 0xD9]);
        o
    }
    fn id(&self, i: usize) -> u8 {
        match self.ids { 1 => b"RGBK"[i], 2 => i as u8, _ => i as u8 + 1 }
    }
    fn apps(&self, o: &mut Vec<u8>) {
        match self.app {
            0 => {}
            1 => Self::seg(o, 0xE0, b"JFIF\0\x01\x01\0\0\x01\0\x01\0\0"),
            t => {
                let mut d = b"Adobe\0\x64\0\0\0\0".to_vec();
                d.push(t - 2);
                Self::seg(o, 0xEE, &d)
            }
        }
    }
    /// (JPEGTables tag content, abbreviated tile stream)
    pub fn abbreviated(&self) -> (Vec<u8>, Vec<u8>) {
        let mut t = vec![0xFF, 0xD8];
        self.tables(&mut t);
        t.extend([0xFF, 0xD9]);
        let mut o = vec![0xFF, 0xD8];
        self.apps(&mut o);
        self.body(&mut o);
        (t, o)
    }
    pub fn full(&self) -> Vec<u8> {
        let mut o = vec![0xFF, 0xD8];
        self.apps(&mut o);
        self.tables(&mut o);
        self.body(&mut o);
        o
    }
    fn body(&self, o: &mut Vec<u8>) {
        let mut f = vec![8u8];
        f.extend((self.h as u16).to_be_bytes());
        f.extend((self.w as u16).to_be_bytes());
        f.push(self.comps.len() as u8);
        for (i, c) in self.comps.iter().enumerate() {
            f.extend([self.id(i), (c.hs << 4 | c.vs) as u8, 0]);
        }
        Self::seg(o, 0xC0, &f);
        if self.restart {
            Self::seg(o, 0xDD, &[0, 1]);
        }
        let mut s = vec![self.comps.len() as u8];
        for i in 0..self.comps.len() {
            s.extend([self.id(i), 0]);
        }
        s.extend([0, 63, 0]);
        Self::seg(o, 0xDA, &s);
        let mut bits = BitW { o, acc: 0, n: 0 };
        let single = self.comps.len() == 1;
        let hm = if single { 1 } else { self.comps.iter().map(|c| c.hs).max().unwrap() };
        let vm = if single { 1 } else { self.comps.iter().map(|c| c.vs).max().unwrap() };
        let (mx, my) = Self::mcus(self.w, self.h, hm, vm);
        let mut pred = vec![0i32; self.comps.len()];
        let mut k = 0;
        for y in 0..my {
            for x in 0..mx {
                if self.restart && k > 0 {
                    bits.flush();
                    bits.o.extend([0xFF, 0xD0 + ((k - 1) % 8) as u8]);
                    pred.iter_mut().for_each(|p| *p = 0);
                }
                k += 1;
                for (ci, c) in self.comps.iter().enumerate() {
                    let (hs, vs) = if single { (1, 1) } else { (c.hs, c.vs) };
                    for by in 0..vs {
                        for bx in 0..hs {
                            let v = c.blocks[(y * vs + by) * c.bw + x * hs + bx];
                            let dc = 8 * (v as i32 - 128) / (1 << (self.var & 3));
                            let diff = dc - pred[ci];
                            pred[ci] = dc;
                            let cat = 32 - diff.unsigned_abs().leading_zeros();
                            bits.put((0..12).find(|k| self.dc_sym(*k) as u32 == cat).unwrap() as u32, self.dc_len());
                            if cat > 0 {
                                let m = if diff < 0 { diff + (1 << cat) - 1 } else { diff };
                                bits.put(m as u32, cat);
                            }
                            bits.put(0, 1); // EOB
                        }
                    }
                }
            }
        }
        bits.flush();
        o.extend([0xFF, 0xD9]);
    }
}
struct BitW<'a> {
    o: &'a mut Vec<u8>,
    acc: u32,
    n: u32,
}
impl BitW<'_> {
    fn put(&mut self, v: u32, n: u32) {
        for i in (0..n).rev() {
            self.acc = self.acc << 1 | (v >> i & 1);
            self.n += 1;
            if self.n == 8 {
                let b = self.acc as u8;
                self.o.push(b);
                if b == 0xFF {
                    self.o.push(0);
                }
                self.acc = 0;
                self.n = 0;
            }
        }
    }
    fn flush(&mut self) {
        while self.n != 0 {
            self.put(1, 1);
        }
    }
}

/// Reference YCbCr -> RGB (JFIF)
pub fn ycc(y: u8, cb: u8, cr: u8) -> [f64; 3] {
    let (y, cb, cr) = (y as f64, cb as f64 - 128.0, cr as f64 - 128.0);
    [y + 1.402 * cr, y - 0.344136 * cb - 0.714136 * cr, y + 1.772 * cb].map(|v| v.clamp(0.0, 255.0))
}
