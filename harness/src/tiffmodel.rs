//! Independent TIFF writer: builds classic/BigTIFF files in either byte order from an abstract
//! model, with randomised physical layout. It is the generator side of the oracle: nothing here
//! uses async-tiff's parsing code.
use crate::io::Sparse;
use crate::rng::Rng;
use async_tiff::TagValue;

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum En {
    Le,
    Be,
}
impl En {
    pub fn u16(self, v: u16) -> [u8; 2] {
        match self {
            En::Le => v.to_le_bytes(),
            En::Be => v.to_be_bytes(),
        }
    }
    pub fn u32(self, v: u32) -> [u8; 4] {
        match self {
            En::Le => v.to_le_bytes(),
            En::Be => v.to_be_bytes(),
        }
    }
    pub fn u64(self, v: u64) -> [u8; 8] {
        match self {
            En::Le => v.to_le_bytes(),
            En::Be => v.to_be_bytes(),
        }
    }
    pub fn rt(self) -> async_tiff::reader::Endianness {
        match self {
            En::Le => async_tiff::reader::Endianness::LittleEndian,
            En::Be => async_tiff::reader::Endianness::BigEndian,
        }
    }
}

/// Values of one IFD entry, typed. Floats are kept as bits.
#[derive(Clone, Debug, PartialEq)]
pub enum V {
    Byte(Vec<u8>),
    Ascii(Vec<u8>),
    Short(Vec<u16>),
    Long(Vec<u32>),
    Rational(Vec<(u32, u32)>),
    SByte(Vec<i8>),
    Undef(Vec<u8>),
    SShort(Vec<i16>),
    SLong(Vec<i32>),
    SRational(Vec<(i32, i32)>),
    Float(Vec<u32>),
    Double(Vec<u64>),
    Ifd(Vec<u32>),
    Long8(Vec<u64>),
    SLong8(Vec<i64>),
    Ifd8(Vec<u64>),
    /// raw entry: (type code, count, data bytes already in file order)
    Raw(u16, u64, Vec<u8>),
    /// raw inline entry: (type code, count, the value field bytes verbatim)
    RawInline(u16, u64, Vec<u8>),
    /// offsets of data blocks, resolved at layout time: (type code, block ids)
    Offsets(u16, Vec<usize>),
    /// An IFD-typed pointer to another block
    Blocks(u16, Vec<usize>),
}

impl V {
    pub fn ty(&self) -> u16 {
        match self {
            V::Byte(_) => 1,
            V::Ascii(_) => 2,
            V::Short(_) => 3,
            V::Long(_) => 4,
            V::Rational(_) => 5,
            V::SByte(_) => 6,
            V::Undef(_) => 7,
            V::SShort(_) => 8,
            V::SLong(_) => 9,
            V::SRational(_) => 10,
            V::Float(_) => 11,
            V::Double(_) => 12,
            V::Ifd(_) => 13,
            V::Long8(_) => 16,
            V::SLong8(_) => 17,
            V::Ifd8(_) => 18,
            V::Raw(t, ..) | V::RawInline(t, ..) | V::Offsets(t, _) | V::Blocks(t, _) => *t,
        }
    }
    pub fn count(&self) -> u64 {
        (match self {
            V::Byte(v) | V::Ascii(v) | V::Undef(v) => v.len(),
            V::Short(v) => v.len(),
            V::Long(v) | V::Ifd(v) => v.len(),
            V::Float(v) => v.len(),
            V::Rational(v) => v.len(),
            V::SByte(v) => v.len(),
            V::SShort(v) => v.len(),
            V::SLong(v) => v.len(),
            V::SRational(v) => v.len(),
            V::Double(v) | V::Long8(v) | V::Ifd8(v) => v.len(),
            V::SLong8(v) => v.len(),
            V::Raw(_, c, _) | V::RawInline(_, c, _) => return *c,
            V::Offsets(_, v) | V::Blocks(_, v) => v.len(),
        }) as u64
    }
    pub fn elem(ty: u16) -> usize {
        match ty {
            1 | 2 | 6 | 7 => 1,
            3 | 8 => 2,
            4 | 9 | 11 | 13 => 4,
            _ => 8,
        }
    }
    pub fn size(&self) -> usize {
        match self {
            V::Raw(_, _, d) | V::RawInline(_, _, d) => d.len(),
            _ => self.count() as usize * Self::elem(self.ty()),
        }
    }
    pub fn encode(&self, e: En, offs: &[u64]) -> Vec<u8> {
        let mut o = vec![];
        match self {
            V::Byte(v) | V::Ascii(v) | V::Undef(v) => o.extend_from_slice(v),
            V::Short(v) => v.iter().for_each(|x| o.extend(e.u16(*x))),
            V::Long(v) | V::Ifd(v) | V::Float(v) => v.iter().for_each(|x| o.extend(e.u32(*x))),
            V::Rational(v) => v.iter().for_each(|(a, b)| {
                o.extend(e.u32(*a));
                o.extend(e.u32(*b))
            }),
            V::SByte(v) => o.extend(v.iter().map(|x| *x as u8)),
            V::SShort(v) => v.iter().for_each(|x| o.extend(e.u16(*x as u16))),
            V::SLong(v) => v.iter().for_each(|x| o.extend(e.u32(*x as u32))),
            V::SRational(v) => v.iter().for_each(|(a, b)| {
                o.extend(e.u32(*a as u32));
                o.extend(e.u32(*b as u32))
            }),
            V::Double(v) | V::Long8(v) | V::Ifd8(v) => v.iter().for_each(|x| o.extend(e.u64(*x))),
            V::SLong8(v) => v.iter().for_each(|x| o.extend(e.u64(*x as u64))),
            V::Raw(_, _, d) | V::RawInline(_, _, d) => o.extend_from_slice(d),
            V::Offsets(t, ids) | V::Blocks(t, ids) => {
                for i in ids {
                    match Self::elem(*t) {
                        2 => o.extend(e.u16(offs[*i] as u16)),
                        4 => o.extend(e.u32(offs[*i] as u32)),
                        _ => o.extend(e.u64(offs[*i])),
                    }
                }
            }
        }
        o
    }
    /// The value a reader must report.
    pub fn expect(&self, offs: &[u64]) -> TagValue {
        use TagValue as T;
        fn l(mut v: Vec<TagValue>) -> TagValue {
            if v.len() == 1 {
                v.pop().unwrap()
            } else {
                TagValue::List(v)
            }
        }
        match self {
            V::Byte(v) | V::Undef(v) => l(v.iter().map(|x| T::Byte(*x)).collect()),
            V::Ascii(v) => {
                if v.is_empty() {
                    return T::List(vec![]);
                }
                let end = v.iter().position(|b| *b == 0).unwrap_or(v.len());
                T::Ascii(String::from_utf8_lossy(&v[..end]).into_owned())
            }
            V::Short(v) => l(v.iter().map(|x| T::Short(*x)).collect()),
            V::Long(v) => l(v.iter().map(|x| T::Unsigned(*x)).collect()),
            V::Ifd(v) => l(v.iter().map(|x| T::Ifd(*x)).collect()),
            V::Float(v) => l(v.iter().map(|x| T::Float(f32::from_bits(*x))).collect()),
            V::Rational(v) => l(v.iter().map(|x| T::Rational(x.0, x.1)).collect()),
            V::SByte(v) => l(v.iter().map(|x| T::SignedByte(*x)).collect()),
            V::SShort(v) => l(v.iter().map(|x| T::SignedShort(*x)).collect()),
            V::SLong(v) => l(v.iter().map(|x| T::Signed(*x)).collect()),
            V::SRational(v) => l(v.iter().map(|x| T::SRational(x.0, x.1)).collect()),
            V::Double(v) => l(v.iter().map(|x| T::Double(f64::from_bits(*x))).collect()),
            V::Long8(v) => l(v.iter().map(|x| T::UnsignedBig(*x)).collect()),
            V::SLong8(v) => l(v.iter().map(|x| T::SignedBig(*x)).collect()),
            V::Ifd8(v) => l(v.iter().map(|x| T::IfdBig(*x)).collect()),
            V::Offsets(t, ids) | V::Blocks(t, ids) => l(ids
                .iter()
                .map(|i| match t {
                    3 => T::Short(offs[*i] as u16),
                    4 => T::Unsigned(offs[*i] as u32),
                    13 => T::Ifd(offs[*i] as u32),
                    18 => T::IfdBig(offs[*i]),
                    _ => T::UnsignedBig(offs[*i]),
                })
                .collect()),
            V::Raw(..) | V::RawInline(..) => panic!("raw value has no expectation"),
        }
    }
}

/// Bit-exact TagValue equality (floats by bits).
pub fn tv_eq(a: &TagValue, b: &TagValue) -> bool {
    use TagValue as T;
    match (a, b) {
        (T::Float(x), T::Float(y)) => x.to_bits() == y.to_bits(),
        (T::Double(x), T::Double(y)) => x.to_bits() == y.to_bits(),
        (T::List(x), T::List(y)) => x.len() == y.len() && x.iter().zip(y).all(|(p, q)| tv_eq(p, q)),
        _ => a == b,
    }
}

#[derive(Clone, Debug)]
pub struct Entry {
    pub tag: u16,
    pub v: V,
}

#[derive(Clone, Debug, Default)]
pub struct Ifd {
    pub entries: Vec<Entry>,
}
impl Ifd {
    pub fn push(&mut self, tag: u16, v: V) {
        self.entries.push(Entry { tag, v });
    }
    pub fn get(&self, tag: u16) -> Option<&V> {
        self.entries.iter().find(|e| e.tag == tag).map(|e| &e.v)
    }
    pub fn remove(&mut self, tag: u16) {
        self.entries.retain(|e| e.tag != tag);
    }
    pub fn set(&mut self, tag: u16, v: V) {
        self.remove(tag);
        self.push(tag, v);
    }
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Layout {
    /// header, IFDs + values in chain order, then data blocks in order (COG)
    Cog,
    /// everything shuffled
    Shuffled,
    /// data first, metadata at the end
    Trailer,
    /// blocks scattered over a huge sparse address space (classic TIFF: up to 4 GiB)
    Huge,
}

#[derive(Clone, Debug)]
pub struct Model {
    pub en: En,
    pub big: bool,
    pub layout: Layout,
    pub ifds: Vec<Ifd>,
    /// data blocks (tile payloads), referenced by V::Offsets
    pub blocks: Vec<Vec<u8>>,
    /// where the chain goes after the last IFD: None = 0, Some(k) = back to ifd k (cycle)
    pub loop_to: Option<usize>,
    pub max_gap: u64,
    pub tail: u64,
}

pub struct Built {
    pub file: Sparse,
    pub ifd_offsets: Vec<u64>,
    pub block_offsets: Vec<u64>,
    /// end of the last metadata byte
    pub meta_end: u64,
    /// [start,end) of every out-of-line value block and IFD
    pub meta_ranges: Vec<(u64, u64)>,
    /// the IFD each of them belongs to
    pub meta_owner: Vec<usize>,
}

impl Model {
    pub fn new(en: En, big: bool) -> Self {
        Model {
            en,
            big,
            layout: Layout::Cog,
            ifds: vec![],
            blocks: vec![],
            loop_to: None,
            max_gap: 0,
            tail: 0,
        }
    }
    pub fn random_layout(rng: &mut Rng, big: bool) -> Layout {
        match rng.below(if big { 5 } else { 4 }) {
            _ if !big && rng.chance(1, 8) => Layout::Huge,
            0 => Layout::Cog,
            1 | 2 => Layout::Shuffled,
            3 => Layout::Trailer,
            _ => Layout::Huge,
        }
    }
    pub fn inline_cap(&self) -> usize {
        if self.big {
            8
        } else {
            4
        }
    }
    fn ifd_size(&self, i: &Ifd) -> u64 {
        if self.big {
            8 + 20 * i.entries.len() as u64 + 8
        } else {
            2 + 12 * i.entries.len() as u64 + 4
        }
    }
    pub fn build(&self, rng: &mut Rng) -> Built {
        #[derive(Clone, Copy, PartialEq)]
        enum B {
            Ifd(usize),
            Val(usize, usize),
            Data(usize),
        }
        let mut order: Vec<(B, u64)> = vec![];
        let mut data: Vec<(B, u64)> = vec![];
        for (i, ifd) in self.ifds.iter().enumerate() {
            order.push((B::Ifd(i), self.ifd_size(ifd)));
            for (j, e) in ifd.entries.iter().enumerate() {
                if !matches!(e.v, V::RawInline(..)) && e.v.size() > self.inline_cap() {
                    order.push((B::Val(i, j), e.v.size() as u64));
                }
            }
        }
        for (k, b) in self.blocks.iter().enumerate() {
            data.push((B::Data(k), b.len() as u64));
        }
        match self.layout {
            Layout::Cog => order.extend(data),
            Layout::Trailer => {
                data.extend(order);
                order = data;
            }
            Layout::Shuffled | Layout::Huge => {
                order.extend(data);
                rng.shuffle(&mut order);
            }
        }
        let hdr = if self.big { 16 } else { 8 };
        let mut pos: u64 = hdr;
        let mut ifd_off = vec![0u64; self.ifds.len()];
        let mut val_off: std::collections::HashMap<(usize, usize), u64> = Default::default();
        let mut blk_off = vec![0u64; self.blocks.len()];
        let mut meta_end = hdr;
        let mut meta_ranges = vec![];
        let mut meta_owner = vec![];
        let mut rest: u64 = order.iter().map(|(_, s)| s + 1).sum();
        let mut placed: Vec<(bool, u64)> = vec![];
        // values at odd offsets are legal; IFDs are word aligned as the spec asks, but many writers ignore that
        let align = !rng.chance(1, 6);
        for (b, sz) in &order {
            let gap = if self.layout == Layout::Huge && !self.big {
                let avail = (1u64 << 32) - 1 - self.tail - pos - rest;
                match rng.below(4) {
                    0 => rng.below(16).min(avail),
                    1 => { let k = rng.range(1, 32); rng.below((1 << k).min(avail + 1)) }
                    // straddle 2 GiB
                    2 if pos < 1 << 31 => ((1 << 31) - pos).saturating_sub(rng.below(200)).min(avail),
                    _ => 0,
                }
            } else if self.layout == Layout::Huge {
                let mine = matches!(b, B::Ifd(_));
                let same: Vec<u64> = placed.iter().filter(|(k, _)| *k == mine).map(|(_, p)| *p).collect();
                if !same.is_empty() && rng.chance(1, 4) {
                    // exactly a multiple of 4 GiB after an earlier block of the same kind
                    let p = *rng.pick(&same);
                    let mut t = p + (rng.range(1, 3) << 32);
                    while t < pos { t += 1 << 32; }
                    t - pos
                } else if rng.chance(1, 2) {
                    { let k = rng.range(1, 40); rng.below(1 << k) }
                } else {
                    rng.below(16)
                }
            } else if self.max_gap > 0 {
                rng.below(self.max_gap + 1)
            } else {
                0
            };
            pos += gap;
            if align && matches!(b, B::Ifd(_)) && pos % 2 == 1 {
                pos += 1;
            }
            match b {
                B::Ifd(i) => ifd_off[*i] = pos,
                B::Val(i, j) => {
                    val_off.insert((*i, *j), pos);
                }
                B::Data(k) => blk_off[*k] = pos,
            }
            rest -= sz + 1;
            placed.push((matches!(b, B::Ifd(_)), pos));
            if placed.len() > 64 { placed.remove(0); }
            if !matches!(b, B::Data(_)) {
                meta_end = meta_end.max(pos + sz);
                meta_ranges.push((pos, pos + sz));
                meta_owner.push(match b { B::Ifd(i) | B::Val(i, _) => *i, B::Data(_) => unreachable!() });
            }
            pos += sz;
        }
        let len = pos + self.tail;
        let e = self.en;
        let mut segs: Vec<(u64, bytes::Bytes)> = vec![];
        let mut h = vec![];
        h.extend(match e {
            En::Le => *b"II",
            En::Be => *b"MM",
        });
        let first = ifd_off.first().copied().unwrap_or(0);
        if self.big {
            h.extend(e.u16(43));
            h.extend(e.u16(8));
            h.extend(e.u16(0));
            h.extend(e.u64(first));
        } else {
            h.extend(e.u16(42));
            h.extend(e.u32(first as u32));
        }
        segs.push((0, h.into()));
        for (i, ifd) in self.ifds.iter().enumerate() {
            let mut o = vec![];
            if self.big {
                o.extend(e.u64(ifd.entries.len() as u64));
            } else {
                o.extend(e.u16(ifd.entries.len() as u16));
            }
            for (j, en) in ifd.entries.iter().enumerate() {
                o.extend(e.u16(en.tag));
                o.extend(e.u16(en.v.ty()));
                let d = en.v.encode(e, &blk_off);
                if self.big {
                    o.extend(e.u64(en.v.count()));
                } else {
                    o.extend(e.u32(en.v.count() as u32));
                }
                let cap = self.inline_cap();
                if d.len() <= cap {
                    // left-justified; the rest of the field is junk
                    let mut f = rng.bytes(cap);
                    f[..d.len()].copy_from_slice(&d);
                    o.extend(f);
                } else {
                    let off = val_off[&(i, j)];
                    if self.big {
                        o.extend(e.u64(off));
                    } else {
                        o.extend(e.u32(off as u32));
                    }
                    segs.push((off, d.into()));
                }
            }
            let next = if i + 1 < self.ifds.len() {
                ifd_off[i + 1]
            } else {
                self.loop_to.map(|k| ifd_off[k]).unwrap_or(0)
            };
            if self.big {
                o.extend(e.u64(next));
            } else {
                o.extend(e.u32(next as u32));
            }
            segs.push((ifd_off[i], o.into()));
        }
        for (k, b) in self.blocks.iter().enumerate() {
            segs.push((blk_off[k], b.clone().into()));
        }
        segs.sort_by_key(|(o, b)| (*o, b.len()));
        let file = Sparse { segs: segs.into(), len, junk: rng.u64() };
        // small files are made dense so that the sparse path is only used where it matters
        let file = if len < 1 << 20 {
            let junk = file.junk;
            let mut f = Sparse::dense(file.to_vec());
            f.junk = junk;
            f
        } else {
            file
        };
        Built { file, ifd_offsets: ifd_off, block_offsets: blk_off, meta_end, meta_ranges, meta_owner }
    }
}

/// Minimal set of tags from_tags needs, for IFDs whose image content is irrelevant.
pub fn basic_tags(rng: &mut Rng, ifd: &mut Ifd, w: u32, h: u32) {
    ifd.push(256, V::Long(vec![w]));
    ifd.push(257, V::Long(vec![h]));
    ifd.push(258, V::Short(vec![8]));
    ifd.push(262, V::Short(vec![1]));
    ifd.push(277, V::Short(vec![1]));
    let _ = rng;
}

pub fn rand_vals(rng: &mut Rng, ty: u16, n: usize) -> V {
    match ty {
        1 => V::Byte(rng.bytes(n)),
        2 => {
            if n == 0 {
                return V::Ascii(vec![]);
            }
            let mut v: Vec<u8> = (0..n - 1).map(|_| rng.range(1, 127) as u8).collect();
            v.push(0);
            V::Ascii(v)
        }
        3 => V::Short((0..n).map(|_| rng.edgy(16) as u16).collect()),
        4 => V::Long((0..n).map(|_| rng.edgy(32) as u32).collect()),
        5 => V::Rational((0..n).map(|_| (rng.edgy(32) as u32, rng.edgy(32) as u32)).collect()),
        6 => V::SByte((0..n).map(|_| rng.edgy(8) as i8).collect()),
        7 => V::Undef(rng.bytes(n)),
        8 => V::SShort((0..n).map(|_| rng.edgy(16) as i16).collect()),
        9 => V::SLong((0..n).map(|_| rng.edgy(32) as i32).collect()),
        10 => V::SRational((0..n).map(|_| (rng.edgy(32) as i32, rng.edgy(32) as i32)).collect()),
        11 => V::Float((0..n).map(|_| rng.u32()).collect()),
        12 => V::Double((0..n).map(|_| rng.u64()).collect()),
        13 => V::Ifd((0..n).map(|_| rng.edgy(32) as u32).collect()),
        16 => V::Long8((0..n).map(|_| rng.edgy(64)).collect()),
        17 => V::SLong8((0..n).map(|_| rng.edgy(64) as i64).collect()),
        18 => V::Ifd8((0..n).map(|_| rng.edgy(64)).collect()),
        _ => unreachable!(),
    }
}
pub const TYPES: [u16; 16] = [1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 16, 17, 18];
