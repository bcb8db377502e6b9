//! C17: arrays and typed views. C18: tag value conversions.
use crate::ensure;
use crate::image::*;
use crate::io::*;
use crate::props::tiles::{open, rand_model};
use crate::rng::{hash_bytes, Rng};
use crate::run::*;
use crate::tiffmodel::*;
use async_tiff::decoder::{Decoder, DecoderRegistry};
use async_tiff::error::AsyncTiffResult;
use async_tiff::ndarray::NdArray;
use async_tiff::tags::{Compression, PhotometricInterpretation};
use async_tiff::{Array, DataType, TagValue, TypedArray};
use bytes::Bytes;
use serde_json::json;

/// Bit patterns of the elements, by variant.
fn elements(t: &TypedArray) -> Vec<u64> {
    match t {
        TypedArray::Bool(v) => v.iter().map(|x| *x as u64).collect(),
        TypedArray::UInt8(v) => v.iter().map(|x| *x as u64).collect(),
        TypedArray::UInt16(v) => v.iter().map(|x| *x as u64).collect(),
        TypedArray::UInt32(v) => v.iter().map(|x| *x as u64).collect(),
        TypedArray::UInt64(v) => v.clone(),
        TypedArray::Int8(v) => v.iter().map(|x| *x as u8 as u64).collect(),
        TypedArray::Int16(v) => v.iter().map(|x| *x as u16 as u64).collect(),
        TypedArray::Int32(v) => v.iter().map(|x| *x as u32 as u64).collect(),
        TypedArray::Int64(v) => v.iter().map(|x| *x as u64).collect(),
        TypedArray::Float32(v) => v.iter().map(|x| x.to_bits() as u64).collect(),
        TypedArray::Float64(v) => v.iter().map(|x| x.to_bits()).collect(),
    }
}

fn nd(a: Array) -> Result<(DataType, Vec<usize>, Vec<((usize, usize, usize), u64)>), String> {
    let n = NdArray::try_from(a).map_err(|e| format!("NdArray::try_from: {e}"))?;
    macro_rules! go { ($d:expr, $a:expr, $f:expr) => { ($d, $a.shape().to_vec(), $a.indexed_iter().map(|(i, x)| (i, $f(x))).collect()) }; }
    Ok(match &n {
        NdArray::Bool(a) => go!(DataType::Bool, a, |x: &bool| *x as u64),
        NdArray::Uint8(a) => go!(DataType::UInt8, a, |x: &u8| *x as u64),
        NdArray::Uint16(a) => go!(DataType::UInt16, a, |x: &u16| *x as u64),
        NdArray::Uint32(a) => go!(DataType::UInt32, a, |x: &u32| *x as u64),
        NdArray::Uint64(a) => go!(DataType::UInt64, a, |x: &u64| *x),
        NdArray::Int8(a) => go!(DataType::Int8, a, |x: &i8| *x as u8 as u64),
        NdArray::Int16(a) => go!(DataType::Int16, a, |x: &i16| *x as u16 as u64),
        NdArray::Int32(a) => go!(DataType::Int32, a, |x: &i32| *x as u32 as u64),
        NdArray::Int64(a) => go!(DataType::Int64, a, |x: &i64| *x as u64),
        NdArray::Float32(a) => go!(DataType::Float32, a, |x: &f32| x.to_bits() as u64),
        NdArray::Float64(a) => go!(DataType::Float64, a, |x: &f64| x.to_bits()),
    })
}

#[derive(Debug)]
struct Fixed(Vec<u8>, usize);
impl Decoder for Fixed {
    fn decode_tile(&self, _b: Bytes, _: PhotometricInterpretation, _: Option<&[u8]>, _: u16, _: u16, _: Option<&[u32]>) -> AsyncTiffResult<Vec<u8>> {
        let mut v = Vec::with_capacity(self.0.len() + self.1);
        v.extend_from_slice(&self.0);
        Ok(v)
    }
}

pub fn unpack_native(b: &[u8], d: DataType) -> Vec<u64> {
    match bits(d) / 8 {
        2 => b.chunks_exact(2).map(|c| u16::from_ne_bytes(c.try_into().unwrap()) as u64).collect(),
        4 => b.chunks_exact(4).map(|c| u32::from_ne_bytes(c.try_into().unwrap()) as u64).collect(),
        8 => b.chunks_exact(8).map(|c| u64::from_ne_bytes(c.try_into().unwrap())).collect(),
        _ => b.iter().map(|x| *x as u64).collect(),
    }
}

/// Array self-consistency, whatever produced it.
pub fn consistent(a: &Array, ctx: &str) -> Case {
    let n: usize = a.shape().iter().product();
    ensure!(a.data().len() == n, "{ctx}: {} elements for shape {:?}", a.data().len(), a.shape());
    ensure!(a.data().is_empty() == (n == 0), "{ctx}: is_empty is {} for {n} elements", a.data().is_empty());
    let v = variant(a.data());
    ensure!(v == a.data_type().unwrap_or(DataType::UInt8), "{ctx}: variant {v:?} for data type {:?}", a.data_type());
    let b: &[u8] = a.data().as_ref();
    ensure!(b.len() == n * v.size(), "{ctx}: byte view of {} bytes for {n} elements of {v:?}", b.len());
    Ok(())
}

pub fn c17(mut r: Runner) -> i32 {
    r.rule("case = one byte buffer turned into a typed array, or one decoded tile with a decoder output of chosen length, checked element by element and through ndarray; distinct by (type, length, shape, content)");
    r.require(&["typed_arrays_compared", "bad_lengths_rejected", "bool_rejected", "decoded_arrays_checked", "ndarray_elements_compared", "wrong_size_outputs", "bool_arrays", "empty_typed", "large_arrays", "spare_bits_ignored"]);
    r.family("typed", 8000, 100000, |rng, obs, _| {
        let d = match rng.below(13) { 12 => None, k => Some(DTYPES[(k as usize) % 11]) };
        let n = match rng.below(4) { _ if rng.chance(1, 100) => rng.us(65000, 140000), 0 => rng.us(0, 9), 1 => 8 * rng.us(0, 40), _ => rng.us(0, 400) };
        let data = rng.bytes(n);
        let cap = match rng.below(4) { 0 => 0, 1 => rng.us(0, 5000), _ => rng.us(0, 9) };
        let mut v = Vec::with_capacity(n + cap);
        v.extend_from_slice(&data);
        let ctx = format!("TypedArray::try_new of {n} bytes (capacity {}) as {d:?}", v.capacity());
        obs.sign(&format!("{d:?}{n}{}", hash_bytes(&data)));
        obs.sample(|| ctx.clone());
        let res = TypedArray::try_new(v, d);
        if d == Some(DataType::Bool) {
            // one bit or one byte per element is ambiguous here
            ensure!(res.is_err(), "{ctx}: succeeded");
            obs.hit("bool_rejected");
            return Ok(());
        }
        let dt = d.unwrap_or(DataType::UInt8);
        let size = bits(dt) as usize / 8;
        ensure!(dt.size() == size, "{dt:?}.size() is {}", dt.size());
        if n % size != 0 {
            ensure!(res.is_err(), "{ctx}: succeeded although {n} is not a multiple of {size}");
            obs.hit("bad_lengths_rejected");
            return Ok(());
        }
        let a = res.map_err(|e| format!("{ctx}: {e}"))?;
        ensure!(variant(&a) == dt, "{ctx}: variant {:?}", variant(&a));
        ensure!(a.len() == n / size, "{ctx}: len {}", a.len());
        ensure!(a.is_empty() == (n == 0), "{ctx}: is_empty {}", a.is_empty());
        if n == 0 { obs.hit("empty_typed"); }
        ensure!(elements(&a) == unpack_native(&data, dt), "{ctx}: elements differ");
        let b: &[u8] = a.as_ref();
        ensure!(b == data, "{ctx}: byte view differs");
        obs.hit("typed_arrays_compared");
        Ok(())
    });
    r.family("decoded", 4000, 60000, |rng, obs, _| {
        let mut m = rand_model(rng);
        m.en = if cfg!(target_endian = "little") { En::Le } else { En::Be };
        let mut s = rand_spec(rng);
        s.pred = None;
        s.comp = Compression::None;
        s.w = s.tw;
        s.h = s.th;
        if rng.chance(1, 4) { s.tw = if s.dtype == DataType::Bool { 8 } else { 1 }; s.w = s.tw; }
        if rng.chance(1, 60) { s.tw = *rng.pick(&[256, 264, 512, 1024]); s.th = *rng.pick(&[64, 256, 257]); s.spp = s.spp.min(3); s.w = s.tw; s.h = s.th; obs.hit("large_arrays"); }
        let img = add_image(rng, &mut m, s.clone());
        let exact = {
            let per = s.tw as usize * s.th as usize * bits(s.dtype) as usize;
            if s.planar { per.div_ceil(8) } else { (per * s.spp as usize).div_ceil(8) }
        };
        let len = match rng.below(4) { 0 => rng.us(0, exact * 2), 1 => exact + rng.us(0, 9), 2 => exact.saturating_sub(rng.us(0, 9)), _ => exact };
        let out = rng.bytes(len);
        let mut reg = DecoderRegistry::empty();
        let cap = rng.us(0, 16);
        reg.as_mut().insert(Compression::None, Box::new(Fixed(out.clone(), cap)));
        let built = m.build(rng);
        let mem = Mem::new(built.file);
        let t = block_on(async { let t = open(&mem, false).await?; t.ifds()[img.ifd].fetch_tile(0, 0, &mem).await.map_err(|e| e.to_string()) })?;
        let ctx = format!("decoder output of {len} bytes (exact {exact}) for {}", s.describe());
        obs.sign(&format!("{}{len}", s.sig(&m)));
        obs.sample(|| ctx.clone());
        match t.decode(&reg) {
            Err(e) => {
                ensure!(len != exact, "{ctx}: {e}");
                // whole extra bytes behind one-bit samples do no harm
                ensure!(!(s.dtype == DataType::Bool && !s.planar && len > exact), "{ctx}: enough bits, but: {e}");
                obs.hit("wrong_size_outputs");
            }
            Ok(a) => {
                consistent(&a, &ctx)?;
                ensure!(a.shape() == s.shape(), "{ctx}: shape {:?}", a.shape());
                ensure!(a.data_type() == Some(s.dtype), "{ctx}: data type {:?}", a.data_type());
                let n: usize = s.shape().iter().product();
                let el = elements(a.data());
                if len == exact || (s.dtype == DataType::Bool && !s.planar && len > exact) {
                    if len > exact { obs.hit("spare_bits_ignored"); }
                    let mut raw = vec![];
                    for _ in 0..if s.planar { s.spp as usize } else { 1 } { raw.extend_from_slice(&out); }
                    let want: Vec<u64> = if s.dtype == DataType::Bool {
                        obs.hit("bool_arrays");
                        (0..n).map(|i| (raw[i / 8] >> (7 - i % 8) & 1) as u64).collect()
                    } else {
                        unpack_native(&raw, s.dtype)
                    };
                    ensure!(el == want, "{ctx}: elements differ at {:?}", el.iter().zip(&want).position(|(a, b)| a != b));
                    let b: &[u8] = a.data().as_ref();
                    ensure!(b == native(&want, s.dtype), "{ctx}: byte view differs");
                } else {
                    obs.hit("wrong_size_outputs");
                }
                obs.hit("decoded_arrays_checked");
                let sh = a.shape();
                let (td, ts, tt) = a.clone().into_inner();
                ensure!(ts == sh && tt == a.data_type() && elements(&td) == el, "{ctx}: into_inner differs");
                let (d, shape, idx) = nd(a).map_err(|e| format!("{ctx}: {e}"))?;
                ensure!(d == s.dtype && shape == sh, "{ctx}: ndarray {d:?} {shape:?}");
                ensure!(idx.len() == n, "{ctx}: ndarray of {} elements", idx.len());
                for ((i, j, k), v) in idx {
                    let lin = (i * sh[1] + j) * sh[2] + k;
                    ensure!(v == el[lin], "{ctx}: ndarray[{i},{j},{k}] = {v:#x}, element {lin} is {:#x}", el[lin]);
                    obs.hit("ndarray_elements_compared");
                }
            }
        }
        Ok(())
    });
    r.finish("exploration", json!({}))
}

// ------------------------------------------------------------------------------------ C18
#[derive(Clone, Debug, PartialEq)]
enum Num {
    I(i128),
    F32(u32),
    F64(u64),
}
/// The numbers a scalar stands for (rationals: numerator, denominator; text: code points).
fn numbers(v: &TagValue) -> Vec<Num> {
    use TagValue as T;
    match v {
        T::Byte(x) => vec![Num::I(*x as i128)],
        T::Short(x) => vec![Num::I(*x as i128)],
        T::SignedByte(x) => vec![Num::I(*x as i128)],
        T::SignedShort(x) => vec![Num::I(*x as i128)],
        T::Signed(x) => vec![Num::I(*x as i128)],
        T::SignedBig(x) => vec![Num::I(*x as i128)],
        T::Unsigned(x) | T::Ifd(x) => vec![Num::I(*x as i128)],
        T::UnsignedBig(x) | T::IfdBig(x) => vec![Num::I(*x as i128)],
        T::Float(x) => vec![Num::F32(x.to_bits())],
        T::Double(x) => vec![Num::F64(x.to_bits())],
        T::Rational(a, b) => vec![Num::I(*a as i128), Num::I(*b as i128)],
        T::RationalBig(a, b) => vec![Num::I(*a as i128), Num::I(*b as i128)],
        T::SRational(a, b) => vec![Num::I(*a as i128), Num::I(*b as i128)],
        T::SRationalBig(a, b) => vec![Num::I(*a as i128), Num::I(*b as i128)],
        T::Ascii(s) => s.chars().map(|c| Num::I(c as u32 as i128)).collect(),
        T::List(l) => l.iter().flat_map(numbers).collect(),
        _ => vec![],
    }
}
/// (signed?, bits) of plain integer scalars
fn int_kind(v: &TagValue) -> Option<(bool, u32)> {
    use TagValue as T;
    Some(match v {
        T::Byte(_) => (false, 8),
        T::Short(_) => (false, 16),
        T::Unsigned(_) => (false, 32),
        T::UnsignedBig(_) => (false, 64),
        T::SignedByte(_) => (true, 8),
        T::SignedShort(_) => (true, 16),
        T::Signed(_) => (true, 32),
        T::SignedBig(_) => (true, 64),
        _ => return None,
    })
}
fn is_ifd(v: &TagValue) -> bool {
    matches!(v, TagValue::Ifd(_) | TagValue::IfdBig(_))
}
fn fits(v: &TagValue, signed: bool, b: u32) -> bool {
    let (lo, hi) = if signed { (-(1i128 << (b - 1)), (1i128 << (b - 1)) - 1) } else { (0, (1i128 << b) - 1) };
    numbers(v).iter().all(|n| matches!(n, Num::I(x) if *x >= lo && *x <= hi))
}
/// Must a conversion of the scalar to this integer type succeed?
fn must(v: &TagValue, signed: bool, b: u32) -> bool {
    match int_kind(v) {
        Some((s, w)) => s == signed && fits(v, signed, b) && (b > 8 || w == 8),
        None => is_ifd(v) && !signed && b >= 32 && fits(v, false, b),
    }
}
fn must_vec(v: &TagValue, signed: bool, b: u32) -> bool {
    match v {
        TagValue::List(l) => l.iter().all(|e| must(e, signed, b)),
        // a single wide value converted to a vector of 16-bit values may be rejected
        _ if b == 16 => must(v, signed, b) && int_kind(v).is_some_and(|k| k.1 <= 16),
        _ => must(v, signed, b),
    }
}

fn scalar(rng: &mut Rng, k: u64) -> TagValue {
    use TagValue as T;
    let u = |rng: &mut Rng, b: u32| if rng.chance(1, 3) { let s = rng.range(1, b as u64); rng.edgy(64) & ((1u128 << s) - 1) as u64 } else { rng.edgy(b) };
    // signed values near zero and near the limits of narrower types
    let i = |rng: &mut Rng| -> i64 {
        match rng.below(4) {
            0 => rng.range(0, 600) as i64 - 300,
            1 => { let p = *rng.pick(&[7u32, 8, 15, 16, 31, 32]); let d = rng.range(0, 4) as i64 - 2; let x = (1i64 << p) + d; if rng.chance(1, 2) { -x } else { x } }
            _ => rng.edgy(64) as i64,
        }
    };
    match k {
        0 => T::Byte(rng.u8()),
        1 => T::Short(u(rng, 16) as u16),
        2 => T::SignedByte(i(rng) as i8),
        3 => T::SignedShort(i(rng) as i16),
        4 => T::Signed(i(rng) as i32),
        5 => T::SignedBig(i(rng)),
        6 => T::Unsigned(if rng.chance(1, 2) { (i(rng) as u64 & 0x1ffff) as u32 } else { u(rng, 32) as u32 }),
        7 => T::UnsignedBig(if rng.chance(1, 2) { i(rng) as u64 & 0x1_ffff_ffff } else { u(rng, 64) }),
        8 => T::Float(f32::from_bits(rng.u32())),
        9 => T::Double(if rng.chance(1, 2) { f64::from_bits(rng.u64()) } else { i(rng) as f64 }),
        10 => T::Rational(u(rng, 32) as u32, u(rng, 32) as u32),
        11 => T::RationalBig(u(rng, 64), u(rng, 64)),
        12 => T::SRational(i(rng) as i32, i(rng) as i32),
        13 => T::SRationalBig(i(rng), i(rng)),
        14 => { let n = rng.us(0, 6); T::Ascii((0..n).map(|_| *rng.pick(&['a', 'Z', '0', ' ', '\u{e9}', '\u{20ac}', '\u{1f600}'])).collect()) }
        15 => T::Ifd(u(rng, 32) as u32),
        _ => T::IfdBig(if rng.chance(1, 2) { u(rng, 32) } else { u(rng, 64) }),
    }
}

pub fn c18(mut r: Runner) -> i32 {
    r.rule("case = one tag value pushed through all 20 conversions; results compared with the mathematical value, acceptance with the table 'own or same-signedness type that fits'; distinct by value");
    r.require(&["conversions_ok_equal", "conversions_rejected", "required_conversions", "overflow_rejected", "list_conversions", "rational_pairs"]);
    let go = |obs: &mut Obs, v: TagValue| -> Case {
        let list = matches!(v, TagValue::List(_));
        let want = numbers(&v);
        obs.sign(&format!("{v:?}"));
        obs.sample(|| format!("{v:?}"));
        macro_rules! int { ($f:ident, $signed:expr, $b:expr) => {{
            let r = no_panic(|| v.clone().$f()).map_err(|e| format!("{v:?}.{}(): {e}", stringify!($f)))?;
            match r {
                Ok(x) => {
                    ensure!(!list, "{v:?}.{}() = {x}: a list converted to a scalar", stringify!($f));
                    ensure!(want == vec![Num::I(x as i128)], "{v:?}.{}() = {x}", stringify!($f));
                    obs.hit("conversions_ok_equal");
                    if must(&v, $signed, $b) { obs.hit("required_conversions"); }
                }
                Err(e) => {
                    ensure!(!(must(&v, $signed, $b) && !list), "{v:?}.{}() fails: {e}", stringify!($f));
                    obs.hit("conversions_rejected");
                    if int_kind(&v).is_some_and(|k| k.0 == $signed) && !fits(&v, $signed, $b) { obs.hit("overflow_rejected"); }
                }
            }
        }}; }
        int!(into_u8, false, 8); int!(into_i8, true, 8);
        int!(into_u16, false, 16); int!(into_i16, true, 16);
        int!(into_u32, false, 32); int!(into_i32, true, 32);
        int!(into_u64, false, 64); int!(into_i64, true, 64);
        macro_rules! vecs { ($f:ident, $signed:expr, $b:expr) => {{
            let r = no_panic(|| v.clone().$f()).map_err(|e| format!("{v:?}.{}(): {e}", stringify!($f)))?;
            match r {
                Ok(x) => {
                    let got: Vec<Num> = x.iter().map(|x| Num::I(*x as i128)).collect();
                    ensure!(got == want, "{v:?}.{}() = {x:?}", stringify!($f));
                    obs.hit("conversions_ok_equal");
                    if list { obs.hit("list_conversions"); }
                    if want.len() == 2 && !list { obs.hit("rational_pairs"); }
                }
                Err(e) => {
                    ensure!(!must_vec(&v, $signed, $b), "{v:?}.{}() fails: {e}", stringify!($f));
                    obs.hit("conversions_rejected");
                }
            }
        }}; }
        vecs!(into_u8_vec, false, 8); vecs!(into_u16_vec, false, 16); vecs!(into_u32_vec, false, 32); vecs!(into_u64_vec, false, 64);
        vecs!(into_i32_vec, true, 32); vecs!(into_i64_vec, true, 64);
        // rationals convert to their pair of components
        match &v {
            TagValue::Rational(..) => { ensure!(v.clone().into_u32_vec().is_ok() && v.clone().into_u64_vec().is_ok(), "{v:?} has no component vector"); }
            TagValue::SRational(..) => { ensure!(v.clone().into_i32_vec().is_ok() && v.clone().into_i64_vec().is_ok(), "{v:?} has no component vector"); }
            TagValue::Ascii(..) => { ensure!(v.clone().into_u32_vec().is_ok(), "{v:?} has no code points"); }
            _ => {}
        }
        let items: Vec<&TagValue> = if let TagValue::List(l) = &v { l.iter().collect() } else { vec![&v] };
        let all32 = items.iter().all(|n| matches!(n, TagValue::Float(_)));
        let all64 = items.iter().all(|n| matches!(n, TagValue::Double(_)));
        let same = |n: &Num, f: f64| match n { Num::I(i) => f == *i as f64, Num::F32(b) => f == f32::from_bits(*b) as f64, Num::F64(b) => f == f64::from_bits(*b) };
        match v.clone().into_f32() {
            Ok(x) => { ensure!(!list && want.len() == 1 && (want == vec![Num::F32(x.to_bits())] || same(&want[0], x as f64)), "{v:?}.into_f32() = {x}"); obs.hit("conversions_ok_equal"); }
            Err(e) => ensure!(list || !all32, "{v:?}.into_f32() fails: {e}"),
        }
        match v.clone().into_f64() {
            Ok(x) => { ensure!(!list && want.len() == 1 && (want == vec![Num::F64(x.to_bits())] || same(&want[0], x)), "{v:?}.into_f64() = {x}"); obs.hit("conversions_ok_equal"); }
            Err(e) => ensure!(list || !all64, "{v:?}.into_f64() fails: {e}"),
        }
        match v.clone().into_f32_vec() {
            Ok(x) => { ensure!(x.len() == want.len() && x.iter().zip(&want).all(|(f, n)| *n == Num::F32(f.to_bits()) || same(n, *f as f64)), "{v:?}.into_f32_vec() = {x:?}"); obs.hit("conversions_ok_equal"); }
            Err(e) => ensure!(!all32 , "{v:?}.into_f32_vec() fails: {e}"),
        }
        match v.clone().into_f64_vec() {
            Ok(x) => { ensure!(x.len() == want.len() && x.iter().zip(&want).all(|(f, n)| *n == Num::F64(f.to_bits()) || same(n, *f)), "{v:?}.into_f64_vec() = {x:?}"); obs.hit("conversions_ok_equal"); }
            Err(e) => ensure!(!all64, "{v:?}.into_f64_vec() fails: {e}"),
        }
        match (v.clone().into_string(), &v) {
            (Ok(s), TagValue::Ascii(t)) => { ensure!(&s == t, "{v:?}.into_string() = {s:?}"); obs.hit("conversions_ok_equal"); }
            (Ok(s), _) => return Err(format!("{v:?}.into_string() = {s:?}")),
            (Err(e), TagValue::Ascii(_)) => return Err(format!("{v:?}.into_string() fails: {e}")),
            _ => obs.hit("conversions_rejected"),
        }
        Ok(())
    };
    r.family("scalars", 30000, 400000, |rng, obs, i| { let v = scalar(rng, i % 17); go(obs, v) });
    r.family("lists", 20000, 300000, |rng, obs, i| {
        let n = match rng.below(3000) { 0 => rng.us(60000, 70000), 1..=20 => rng.us(100, 700), _ => rng.us(0, 8) };
        let k = i % 17;
        let mixed = rng.chance(1, 4);
        let small = rng.chance(1, 3);
        let v = (0..n).map(|_| {
            let kk = if mixed { rng.below(17) } else { k };
            if small { match kk { 5 => TagValue::SignedBig(rng.range(0, 200) as i64 - 100), 6 => TagValue::Unsigned(rng.below(60000) as u32), 7 => TagValue::UnsignedBig(rng.below(60000)), 4 => TagValue::Signed(rng.range(0, 200) as i32 - 100), 16 => TagValue::IfdBig(rng.below(60000)), _ => scalar(rng, kk) } } else { scalar(rng, kk) }
        }).collect();
        go(obs, TagValue::List(v))
    });
    r.finish("exploration", json!({}))
}
