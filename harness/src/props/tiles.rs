//! C01, C02: decoded pixels equal the pixels the file encodes.
use crate::ensure;
use crate::image::*;
use crate::io::*;
use crate::rng::Rng;
use crate::run::*;
use crate::tiffmodel::*;
use async_tiff::decoder::DecoderRegistry;
use async_tiff::metadata::cache::ReadaheadMetadataCache;
use async_tiff::metadata::TiffMetadataReader;
use async_tiff::tags::{Compression, Predictor};
use async_tiff::{Tile, TIFF};
use serde_json::json;

pub fn rand_model(rng: &mut Rng) -> Model {
    let big = rng.chance(1, 2);
    let mut m = Model::new(if rng.chance(1, 2) { En::Le } else { En::Be }, big);
    m.layout = Model::random_layout(rng, big);
    m.max_gap = *rng.pick(&[0, 0, 3, 64]);
    m.tail = *rng.pick(&[0, 0, 1, 100]);
    m
}

pub async fn open<F: async_tiff::metadata::MetadataFetch + Clone + Send + Sync>(mem: &F, cached: bool) -> Result<TIFF, String> {
    let r = if cached {
        let c = ReadaheadMetadataCache::new(mem.clone()).with_initial_size(256);
        let mut mr = TiffMetadataReader::try_open(&c).await.map_err(|e| format!("open: {e}"))?;
        mr.read(&c).await
    } else {
        let mut mr = TiffMetadataReader::try_open(mem).await.map_err(|e| format!("open: {e}"))?;
        mr.read(mem).await
    };
    r.map_err(|e| format!("metadata read failed: {e}"))
}

fn check_tile(t: Tile, x: usize, y: usize, img: &Img, reg: &DecoderRegistry, ctx: &str) -> Case {
    ensure!((t.x(), t.y()) == (x, y), "{ctx}: tile labelled ({},{}) for request ({x},{y})", t.x(), t.y());
    let (nx, _) = img.spec.grid();
    let a = t.decode(reg).map_err(|e| format!("{ctx}: tile ({x},{y}) decode failed: {e}"))?;
    check_array(
        &a,
        img.spec.shape(),
        img.spec.dtype,
        &native(&img.tiles[y * nx + x], img.spec.dtype),
        &format!("{ctx} tile ({x},{y})"),
    )
}

fn roundtrip(rng: &mut Rng, obs: &mut Obs, m: &Model, imgs: &[Img]) -> Case {
    let built = m.build(rng);
    let mem = Mem::new(built.file);
    let cached = m.layout != Layout::Huge && rng.chance(1, 3);
    let reg = DecoderRegistry::default();
    let batch = rng.chance(1, 2);
    block_on(async {
        let tiff = open(&mem, cached).await?;
        ensure!(tiff.ifds().len() == m.ifds.len(), "{} IFDs, expected {}", tiff.ifds().len(), m.ifds.len());
        ensure!(tiff.endianness() == m.en.rt(), "endianness {:?}", tiff.endianness());
        for img in imgs {
            let ctx = format!("{:?} big={} {:?} {}", m.en, m.big, m.layout, img.spec.describe());
            obs.sign(&img.spec.sig(m));
            obs.sample(|| ctx.clone());
            let ifd = &tiff.ifds()[img.ifd];
            let (nx, ny) = img.spec.grid();
            ensure!(ifd.tile_count() == Some((nx, ny)), "{ctx}: tile_count {:?} expected {:?}", ifd.tile_count(), (nx, ny));
            let mut xy: Vec<(usize, usize)> = (0..ny).flat_map(|y| (0..nx).map(move |x| (x, y))).collect();
            rng.shuffle(&mut xy);
            let tiles = if batch {
                ifd.fetch_tiles(&xy, &mem).await.map_err(|e| format!("{ctx}: fetch_tiles: {e}"))?
            } else {
                let mut v = vec![];
                for (x, y) in &xy {
                    v.push(ifd.fetch_tile(*x, *y, &mem).await.map_err(|e| format!("{ctx}: fetch_tile: {e}"))?);
                }
                v
            };
            ensure!(tiles.len() == xy.len(), "{ctx}: {} tiles for {} requests", tiles.len(), xy.len());
            for (t, (x, y)) in tiles.into_iter().zip(&xy) {
                check_tile(t, *x, *y, img, &reg, &ctx)?;
                obs.hit("tiles_decoded_and_compared");
                obs.add("elements_compared", img.tiles[0].len() as u64);
                if img.spec.planar { obs.hit("planar_tiles"); }
                if m.en == En::Be { obs.hit("big_endian_tiles"); }
                if m.big { obs.hit("bigtiff_tiles"); }
                if img.spec.pred == Some(Predictor::Horizontal) { obs.hit("horizontal_predictor_tiles"); }
                if img.spec.pred == Some(Predictor::FloatingPoint) { obs.hit("float_predictor_tiles"); }
                if img.spec.dtype == async_tiff::DataType::Bool { obs.hit("bool_tiles"); }
                if m.layout == Layout::Huge { obs.hit("beyond_4gib_layout_tiles"); }
                if (*x + 1) as u32 * img.spec.tw > img.spec.w || (*y + 1) as u32 * img.spec.th > img.spec.h {
                    obs.hit("edge_tiles");
                }
            }
        }
        Ok(())
    })
}

pub fn c01(mut r: Runner) -> i32 {
    r.rule("case = one generated TIFF (layout x byte order x classic/Big x planar x dtype x compression x predictor x tile geometry); distinct by that configuration; nontrivial when at least one tile was fetched, decoded and compared element by element with the generator's pixels");
    r.require(&["tiles_decoded_and_compared", "planar_tiles", "big_endian_tiles", "bigtiff_tiles", "bool_tiles", "edge_tiles", "beyond_4gib_layout_tiles", "extreme_images", "huge_tiles"]);
    r.assume("1-bit tiles have a row length that is a whole number of bytes (TIFF 6.0 requires tile widths that are multiples of 16)");
    r.assume("predictors are only combined with LZW/Deflate/ZSTD/LZMA, the codecs TIFF defines them for");
    r.family("single", 6000, 80000, |rng, obs, _| {
        let mut m = rand_model(rng);
        let s = rand_spec(rng);
        let img = add_image(rng, &mut m, s);
        roundtrip(rng, obs, &m, &[img])
    });
    r.family("pyramid", 1200, 16000, |rng, obs, _| {
        let mut m = rand_model(rng);
        let n = if rng.chance(1, 8) { rng.us(5, 20) } else { rng.us(2, 4) };
        let imgs: Vec<Img> = (0..n).map(|_| { let s = rand_spec(rng); add_image(rng, &mut m, s) }).collect();
        roundtrip(rng, obs, &m, &imgs)
    });
    // one dimension at an extreme: more than 2^16 tiles, columns, rows or nearly so many samples
    r.family("extreme", 24, 400, |rng, obs, i| {
        let mut m = rand_model(rng);
        let mut s = rand_spec(rng);
        (s.tw, s.th, s.spp) = (1, 1, rng.range(1, 2) as u16);
        s.dtype = *rng.pick(&[async_tiff::DataType::UInt8, async_tiff::DataType::UInt16, async_tiff::DataType::Float32]);
        s.pred = None;
        match i % 6 {
            0 => { // a long row or column of tiles
                s.comp = Compression::None;
                (s.w, s.h) = (rng.range(65530, 66100) as u32, 1);
                if rng.chance(1, 2) { (s.w, s.h) = (s.h, s.w) }
            }
            1 => { s.comp = Compression::None; (s.w, s.h) = (rng.range(250, 270) as u32, rng.range(255, 262) as u32); }
            2 => { s.tw = rng.range(65530, 70000) as u32; (s.w, s.h) = (s.tw + rng.below(2) as u32, 1); }
            3 => { s.th = rng.range(65530, 70000) as u32; (s.w, s.h) = (1, s.th + rng.below(2) as u32); }
            4 => { s.spp = *rng.pick(&[1000, 4095, 4097, 20000, 65535]); s.planar = false; (s.w, s.h) = (rng.range(1, 2) as u32, 1); s.comp = *rng.pick(&LOSSLESS); }
            _ => { s.spp = *rng.pick(&[500, 1025, 3000]); s.planar = true; s.comp = Compression::None; (s.tw, s.th) = (rng.range(1, 3) as u32, rng.range(1, 3) as u32); (s.w, s.h) = (rng.range(1, 5) as u32, rng.range(1, 5) as u32); }
        }
        let img = add_image(rng, &mut m, s);
        obs.hit("extreme_images");
        roundtrip(rng, obs, &m, &[img])
    });
    // realistic tile sizes
    r.family("large-tiles", 60, 1500, |rng, obs, _| {
        let mut m = rand_model(rng);
        let mut s = rand_spec(rng);
        s.tw = *rng.pick(&[128, 256, 512]);
        s.th = *rng.pick(&[128, 256]);
        s.w = s.tw * 2 - rng.range(0, 100) as u32;
        s.h = s.th;
        s.spp = s.spp.min(3);
        let img = add_image(rng, &mut m, s);
        roundtrip(rng, obs, &m, &[img])
    });
    // more samples per tile than any internal block size
    r.family("huge-tiles", 22, 220, |rng, obs, i| {
        let mut m = rand_model(rng);
        let mut s = rand_spec(rng);
        s.dtype = DTYPES[i as usize % DTYPES.len()];
        m.en = if i / DTYPES.len() as u64 % 2 == 0 { En::Be } else { En::Le };
        s.pred = None;
        s.comp = *rng.pick(&[Compression::None, Compression::Deflate, Compression::ZSTD]);
        s.spp = rng.range(1, 2) as u16;
        s.tw = *rng.pick(&[1024, 2048, 2304]);
        s.th = *rng.pick(&[1040, 2048, 2200]);
        (s.w, s.h) = (s.tw - rng.below(20) as u32, s.th);
        let img = add_image(rng, &mut m, s);
        obs.hit("huge_tiles");
        roundtrip(rng, obs, &m, &[img])
    });
    r.finish("exploration", json!({}))
}

pub fn c02(mut r: Runner) -> i32 {
    r.rule("case = one generated tiled image with predictor 2 or 3; distinct by (predictor, dtype, byte order, planar, samples, tile width, compression)");
    r.require(&["horizontal_predictor_tiles", "float_predictor_tiles", "planar_tiles", "big_endian_tiles", "edge_tiles"]);
    r.assume("predictors are only combined with LZW/Deflate/ZSTD/LZMA, the codecs TIFF defines them for");
    r.assume("horizontal differencing is applied to integer samples, the floating-point predictor to float32/float64");
    let gen = |rng: &mut Rng, float: bool| {
        let mut s = rand_spec(rng);
        s.comp = *rng.pick(&[Compression::Deflate, Compression::LZW, Compression::ZSTD, Compression::OldDeflate, Compression::LZMA]);
        if float {
            s.dtype = *rng.pick(&[async_tiff::DataType::Float32, async_tiff::DataType::Float64]);
            s.pred = Some(Predictor::FloatingPoint);
        } else {
            while is_float(s.dtype) || bits(s.dtype) == 1 {
                s.dtype = *rng.pick(&DTYPES);
            }
            s.pred = Some(Predictor::Horizontal);
        }
        tame(s)
    };
    r.family("horizontal", 5000, 80000, |rng, obs, _| {
        let mut m = rand_model(rng);
        let s = gen(rng, false);
        let img = add_image(rng, &mut m, s);
        roundtrip(rng, obs, &m, &[img])
    });
    r.family("float", 4000, 60000, |rng, obs, _| {
        let mut m = rand_model(rng);
        let s = gen(rng, true);
        let img = add_image(rng, &mut m, s);
        roundtrip(rng, obs, &m, &[img])
    });
    // wide rows and many samples
    r.family("wide", 200, 3000, |rng, obs, _| {
        let mut m = rand_model(rng);
        let f = rng.chance(1, 2);
        let mut s = gen(rng, f);
        s.tw = rng.range(200, 1100) as u32;
        s.th = rng.range(1, 6) as u32;
        s.spp = rng.range(1, 12) as u16;
        match rng.below(6) {
            0 => { s.tw = rng.range(16000, 70000) as u32; s.th = 1; s.spp = s.spp.min(3); }
            1 => { s.tw = rng.range(1, 3) as u32; s.th = rng.range(200, 3000) as u32; s.spp = s.spp.min(3); }
            2 => { s.tw = rng.range(1, 6) as u32; s.spp = *rng.pick(&[100, 255, 256, 257, 1000, 3000]); s.planar = false; }
            _ => {}
        }
        s.w = s.tw;
        s.h = s.th;
        let img = add_image(rng, &mut m, s);
        roundtrip(rng, obs, &m, &[img])
    });
    r.finish("exploration", json!({}))
}
