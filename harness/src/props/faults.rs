//! C13: I/O errors are propagated and leave everything usable for a retry.
use crate::ensure;
use crate::image::*;
use crate::io::*;
use crate::props::meta::{canon, canon_tiff};
use crate::props::tiles::{open, rand_model};
use crate::run::*;
use crate::tiffmodel::*;
use async_tiff::decoder::DecoderRegistry;
use async_tiff::metadata::cache::ReadaheadMetadataCache;
use async_tiff::metadata::{MetadataFetch, TiffMetadataReader};
use async_tiff::reader::AsyncFileReader;
use async_tiff::{ImageFileDirectory, TIFF};
use serde_json::json;

/// Read everything, retrying each step that reports an injected failure.
async fn read_with_retries<F: MetadataFetch>(f: &F, obs: &mut Obs, faults: &[u64]) -> Result<TIFF, String> {
    let mut seen = vec![];
    let mut tries = 0;
    let mut note = |e: async_tiff::error::AsyncTiffError, obs: &mut Obs| -> Result<(), String> {
        let k = is_injected(&e).ok_or_else(|| format!("the reader failed with '{FAULT}N' but the caller sees: {e}"))?;
        ensure!(faults.contains(&k), "failure of request {k} reported, which did not fail");
        ensure!(!seen.contains(&k), "failure of request {k} reported twice");
        seen.push(k);
        obs.hit("failures_propagated");
        tries += 1;
        ensure!(tries < 100, "still failing after {tries} retries");
        Ok(())
    };
    let mut r = loop {
        match TiffMetadataReader::try_open(f).await {
            Ok(r) => break r,
            Err(e) => note(e, obs)?,
        }
    };
    let mut ifds: Vec<ImageFileDirectory> = vec![];
    loop {
        let before = r.next_ifd_offset();
        match r.read_next_ifd(f).await {
            Ok(Some(i)) => ifds.push(i),
            Ok(None) => break,
            Err(e) => {
                note(e, obs)?;
                ensure!(r.next_ifd_offset() == before, "a failed read moved the reader from {before:?} to {:?}", r.next_ifd_offset());
                obs.hit("reader_position_kept");
            }
        }
    }
    Ok(TIFF::new(ifds, r.endianness()))
}

pub fn c13(mut r: Runner) -> i32 {
    r.rule("case = one file and one or more injected request failures (every request index is hit over the run); metadata steps and tile fetches must report exactly that failure and succeed on retry; distinct by (configuration, failing requests)");
    r.require(&["failures_propagated", "reader_position_kept", "retries_identical", "tile_failures_propagated", "tile_retries_identical", "cached_failures", "read_all_failures"]);
    r.family("metadata", 3000, 40000, |rng, obs, _| {
        let mut m = rand_model(rng);
        if m.layout == Layout::Huge { m.layout = Layout::Cog; }
        let n = if rng.chance(1, 20) { rng.us(4, 20) } else { rng.us(1, 3) };
        for _ in 0..n { let s = rand_spec(rng); add_image(rng, &mut m, s); }
        let built = m.build(rng);
        let base = Mem::new(built.file.clone());
        let plain = block_on(open(&base, false))?;
        let total = base.requests();
        let cached = rng.chance(1, 3);
        let mem = Mem::new(built.file.clone());
        let k = if rng.chance(1, 20) { rng.us(5, 30) } else { rng.us(1, 4) };
        let mut faults: Vec<u64> = (0..k).map(|_| if cached { rng.below(6) } else { rng.below(total + k as u64) }).collect();
        if rng.chance(1, 3) { // consecutive failures
            let f = faults[0];
            faults.push(f + 1);
        }
        for f in &faults { mem.fail_at(*f) }
        obs.sign(&format!("{:?}{}{total}{faults:?}{cached}", m.en, m.big));
        let t = block_on(async {
            if cached {
                let init = rng.range(16, 400);
                let c = ReadaheadMetadataCache::new(mem.clone()).with_initial_size(init);
                let t = read_with_retries(&c, obs, &faults).await;
                if mem.take_log().iter().any(|e| matches!(e, Ev::Fault(_))) { obs.hit("cached_failures"); }
                t
            } else {
                read_with_retries(&mem, obs, &faults).await
            }
        }).map_err(|e| format!("faults {faults:?} of {total} requests, cached {cached}: {e}"))?;
        ensure!(canon_tiff(&t) == canon_tiff(&plain), "after failures {faults:?} (cached {cached}) and retries the metadata differs: {} vs {} IFDs", t.ifds().len(), plain.ifds().len());
        obs.hit("retries_identical");
        obs.sample(|| format!("{total} requests, failing {faults:?}, cached {cached}"));
        Ok(())
    });
    // a failure anywhere makes the one-shot entry points fail with it
    r.family("one-shot", 2000, 30000, |rng, obs, _| {
        let mut m = rand_model(rng);
        if m.layout == Layout::Huge { m.layout = Layout::Cog; }
        let n = if rng.chance(1, 20) { rng.us(4, 20) } else { rng.us(1, 3) };
        for _ in 0..n { let s = rand_spec(rng); add_image(rng, &mut m, s); }
        let built = m.build(rng);
        let base = Mem::new(built.file.clone());
        let plain = block_on(open(&base, false))?;
        let total = base.requests();
        let f = rng.below(total + 2);
        let mem = Mem::new(built.file.clone());
        mem.fail_at(f);
        let res = block_on(async {
            let mut r = TiffMetadataReader::try_open(&mem).await?;
            if rng.chance(1, 2) { r.read_all_ifds(&mem).await } else { r.read(&mem).await.map(|t| t.ifds().to_vec()) }
        });
        let hit = mem.take_log().iter().any(|e| matches!(e, Ev::Fault(_)));
        match res {
            Err(e) => {
                ensure!(hit, "no request failed but reading did: {e}");
                ensure!(is_injected(&e) == Some(f), "request {f} failed, but the caller sees: {e}");
                obs.hit("read_all_failures");
            }
            Ok(v) => {
                ensure!(!hit, "request {f} of {total} failed but reading the file reported success ({} of {} IFDs)", v.len(), plain.ifds().len());
                ensure!(v.iter().map(canon).collect::<Vec<_>>() == plain.ifds().iter().map(canon).collect::<Vec<_>>(), "metadata differs");
            }
        }
        obs.sign(&format!("{}{total}{f}", m.big));
        Ok(())
    });
    r.family("tiles", 4000, 60000, |rng, obs, _| {
        let mut m = rand_model(rng);
        let s = rand_spec(rng);
        let img = add_image(rng, &mut m, s);
        let built = m.build(rng);
        let mem = Mem::new(built.file.clone());
        let t = block_on(open(&mem, false))?;
        let ifd = &t.ifds()[0];
        let (nx, ny) = img.spec.grid();
        let n = if rng.chance(1, 25) { rng.us(20, 200) } else { rng.us(1, 6) };
        let xy: Vec<(usize, usize)> = (0..n).map(|_| (rng.us(0, nx - 1), rng.us(0, ny - 1))).collect();
        let def = MemDefault(mem.clone());
        let dflt = rng.chance(1, 2);
        let reader: &dyn AsyncFileReader = if dflt { &def } else { &mem };
        let bands = if img.spec.planar { img.spec.spp as u64 } else { 1 };
        let single = rng.chance(1, 3);
        // how many requests the fetch makes
        let reqs = if !dflt { 1 } else if single { bands } else { bands * n as u64 };
        let at = mem.requests() + rng.below(reqs);
        mem.fail_at(at);
        mem.take_log();
        let ctx = format!("{} xy {xy:?} default-batching {dflt} single {single} failing request {at}", img.spec.describe());
        obs.sign(&format!("{}{dflt}{single}{n}", img.spec.sig(&m)));
        obs.sample(|| ctx.clone());
        let fetch = || async {
            if single { ifd.fetch_tile(xy[0].0, xy[0].1, reader).await.map(|t| vec![t]) } else { ifd.fetch_tiles(&xy, reader).await }
        };
        let r = block_on(fetch());
        let hit = mem.take_log().iter().any(|e| matches!(e, Ev::Fault(_)));
        if hit {
            match r {
                Ok(v) => return Err(format!("{ctx}: a request failed but {} tiles were returned", v.len())),
                Err(e) => ensure!(is_injected(&e) == Some(at), "{ctx}: the caller sees: {e}"),
            }
            obs.hit("tile_failures_propagated");
        } else {
            // requests were merged or ordered differently; the fetch must then simply succeed
            r.map_err(|e| format!("{ctx}: no request failed, but: {e}"))?;
        }
        mem.ctl.faults.lock().unwrap().clear();
        let tiles = block_on(fetch()).map_err(|e| format!("{ctx}: retry failed: {e}"))?;
        let reg = DecoderRegistry::default();
        let list = if single { &xy[..1] } else { &xy[..] };
        ensure!(tiles.len() == list.len(), "{ctx}: {} tiles on retry", tiles.len());
        for (t, (x, y)) in tiles.into_iter().zip(list) {
            let a = t.decode(&reg).map_err(|e| format!("{ctx}: decode after retry: {e}"))?;
            check_array(&a, img.spec.shape(), img.spec.dtype, &native(&img.tiles[y * nx + x], img.spec.dtype), &ctx)?;
            obs.hit("tile_retries_identical");
        }
        Ok(())
    });
    r.finish("exploration", json!({}))
}
