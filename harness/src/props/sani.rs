//! C21: memory errors. The workloads of the other properties run again in a binary built with
//! AddressSanitizer (Rust and native codecs alike) and with the standard library's unsafe
//! precondition checks; only sanitizer reports, failed preconditions and memory faults count. A second
//! family watches the process heap for growth over repeated decodes.
use crate::io::*;
use crate::iso;
use crate::props::conc::any_image;
use crate::props::tiles::rand_model;
use crate::rng::hash_bytes;
use crate::run::*;
use crate::tiffmodel::*;
use crate::{alloc, ensure};
use async_tiff::decoder::DecoderRegistry;
use async_tiff::metadata::cache::ReadaheadMetadataCache;
use async_tiff::metadata::TiffMetadataReader;
use async_tiff::Tile;
use serde_json::json;
use std::path::{Path, PathBuf};
use std::process::Command;

pub const ASAN: &str = "detect_leaks=0:abort_on_error=0:exitcode=86:allocator_may_return_null=1:detect_stack_use_after_return=1:strict_string_checks=1:symbolize=1";
pub const TSAN: &str = "halt_on_error=1:exitcode=66:report_signal_unsafe=0";

pub fn built(r: &Runner, which: &str) -> PathBuf {
    r.out_dir.join("target").join(which).join("x86_64-unknown-linux-gnu/release/vmon")
}

/// Positive control: a planted memory error (or race) must be reported, a clean run must not be.
pub fn control(bin: &Path, kinds: &[(&str, &str)]) -> Result<(), String> {
    let go = |k: &str| -> Result<(bool, String), String> {
        let o = Command::new(bin).args(["selftest", k]).env("ASAN_OPTIONS", ASAN).env("TSAN_OPTIONS", TSAN).output().map_err(|e| format!("{}: {e}", bin.display()))?;
        Ok((o.status.success(), String::from_utf8_lossy(&o.stderr).to_string()))
    };
    let (ok, e) = go("clean")?;
    if !ok { return Err(format!("the instrumented binary does not run: {}", e.chars().take(300).collect::<String>())); }
    for (k, marker) in kinds {
        let (ok, e) = go(k)?;
        if ok || !e.contains(marker) { return Err(format!("the instrumentation misses the planted {k} error: {}", e.chars().take(300).collect::<String>())); }
    }
    Ok(())
}

/// Deliberate errors, for the positive controls.
pub fn selftest(kind: &str) {
    use std::hint::black_box;
    match kind {
        "heap" => unsafe {
            let v = black_box(vec![1u8; 100]);
            let p = black_box(v.as_ptr());
            println!("{}", *p.add(black_box(100)));
        },
        "native" => unsafe {
            // libwebp is told of more rows than there are
            let v = black_box(vec![7u8; 16 * 16 * 3]);
            let s = std::slice::from_raw_parts(v.as_ptr(), black_box(16 * 24 * 3));
            println!("{}", crate::codecs::webp(s, 16, 24, 3).len());
        },
        "layout" => unsafe {
            let v = std::mem::ManuallyDrop::new(black_box(vec![1u8; 101]));
            drop(black_box(Vec::<u8>::from_raw_parts(v.as_ptr() as *mut u8, 10, 10)));
        },
        "alignment" => unsafe {
            let v = std::mem::ManuallyDrop::new(black_box(Vec::<u8>::with_capacity(400)));
            drop(black_box(Vec::<u32>::from_raw_parts(v.as_ptr() as *mut u32, 0, 100)));
        },
        "precondition" => unsafe {
            let v = black_box(vec![1u8; 64]);
            let s: &[u32] = std::slice::from_raw_parts(black_box(v.as_ptr().add(1)) as *const u32, 4);
            println!("{}", black_box(s)[1]);
        },
        "race" => {
            #[allow(static_mut_refs)]
            static mut X: u64 = 0;
            let h: Vec<_> = (0..2).map(|_| std::thread::spawn(|| for _ in 0..2000 { unsafe { let p = black_box(&raw mut X); *p += 1; } })).collect();
            for t in h { t.join().unwrap(); }
        }
        _ => println!("clean"),
    }
}

/// glibc counts chunks of exited threads' caches as used until they are recycled; see leaks().
fn heap() -> i64 {
    let m = unsafe { libc::mallinfo2() };
    m.uordblks as i64 + m.hblkhd as i64
}

/// Repeat an operation; a heap that keeps growing, window after window, leaks. Codecs that run
/// threads make single windows noisy, so the verdict needs steady growth over a long run.
fn leaks(mut f: impl FnMut()) -> Option<Vec<i64>> {
    for _ in 0..12 { f(); }
    let h0 = heap();
    for _ in 0..40 { f(); }
    if heap() - h0 < 40 * 16 { return None; }
    let mut per = vec![];
    for _ in 0..6 {
        let a = heap();
        for _ in 0..400 { f(); }
        per.push((heap() - a) / 400);
        if *per.last().unwrap() < 16 { return None; }
    }
    Some(per)
}

/// The worker part (plain binary, one thread).
pub fn c21_worker(r: Runner) -> i32 {
    r.family_n("leaks", if r.thorough { 4000 } else { 240 }, 1, |rng, obs, _| {
        let mut m = rand_model(rng);
        m.layout = *rng.pick(&[Layout::Cog, Layout::Shuffled]);
        let img = any_image(rng, &mut m, 16)?;
        let mut damaged = false;
        if rng.chance(1, 2) {
            let k = img.blocks[0];
            let n = m.blocks[k].len();
            if n > 8 { damaged = true; if rng.chance(1, 2) { for _ in 0..4 { let p = rng.us(n / 2, n - 1); m.blocks[k][p] ^= 1 << rng.below(8); } } else { let c = rng.us(n / 2, n - 1); for x in &mut m.blocks[k][c..] { *x = 0; } } }
        }
        let b = m.build(rng);
        let mem = Mem::new(b.file.clone());
        let ctx = img.spec.describe();
        obs.sign(&format!("{ctx}{}", hash_bytes(&m.blocks[img.blocks[0]])));
        let reg = DecoderRegistry::default();
        let read = || -> Result<Tile, String> { block_on(async {
            let c = ReadaheadMetadataCache::new(mem.clone());
            let mut mr = TiffMetadataReader::try_open(&c).await.map_err(|e| e.to_string())?;
            let t = mr.read(&c).await.map_err(|e| e.to_string())?;
            t.ifds()[img.ifd].fetch_tile(0, 0, &mem).await.map_err(|e| e.to_string())
        }) };
        let tile = read()?;
        if let Some(a) = leaks(|| { let _ = read(); mem.take_log(); }) { return Err(format!("{ctx}: reading metadata and fetching a tile leaks; bytes per repetition in successive windows: {a:?}")); }
        obs.hit("metadata_repetitions");
        let mut failed = false;
        let l = leaks(|| { failed = std::hint::black_box(no_panic(|| tile.clone().decode(&reg)).map(|x| x.is_err()).unwrap_or(true)); });
        if let Some(a) = l { return Err(format!("{ctx} damaged {damaged}: decoding a tile leaks; bytes per repetition in successive windows: {a:?}")); }
        obs.hit(if failed { "failing_decodes_repeated" } else { "decodes_repeated" });
        Ok(())
    });
    // rich metadata, well-formed, damaged and failing part way
    r.family_n("leaks-metadata", if r.thorough { 8000 } else { 800 }, 1, |rng, obs, _| {
        let file = if rng.chance(1, 2) {
            let mut m = rand_model(rng);
            if m.layout == Layout::Huge { m.layout = Layout::Shuffled; }
            for _ in 0..rng.us(1, 3) { let (f, _, _) = crate::props::meta::full_ifd(rng); m.ifds.push(f); }
            m.build(rng).file.to_vec()
        } else {
            let (m, b) = crate::props::robust::plausible(rng);
            let mut f = b.file.to_vec();
            for _ in 0..rng.us(0, 2) { crate::props::robust::damage(rng, &m, &b, &mut f); }
            f
        };
        obs.sign(&format!("{}", hash_bytes(&file)));
        let mem = Mem::new(Sparse::dense(file));
        let cached = rng.chance(1, 2);
        let fail_at = if rng.chance(1, 4) { Some(rng.range(1, 40)) } else { None };
        if fail_at.is_some() { mem.ctl.max_yields.store(1, std::sync::atomic::Ordering::Relaxed); }
        if rng.chance(1, 4) { mem.fail_at(rng.below(if cached { 4 } else { 60 })); }
        let mut ok = false;
        let l = leaks(|| {
            mem.ctl.count.store(0, std::sync::atomic::Ordering::SeqCst);
            ok = block_on(async {
                let go = async {
                    let t = if cached {
                        let c = ReadaheadMetadataCache::new(mem.clone()).with_initial_size(300);
                        let mut mr = TiffMetadataReader::try_open(&c).await?;
                        mr.read(&c).await?
                    } else {
                        let mut mr = TiffMetadataReader::try_open(&mem).await?;
                        mr.read(&mem).await?
                    };
                    for i in t.ifds() { std::hint::black_box((i.tile_count(), i.geo_key_directory().map(|g| g.epsg_code()))); }
                    Ok::<bool, async_tiff::error::AsyncTiffError>(true)
                };
                match fail_at { None => go.await.unwrap_or(false), Some(n) => { let mut g = Box::pin(go); let mut left = n; std::future::poll_fn(|cx| { if left == 0 { return std::task::Poll::Ready(false); } left -= 1; use std::future::Future; g.as_mut().poll(cx).map(|r| r.unwrap_or(false)) }).await } }
            });
            mem.take_log();
        });
        if let Some(a) = l { return Err(format!("reading metadata (cache {cached}, ok {ok}) leaks; bytes per repetition in successive windows: {a:?}")); }
        obs.hit(if ok { "metadata_reads_repeated" } else { "failing_metadata_reads_repeated" });
        Ok(())
    });
    // a different file every time: nothing may be kept per file, tile or error
    r.family_n("leaks-distinct", if r.thorough { 400 } else { 64 }, 1, |rng, obs, _| {
        let mut seed = rng.clone();
        let mut n = 0u64;
        let reg = DecoderRegistry::default();
        let l = leaks(|| {
            n += 1;
            let rng = &mut seed;
            let mut m = rand_model(rng);
            m.layout = *rng.pick(&[Layout::Cog, Layout::Shuffled]);
            let Ok(img) = any_image(rng, &mut m, 12) else { return };
            if rng.chance(1, 3) {
                let k = *rng.pick(&img.blocks);
                let n = m.blocks[k].len();
                if n > 8 { let p = rng.us(n / 2, n - 1); m.blocks[k][p] ^= 1 << rng.below(8); }
            }
            let mem = Mem::new(m.build(rng).file);
            let (nx, ny) = img.spec.grid();
            let xy: Vec<(usize, usize)> = (0..rng.us(0, 4)).map(|_| (rng.us(0, nx), rng.us(0, ny))).collect();
            let _ = block_on(async {
                let c = ReadaheadMetadataCache::new(mem.clone());
                let mut mr = TiffMetadataReader::try_open(&c).await?;
                let t = mr.read(&c).await?;
                let mut tiles = vec![t.ifds()[img.ifd].fetch_tile(0, 0, &mem).await?];
                if let Ok(v) = t.ifds()[img.ifd].fetch_tiles(&xy, &mem).await { tiles.extend(v); }
                for t in tiles { let _ = no_panic(|| t.decode(&reg).map(|a| std::hint::black_box(a).shape()).is_ok()); }
                Ok::<(), async_tiff::error::AsyncTiffError>(())
            });
        });
        if let Some(a) = l { return Err(format!("decoding tiles of {n} different files leaks; bytes per file in successive windows: {a:?}")); }
        obs.add("distinct_files_decoded", n);
        obs.sign(&format!("{}", seed.clone().u64()));
        Ok(())
    });
    // what a decode returns must not depend on what the heap held before
    let n = if r.thorough { 600000 } else { 40000 };
    r.family_n("stale-memory", n, 1, |rng, obs, _| {
        let Some((_, tile, ctx)) = crate::props::robust::damaged_tile(rng, obs)? else { return Ok(()) };
        let reg = DecoderRegistry::default();
        let go = |fill: i32| {
            unsafe { libc::mallopt(libc::M_PERTURB, fill) };
            let r = no_panic(|| tile.clone().decode(&reg).map(|a| { let b: &[u8] = a.data().as_ref(); (a.shape(), b.to_vec()) }).ok());
            unsafe { libc::mallopt(libc::M_PERTURB, 0) };
            r
        };
        let (a, b) = (go(0x35), go(0xCA));
        if let (Ok(a), Ok(b)) = (&a, &b) {
            ensure!(a == b, "{ctx}: the result depends on stale heap contents: first difference at {:?}", a.as_ref().zip(b.as_ref()).map(|(a, b)| a.1.iter().zip(&b.1).position(|(x, y)| x != y)));
            obs.hit(if a.is_some() { "decodes_with_two_heap_fills" } else { "errors_with_two_heap_fills" });
        }
        Ok(())
    });
    // the leak detector itself must see a leak
    r.family_n("control", 8, 1, |_, obs, _| {
        let l = leaks(|| std::mem::forget(std::hint::black_box(vec![1u8; 100])));
        ensure!(l.is_some(), "HARNESS: the leak detector misses a leak");
        let peek = |fill| unsafe {
            libc::mallopt(libc::M_PERTURB, fill);
            let p = libc::malloc(200) as *mut u8;
            let v = std::ptr::read_volatile(p.add(100));
            libc::free(p.cast());
            libc::mallopt(libc::M_PERTURB, 0);
            v
        };
        ensure!(peek(0x35) != peek(0xCA), "HARNESS: the heap fill does not work");
        obs.hit("leak_controls");
        Ok(())
    });
    let _ = alloc::measure(|| ());
    r.finish("exploration", json!({}))
}

pub const SUBS: [(&str, f64, f64); 12] = [
    // (property workload, scale in quick, scale in thorough)
    ("C01", 0.3, 0.3), ("C02", 0.3, 0.3), ("C03", 0.4, 0.4), ("C04", 0.3, 0.3), ("C06", 0.3, 0.3), ("C09", 0.05, 0.05),
    ("C12", 0.05, 0.05), ("C14", 0.08, 0.2), ("C15", 0.15, 0.3), ("C16", 0.3, 0.3), ("C17", 1.0, 1.0), ("C23", 0.3, 0.3),
];

/// Workloads for the Miri interpreter: property, families, scale in quick and thorough.
const MIRI: [(&str, &str, f64, f64); 8] = [
    ("C17", "typed", 0.01, 0.02), ("C17", "decoded", 0.006, 0.006), ("C02", "horizontal,float", 0.002, 0.002), ("C01", "single", 0.002, 0.0015),
    ("C18", "scalars,lists", 0.002, 0.002), ("C09", "sequences,interleaved", 0.0, 0.001), ("C14", "damaged,wild-entries", 0.0, 0.00002), ("C23", "custom", 0.0, 0.002),
];

fn miri(r: &mut Runner) {
    let bin = r.out_dir.join("tools/miri.sh");
    for (p, fams, q, t) in MIRI {
        let label = format!("miri-{p}");
        if let Some((f, _)) = &r.only { if !f.starts_with(&format!("{label}:")) { continue; } }
        if r.only.is_none() && !r.agg.lock().unwrap().violations.is_empty() { break; }
        let scale = if r.thorough { t } else { q };
        if scale == 0.0 { continue; }
        let o = iso::Opts { bin: bin.clone(), env: vec![("VMON_SCALE", scale.to_string()), ("VMON_FAMILIES", fams.into()), ("VMON_KEEP_GOING", "1".into())], deaths_only: true, prop: p, label: &label, soft: true };
        iso::run(r, &o);
    }
}

pub fn c21(mut r: Runner) -> i32 {
    r.rule("case = one case of another property's workload executed in the AddressSanitizer build (memory errors, failed unsafe preconditions, freed-with-wrong-layout and memory faults count), or one decode repeated with the heap measured; distinct by workload configuration");
    let bin = built(&r, "asan");
    if let Err(e) = control(&bin, &[("heap", "AddressSanitizer"), ("native", "AddressSanitizer"), ("layout", "layout"), ("alignment", "layout"), ("precondition", "unsafe precondition")]) {
        r.agg.lock().unwrap().errors.push(format!("sanitizer control: {e}"));
        return r.finish("exploration", json!({}));
    }
    r.agg.lock().unwrap().counters.insert("positive_controls".into(), 5);
    if r.only.is_none() || r.only.as_ref().is_some_and(|o| !o.0.contains(':')) {
        let me = std::env::current_exe().expect("own path");
        iso::run(&mut r, &iso::Opts { bin: me, env: vec![("MALLOC_ARENA_MAX", "1".into()), ("GLIBC_TUNABLES", "glibc.malloc.tcache_count=0".into())], deaths_only: false, prop: "C21", label: "", soft: false });
    }
    for (p, q, t) in SUBS {
        if let Some((f, _)) = &r.only { if !f.starts_with(&format!("{p}:")) { continue; } }
        if r.only.is_none() && !r.agg.lock().unwrap().violations.is_empty() { break; }
        let scale = if r.thorough { t } else { q };
        let o = iso::Opts { bin: bin.clone(), env: vec![("ASAN_OPTIONS", ASAN.into()), ("VMON_SCALE", scale.to_string()), ("VMON_KEEP_GOING", "1".into()), ("VMON_SANITIZED", "1".into())], deaths_only: true, prop: p, label: p, soft: false };
        iso::run(&mut r, &o);
    }
    miri(&mut r);
    r.require(&["leak_controls", "metadata_reads_repeated", "failing_metadata_reads_repeated", "distinct_files_decoded", "decodes_with_two_heap_fills", "decodes_repeated", "failing_decodes_repeated", "positive_controls", "C01:tiles_decoded_and_compared", "C03:streams_compared"]);
    r.assume("the platform C library and libstdc++ are not instrumented (their calls are intercepted)");
    r.finish("exploration", json!({"instrumentation": "AddressSanitizer over async-tiff, its Rust dependencies and the native codecs (libzstd, libwebp, openjpeg, liblerc); -Zub-checks; allocator layout check; heap growth; results compared under two heap fill patterns; Miri (tree borrows) over small pure-Rust cases"}))
}
