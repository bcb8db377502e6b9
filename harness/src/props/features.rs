//! C30: builds of the library with different optional features read the same files.
use crate::canon::hash_bytes;
use crate::ensure;
use crate::image::*;
use crate::io::*;
use crate::props::conc::any_image;
use crate::props::meta::canon;
use crate::props::readers::Scratch;
use crate::props::tiles::rand_model;
use crate::rng::mix;
use crate::run::*;
use crate::tiffmodel::*;
use serde_json::json;
use std::collections::{BTreeMap, BTreeSet};
use std::process::Command;

const BASE: [u16; 6] = [1, 5, 7, 8, 32946, 50000];
const OPTIONAL: [(&str, u16); 4] = [("lerc", 34887), ("lzma", 34925), ("jpeg2k", 34712), ("webp", 50001)];

fn dir() -> std::path::PathBuf {
    std::env::var("VMON_FEAT").unwrap_or_else(|_| "/verif/target/feat/bin".into()).into()
}

pub fn c30(mut r: Runner) -> i32 {
    r.rule("case = a batch of files of all codecs given to the library built with one set of optional features (none, each alone, the default ones, all; thorough: all pairs), through every reader of that build; distinct by feature set and files");
    r.require(&["feature_sets_built", "metadata_equal", "tiles_as_encoded", "codecs_refused", "registries_compared", "codes_of_optional_codecs"]);
    r.assume("the default features are what Cargo.toml lists; builds are of the dev profile");
    let sets: Vec<String> = std::fs::read_to_string(dir().join("sets")).unwrap_or_default().lines().map(|s| s.to_string()).collect();
    let n = sets.len().max(1) as u64;
    let out = r.out_dir.clone();
    r.family("sets", n * 12, n * 60, |rng, obs, i| {
        ensure!(!sets.is_empty(), "HARNESS: no feature builds under {}", dir().display());
        let set = &sets[i as usize % sets.len()];
        obs.sign(&format!("{set} {}", i / n));
        let failed = dir().join(format!("{set}.failed"));
        if failed.exists() {
            return Err(format!("the library does not build with the features [{set}]: {}", std::fs::read_to_string(failed).unwrap_or_default().trim()));
        }
        obs.hit("feature_sets_built");
        obs.state("feature_sets", mix(hash_bytes(set.as_bytes())));
        let has = |f: &str| set == "all" || set.split('+').any(|x| x == f);
        let mut codes: BTreeSet<u16> = BASE.into();
        for (f, c) in OPTIONAL { if has(f) { codes.insert(c); } }

        let tmp = Scratch::new(&out, &format!("features-{i}"));
        let mut list = String::new();
        let mut want: BTreeMap<String, (u64, u16, Option<u64>, String, String)> = BTreeMap::new();
        for k in 0..24 {
            let mut m = rand_model(rng);
            if m.layout == Layout::Huge { m.layout = Layout::Shuffled; }
            let mut imgs = vec![];
            for _ in 0..rng.us(1, 2) { imgs.push(any_image(rng, &mut m, 24)?); }
            m.ifds[imgs[0].ifd].set(270, V::Ascii(format!("file {k}\0").into_bytes()));
            let b = m.build(rng);
            let data = b.file.to_vec();
            let mem = Mem::new(b.file);
            mem.ctl.quiet.store(true, std::sync::atomic::Ordering::Relaxed);
            let t = block_on(crate::props::tiles::open(&mem, false))?;
            let meta = hash_bytes(t.ifds().iter().map(canon).collect::<Vec<_>>().join("\n").as_bytes());
            let im = rng.pick(&imgs);
            let (nx, ny) = im.spec.grid();
            let (x, y) = (rng.us(0, nx - 1), rng.us(0, ny - 1));
            let i = y * nx + x;
            let code = crate::enums::any_compression_code(t.ifds()[im.ifd].compression());
            let name = format!("f{k}.tif");
            std::fs::write(tmp.0.join(&name), &data).map_err(|e| format!("HARNESS: {e}"))?;
            list.push_str(&format!("{name} {} {x} {y}\n", im.ifd));
            let px = codes.contains(&code).then(|| hash_bytes(&native(&im.tiles[i], im.spec.dtype)));
            let shape = format!("{:?} {:?}", im.spec.shape(), Some(im.spec.dtype)).replace(' ', "_");
            want.insert(name, (meta, code, px, shape, format!("{:?} {}", m.en, im.spec.describe())));
        }
        std::fs::write(tmp.0.join("list"), list).map_err(|e| format!("HARNESS: {e}"))?;
        let o = Command::new(dir().join(set)).arg(&tmp.0).output().map_err(|e| format!("HARNESS: probe {set}: {e}"))?;
        let (out, err) = (String::from_utf8_lossy(&o.stdout).to_string(), String::from_utf8_lossy(&o.stderr).to_string());
        ensure!(o.status.success() && out.ends_with("done\n"), "features [{set}]: the reading process ended with {}: {}", o.status, err.lines().take(3).collect::<Vec<_>>().join(" "));
        let mut seen: BTreeMap<String, u64> = BTreeMap::new();
        for l in out.lines() {
            let f: Vec<&str> = l.split(' ').collect();
            match f[0] {
                "file" => {
                    let (meta, code, px, shape, desc) = want.get(f[1]).ok_or(format!("HARNESS: {l}"))?;
                    let ctx = format!("features [{set}], {} reader, {desc} (compression {code})", f[2]);
                    *seen.entry(f[1].to_string()).or_default() += 1;
                    ensure!(f[3] != "failed", "{ctx}: {}", f[4]);
                    ensure!(f[3] == meta.to_string(), "{ctx}: metadata differ from those read with all features");
                    obs.hit("metadata_equal");
                    match px {
                        Some(h) => {
                            ensure!(f[4] == format!("ok_{h}_{shape}"), "{ctx}: decodes to {}, encoded were {h} {shape}", f[4]);
                            obs.hit("tiles_as_encoded");
                            if !BASE.contains(code) { obs.hit("tiles_of_optional_codecs"); }
                        }
                        None => {
                            ensure!(f[4].starts_with("err_"), "{ctx}: decodes to {} with a codec that is not there", f[4]);
                            obs.hit("codecs_refused");
                        }
                    }
                }
                "codes" => {
                    let known: BTreeSet<u16> = BASE.into_iter().chain(OPTIONAL.iter().map(|x| x.1)).collect();
                    let got: BTreeSet<u16> = f[1..].iter().map(|x| x.parse().unwrap_or(0)).filter(|c| known.contains(c)).collect();
                    ensure!(got == codes, "features [{set}]: the default registry decodes {got:?}, expected {codes:?}");
                    obs.hit("registries_compared");
                    if got.len() > BASE.len() { obs.hit("codes_of_optional_codecs"); }
                }
                "done" => {}
                _ => return Err(format!("HARNESS: {l}")),
            }
        }
        let readers = 1 + (has("tokio") as u64) + (has("object_store") as u64);
        ensure!(want.keys().all(|k| seen.get(k) == Some(&readers)), "HARNESS: not all files reported: {seen:?}");
        obs.sample(|| format!("{set}: {} files, {readers} readers, codes {codes:?}", want.len()));
        Ok(())
    });
    r.finish("exploration", json!({}))
}
