//! C27: the enumerations of the Python package, executed and compared with the library's codes.
use crate::enums::*;
use crate::ensure;
use crate::run::*;
use serde_json::json;
use std::collections::BTreeMap;
use std::process::Command;

const SCRIPT: &str = r#"
import importlib.util, sys
spec = importlib.util.spec_from_file_location("async_tiff_enums", sys.argv[1])
m = importlib.util.module_from_spec(spec)
sys.modules[spec.name] = m
spec.loader.exec_module(m)
E = getattr(m, sys.argv[2])
# every name
for n, v in E.__members__.items():
    assert getattr(E, n) is v and E[n] is v
    print("name", n, int(v), v.name)
# what the bindings do with a code
for c in range(65536):
    try:
        v = E(c)
    except ValueError:
        continue
    assert v == c and isinstance(v, int) and hash(v) == hash(c)
    print("code", c, v.name)
print("done", 65536)
"#;

fn repo() -> String {
    std::env::var("VMON_REPO").unwrap_or_else(|_| "/repo".into())
}

/// Class, names every version must have, name the library gives to a code.
fn classes() -> Vec<(&'static str, Vec<(String, u16)>, Box<dyn Fn(u16) -> Option<String>>)> {
    use async_tiff::tags::*;
    macro_rules! c { ($class:literal, $table:ident, $ty:ty, $none:literal, $skip:expr) => {{
        let none = |s: String| if s == "None" { $none.to_string() } else { s };
        let skip: &[&str] = &$skip;
        let want = $table.iter().map(|(v, n)| (none(format!("{v:?}")), *n)).filter(|x| !skip.contains(&x.0.as_str())).collect();
        ($class, want, Box::new(move |n| <$ty>::from_u16(n).map(|v| none(format!("{v:?}")))) as Box<dyn Fn(u16) -> Option<String>>)
    }} }
    vec![
        c!("Compression", COMPRESSIONS, Compression, "Uncompressed", ["LERC"]),
        c!("ExtraSamples", EXTRAS, ExtraSamples, "-", []),
        c!("PhotometricInterpretation", PHOTOS, PhotometricInterpretation, "-", []),
        c!("PlanarConfiguration", PLANARS, PlanarConfiguration, "-", []),
        c!("Predictor", PREDICTORS, Predictor, "Unknown", []),
        c!("ResolutionUnit", UNITS, ResolutionUnit, "Unknown", []),
        c!("SampleFormat", FORMATS, SampleFormat, "-", []),
        ("Endianness", vec![("LittleEndian".into(), 0), ("BigEndian".into(), 1)], Box::new(|n| match n { 0 => Some("LittleEndian".into()), 1 => Some("BigEndian".into()), _ => None })),
    ]
}

pub fn c27(mut r: Runner) -> i32 {
    r.rule("case = one Python enumeration, loaded from the package's source, with all its names and all 65536 codes queried; distinct by class");
    r.require(&["names_compared", "codes_queried", "codes_named_by_both"]);
    r.assume("members the bindings lack today (LERC) are shown as plain integers, as the bindings document");
    r.family_n("classes", 8, 1, |_, obs, i| {
        let (class, want, rust) = classes().remove(i as usize % 8);
        let path = format!("{}/python/python/async_tiff/enums.py", repo());
        let o = Command::new("python3").args(["-I", "-S", "-B", "-c", SCRIPT, &path, class]).output().map_err(|e| format!("HARNESS: python3: {e}"))?;
        let (out, err) = (String::from_utf8_lossy(&o.stdout).to_string(), String::from_utf8_lossy(&o.stderr).to_string());
        ensure!(o.status.success(), "async_tiff.enums.{class}: {}", err.lines().last().unwrap_or(""));
        let (mut names, mut codes) = (BTreeMap::new(), BTreeMap::new());
        for l in out.lines() {
            let f: Vec<&str> = l.split(' ').collect();
            match f[0] {
                "name" => {
                    let n: i64 = f[2].parse().map_err(|_| format!("HARNESS: {l}"))?;
                    ensure!(f[1] == f[3], "{class}.{} is another name of {class}.{} ({n})", f[1], f[3]);
                    names.insert(f[1].to_string(), n);
                }
                "code" => { codes.insert(f[1].parse::<u16>().map_err(|_| format!("HARNESS: {l}"))?, f[2].to_string()); }
                "done" => obs.add("codes_queried", f[1].parse().unwrap_or(0)),
                _ => return Err(format!("HARNESS: {l}")),
            }
        }
        for (name, code) in &want {
            let got = names.get(name);
            ensure!(got == Some(&(*code as i64)), "{class}.{name} is {got:?}, TIFF's code is {code}");
            ensure!(codes.get(code) == Some(name), "{class}({code}) is {:?}, not {name}", codes.get(code));
            obs.hit("names_compared");
        }
        for (name, n) in &names {
            let known = u16::try_from(*n).ok().and_then(&rust);
            // a member the library has no name for is only a label of the Python package
            ensure!(known.as_ref().is_none_or(|k| k == name || k.starts_with("Unknown(")), "{class}.{name} is {n}, which the library calls {known:?}");
            if known.is_some() { obs.hit("codes_named_by_both"); }
        }
        obs.sign(class);
        obs.sample(|| format!("{class}: {names:?}"));
        Ok(())
    });
    r.finish("exploration", json!({}))
}
