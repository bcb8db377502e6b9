use crate::run::Runner;
pub mod arrays;
pub mod cache;
pub mod codec;
pub mod conc;
pub mod faults;
pub mod features;
pub mod grid;
pub mod history;
pub mod lazy;
pub mod meta;
pub mod pyenums;
pub mod readers;
pub mod robust;
pub mod sani;
pub mod tiles;

/// Cases run in worker processes, so that aborts, signals and hangs are observed.
pub fn run(mut r: Runner) -> i32 {
    if r.worker_dir.is_none() && r.prop != "C21" {
        let prop = r.prop.clone();
        let o = crate::iso::Opts { bin: std::env::current_exe().expect("own path"), env: vec![], deaths_only: false, prop: &prop, label: "", soft: false };
        crate::iso::run(&mut r, &o);
        if prop == "C19" && r.only.is_none() { conc::tsan(&mut r); }
        if prop == "C12" && r.only.is_none() { readers::probe(&mut r); }
        return r.finish("exploration", serde_json::json!({"isolation": "worker processes; deaths, signals, CPU-time overruns and blocked cases observed"}));
    }
    match r.prop.as_str() {
        "C01" => tiles::c01(r),
        "C02" => tiles::c02(r),
        "C03" => codec::c03(r),
        "C04" => meta::c04(r),
        "C05" => meta::c05(r),
        "C06" => meta::c06(r),
        "C07" => grid::c07(r),
        "C08" => grid::c08(r),
        "C09" => cache::c09(r),
        "C10" => cache::c10(r),
        "C11" => cache::c11(r),
        "C12" => readers::c12(r),
        "C13" => faults::c13(r),
        "C14" => robust::c14(r),
        "C15" => robust::c15(r),
        "C16" => meta::c16(r),
        "C17" => arrays::c17(r),
        "C18" => arrays::c18(r),
        "C19" => conc::c19(r),
        "C20" => meta::c20(r),
        "C21" if r.worker_dir.is_some() => sani::c21_worker(r),
        "C21" => sani::c21(r),
        "C22" => meta::c22(r),
        "C23" => codec::c23(r),
        "C25" => lazy::c25(r),
        "C26" => lazy::c26(r),
        "C27" => pyenums::c27(r),
        "C28" => history::c28(r),
        "C29" => history::c29(r),
        "C30" => features::c30(r),
        p => {
            eprintln!("unknown property {p}");
            64
        }
    }
}
