//! replay PROPERTY TIER SEED: runs the real nommy on the property's inputs against an independent reference.
#![feature(const_generics)]
#![allow(incomplete_features, dead_code)]
#[cfg(feature = "buffers")]
mod buffers;
#[cfg(feature = "comp")]
mod comp;
#[cfg(feature = "lexemes")]
mod lexemes;
mod obs;
mod util;

fn main() {
    util::init();
    util::watchdog(20);
    let a: Vec<String> = std::env::args().collect();
    let p = a[1].as_str();
    let tho = a.get(2).map_or(false, |t| t == "thorough");
    let seed: u64 = a.get(3).and_then(|s| s.parse().ok()).unwrap_or(1);
    let _ = (p, tho, seed);
    obs::PEEKS.store(p != "C18", std::sync::atomic::Ordering::Relaxed);
    #[cfg(feature = "buffers")]
    match p {
        "C01" => buffers::c01(tho, seed),
        "C02" => buffers::c02(tho, seed),
        "C03" => buffers::c03(tho, seed),
        _ => {}
    }
    #[cfg(feature = "comp")]
    match p {
        "C04" => comp::c04(tho, seed),
        "C08" => comp::c08(tho, seed),
        "C09" => comp::c09(tho, seed),
        "C10" => comp::c10(tho, seed),
        "C11" => comp::c11(tho, seed),
        "C12" => comp::c12(tho, seed),
        "C16" => comp::c16(tho, seed),
        "C18" => comp::c18(tho, seed),
        _ => {}
    }
    #[cfg(feature = "lexemes")]
    match p {
        "C04" => lexemes::c04(tho, seed),
        "C05" => { lexemes::c05(tho, seed, false); lexemes::c05_lazy() }
        "C06" => lexemes::c06(tho, seed, false),
        "C07" => lexemes::c07(tho, false),
        "C16" => lexemes::c16(seed),
        "C18" => { lexemes::c05(tho, seed, true); lexemes::c06(tho, seed, true); lexemes::c07(tho, true) }
        _ => {}
    }
    util::report_and_exit()
}
