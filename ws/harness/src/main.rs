#![allow(dead_code)]
mod align;
mod mcx;
mod model;
mod p_auth;
#[cfg(feature = "cli")]
mod p_cli;
mod p_ctr;
#[cfg(feature = "enc")]
mod p_enc;
#[cfg(feature = "lib")]
mod p_lib;
mod p_life;
mod p_passkey;
mod p_misc;
mod p_roles;
#[cfg(feature = "sdk")]
mod p_sdk;
#[cfg(feature = "sdk")]
mod p_wallet;
mod p_sign;
mod p_sub;
mod spec;
mod progs;
mod sw;
mod vm;
use mcx::*;
type Check = (&'static str, fn(&Ck));
const CHECKS: &[Check] = &[("P01", p_auth::p01), ("P02", p_ctr::p02), ("P03", p_ctr::p03), ("P04", p_passkey::p04), ("P05", p_ctr::p05), ("P06", p_sign::p06), ("P24", p_ctr::p24), ("P07", p_sign::p07), ("P08", p_sign::p08), ("P09", p_sign::p09), ("P10", p_sign::p10), ("P11", p_sign::p11), ("P12", p_sign::p12), ("P13", p_roles::p13), ("P14", p_roles::p14), ("P15", p_roles::p15), ("P16", p_roles::p16), ("P17", p_life::p17), ("P18", p_life::p18), ("P19", p_sub::p19), ("P20", p_sub::p20), ("P21", p_life::p21), #[cfg(feature = "enc")] ("P23", p_enc::p23), ("P22", p_misc::p22), #[cfg(feature = "lib")] ("P25", p_lib::p25), ("P26", p_misc::p26), #[cfg(feature = "cli")] ("P27", p_cli::p27), #[cfg(feature = "sdk")] ("P28", p_sdk::p28), #[cfg(feature = "sdk")] ("P29", p_wallet::p29)];
fn main() {
    let a: Vec<String> = std::env::args().collect();
    let id = a.get(1).cloned().unwrap_or_default();
    if id == "replay" { align::install(); vm::quiet_panics(); return replay(&a[2]); }
    let Some((name, f)) = CHECKS.iter().find(|c| c.0 == id) else { eprintln!("unknown check {id}"); std::process::exit(2) };
    if std::env::var("MC_CHILD").is_err() {
        // run in a child, so that a crash of the code under test is a verdict too
        let st = std::process::Command::new(std::env::current_exe().unwrap()).args(&a[1..]).env("MC_CHILD", "1").status().expect("spawn");
        match st.code() {
            Some(c) if c == 0 || c == 1 => std::process::exit(c),
            _ => {
                let p = write_replay(name, 0, &format!("property {name}\nthe code under test crashed the process: {st:?}\n"));
                println!("the code under test crashed the process: {st:?}");
                println!("VIOLATION property={name} replay={p}");
                std::process::exit(1);
            }
        }
    }
    vm::quiet_panics();
    align::install();
    let ck = Ck::new(name);
    f(&ck);
    std::process::exit(ck.finish());
}
