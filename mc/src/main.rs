#![allow(dead_code)]
mod alpha;
mod p_back;
mod p_box;
mod lang;
mod p_conc;
mod p_core;
mod p_fault;
mod p_json;
mod p_misc;
mod p_store;
mod p_text;
mod p_val;
mod rt;
mod store;
mod sys;
use rt::{Ctx, Tier};

/// evidence level, enumeration rule, assumptions
pub fn meta(prop: &str) -> (&'static str, &'static str, Vec<&'static str>) {
    let f = PROPS.iter().find(|p| p.0 == prop).expect("property");
    (f.1, f.2, f.3.to_vec())
}
type Run = fn(&Ctx);
type Replay = fn(&str, &serde_json::Value) -> rt::Res;
type Entry = (&'static str, &'static str, &'static str, &'static [&'static str], Run, Replay);
static PROPS: &[Entry] = &[
    p_core::P01, p_core::P02, p_core::P03, p_core::P04, p_core::P05, p_core::P06, p_text::P07, p_text::P08,
    p_text::P09, p_text::P22, p_store::P10, p_store::P11, p_store::P12, p_store::P13, p_store::P14, p_store::P15, p_store::P16, p_store::P19, p_store::P25,
    p_val::P20, p_val::P21, p_json::P23, p_misc::P24, p_misc::P27, p_core::P28, p_back::P17, p_back::P18, p_conc::P26, p_fault::P29, p_box::P30,
];

fn main() {
    rt::install_panic_hook();
    rt::quiet_stdout();
    let a: Vec<String> = std::env::args().collect();
    let arg = |i: usize| a.get(i).map(|s| s.as_str()).unwrap_or("");
    if arg(1) == "replay" {
        let v: serde_json::Value = serde_json::from_str(&std::fs::read_to_string(arg(2)).unwrap()).unwrap();
        let p = PROPS.iter().find(|p| p.0 == v["property"]).unwrap();
        let r = rt::isolated(1, || (p.5)(v["stage"].as_str().unwrap(), &v["case"]));
        match r {
            Ok(Ok(())) => rt::say(&format!("replay: holds")),
            Ok(Err(f)) => {
                rt::say(&format!("replay: [{}] {}", f.key, f.msg));
                std::process::exit(1);
            }
            Err(p) => {
                rt::say(&format!("replay: {p}"));
                std::process::exit(1);
            }
        }
        return;
    }
    if arg(1) == "child-cond" {
        p_val::child_cond(arg(2));
        return;
    }
    if arg(1) == "child-build" {
        p_back::child_build(arg(2));
        return;
    }
    if arg(1) == "child-text" {
        p_text::child_text(arg(2));
        return;
    }
    let tier = match std::env::var("VERIF_TIER").unwrap_or_default().as_str() {
        "thorough" => Tier::Thorough,
        _ if arg(2) == "thorough" => Tier::Thorough,
        _ => Tier::Quick,
    };
    let p = PROPS.iter().find(|p| p.0 == arg(1)).unwrap_or_else(|| panic!("unknown property {:?}", arg(1)));
    let ctx = Ctx::new(p.0, tier);
    // a panic while the cases are being computed comes from the code under test
    if let Err(e) = rt::guard(|| (p.4)(&ctx)) {
        ctx.record("setup", 0, &"setup", rt::Fail::from(e));
    }
    std::process::exit(ctx.finish());
}
