//! The properties: what a run consists of (plan), how it is executed, and what is checked.
use crate::core::*;
use serde_json::Value;

pub mod est;
pub mod flows;
pub mod hand;
pub mod inout;
pub mod life;
pub mod multi;

pub struct Info {
    pub quick: u64,
    pub thorough: u64,
    pub rule: &'static str,
}
macro_rules! table {
    ($($id:literal $q:literal $t:literal $rule:expr, $gen:path, $run:path;)*) => {
        pub fn info(p: &str) -> Option<Info> {
            match p {
                $($id => Some(Info { quick: $q, thorough: $t, rule: $rule }),)*
                _ => None,
            }
        }
        pub fn gen(p: &str, r: &mut Rng, env: &mut Env, tier: u64, _seed: u64) -> Value {
            match p {
                $($id => js($gen(r, env, tier)),)*
                _ => harness_error(format!("no generator for {p}")),
            }
        }
        pub fn run(p: &str, x: Value) {
            match p {
                $($id => $run(de(x)),)*
                _ => harness_error(format!("no runner for {p}")),
            }
        }
    };
}
table! {
    "C01" 40000 1_500_000 inout::C01_RULE, inout::gen_c01, inout::run_c01;
    "C02" 40000 1_500_000 inout::C02_RULE, inout::gen_c02_any, inout::run_c02_any;
    "C03" 40000 1_500_000 inout::C03_RULE, inout::gen_c03, inout::run_c03;
    "C04" 40000 1_500_000 hand::C04_RULE, hand::gen_c04, hand::run_c04;
    "C05" 40000 1_500_000 hand::C05_RULE, hand::gen_c05, hand::run_c05;
    "C06" 40000 1_500_000 hand::C06_RULE, hand::gen_c06, hand::run_c06;
    "C07" 40000 1_500_000 flows::C07_RULE, flows::gen_c07, flows::run_c07;
    "C08" 40000 1_500_000 flows::C08_RULE, flows::gen_c08, flows::run_c08;
    "C09" 40000 1_500_000 flows::C09_RULE, flows::gen_c09, flows::run_c09;
    "C10" 40000 1_500_000 flows::C10_RULE, flows::gen_c10, flows::run_c10;
    "C11" 20000 1_000_000 flows::C11_RULE, flows::gen_c11, flows::run_c11;
    "C12" 40000 1_500_000 flows::C12_RULE, flows::gen_c12, flows::run_c12;
    "C13" 40000 1_500_000 flows::C13_RULE, flows::gen_c13, flows::run_c13;
    "C14" 20000 1_000_000 multi::C14_RULE, multi::gen_c14, multi::run_c14;
    "C15" 40000 1_500_000 multi::C15_RULE, multi::gen_c15, multi::run_c15;
    "C16" 40000 1_500_000 est::C16_RULE, est::gen_c16, est::run_c16;
    "C20" 40000 1_500_000 est::C20_RULE, est::gen_c20, est::run_c20;
    "C18" 40000 1_500_000 life::C18_RULE, life::gen_c18, life::run_c18;
    "C19" 40000 1_500_000 life::C19_RULE, life::gen_c19, life::run_c19;
    "C21" 3000 100_000 life::C21_RULE, life::gen_c21, life::run_c21;
    "C17" 40000 1_500_000 multi::C17_RULE, multi::gen_c17, multi::run_c17;
}
fn js<T: serde::Serialize>(t: T) -> Value {
    serde_json::to_value(t).unwrap()
}
fn de<T: serde::de::DeserializeOwned>(v: Value) -> T {
    match serde_json::from_value(v) {
        Ok(t) => t,
        Err(e) => harness_error(format!("bad plan: {e}")),
    }
}
pub fn probe(k: &str) {
    let _g = Guard::new();
    s().stat(&format!("probe:{k}"));
}
