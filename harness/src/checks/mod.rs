#[cfg(feature = "full")]
pub mod built;
#[cfg(feature = "full")]
pub mod bulk;
#[cfg(feature = "full")]
pub mod cli;
pub mod conc;
pub mod conformance;
#[cfg(feature = "full")]
pub mod contract;
#[cfg(feature = "full")]
pub mod crash;
#[cfg(feature = "full")]
pub mod damage;
#[cfg(feature = "full")]
pub mod power;
#[cfg(feature = "full")]
pub mod hostile;
#[cfg(feature = "full")]
pub mod images;
#[cfg(feature = "full")]
pub mod malformed;
#[cfg(feature = "full")]
pub mod net;
#[cfg(feature = "full")]
pub mod plugin;
#[cfg(feature = "full")]
pub mod pure;
#[cfg(feature = "full")]
pub mod relay;
#[cfg(feature = "full")]
pub mod scale;
#[cfg(feature = "full")]
pub mod values;
#[cfg(feature = "full")]
pub mod stored;
#[cfg(feature = "full")]
pub mod txn;
#[cfg(feature = "full")]
pub mod wire;
pub mod memsafe;
use crate::report::Report;
use std::time::Duration;

pub struct Ctx {
    pub seed: u64,
    pub thorough: bool,
    /// "checked" (debug assertions) or "release"
    pub build: String,
    /// seconds this run may use for exploration
    pub budget: u64,
    pub threads: usize,
    pub arg: Option<String>,
}
impl Ctx {
    pub fn dur(&self, frac_percent: u64) -> Duration {
        Duration::from_millis(self.budget * 10 * frac_percent)
    }
}
pub fn run(id: &str, cx: &Ctx, rep: &Report) -> bool {
    match id {
        "C25" => memsafe::c25(cx, rep),
        #[cfg(feature = "full")]
        _ => return run_full(id, cx, rep),
        #[cfg(not(feature = "full"))]
        _ => return false,
    }
    true
}
#[cfg(feature = "full")]
fn run_full(id: &str, cx: &Ctx, rep: &Report) -> bool {
    match id {
        "C01" => conformance::c01(cx, rep),
        "C02" => conformance::c02(cx, rep),
        "C03" => conformance::c03(cx, rep),
        "C04" => conformance::c04(cx, rep),
        "C05" => conformance::c05(cx, rep),
        "C06" => pure::c06(cx, rep),
        "C07" => pure::c07(cx, rep),
        "C08" => values::c08(cx, rep),
        "C09" => pure::c09(cx, rep),
        "C10" => pure::c10(cx, rep),
        "C12" => conc::c12(cx, rep),
        "C13" => conc::c13(cx, rep),
        "C14" => images::c14(cx, rep),
        "C15" => images::c15(cx, rep),
        "C16" => crash::c16(cx, rep),
        "C17" => crash::c17(cx, rep),
        "C18" => bulk::c18(cx, rep),
        "C22" if cx.arg.as_deref() == Some("server") => cli::c22(cx, rep),
        "C22" => plugin::c22(cx, rep),
        "C24" => hostile::c24(cx, rep),
        "C23" => cli::c23(cx, rep),
        "C20" => malformed::c20(cx, rep),
        "C19" => net::c19(cx, rep),
        "C26" => stored::c26(cx, rep),
        "C27" => wire::c27(cx, rep),
        "C29" => built::c29(cx, rep),
        "C30" => damage::c30(cx, rep),
        "C31" => txn::c31(cx, rep),
        "C32" => power::c32(cx, rep),
        "C28" => contract::c28(cx, rep),
        "C21" => net::c21(cx, rep),
        "C11" => pure::c11(cx, rep),
        _ => return false,
    }
    true
}
#[cfg(feature = "full")]
/// Processes that are meant to be killed, starved or misled.
pub fn child(a: &[String]) -> i32 {
    match a.first().map(String::as_str) {
        Some("sync" | "path" | "neighbour") => images::child(a),
        Some("plug") => plugin::child(a),
        Some("fixture") => stored::child(&a[1..]),
        Some("relay") => relay::child(&a[1..]),
        Some("power" | "power-threads") => power::child(a),
        Some("rocks" | "open") => crash::child(a),
        _ => 7,
    }
}
