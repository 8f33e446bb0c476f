use crate::fw::Run;
mod api;
#[cfg(feature = "docs")]
mod cli;
mod decimals;
mod floats;
mod ints;
mod kinds;
mod lex;
mod long;
mod many;
mod names;
mod order;
mod others;
mod parse;
mod real;
mod total;

pub fn dispatch(id: &str, run: &Run) -> bool {
    match id {
        "C01" => parse::c01(run),
        "C02" => parse::c02(run),
        "C03" => total::c03(run),
        "C06" => names::c06(run),
        "C07" => names::c07(run),
        "C08" => names::c08(run),
        "C05" => parse::c05(run),
        "C04" => ints::c04(run),
        "C13" => decimals::c13(run),
        "C14" => decimals::c14(run),
        "C15" => floats::c15(run),
        "C16" => others::c16(run),
        "C17" => others::c17(run),
        "C19" => ints::c19(run),
        "C25" => ints::c25(run),
        "C21" => lex::c21(run),
        #[cfg(feature = "docs")]
        "C22" => cli::c22(run),
        "C09" => parse::c09(run),
        "C10" => parse::c10(run),
        "C11" => parse::c11(run),
        "C12" => parse::c12(run),
        "C26" => order::c26(run),
        "C28" => kinds::c28(run),
        "C27" => parse::c27(run),
        "C30" => api::c30(run),
        "C31" => api::c31(run),
        "C32" => api::c32(run),
        "C33" => api::c33(run),
        _ => return false,
    }
    true
}
