#![allow(clippy::all)]
#![allow(unused_imports)]
#![allow(dead_code)]
extern crate alloc;

#[macro_use]
mod macros;
pub mod nd;
#[cfg(not(kani))]
pub mod memory;
#[cfg(feature = "structs")]
pub mod spec;

/// Formatting is only ever used for error and panic messages here, and no contract talks about their text. The
/// verifier replaces it (listed as an assumption in the evidence); native execution runs the real one.
#[cfg(kani)]
pub fn nofmt(_: core::fmt::Arguments<'_>) -> alloc::string::String { alloc::string::String::new() }

/// Contract of `tag_data_fits::<T>(at, struct_end, len)`, used in place of its body by `modular` harnesses:
/// requires the value to lie inside the data and the struct (an obligation of the caller); ensures `Ok(at + size)`.
#[cfg(kani)]
pub fn fits_contract<T: ringhopper_primitives::parse::SimpleTagData>(at: usize, struct_end: usize, len: usize) -> ringhopper_primitives::error::RinghopperResult<usize> {
    let end = at + T::simple_size();
    assert!(end <= len && end <= struct_end, "requires: the value lies inside the data and its struct");
    Ok(end)
}

/// `Result` whose error is never dropped: drop glue of the error type is not part of any contract.
pub type MD<T> = core::mem::ManuallyDrop<T>;
#[inline(always)]
pub fn md<T>(t: T) -> MD<T> { MD::new(t) }

pub struct Contract {
    pub name: &'static str,
    /// proof: complete when Kani accepts; bounded: Kani with the stated bound; native: executed only
    pub kind: &'static str,
    pub about: &'static str,
    pub iters: u64,
    pub body: fn(),
}

macro_rules! properties { ($($m:ident = $f:literal),*) => {
    $( #[cfg(feature = $f)] pub mod $m; )*
    pub fn table(property: &str) -> Option<&'static [Contract]> {
        $( #[cfg(feature = $f)] if property == $f { return Some($m::CONTRACTS) } )*
        let _ = property;
        None
    }
} }

properties! { p01 = "p01", p02 = "p02", p03 = "p03", p04 = "p04", p05 = "p05", p06 = "p06", p07 = "p07", p08 = "p08", p09 = "p09", p10 = "p10", p11 = "p11", p12 = "p12", p13 = "p13", p14 = "p14", p15 = "p15", p16 = "p16", p17 = "p17", p18 = "p18", p19 = "p19", p20 = "p20", p21 = "p21", p22 = "p22" }
