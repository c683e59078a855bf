/// Declares contracts. Each is one executable specification over the real code:
///
/// `proof name(unwind N, iters M) "functions under contract: ensures ..." { body }`
///
/// `proof` and `bounded` bodies become Kani harnesses (every draw symbolic); all of them become entries of the native
/// table (every draw concrete).
#[macro_export]
macro_rules! contracts {
    ($( $kind:ident $name:ident ($($o:tt)*) $about:literal $body:block )*) => {
        $( pub fn $name() $body )*
        pub static CONTRACTS: &[$crate::Contract] = &[ $( $crate::Contract {
            name: stringify!($name), kind: stringify!($kind), about: $about, iters: $crate::contract_iters!($($o)*), body: $name
        } ),* ];
        #[cfg(kani)]
        mod kani_harness { $( $crate::contract_harness!($kind $name $($o)*); )* }
    };
}

#[macro_export]
macro_rules! contract_iters {
    (unwind $u:literal, iters $i:literal $(, $($r:tt)*)?) => { $i };
    (iters $i:literal $(, $($r:tt)*)?) => { $i };
}

/// Kani harnesses.
///
/// - `proof`: the whole call tree is verified, with nothing replaced but message formatting.
/// - `modular`: calls of `tag_data_fits` are checked against its contract (`crate::fits_contract`, itself proved by
///   `p04::fits_contract`) instead of its body.
/// - `deep`, `deepmodular`: the same, thorough tier only.
/// - `bounded`: like `proof`, with a bound on the input stated in the description.
#[macro_export]
macro_rules! contract_harness {
    (native $name:ident $($o:tt)*) => {};
    (deep $name:ident $($o:tt)*) => { #[cfg(feature = "deep")] $crate::contract_harness!(proof $name $($o)*); };
    (deepmodular $name:ident $($o:tt)*) => { #[cfg(feature = "deep")] $crate::contract_harness!(modular $name $($o)*); };
    (modular $name:ident unwind $u:literal, iters $i:literal $(, solver $s:ident)?) => {
        #[kani::proof]
        #[kani::unwind($u)]
        $(#[kani::solver($s)])?
        #[kani::stub(alloc::fmt::format, crate::nofmt)]
        #[cfg_attr(not(feature = "unstub"), kani::stub(ringhopper_primitives::parse::tag_data_fits, crate::fits_contract))]
        fn $name() { super::$name() }
    };
    ($kind:ident $name:ident unwind $u:literal, iters $i:literal $(, solver $s:ident)?) => {
        #[kani::proof]
        #[kani::unwind($u)]
        $(#[kani::solver($s)])?
        #[kani::stub(alloc::fmt::format, crate::nofmt)]
        fn $name() { super::$name() }
    };
}

/// Reachability witness: fails the check's vacuity guard when it is never satisfied.
#[macro_export]
macro_rules! cover {
    ($c:expr, $l:literal) => {{
        #[cfg(kani)]
        kani::cover!($c, $l);
        #[cfg(not(kani))]
        if $c { $crate::nd::cover($l) }
    }};
}
