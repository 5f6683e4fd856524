//! Names the generic functions of the public API at the types the crates use
//! them with, so that the compiler resolves them to monomorphic bodies.
#![allow(dead_code, unused)]
pub use svd_rs; pub use svd_parser; pub use svd_encoder;
#[cfg(feature = "generic")]
pub mod generic {
    use svd_rs::*;
    macro_rules! maybe { ($($m:ident $t:ident)*) => { $(pub mod $m {
        use svd_rs::*;
        pub fn same(x: &$t, y: &$t) -> bool { *x == *y }
        pub fn copy(x: &$t) -> $t { x.clone() }
        pub fn is_single(x: &$t) -> bool { x.is_single() }
        pub fn is_array(x: &$t) -> bool { x.is_array() }
        pub fn name(x: &$t) -> &str { Name::name(x) }
        pub fn description(x: &$t) -> Option<&str> { Description::description(x) }
    })* } }
    maybe! { peripheral Peripheral cluster Cluster register Register field Field }
}
#[cfg(feature = "serial")]
pub mod serial;
