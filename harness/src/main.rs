#![allow(dead_code)]
mod vx;
mod model;
mod gen;
mod canon;
mod ident;
mod trees;
mod file;
#[cfg(not(feature = "native"))]
mod env;

macro_rules! harnesses {
    ($($(#[$a:meta])* fn $name:ident() $body:block)*) => {
        $( $(#[$a])* #[no_mangle] pub fn $name() $body )*
        pub static TABLE: &[(&str, fn())] = &[$((stringify!($name), $name as fn())),*];
    }
}

macro_rules! props {
    ($($m:ident $f:literal),*) => {
        $( #[cfg(feature = $f)] mod $m; )*
        fn table() -> Vec<(&'static str, fn())> {
            #[allow(unused_mut)]
            let mut v: Vec<(&'static str, fn())> = vec![];
            $( #[cfg(feature = $f)] v.extend_from_slice($m::TABLE); )*
            v
        }
    }
}
props!(p01 "c01", p02 "c02", p03 "c03", p04 "c04", p05 "c05", p06 "c06", p07 "c07", p08 "c08", p09 "c09", p10 "c10", p11 "c11", p12 "c12", p13 "c13", p14 "c14", p15 "c15", p16 "c16", p17 "c17", p18 "c18", p19 "c19", p20 "c20", p21 "c21", p22 "c22", p23 "c23", p24 "c24", p25 "c25", p26 "c26", p27 "c27", p28 "c28", p29 "c29");

#[cfg(not(feature = "native"))]
fn main() {
    let n = std::env::args().count();
    for (i, (_, f)) in table().iter().enumerate() { if i == n { f() } }
}

#[cfg(feature = "native")]
mod native;
#[cfg(feature = "native")]
fn main() { native::run(table()) }
