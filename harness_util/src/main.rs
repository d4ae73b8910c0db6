#![allow(clippy::all, dead_code, unused, unexpected_cfgs)]
#[path = "../../harness/src/vf.rs"]
mod vf;
#[path = "/repo/banyan-utils/src/tag_index.rs"]
pub mod tag_index;
#[path = "/repo/banyan-utils/src/tags.rs"]
pub mod tags;
#[path = "/repo/banyan-utils/src/dump.rs"]
pub mod dump;
#[path = "/repo/banyan-utils/src/sqlite.rs"]
pub mod sqlite;
#[path = "../../harness/src/types.rs"]
mod types;
mod h_util;
macro_rules! harnesses { ($p:ident: $($m:ident :: $n:ident),* $(,)?) => {
    #[cfg(any(not(only), $p))]
    mod $p { $( #[no_mangle] #[inline(never)] pub extern "C" fn $n() { crate::$m::$n(); crate::vf::finish(); } )*
        #[used] static TABLE: &[(&str, extern "C" fn())] = &[$( (stringify!($n), $n) ),*];
        pub fn find(n: &str) -> Option<extern "C" fn()> { TABLE.iter().find(|x| x.0 == n).map(|x| x.1) } }
    #[cfg(not(any(not(only), $p)))]
    mod $p { pub fn find(n: &str) -> Option<extern "C" fn()> { None } }
} }
macro_rules! all { ($($p:ident: $l:tt;)*) => {
    $( harnesses2!{ $p $l } )*
    fn main() { let n = std::env::args().nth(1).unwrap_or_default(); $( if let Some(f) = $p::find(&n) { f(); return; } )* eprintln!("unknown harness"); std::process::exit(99) }
} }
macro_rules! harnesses2 { ($p:ident [$($x:tt)*]) => { harnesses!{ $p: $($x)* } } }
all!{
 c32: [h_util::h_dump, h_util::h_dump_tree, h_util::h_graph];
 c33: [h_util::h_sqlite, h_util::h_sqlite_tree];
}
