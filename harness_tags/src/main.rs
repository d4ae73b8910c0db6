#![allow(clippy::all, dead_code, unused, unexpected_cfgs)]
#[path = "../../harness/src/vf.rs"]
mod vf;
#[path = "/repo/banyan-utils/src/tag_index.rs"]
pub mod tag_index;
#[path = "/repo/banyan-utils/src/tags.rs"]
pub mod tags;
mod h_expr; mod h_tags;
macro_rules! harnesses { ($p:ident: $($m:ident :: $n:ident),* $(,)?) => {
    #[cfg(any(not(only), $p))]
    mod $p { $( #[no_mangle] #[inline(never)] pub extern "C" fn $n() { crate::$m::$n(); crate::vf::finish(); } )*
        #[used] static TABLE: &[(&str, extern "C" fn())] = &[$( (stringify!($n), $n) ),*];
        pub fn find(n: &str) -> Option<extern "C" fn()> { TABLE.iter().find(|x| x.0 == n).map(|x| x.1) } }
    #[cfg(not(any(not(only), $p)))]
    mod $p { pub fn find(n: &str) -> Option<extern "C" fn()> { None } }
} }
macro_rules! all { ($($p:ident: $l:tt;)*) => {
    $( harnesses2!{ $p $l } )*
    fn main() { let n = std::env::args().nth(1).unwrap_or_default(); $( if let Some(f) = $p::find(&n) { f(); return; } )* eprintln!("unknown harness"); std::process::exit(99) }
} }
macro_rules! harnesses2 { ($p:ident [$($x:tt)*]) => { harnesses!{ $p: $($x)* } } }
all!{
 c21: [h_expr::h_match, h_expr::h_dnf, h_expr::h_simplify, h_expr::h_display];
 c22: [h_tags::h_leaf, h_tags::h_prune, h_tags::h_tree, h_tags::h_untagged];
 c23: [h_tags::h_seq, h_tags::h_summary, h_tags::h_seq_wire, h_tags::h_index_wire, h_tags::h_link, h_tags::h_json, h_tags::h_json_index, h_tags::h_link_text];
}
