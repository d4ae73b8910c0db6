#![allow(clippy::all, dead_code, unused)]
mod vf; mod types; mod h_tree; mod h_query; mod h_stream; mod h_write; mod h_limits; mod h_codec; mod h_store; mod h_thread;
macro_rules! harnesses { ($p:ident: $($m:ident :: $n:ident),* $(,)?) => {
    #[cfg(any(not(only), $p))]
    mod $p { $( #[no_mangle] #[inline(never)] pub extern "C" fn $n() { crate::$m::$n(); crate::vf::finish(); } )*
        #[used] static TABLE: &[(&str, extern "C" fn())] = &[$( (stringify!($n), $n) ),*];
        pub fn find(n: &str) -> Option<extern "C" fn()> { TABLE.iter().find(|x| x.0 == n).map(|x| x.1) } }
    #[cfg(not(any(not(only), $p)))]
    mod $p { pub fn find(n: &str) -> Option<extern "C" fn()> { None } }
} }
macro_rules! all { ($($p:ident: $l:tt;)*) => {
    $( harnesses2!{ $p $l } )*
    fn main() { let n = std::env::args().nth(1).unwrap_or_default(); $( if let Some(f) = $p::find(&n) { f(); return; } )* eprintln!("unknown harness"); std::process::exit(99) }
} }
macro_rules! harnesses2 { ($p:ident [$($x:tt)*]) => { harnesses!{ $p: $($x)* } } }
all!{
 c01: [h_tree::h_content];
 c02: [h_tree::h_pack, h_tree::h_pack_purged];
 c03: [h_tree::h_batching];
 c04: [h_tree::h_invariants];
 c05: [h_query::h_filter];
 c06: [h_query::h_reverse];
 c07: [h_query::h_chunks];
 c08: [h_query::h_random_access];
 c09: [h_write::h_keystream];
 c10: [h_write::h_atomic, h_write::h_repair_fault];
 c11: [h_tree::h_snapshot];
 c12: [h_write::h_retain];
 c13: [h_write::h_repair];
 c14: [h_tree::h_reload, h_tree::h_reconfig];
 c15: [h_codec::h_block, h_codec::h_malformed, h_codec::h_empty_branch, h_codec::h_large];
 c16: [h_codec::h_links];
 c17: [h_codec::h_seq, h_codec::h_seq_ipld];
 c18: [h_limits::h_limits];
 c19: [h_stream::h_stream_trees];
 c20: [h_store::h_caches, h_store::h_mem_store, h_store::h_offer];
 c24: [h_codec::h_wire, h_codec::h_compact_seq];
 c25: [h_query::h_index_iter];
 c26: [h_limits::h_read_errors];
 c27: [h_limits::h_config];
 c28: [h_limits::h_key_separation];
 c29: [h_tree::h_views];
 c30: [h_thread::h_threaded];
 c31: [h_thread::h_shared, h_thread::h_shared_store];
}
