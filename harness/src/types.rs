#![allow(dead_code)]
//! Tree types used by the harnesses: fixed-width encodings so that keys and values stay symbolic
//! through the whole encode / compress / encrypt / decrypt / decode pipeline.
use crate::vf;
use banyan::{index::*, store::*, *};
use cbor_data::{codec::{CodecError, ReadCbor, WriteCbor}, Cbor, ItemKind, Writer};
use libipld::{cbor::DagCborCodec, codec::{Decode, Encode}, DagCbor};
use std::{iter::FromIterator, sync::{Arc, Mutex}};

pub fn umin(a: u64, b: u64) -> u64 { vf::ite(a < b, a, b) }
pub fn umax(a: u64, b: u64) -> u64 { vf::ite(a < b, b, a) }

#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub struct Key(pub u64);
#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub struct KeyRange(pub u64, pub u64);
fn err(s: &'static str) -> anyhow::Error { anyhow::anyhow!(s) }
impl Encode<DagCborCodec> for Key {
    fn encode<W: std::io::Write>(&self, _: DagCborCodec, w: &mut W) -> anyhow::Result<()> {
        let mut b = [0x48u8; 9]; b[1..].copy_from_slice(&self.0.to_be_bytes()); w.write_all(&b)?; Ok(())
    }
}
impl Decode<DagCborCodec> for Key {
    fn decode<R: std::io::Read + std::io::Seek>(_: DagCborCodec, r: &mut R) -> anyhow::Result<Self> {
        let mut b = [0u8; 9]; r.read_exact(&mut b)?; if b[0] != 0x48 { return Err(err("bad key")); }
        let mut x = [0u8; 8]; x.copy_from_slice(&b[1..]); Ok(Key(u64::from_be_bytes(x)))
    }
}
impl Encode<DagCborCodec> for KeyRange {
    fn encode<W: std::io::Write>(&self, _: DagCborCodec, w: &mut W) -> anyhow::Result<()> {
        let mut b = [0x50u8; 17]; b[1..9].copy_from_slice(&self.0.to_be_bytes()); b[9..].copy_from_slice(&self.1.to_be_bytes()); w.write_all(&b)?; Ok(())
    }
}
impl Decode<DagCborCodec> for KeyRange {
    fn decode<R: std::io::Read + std::io::Seek>(_: DagCborCodec, r: &mut R) -> anyhow::Result<Self> {
        let mut b = [0u8; 17]; r.read_exact(&mut b)?; if b[0] != 0x50 { return Err(err("bad range")); }
        let (mut x, mut y) = ([0u8; 8], [0u8; 8]); x.copy_from_slice(&b[1..9]); y.copy_from_slice(&b[9..]);
        Ok(KeyRange(u64::from_be_bytes(x), u64::from_be_bytes(y)))
    }
}
macro_rules! refs { ($($t:ty),*) => { $(
    impl libipld::codec::References<DagCborCodec> for $t {
        fn references<R: std::io::Read + std::io::Seek, E: Extend<libipld::Cid>>(_: DagCborCodec, _: &mut R, _: &mut E) -> anyhow::Result<()> { Ok(()) }
    } )* } }
refs!(Key, KeyRange, Link);

#[derive(Debug, Clone, PartialEq, Eq, DagCbor)]
pub struct KeySeq(pub Vec<Key>);
impl CompactSeq for KeySeq {
    type Item = Key;
    fn get(&self, index: usize) -> Option<Key> { self.0.get(index).cloned() }
    fn len(&self) -> usize { self.0.len() }
}
impl Summarizable<KeyRange> for KeySeq {
    fn summarize(&self) -> KeyRange {
        let mut r = KeyRange(self.0[0].0, self.0[0].0);
        for k in &self.0[1..] { r = KeyRange(umin(r.0, k.0), umax(r.1, k.0)); }
        r
    }
}
impl Summarizable<KeyRange> for VecSeq<KeyRange> {
    fn summarize(&self) -> KeyRange {
        let s: &[KeyRange] = self.as_ref();
        let mut r = s[0];
        for k in &s[1..] { r = KeyRange(umin(r.0, k.0), umax(r.1, k.1)); }
        r
    }
}
impl FromIterator<Key> for KeySeq {
    fn from_iter<T: IntoIterator<Item = Key>>(iter: T) -> Self { KeySeq(iter.into_iter().collect()) }
}

#[derive(Debug, Clone, Copy, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub struct Link(pub u64);
impl std::fmt::Display for Link { fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { write!(f, "<{}>", self.0) } }
impl Encode<DagCborCodec> for Link {
    fn encode<W: std::io::Write>(&self, _: DagCborCodec, w: &mut W) -> anyhow::Result<()> {
        let mut b = [0x48u8; 9]; b[1..].copy_from_slice(&self.0.to_be_bytes()); w.write_all(&b)?; Ok(())
    }
}
impl Decode<DagCborCodec> for Link {
    fn decode<R: std::io::Read + std::io::Seek>(_: DagCborCodec, r: &mut R) -> anyhow::Result<Self> {
        let mut b = [0u8; 9]; r.read_exact(&mut b)?; if b[0] != 0x48 { return Err(err("bad link")); }
        let mut x = [0u8; 8]; x.copy_from_slice(&b[1..]); Ok(Link(u64::from_be_bytes(x)))
    }
}
#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub struct Val(pub u64);
impl WriteCbor for Val { fn write_cbor<W: Writer>(&self, w: W) -> W::Output { w.write_bytes(&self.0.to_be_bytes(), []) } }
impl ReadCbor for Val {
    fn fmt(f: &mut impl std::fmt::Write) -> std::fmt::Result { write!(f, "Val") }
    fn read_cbor(cbor: &Cbor) -> Result<Self, CodecError> {
        match cbor.kind() {
            ItemKind::Bytes(b) => { let b = b.to_vec(); if b.len() != 8 { return Err(CodecError::str("len")); } let mut x = [0u8; 8]; x.copy_from_slice(&b); Ok(Val(u64::from_be_bytes(x))) }
            _ => Err(CodecError::type_error("Val", &cbor.tagged_item())),
        }
    }
}
#[derive(Debug, Clone)]
pub struct TT;
impl TreeTypes for TT {
    type Key = Key; type KeySeq = KeySeq; type Summary = KeyRange; type SummarySeq = VecSeq<KeyRange>; type Link = Link;
}

/// append-only block store with fault injection: `fail_put`/`fail_get` are the number of
/// operations after which exactly one (or every later) operation fails; `lost` blocks are absent.
#[derive(Default)]
pub struct StoreInner {
    pub blocks: Vec<Vec<u8>>, pub puts: u64, pub gets: u64,
    pub fail_put_at: Option<u64>, pub fail_get_at: Option<u64>, pub sticky: bool, pub lost: Vec<bool>, pub log_gets: Vec<u64>,
    /// every block ever handed to `put`, including failed attempts
    /// bound on the number of blocks written (0: none), exceeded only by a runaway operation
    pub max_puts: u64,
    pub record: Option<Vec<Vec<u8>>>,
}
#[derive(Clone, Default)]
pub struct Store(pub Arc<Mutex<StoreInner>>);
impl Store {
    pub fn new() -> Self { Self::default() }
    pub fn with<R>(&self, f: impl FnOnce(&mut StoreInner) -> R) -> R { f(&mut self.0.lock().unwrap()) }
    pub fn len(&self) -> u64 { self.with(|s| s.blocks.len() as u64) }
}
fn hits(at: Option<u64>, n: u64, sticky: bool) -> bool { match at { Some(x) => if sticky { n >= x } else { n == x }, None => false } }
impl ReadOnlyStore<Link> for Store {
    fn get(&self, l: &Link) -> anyhow::Result<Box<[u8]>> {
        vf::jitter();
        self.with(|s| {
            let n = s.gets; s.gets += 1; s.log_gets.push(l.0);
            if hits(s.fail_get_at, n, s.sticky) { return Err(err("injected read error")); }
            if s.lost.get(l.0 as usize).cloned().unwrap_or(false) { return Err(err("block lost")); }
            s.blocks.get(l.0 as usize).map(|x| x.clone().into()).ok_or_else(|| err("no such block"))
        })
    }
}
impl BlockWriter<Link> for Store {
    fn put(&mut self, d: Vec<u8>) -> anyhow::Result<Link> {
        vf::jitter();
        self.with(|s| {
            let n = s.puts; s.puts += 1;
            crate::vf::check(s.max_puts == 0 || s.puts <= s.max_puts, "operations terminate");
            if let Some(r) = s.record.as_mut() { r.push(d.clone()); }
            if hits(s.fail_put_at, n, s.sticky) { return Err(err("injected write error")); }
            s.blocks.push(d); Ok(Link(s.blocks.len() as u64 - 1))
        })
    }
}
pub type Txn = Transaction<TT, Store, Store>;
pub type For = Forest<TT, Store>;
pub type Sb = StreamBuilder<TT, Val>;
pub type Tr = Tree<TT, Val>;
pub fn forest(store: &Store) -> For { Forest::new(store.clone(), BranchCache::new(1 << 20)) }
pub fn txn(store: &Store) -> Txn { Transaction::new(forest(store), store.clone()) }
pub fn config(leaf: u64, keyb: u64, sumb: u64) -> Config {
    Config { max_leaf_count: leaf as usize, max_key_branches: keyb as usize, max_summary_branches: sumb as usize, target_leaf_size: 1 << 20, max_uncompressed_leaf_size: 1 << 20, zstd_level: 1 }
}
