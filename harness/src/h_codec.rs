//! Harnesses about the block format: item access, encryption, links, index wire format.
use crate::{types::*, vf, h_tree::*, h_limits::BVal};
use banyan::{index::*, query::AllQuery, store::*, *};
use cbor_data::{codec::{CodecError, ReadCbor, WriteCbor}, Cbor, Writer};
use libipld::{cbor::DagCborCodec, codec::{Codec, Decode, Encode}, Cid, Ipld};
use std::collections::BTreeSet;
/// any cbor item, by its encoding
#[derive(Debug, Clone, PartialEq, Eq)]
pub struct Raw(pub Vec<u8>);
impl WriteCbor for Raw { fn write_cbor<W: Writer>(&self, w: W) -> W::Output { w.write_trusting(&self.0) } }
impl ReadCbor for Raw {
    fn fmt(f: &mut impl std::fmt::Write) -> std::fmt::Result { write!(f, "Raw") }
    fn read_cbor(cbor: &Cbor) -> Result<Self, CodecError> { Ok(Raw(cbor.as_slice().to_vec())) }
}
impl Encode<DagCborCodec> for Raw { fn encode<W: std::io::Write>(&self, _: DagCborCodec, w: &mut W) -> anyhow::Result<()> { w.write_all(&self.0)?; Ok(()) } }
fn sb(l: &str, lo: u64, hi: u64) -> u8 { vf::sym(l, lo, hi) as u8 }
pub fn any_item(kinds: u64) -> Vec<u8> {
    match vf::choose("shape", 0, kinds - 1) {
        0 => vec![sb("small", 0, 0x17)],
        1 => { let mut v = vec![0x1b]; v.extend_from_slice(&vf::sym("u64", 0, u64::MAX).to_be_bytes()); v }
        2 => { let n = vf::choose("len", 0, 2); let mut v = vec![0x40 + n as u8]; for _ in 0..n { v.push(sb("byte", 0, 255)); } v }
        3 => vec![0x82, sb("small", 0, 0x17), 0x41, sb("byte", 0, 255)],
        4 => vec![0xa1, 0x61, 0x61, 0x18, sb("byte", 0x18, 255)],
        5 => vec![0x9f, sb("small", 0, 0x17), 0xff],
        6 => vec![0xd8, 0x64, sb("small", 0, 0x17)],
        7 => vec![0xf6],
        _ => vec![0x80],
    }
}
fn same(a: &[Raw], b: &[Raw], what: &str) { vf::check(a.len() == b.len(), what); for (x, y) in a.iter().zip(b) { vf::check(x.0.len() == y.0.len(), what); for (p, q) in x.0.iter().zip(&y.0) { vf::check(p == q, what); } } }
/// C17
pub fn h_seq() {
    let kinds = vf::param("shapes", 9);
    let n = vf::choose("n", 0, vf::param("nmax", 3)) as usize;
    let xs: Vec<Raw> = (0..n).map(|_| Raw(any_item(kinds))).collect();
    let k = vf::choose("split", 0, n as u64) as usize;
    let a = ZstdDagCborSeq::from_iter(&xs[..k], 1).unwrap();
    same(&a.items::<Raw>().unwrap(), &xs[..k], "items returns what from_iter was given");
    let max = vf::choose("max", 0, n as u64 + 1) as usize;
    let mut keys: Vec<u64> = (0..k as u64).collect();
    let mut from = xs[k..].iter().cloned().enumerate().map(|(i, x)| (i as u64 + k as u64, x)).peekable();
    let (z, full) = ZstdDagCborSeq::fill(if k == 0 && vf::flag("from nothing") { &[] } else { a.compressed() }, &mut from, &mut keys, 1, 1 << 20, 1 << 20, max).unwrap();
    let taken = if k >= max { k } else { max.min(n) };
    vf::check(full == (taken >= max), "fill reports a full sequence iff the limit is reached");
    vf::check(keys.len() == taken && keys.iter().enumerate().all(|(i, x)| *x == i as u64), "fill takes the keys along with the values");
    let rest: Vec<Raw> = from.map(|x| x.1).collect();
    same(&rest, &xs[taken..], "fill leaves the elements that do not fit");
    let ys = &xs[..taken];
    same(&z.items::<Raw>().unwrap(), ys, "fill appends to what was there");
    vf::check(z.count().unwrap() == taken as u64, "count is the number of items");
    let i = vf::sym("index", 0, u64::MAX);
    match z.get::<Raw>(i).unwrap() { None => vf::check(i >= taken as u64, "get finds every item"), Some(x) => { vf::check(i < taken as u64, "get beyond the end is None"); let j = vf::concretize(i) as usize; same(&[x], &ys[j..j + 1], "get returns the item at the index"); } }
    let m = vf::choose("mask length", 0, taken as u64 + 1) as usize;
    let mask: Vec<bool> = (0..m).map(|_| vf::sym("take", 0, 1) == 1).collect();
    let got = z.select::<Raw>(&mask).unwrap();
    let mut want = vec![]; for i in 0..m.min(taken) { if mask[i] { want.push(ys[i].clone()); } }
    same(&got, &want, "select returns exactly the selected items in order");
    if taken > 1 { vf::reach("several"); }
    if taken < n { vf::reach("left over"); }
}
/// C17: the ipld flavour gives the same blocks
pub fn h_seq_ipld() {
    let n = vf::choose("n", 0, vf::param("nmax", 3)) as usize;
    let xs: Vec<Key> = (0..n).map(|_| Key(vf::sym("k", 0, u64::MAX))).collect();
    let raw: Vec<Raw> = xs.iter().map(|x| { let mut v = vec![0x48]; v.extend_from_slice(&x.0.to_be_bytes()); Raw(v) }).collect();
    let k = vf::choose("split", 0, n as u64) as usize;
    let max = vf::choose("max", 0, n as u64 + 1) as usize;
    let u = vf::choose("size", 1, 4) as usize * 9 - vf::choose("minus", 0, 1) as usize;
    let a = ZstdDagCborSeq::from_iter_ipld(&xs[..k], 1).unwrap(); let b = ZstdDagCborSeq::from_iter(&raw[..k], 1).unwrap();
    vf::check(a == b, "from_iter and from_iter_ipld agree");
    let (mut ka, mut kb): (Vec<usize>, Vec<usize>) = ((0..k).collect(), (0..k).collect());
    let mut fa = xs[k..].iter().cloned().enumerate().peekable(); let mut fb = raw[k..].iter().cloned().enumerate().peekable();
    let (pa, pb): (&[u8], &[u8]) = if k == 0 && vf::flag("from nothing") { (&[], &[]) } else { (a.compressed(), b.compressed()) };
    let ra = ZstdDagCborSeq::fill_ipld(pa, &mut fa, &mut ka, 1, 1 << 20, u, max);
    let rb = ZstdDagCborSeq::fill(pb, &mut fb, &mut kb, 1, 1 << 20, u, max);
    match (ra, rb) { (Ok((x, f)), Ok((y, g))) => {
        vf::check(f == g && ka == kb && x == y && fa.count() == fb.count(), "fill and fill_ipld agree");
        let it = x.items_ipld::<Key>().unwrap(); vf::check(it.len() == ka.len() && it.iter().zip(&xs).all(|(p, q)| p == q), "items_ipld returns the items"); vf::reach("filled"); }
        (Err(_), Err(_)) => { vf::check(u < 9 && max > k && n > k, "only an item that is too large is refused"); vf::reach("too large"); }
        _ => vf::check(false, "fill and fill_ipld agree on errors") }
}
fn key(x: u64) -> chacha20::Key { let mut k = [7u8; 32]; k[..8].copy_from_slice(&x.to_le_bytes()); k.into() }
const OFFS: &[u64] = &[0, 1, 63, 64, 65, 1000, (1 << 32) - 3, 1 << 32, (1 << 38) - 40, (1 << 38) - 1, 1 << 38, 1 << 50, 1 << 62];
/// the bytes at `off` and after in the keystream, from the cipher itself
pub fn keystream(k: &chacha20::Key, nonce: &chacha20::XNonce, off: u64, len: usize) -> Vec<u8> {
    use chacha20::cipher::{NewCipher, StreamCipher, StreamCipherSeek};
    let mut c = chacha20::XChaCha20::new(k, nonce);
    c.seek(off);
    let mut ks = vec![0; len];
    c.apply_keystream(&mut ks);
    ks
}
/// the stored bytes of a block are its contents, encrypted with the part of the keystream it claims
pub fn check_ciphertext(d: &[u8], k: &chacha20::Key, nonce: &chacha20::XNonce) {
    let (z, r) = ZstdDagCborSeq::decrypt(d, k, nonce).unwrap();
    let p = z.compressed();
    let ks = keystream(k, nonce, r.start, p.len());
    vf::check(d.len() > p.len(), "a block contains its contents");
    let c = &d[d.len() - p.len()..];
    for i in 0..p.len() { vf::check(c[i] ^ ks[i] == p[i], "a block is encrypted with the part of the keystream that it claims"); }
}
/// C15
pub fn h_block() {
    let n = vf::choose("n", 0, vf::param("nmax", 2)) as usize;
    let xs: Vec<Raw> = (0..n).map(|_| Raw(any_item(vf::param("shapes", 3)))).collect();
    let z = ZstdDagCborSeq::from_iter(&xs, 1).unwrap();
    let off = OFFS[vf::choose("offset", 0, OFFS.len() as u64 - 1) as usize];
    let (k, nonce) = (key(vf::choose("key", 0, 1)), chacha20::XNonce::from([vf::choose("nonce", 0, 1) as u8; 24]));
    let len = z.compressed().len() as u64;
    match z.encrypt(&k, &nonce, off) {
        Ok(d) => {
            let (y, r) = ZstdDagCborSeq::decrypt(&d, &k, &nonce).unwrap();
            vf::check(r.start == off && r.end == off + len, "decrypt returns the keystream range that was used");
            vf::check(y == z, "decrypt is the inverse of encrypt");
            check_ciphertext(&d, &k, &nonce);
            same(&y.items::<Raw>().unwrap(), &xs, "items survive encryption");
            let (w, _) = ZstdDagCborSeq::decrypt(&d, &key(5), &nonce).unwrap();
            vf::check(w.compressed()[..4] != z.compressed()[..4], "another key does not decrypt");
            vf::check(w.items::<Raw>().is_err(), "decrypting with the wrong key is an error");
            vf::reach("round trip");
        }
        Err(_) => { vf::check(false, "encryption fails only if the keystream is exhausted"); }
    }
}
/// C15: arbitrary bytes are never a reason to panic
/// whatever a block contains, all ways to access it agree, and nothing is dropped silently
fn check_damaged(z: &ZstdDagCborSeq) {
    let (items, count) = (z.items::<Raw>(), z.count());
    vf::check(items.is_ok() == count.is_ok(), "items and count agree about damage");
    let mut keys: Vec<u64> = vec![];
    let whole = ZstdDagCborSeq::fill(z.compressed(), &mut std::iter::empty::<(u64, Raw)>().peekable(), &mut keys, 1, 1 << 20, 1 << 20, 100);
    match items {
        Ok(xs) => {
            vf::check(count.unwrap() == xs.len() as u64, "items and count agree");
            for (i, x) in xs.iter().enumerate() { vf::check(z.get::<Raw>(i as u64).unwrap().unwrap() == *x, "items and get agree"); }
            vf::check(z.get::<Raw>(xs.len() as u64).unwrap().is_none(), "get behind the end");
            same(&z.select::<Raw>(&vec![true; xs.len()]).unwrap(), &xs, "items and select agree");
            if let Ok((w, _)) = whole { vf::check(w == ZstdDagCborSeq::from_iter(&xs, 1).unwrap(), "items are all that is in the block"); }
        }
        Err(_) => {
            vf::check(whole.is_err(), "damaged contents are not copied");
            vf::check(z.select::<Raw>(&[true; 9]).is_err() && z.get::<Raw>(9).is_err(), "damage in front of an item is an error");
            vf::reach("damaged items");
        }
    }
}
pub fn h_malformed() {
    let xs: Vec<Raw> = (0..vf::choose("n", 0, vf::param("nmax", 1))).map(|_| Raw(any_item(1))).collect();
    let z = ZstdDagCborSeq::from_iter(&xs, 1).unwrap();
    let (k, nonce) = (key(1), chacha20::XNonce::from([0; 24]));
    let mut d = z.encrypt(&k, &nonce, vf::choose("offset", 0, 1) * 300).unwrap();
    let n = d.len() as u64;
    match vf::choose("how", 0, 3) {
        3 => { // any stream offset, also those for which the range of the block does not fit
            let o = if vf::flag("middle") { (1 << 40) + vf::choose("o", 0, 2) } else { u64::MAX - vf::choose("o", 0, n) };
            d = vec![0x83, 0x1b]; d.extend_from_slice(&o.to_be_bytes()); d.push(0x80); let l = z.compressed().len() as u8; if l < 24 { d.push(0x40 + l) } else { d.extend_from_slice(&[0x58, l]) } d.extend_from_slice(z.compressed());
            let r = ZstdDagCborSeq::decrypt(&d, &k, &nonce);
            vf::check(r.is_err() == (o.checked_add(z.compressed().len() as u64).is_none()) , "a block whose range exceeds the key stream is an error");
        }
        0 => { let p = vf::choose("cut", 0, n - 1); d.truncate(p as usize); }
        1 => { let p = vf::choose("pos", 0, n - 1); let head = n - z.compressed().len() as u64; // the part that is not encrypted
            d[p as usize] = if p < head { vf::choose("header byte", 0, 255) as u8 } else { sb("byte", 0, 255) }; }
        _ => { d = (0..vf::choose("len", 0, vf::param("rawlen", 3))).map(|_| sb("byte", 0, 255)).collect(); }
    }
    match ZstdDagCborSeq::decrypt(&d, &k, &nonce) { Ok((z, r)) => { vf::check(r.end - r.start == z.compressed().len() as u64, "range of a decrypted block"); check_damaged(&z); vf::reach("ok") } Err(_) => vf::reach("err") }
}
/// C15: a branch block without children is refused
pub fn h_empty_branch() {
    let s = Store::new();
    let (mut t, mut w) = (txn(&s), s.clone());
    let empty: Vec<Index<TT>> = vec![];
    let z = ZstdDagCborSeq::from_iter_ipld(&empty, 1).unwrap();
    let k = *Secrets::default().index_key();
    let root = w.put(z.encrypt(&k, TT::NONCE.into(), vf::choose("offset", 0, 1) * 100).unwrap()).unwrap();
    let c = config(1, 1, 2);
    if vf::flag("as root") {
        vf::check(t.load_tree::<Val>(Default::default(), root).is_err(), "a malformed root is an error");
        vf::check(t.load_stream_builder::<Val>(Default::default(), c, root).is_err(), "a malformed root is an error");
    } else {
        // as child of a well-formed branch
        let ch: Index<TT> = BranchIndex { count: vf::sym("count", 1, 5), level: 1, sealed: vf::flag("sealed"), link: Some(root), summaries: vec![KeyRange(0, vf::sym("hi", 0, u64::MAX))].into_iter().collect(), value_bytes: 0, key_bytes: 0 }.into();
        let z = ZstdDagCborSeq::from_iter_ipld(&[ch], 1).unwrap();
        let r = w.put(z.encrypt(&k, TT::NONCE.into(), 200).unwrap()).unwrap();
        let tree: Tr = t.load_tree(Default::default(), r).unwrap();
        vf::check(t.collect(&tree).is_err() && t.get(&tree, 0).is_err(), "a malformed branch is an error");
        vf::check(t.iter_filtered(&tree, AllQuery).any(|x| x.is_err()), "a malformed branch is an error when iterating");
        let mut b: Sb = t.load_stream_builder(Default::default(), c, r).unwrap();
        vf::check(!t.repair(&mut b).unwrap().is_empty(), "repair forgets a malformed branch");
        vf::check(t.collect(&b.snapshot()).unwrap().iter().all(|x| x.is_none()), "repaired");
    }
    vf::reach("done");
}
// ---- links
#[derive(Debug, Clone, Copy, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub struct CLink(pub u64);
pub fn cid(x: u64) -> Cid {
    use libipld::multihash::Multihash;
    let mut d = [0u8; 32]; d[..8].copy_from_slice(&x.to_be_bytes());
    match if x < 1000 { 0 } else { x % 4 } { // links in values are of any kind
        0 => Cid::new_v1(0x71, Multihash::wrap(0x12, &d).unwrap()),
        1 => Cid::new_v1(0x55, Multihash::wrap(0, &d[..8]).unwrap()),
        2 => Cid::new_v0(Multihash::wrap(0x12, &d).unwrap()).unwrap(),
        _ => { let mut e = [0u8; 64]; e[..32].copy_from_slice(&d); Cid::new_v1(0x70, Multihash::wrap(0x13, &e).unwrap()) }
    }
}
impl std::fmt::Display for CLink { fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { write!(f, "<{}>", self.0) } }
impl Encode<DagCborCodec> for CLink { fn encode<W: std::io::Write>(&self, c: DagCborCodec, w: &mut W) -> anyhow::Result<()> { cid(self.0).encode(c, w) } }
impl Decode<DagCborCodec> for CLink { fn decode<R: std::io::Read + std::io::Seek>(c: DagCborCodec, r: &mut R) -> anyhow::Result<Self> { let c = Cid::decode(c, r)?; let mut b = [0u8; 8]; b.copy_from_slice(&c.hash().digest()[..8]); Ok(CLink(u64::from_be_bytes(b))) } }
impl libipld::codec::References<DagCborCodec> for CLink { fn references<R: std::io::Read + std::io::Seek, E: Extend<Cid>>(c: DagCborCodec, r: &mut R, e: &mut E) -> anyhow::Result<()> { e.extend(Some(Cid::decode(c, r)?)); Ok(()) } }
#[derive(Debug, Clone)]
pub struct TC;
impl TreeTypes for TC { type Key = Key; type KeySeq = KeySeq; type Summary = KeyRange; type SummarySeq = VecSeq<KeyRange>; type Link = CLink; }
#[derive(Clone)]
pub struct CStore(pub Store);
impl ReadOnlyStore<CLink> for CStore { fn get(&self, l: &CLink) -> anyhow::Result<Box<[u8]>> { self.0.get(&Link(l.0)) } }
impl BlockWriter<CLink> for CStore { fn put(&mut self, d: Vec<u8>) -> anyhow::Result<CLink> { self.0.put(d).map(|l| CLink(l.0)) } }
fn tagged(x: u64) -> Vec<u8> { let mut v = vec![0xd8, 42]; v.extend(plain(x)); v }
fn plain(x: u64) -> Vec<u8> { let c = cid(x).to_bytes(); let n = c.len() as u8 + 1; let mut v = if n < 24 { vec![0x40 + n, 0] } else { vec![0x58, n, 0] }; v.extend(c); v }
/// a value with some links, and the links
pub fn linked_value(kinds: u64) -> (Raw, Vec<u64>) {
    let mut l = || 1000 + vf::choose("target", 0, vf::param("targets", 2) - 1);
    match vf::choose("links", 0, kinds - 1) {
        0 => (Raw(vec![0x01]), vec![]),
        1 => { let a = l(); (Raw(tagged(a)), vec![a]) }
        2 => { let (a, b) = (l(), l()); let mut v = vec![0x82]; v.extend(tagged(a)); v.extend(tagged(b)); (Raw(v), vec![a, b]) }
        3 => { let a = l(); let mut v = vec![0xa1, 0x61, 0x61, 0x82, 0x00]; v.extend(tagged(a)); (Raw(v), vec![a]) }
        _ => { let a = l(); (Raw(plain(a)), vec![]) }
    }
}
fn refs(d: &[u8]) -> BTreeSet<Cid> { let mut r: Vec<Cid> = vec![]; DagCborCodec.references::<Ipld, _>(d, &mut r).unwrap(); r.into_iter().collect() }
/// C16
pub fn h_links() {
    let s = Store::new();
    let f: Forest<TC, CStore> = Forest::new(CStore(s.clone()), BranchCache::new(1 << 20));
    let mut t = Transaction::new(f, CStore(s.clone()));
    let mut b = StreamBuilder::<TC, Raw>::new(any_config(), Default::default());
    let mut m: Vec<(Key, Raw)> = vec![]; let mut ls: Vec<Vec<u64>> = vec![];
    for _ in 0..vf::param("ops", 2) {
        let mut xs = vec![];
        for _ in 0..vf::choose("n", 1, vf::param("nmax", 2)) { let (v, l) = linked_value(vf::param("kinds", 5)); ls.push(l); xs.push((Key(vf::sym("k", 0, u64::MAX)), v)); }
        m.extend(xs.clone());
        match vf::choose("op", 0, vf::param("opkinds", 2) - 1) { 0 => t.extend(&mut b, xs).unwrap(), _ => t.extend_unpacked(&mut b, xs).unwrap() }
    }
    if vf::param("purge", 1) == 1 && vf::flag("purge") { t.retain(&mut b, &query::OffsetRangeQuery::from(vf::choose("from", 0, m.len() as u64)..)).unwrap(); }
    let tree = b.snapshot();
    // with the keys: what every block contains
    let (_, ns) = t.dump_graph(&tree, |(_, i): (usize, &NodeInfo<TC, CStore>)| match i {
        NodeInfo::Branch(i, l) => (i.link, 0, Some(l.load().unwrap().children.iter().filter_map(|c| *c.link()).map(|l| cid(l.0)).collect::<BTreeSet<_>>())),
        NodeInfo::Leaf(i, _) => (i.link, i.keys.count(), None), NodeInfo::PurgedBranch(i) => (None, i.count, None), NodeInfo::PurgedLeaf(i) => (None, i.keys.count(), None) }).unwrap();
    let mut o = 0usize; let mut inside: BTreeSet<Cid> = BTreeSet::new();
    for (link, n, ch) in ns.into_iter().map(|x| x.1) {
        let want = match ch { Some(c) => c, None => { let r: BTreeSet<Cid> = ls[o..o + n as usize].iter().flatten().map(|x| cid(*x)).collect(); o += n as usize; r } };
        if let Some(l) = link {
            let have = refs(&s.with(|s| s.blocks[l.0 as usize].clone()));
            vf::check(have == want, "the unencrypted links of a block are exactly the links of its content");
            inside.insert(cid(l.0)); inside.extend(want);
            if have.len() > 1 { vf::reach("several links"); }
        }
    }
    // without the keys: following links from the root finds every block and every linked value
    if let Some(root) = tree.link() {
        let mut seen: BTreeSet<Cid> = BTreeSet::new(); let mut todo = vec![cid(root.0)];
        while let Some(c) = todo.pop() { if !seen.insert(c) { continue; } let mut x = [0u8; 8]; x.copy_from_slice(&c.hash().digest()[..8]); let x = u64::from_be_bytes(x); if x < 1000 { todo.extend(refs(&s.with(|s| s.blocks[x as usize].clone()))); } }
        vf::check(seen == inside, "all blocks of a tree can be found without the keys");
        vf::reach("done");
    }
}
/// C24
pub fn h_wire() {
    let link = if vf::flag("link") { Some(Link(vf::sym("link", 0, u64::MAX))) } else { None };
    let sealed = vf::sym("sealed", 0, 1) == 1;
    let n = vf::choose("n", 1, vf::param("nmax", 3));
    let branch = vf::flag("branch");
    let i: Index<TT> = if branch {
        BranchIndex { count: vf::sym("count", 0, u64::MAX), level: vf::sym("level", 0, u32::MAX as u64) as u32, sealed, link, summaries: (0..n).map(|_| KeyRange(vf::sym("lo", 0, u64::MAX), vf::sym("hi", 0, u64::MAX))).collect(), value_bytes: vf::sym("value bytes", 0, u64::MAX), key_bytes: vf::sym("key bytes", 0, u64::MAX) }.into()
    } else { LeafIndex { sealed, link, keys: (0..n).map(|_| Key(vf::sym("k", 0, u64::MAX))).collect(), value_bytes: vf::sym("value bytes", 0, u64::MAX) }.into() };
    let d = DagCborCodec.encode(&i).unwrap();
    let j: Index<TT> = DagCborCodec.decode(&d).unwrap();
    match (&i, &j) {
        (Index::Branch(x), Index::Branch(y)) => { vf::check(x.count == y.count && x.level == y.level && x.sealed == y.sealed && x.link == y.link && x.value_bytes == y.value_bytes && x.key_bytes == y.key_bytes, "branch index fields survive"); let (p, q): (Vec<_>, Vec<_>) = (x.summaries().collect(), y.summaries().collect()); vf::check(p == q, "summaries survive"); vf::reach("branch"); }
        (Index::Leaf(x), Index::Leaf(y)) => { vf::check(x.sealed == y.sealed && x.link == y.link && x.value_bytes == y.value_bytes, "leaf index fields survive"); let (p, q): (Vec<_>, Vec<_>) = (x.keys().collect(), y.keys().collect()); vf::check(p == q, "keys survive"); vf::reach("leaf"); }
        _ => vf::check(false, "the kind of an index survives"),
    }
    vf::check(i.count() == j.count() && i.level() == j.level() && i.link() == j.link() && i.sealed() == j.sealed() && i.value_bytes() == j.value_bytes() && i.key_bytes() == j.key_bytes() && i.summarize() == j.summarize(), "accessors agree");
    // a field read back through the generic data model is the documented one
    if let (Ipld::Map(x), true) = (DagCborCodec.decode::<Ipld>(&d).unwrap(), true) { vf::check(x.contains_key("sealed") && x.contains_key("link") && x.contains_key("value_bytes") && x.contains_key(if branch { "summaries" } else { "keys" }), "an index is a map with the documented fields"); } else { vf::check(false, "an index is a map"); }
    // a sequence of indexes is self-delimiting
    let z = ZstdDagCborSeq::from_iter_ipld(&[i.clone(), j.clone()], 1).unwrap();
    vf::check(z.items_ipld::<Index<TT>>().unwrap().len() == 2, "indexes are self-delimiting");
}
/// CompactSeq laws of the sequences in the library
pub fn h_compact_seq() {
    let n = vf::choose("n", 0, vf::param("nmax", 4)) as usize;
    let xs: Vec<Key> = (0..n).map(|_| Key(vf::sym("k", 0, u64::MAX))).collect();
    let v: VecSeq<Key> = xs.iter().cloned().collect();
    let u: UnitSeq = xs.iter().map(|_| ()).collect();
    vf::check(v.len() == n && v.count() == n as u64 && v.is_empty() == (n == 0) && v.to_vec() == xs && v.as_ref() == &xs[..], "VecSeq is the sequence it was made from");
    vf::check(u.len() == n && u.count() == n as u64 && u.is_empty() == (n == 0) && u.to_vec().len() == n, "UnitSeq is the sequence it was made from");
    let i = vf::sym("index", 0, u64::MAX) as usize;
    match v.get(i) { Some(x) => { vf::check(i < n && u.get(i).is_some(), "get"); let j = vf::concretize(i as u64) as usize; vf::check(x == xs[j], "get returns the item"); } None => vf::check(i >= n && u.get(i).is_none(), "get finds every item") }
    if n > 0 { vf::check(v.first() == xs[0] && v.last() == xs[n - 1], "first and last"); }
    let mask: Vec<bool> = (0..n).map(|_| vf::sym("take", 0, 1) == 1).collect();
    let mut want = vec![]; for i in 0..n { if mask[i] { want.push(xs[i]); } }
    vf::check(v.select(&mask) == want && u.select(&mask).len() == want.len(), "select");
    let d = DagCborCodec.encode(&v).unwrap(); let w: VecSeq<Key> = DagCborCodec.decode(&d).unwrap(); vf::check(w.to_vec() == xs, "VecSeq survives encoding");
    let d = DagCborCodec.encode(&u).unwrap(); let w: UnitSeq = DagCborCodec.decode(&d).unwrap(); vf::check(w.len() == n, "UnitSeq survives encoding");
    // also for lengths that nobody would build in a test
    let k = vf::sym("long", 0, u64::MAX);
    let w: UnitSeq = DagCborCodec.decode(&DagCborCodec.encode(&k).unwrap()).unwrap();
    vf::check(w.len() as u64 == k && w.count() == k && w.is_empty() == (k == 0) && w.get(k as usize).is_none() && (k == 0 || w.get(k as usize - 1).is_some()), "UnitSeq of any length can be read");
    vf::check(DagCborCodec.decode::<u64>(&DagCborCodec.encode(&w).unwrap()).unwrap() == k, "UnitSeq of any length can be written");
    vf::reach("done");
}

struct Big(usize);
impl WriteCbor for Big { fn write_cbor<W: Writer>(&self, w: W) -> W::Output { w.write_bytes(&vec![0; self.0], []) } }
impl ReadCbor for Big {
    fn fmt(f: &mut impl std::fmt::Write) -> std::fmt::Result { write!(f, "Big") }
    fn read_cbor(cbor: &Cbor) -> Result<Self, CodecError> { Ok(Big(cbor.as_slice().len())) }
}
/// C15: blocks up to the maximum size survive, larger ones are errors
pub fn h_large() {
    const M: usize = 1 << 20;
    let n = [M, 4 * M - 6, 4 * M - 5, 4 * M, 5 * M, 8 * M, 9 * M, 16 * M - 6, 16 * M - 5, 16 * M][vf::choose("size", 0, vf::param("sizes", 9)) as usize];
    let z = ZstdDagCborSeq::from_iter(&[Big(n)], 1).unwrap();
    match z.items::<Big>() {
        Ok(x) => { vf::check(x.len() == 1 && x[0].0 == n + 5, "a large item survives"); vf::check(n + 5 <= 16 * M, "limit"); vf::check(z.count().unwrap() == 1, "count"); vf::reach("large"); }
        Err(_) => { vf::check(n + 5 > 16 * M, "blocks of up to 16 MB can be read"); vf::reach("too large"); }
    }
}
