//! Harnesses about the block dumps and the sqlite store of banyan-utils.
use crate::{types::*, vf, dump::*, sqlite::SqliteStore, tags::{self, Sha256Digest}, tag_index::{Tag, TagSet}};
use banyan::{index::*, query::AllQuery, store::*, *};
use cbor_data::{codec::{CodecError, ReadCbor, WriteCbor}, Cbor, Writer};
use ipfs_sqlite_block_store::BlockStore;
use libipld::{Cid, DefaultParams};
/// any cbor item, by its encoding
#[derive(Debug, Clone, PartialEq, Eq)]
pub struct Raw(pub Vec<u8>);
impl WriteCbor for Raw { fn write_cbor<W: Writer>(&self, w: W) -> W::Output { w.write_trusting(&self.0) } }
impl ReadCbor for Raw {
    fn fmt(f: &mut impl std::fmt::Write) -> std::fmt::Result { write!(f, "Raw") }
    fn read_cbor(cbor: &Cbor) -> Result<Self, CodecError> { Ok(Raw(cbor.as_slice().to_vec())) }
}
fn sb(l: &str, lo: u64, hi: u64) -> u8 { vf::sym(l, lo, hi) as u8 }
fn dec(n: u64) -> Vec<u8> { let mut v = vec![]; let mut n = n; loop { v.push(b'0' + (n % 10) as u8); n /= 10; if n == 0 { break } } v.reverse(); v }
/// an item: its cbor encoding, its dag-json form and its diagnostic notation
fn item() -> (Vec<u8>, Vec<u8>, Vec<u8>) {
    let small = |l: &str| -> (u8, Vec<u8>) { let x = vf::choose(l, 0, vf::param("small", 11)); (x as u8, dec(x)) };
    match vf::choose("shape", 0, vf::param("shapes", 15) - 1) {
        0 => { let (b, d) = small("int"); (vec![b], d.clone(), d) }
        1 => { let c = sb("char", b'a' as u64, b'z' as u64); (vec![0x62, c, b'!'], vec![b'"', c, b'!', b'"'], vec![b'"', c, b'!', b'"']) }
        2 => { let (b, d) = small("elem"); let c = sb("char", b'a' as u64, b'z' as u64);
            let mut j = vec![b'[']; j.extend(&d); j.extend(&[b',', b'"', c, b'"', b']']); let mut n = vec![b'[']; n.extend(&d); n.extend(&[b',', b' ', b'"', c, b'"', b']']); (vec![0x82, b, 0x61, c], j, n) }
        3 => { let (b, d) = small("value"); let mut j = b"{\"k\":".to_vec(); j.extend(&d); j.push(b'}'); let mut n = b"{\"k\": ".to_vec(); n.extend(&d); n.push(b'}'); (vec![0xa1, 0x61, b'k', b], j, n) }
        4 => { let n = vf::choose("neg", 0, vf::param("small", 11)); let mut d = vec![b'-']; d.extend(dec(n + 1)); (vec![0x20 + n as u8], d.clone(), d) }
        5 => { let f = vf::flag("bool"); let d = if f { b"true".to_vec() } else { b"false".to_vec() }; (vec![if f { 0xf5 } else { 0xf4 }], d.clone(), d) }
        6 => { let n = 0x100 + vf::choose("big", 0, 2) * 0xfeff; let mut b = vec![0x19]; b.extend(&(n as u16).to_be_bytes()); if n > 0xffff { b = vec![0x1a]; b.extend(&(n as u32).to_be_bytes()); } (b, dec(n), dec(n)) }
        7 => (vec![0xf6], b"null".to_vec(), b"null".to_vec()),
        8 => (vec![0x80], b"[]".to_vec(), b"[]".to_vec()),
        9 => (vec![0xa0], b"{}".to_vec(), b"{}".to_vec()),
        10 => (vec![0x60], b"\"\"".to_vec(), b"\"\"".to_vec()),
        11 => (vec![0x82, 0x80, 0x81, 0xf6], b"[[],[null]]".to_vec(), b"[[], [null]]".to_vec()),
        12 => { let x = [b'"', b'\\'][vf::choose("escape", 0, 1) as usize]; (vec![0x61, x], vec![b'"', b'\\', x, b'"'], vec![b'"', b'\\', x, b'"']) }
        13 => { let (b, d) = small("byte"); (vec![0x42, b, 0], { let mut j = b"{\"/\":{\"bytes\":\"".to_vec(); j.extend(&[b"ABC"[(b >> 2) as usize], b"AQgw"[(b & 3) as usize], b'A']); j.extend(b"\"}}"); j }, { let mut v = b"h'0".to_vec(); v.push(b"0123456789ab"[b as usize]); v.extend(b"00'"); let _ = d; v }) }
        _ => { let (b, d) = small("a"); let (b2, d2) = small("b"); let mut j = b"{\"a\":".to_vec(); j.extend(&d); j.extend(b",\"b\":["); j.extend(&d2); j.extend(b"]}"); let mut n = b"{\"a\": ".to_vec(); n.extend(&d); n.extend(b", \"b\": ["); n.extend(&d2); n.extend(b"]}"); (vec![0xa2, 0x61, b'a', b, 0x61, b'b', 0x81, b2], j, n) }
    }
}
fn same(a: &[u8], b: &[u8], m: &str) { vf::check(a.len() == b.len(), m); for i in 0..a.len() { vf::check(a[i] == b[i], m); } }
fn key(n: u64) -> chacha20::Key { [n as u8; 32].into() }
/// C32: the dump of a block has one line for each item
pub fn h_dump() {
    let n = vf::choose("n", 0, vf::param("nmax", 2));
    let xs: Vec<_> = (0..n).map(|_| item()).collect();
    let (k, nonce) = (key(vf::choose("key", 0, 1)), chacha20::XNonce::from([vf::choose("nonce", 0, 1) as u8; 24]));
    let mut s = Store::new();
    s.put(vec![1, 2, 3]).unwrap();
    let plain = n == 1 && vf::flag("plain");
    let l = if plain { s.put(xs[0].0.clone()).unwrap() } else {
        let z = ZstdDagCborSeq::from_iter(xs.iter().map(|x| Raw(x.0.clone())).collect::<Vec<_>>().iter(), 1).unwrap();
        s.put(z.encrypt(&k, &nonce, [0, 77, 1 << 40][vf::choose("offset", 0, 2) as usize]).unwrap()).unwrap() };
    let head: &[u8] = if plain { b"" } else { b"ZstdDagCborSeq\n" };
    let (mut j, mut c) = (vec![], vec![]);
    dump_json(s.clone(), l, &k, &nonce, &mut j).unwrap();
    dump_cbor(s.clone(), l, &k, &nonce, &mut c).unwrap();
    let (mut ej, mut ec) = (head.to_vec(), head.to_vec());
    for x in &xs { ej.extend(&x.1); ej.push(b'\n'); ec.extend(&x.2); ec.push(b'\n'); }
    same(&j, &ej, "the json dump shows exactly the items of the block"); same(&c, &ec, "the cbor dump shows exactly the items of the block");
    vf::observe(j.len() as u64); vf::reach(if plain { "plain" } else { "sequence" });
    // errors are errors
    let mut o = vec![];
    vf::check(dump_json(s.clone(), Link(7), &k, &nonce, &mut o).is_err() && dump_cbor(s.clone(), Link(7), &k, &nonce, &mut o).is_err() && o.is_empty(), "a missing block is an error");
    if !plain {
        // with another key the values are not shown, and nothing crashes
        let (mut o, other) = (vec![], key(9));
        let _ = dump_json(s.clone(), l, &other, &nonce, &mut o); let _ = dump_cbor(s.clone(), l, &other, &nonce, &mut o);
        vf::check(n == 0 || !o.starts_with(b"ZstdDagCborSeq"), "items are only shown with the right key");
    }
}
/// C32: dumps of the blocks of a tree
pub fn h_dump_tree() {
    let s = Store::new(); let mut t = txn(&s);
    let (ik, vk) = (key(1), key(2));
    let mut b = Sb::new(config(vf::choose("leaf", 1, 3), 2, 2), Secrets::new(ik, vk));
    let n = vf::choose("n", 1, vf::param("nmax", 6));
    t.extend(&mut b, (0..n).map(|i| (Key(i), Val(i))).collect::<Vec<_>>()).unwrap();
    let nonce = (*TT::NONCE).into();
    let mut values = 0; let mut leaves = 0;
    let (_, ns) = t.dump_graph(&b.snapshot(), |(_, i): (usize, &NodeInfo<TT, Store>)| match i { NodeInfo::Branch(i, l) => (1, i.link.unwrap(), l.load().unwrap().children.len()), NodeInfo::Leaf(i, _) => (0, i.link.unwrap(), i.keys.len()), _ => (2, Link(0), 0) }).unwrap();
    for (level, link, count) in ns.values() {
        let k = if *level == 0 { vk } else { ik };
        for json in &[true, false] {
            let mut o = vec![]; if *json { dump_json(s.clone(), *link, &k, &nonce, &mut o).unwrap() } else { dump_cbor(s.clone(), *link, &k, &nonce, &mut o).unwrap() }
            let lines = o.iter().filter(|x| **x == b'\n').count();
            vf::check(o.starts_with(b"ZstdDagCborSeq\n"), "a block of a tree is recognised");
            if *level == 0 { vf::check(lines == count + 1, "one line for each value of a leaf") } else { vf::check(lines >= count + 1, "one line at least for each child") }
        }
        if *level == 0 { values += count; leaves += 1; }
    }
    vf::check(values as u64 == n, "all values are dumped");
    if leaves > 1 { vf::reach("several leaves") }
}
/// C32: the drawing of a tree has its nodes and edges
pub fn h_graph() {
    let s = Store::new(); let mut t = txn(&s);
    let mut b = Sb::new(config(vf::choose("leaf", 1, vf::param("leafmax", 2)), vf::choose("kb", 1, 2), 2), Secrets::default());
    let mut m = 0;
    for _ in 0..vf::param("ops", 2) { let n = vf::choose("n", 0, vf::param("nmax", 3)); let xs: Vec<_> = (m..m + n).map(|i| (Key(i), Val(vf::sym("v", 0, u64::MAX)))).collect(); m += n;
        if vf::flag("unpacked") { t.extend_unpacked(&mut b, xs).unwrap() } else { t.extend(&mut b, xs).unwrap() } }
    if vf::flag("purge") { let from = vf::choose("from", 0, m); t.retain(&mut b, &query::OffsetRangeQuery::from(from..)).unwrap(); }
    let tree = b.snapshot(); let mut o = vec![];
    let r = graph(&t, &tree, &mut o);
    if m == 0 { vf::check(r.is_err() && o.is_empty(), "an empty tree can not be drawn"); vf::reach("empty"); return; }
    r.unwrap();
    let (edges, ns) = t.dump_graph(&tree, |(id, i): (usize, &NodeInfo<TT, Store>)| match i { NodeInfo::Branch(i, _) => (id, true, i.sealed, 0), NodeInfo::PurgedBranch(i) => (id, true, i.sealed, 0), NodeInfo::Leaf(i, _) => (id, false, i.sealed, i.keys.len()), NodeInfo::PurgedLeaf(i) => (id, false, i.sealed, i.keys.len()) }).unwrap();
    let o = String::from_utf8(o).unwrap();
    let lines: Vec<&str> = o.lines().collect();
    vf::check(lines.len() == ns.len() + edges.len() + 2 && lines[0].starts_with("digraph") && lines[lines.len() - 1] == "}", "one line for each node and edge");
    for (id, branch, sealed, items) in ns.values() {
        let p = format!("    N{}[", id); let l: Vec<&&str> = lines.iter().filter(|x| x.starts_with(&p)).collect();
        vf::check(l.len() == 1, "each node is drawn once");
        vf::check(l[0].contains(&format!("label=\"{}\"", if *branch { *id } else { *items })), "branches are labelled with their number, leaves with their count");
        vf::check(l[0].contains("filled") == *sealed && l[0].contains("grey") == *sealed, "sealed nodes are filled");
        vf::check(l[0].contains("\"box\"") == *branch && l[0].contains("\"circle\"") != *branch, "branches are boxes, leaves circles");
    }
    for (a, b) in &edges { let p = format!("    N{} -> N{}[", a, b); vf::check(lines.iter().filter(|x| x.starts_with(&p)).count() == 1, "each edge is drawn once"); }
    if edges.len() > 2 { vf::reach("several") }
}
fn block() -> Vec<u8> { let n = vf::choose("len", 0, vf::param("len", 2)); (0..n).map(|_| vf::choose("byte", 0, 1) as u8 + 254 * (n as u8 % 2)).collect() }
/// C33: sequences of reads and writes with one failing operation of the database
pub fn h_sqlite() {
    let fail = if vf::flag("fault") { Some(vf::choose("fail at", 0, vf::param("ops", 3))) } else { None };
    let mut s = SqliteStore::new(BlockStore::<DefaultParams>::stub(fail));
    let mut s2 = s.clone();
    let mut m: Vec<Vec<u8>> = vec![]; let mut ops = 0;
    let mut hit = |ops: &mut u64| { let h = fail == Some(*ops); *ops += 1; h };
    for i in 0..vf::param("ops", 3) {
        let d = block(); let l = Sha256Digest::new(&d);
        if vf::flag("write") {
            let f = hit(&mut ops);
            match (if i % 2 == 0 { &mut s } else { &mut s2 }).put(d.clone()) {
                Ok(x) => { vf::check(!f, "a failed write is reported"); vf::check(x == l, "the link of a block is its digest"); if !m.contains(&d) { m.push(d); } }
                Err(_) => { vf::check(f, "a write fails only with the database"); vf::reach("fault"); }
            }
        } else {
            let f = hit(&mut ops);
            match (if i % 2 == 0 { &s2 } else { &s }).get(&l) {
                Ok(x) => { vf::check(!f && m.contains(&d), "only stored blocks are found"); vf::check(&x[..] == &d[..], "a block is returned unchanged"); vf::reach("found"); }
                Err(_) => vf::check(f || !m.contains(&d), "a stored block is found"),
            }
        }
    }
    let mut k = s.clone();
    for d in &m { if let Ok(x) = { let _ = hit(&mut ops); k.get(&Sha256Digest::new(d)) } { vf::check(&x[..] == &d[..], "all blocks are still there") } else { vf::check(fail == Some(ops - 1), "all blocks are found") } }
    // the stored block is registered under the dag-cbor sha2-256 content identifier
    if let Some(d) = m.get(0) { let c = Cid::from(Sha256Digest::new(d)); vf::check(c.codec() == 0x71 && c.hash().code() == 0x12, "blocks are dag-cbor with sha2-256"); }
}
/// C33: a tree in the store
pub fn h_sqlite_tree() {
    let s = SqliteStore::new(BlockStore::<DefaultParams>::stub(None));
    let f = Forest::<tags::TT, _>::new(s.clone(), BranchCache::new(1 << 20));
    let mut t = Transaction::new(f, s.clone());
    let mut b = StreamBuilder::<tags::TT, Val>::new(config(vf::choose("leaf", 1, 2), 2, 2), Secrets::default());
    let n = vf::choose("n", 1, vf::param("nmax", 3));
    let xs: Vec<(tags::Key, Val)> = (0..n).map(|i| (tags::Key::single(i, i, TagSet::from(vec![Tag::from("a")])), Val(vf::choose("v", 0, 1)))).collect();
    t.extend(&mut b, xs.clone()).unwrap();
    let f2 = Forest::<tags::TT, _>::new(s.clone(), BranchCache::new(0));
    let tree = f2.load_tree::<Val>(Secrets::default(), b.link().unwrap()).unwrap();
    let got = f2.collect(&tree).unwrap();
    vf::check(got.len() == xs.len() && got.iter().zip(&xs).all(|(a, b)| a.as_ref() == Some(b)), "a tree is read back from the store");
    vf::reach("done");
}
