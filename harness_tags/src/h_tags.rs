//! Keys with tags: queries, sequences, wire format.
use crate::{h_expr::*, tag_index::*, tags::*, vf};
use banyan::{index::*, query::*, store::*, *};
use libipld::{cbor::DagCborCodec, codec::{Decode, Encode}, Cid};
use std::{convert::TryFrom, iter::FromIterator, sync::{Arc, Mutex}};
#[derive(Clone)]
struct K { lamport: u64, lo: u64, hi: u64, tags: TagSet }
impl K {
    fn key(&self) -> Key { if self.lamport == 0 { Key::range(self.lo, self.hi, self.tags.clone()) } else { Key::single(self.lamport, self.lo, self.tags.clone()) } }
}
fn any_time() -> u64 { if vf::param("big", 0) == 1 && vf::flag("big") { return u64::MAX - vf::sym("distance", 0, 1); } vf::sym("time", 0, vf::param("tmax", u64::MAX)) }
fn any_set(max: u64) -> TagSet { let t = any_tags(max, b'a'); t }
/// an event (single point in time, at least `min` tags)
fn any_event(min: u64, max: u64) -> K { let t = any_time(); let tags = any_set(max); vf::assume(tags.len() as u64 >= min); K { lamport: 1, lo: t, hi: t, tags } }
fn any_clause() -> K { let (lo, hi) = (any_time(), any_time()); let tags = any_set(vf::param("ctags", 2)); vf::assume(tags.len() > 0); K { lamport: 0, lo, hi, tags } }
fn subset(a: &TagSet, b: &TagSet) -> bool { a.iter().all(|x| has(b, x)) }
fn contains(q: &K, k: &K) -> bool { (q.lo <= k.lo) & (k.hi <= q.hi) & subset(&k.tags, &q.tags) }
fn clauses() -> Vec<K> { let n = vf::choose("clauses", 0, vf::param("clauses", 2)); (0..n).map(|_| any_clause()).collect() }
fn query(c: &[K]) -> DnfQuery { DnfQuery(c.iter().map(|x| x.key()).collect()) }
fn matches(c: &[K], k: &K) -> bool { c.iter().any(|q| contains(q, k)) }
fn leaf(ks: &[K]) -> LeafIndex<TT> { LeafIndex { sealed: true, link: None, keys: KeySeq::from_iter(ks.iter().map(|x| x.key())), value_bytes: 0 } }
/// C22: within a leaf exactly the events contained in a clause are selected
pub fn h_leaf() {
    let n = vf::choose("events", 1, vf::param("events", 2));
    let ks: Vec<K> = (0..n).map(|_| any_event(0, vf::param("etags", 2))).collect();
    let ks: Vec<K> = bulk().into_iter().chain(ks).collect(); let n = n + vf::param("bulk", 0);
    let c = clauses();
    let mut m: Vec<bool> = ks.iter().map(|_| true).collect();
    let pre = if vf::param("bulk", 0) > 0 { [0, n - 1, n][vf::choose("pre", 0, 2) as usize] } else { vf::choose("pre", 0, n) }; if pre < n { m[pre as usize] = false; }
    query(&c).containing(vf::sym("offset", 0, u64::MAX), &leaf(&ks), &mut m);
    for (i, k) in ks.iter().enumerate() {
        if i as u64 == pre { vf::check(!m[i], "a deselected event stays deselected"); continue; }
        vf::check(m[i] == matches(&c, k), "an event is selected iff a clause contains it");
        if m[i] { vf::reach("selected"); } else { vf::reach("not selected"); }
    }
}
/// C22: a subtree with a matching (tagged) event is never pruned
pub fn h_prune() {
    let n = vf::choose("events", 1, vf::param("events", 2));
    let ks: Vec<K> = (0..n).map(|_| any_event(1, vf::param("etags", 2))).collect();
    let other = any_event(1, 1);
    let c = clauses();
    let x: BranchIndex<TT> = BranchIndex { count: n + 1, level: 1, sealed: true, link: None, value_bytes: 0, key_bytes: 0,
        summaries: KeySeq::from_iter(vec![KeySeq::from_iter(ks.iter().map(|x| x.key())).summarize(), other.key()]) };
    let mut m = [true, true];
    query(&c).intersecting(vf::sym("offset", 0, u64::MAX), &x, &mut m);
    if ks.iter().any(|k| matches(&c, k)) { vf::check(m[0], "a subtree containing a selected event is visited"); vf::reach("visited"); }
    if matches(&c, &other) { vf::check(m[1], "a subtree containing a selected event is visited"); }
    if !m[0] { vf::reach("pruned"); }
}
#[derive(Clone, Default)]
struct Store(Arc<Mutex<Vec<Vec<u8>>>>);
fn mint(n: u64) -> Sha256Digest { let mut d = [0u8; 32]; d[0] = n as u8; Sha256Digest::try_from(Cid::new_v1(0x71, multihash::Multihash::wrap(0x12, &d).unwrap())).unwrap() }
impl ReadOnlyStore<Sha256Digest> for Store { fn get(&self, l: &Sha256Digest) -> anyhow::Result<Box<[u8]>> { let n = Cid::from(*l).hash().digest()[0] as usize; Ok(self.0.lock().unwrap()[n].clone().into()) } }
impl BlockWriter<Sha256Digest> for Store { fn put(&mut self, d: Vec<u8>) -> anyhow::Result<Sha256Digest> { let mut v = self.0.lock().unwrap(); v.push(d); Ok(mint(v.len() as u64 - 1)) } }
#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub struct Val(pub u8);
impl cbor_data::codec::WriteCbor for Val { fn write_cbor<W: cbor_data::Writer>(&self, w: W) -> W::Output { w.write_bytes(&[self.0], []) } }
impl cbor_data::codec::ReadCbor for Val {
    fn fmt(f: &mut impl std::fmt::Write) -> std::fmt::Result { write!(f, "Val") }
    fn read_cbor(cbor: &cbor_data::Cbor) -> Result<Self, cbor_data::codec::CodecError> { match cbor.kind() { cbor_data::ItemKind::Bytes(b) => Ok(Val(b.to_vec()[0])), _ => Err(cbor_data::codec::CodecError::type_error("Val", &cbor.tagged_item())) } }
}
/// fixed further events with times 0, 10 or 20 and one tag each
fn bulk() -> Vec<K> { (0..vf::param("bulk", 0)).map(|i| { let mut tags = TagSet::default(); tags.insert(pad_tag(i % 40)); K { lamport: 1, lo: i % 3 * 10, hi: i % 3 * 10, tags } }).collect() }
type Tree2 = (Transaction<TT, Store, Store>, StreamBuilder<TT, Val>);
fn tree(ks: &[K], leaf: u64, packed: bool) -> Tree2 {
    let s = Store::default();
    let cfg = Config { max_leaf_count: leaf as usize, max_key_branches: 2, max_summary_branches: 2, target_leaf_size: 1 << 20, max_uncompressed_leaf_size: 1 << 20, zstd_level: 1 };
    let mut t = Transaction::<TT, Store, Store>::new(Forest::new(s.clone(), BranchCache::new(1 << 20)), s.clone());
    let mut b = StreamBuilder::<TT, Val>::new(cfg, Default::default());
    let data: Vec<(Key, Val)> = ks.iter().enumerate().map(|(i, k)| (k.key(), Val(i as u8))).collect();
    if packed { t.extend(&mut b, data).unwrap() } else { for x in data { t.extend_unpacked(&mut b, vec![x]).unwrap() } }
    (t, b)
}
/// C22: a tag query over a tree returns the selected events, however they are arranged in nodes
pub fn h_tree() {
    let n = vf::choose("events", 1, vf::param("events", 2));
    let ks: Vec<K> = (0..n).map(|_| any_event(vf::param("mintags", 0), vf::param("etags", 1))).collect();
    let ks: Vec<K> = bulk().into_iter().chain(ks).collect();
    let c = clauses();
    let (t, b) = tree(&ks, vf::choose("leaf", 1, 2) + vf::param("bulk", 0) / 2, vf::flag("packed"));
    let got = t.iter_filtered(&b.snapshot(), query(&c).boxed()).collect::<anyhow::Result<Vec<_>>>().unwrap();
    let mut j = 0;
    for (i, k) in ks.iter().enumerate() {
        let hit = j < got.len() && got[j].0 == i as u64;
        if k.tags.len() > 0 { vf::check(hit == matches(&c, k), "a tag query returns exactly the events contained in a clause"); }
        else if hit { vf::check(matches(&c, k), "a tag query returns only events contained in a clause"); }
        if hit { vf::check(got[j].1 == k.key() && got[j].2 == Val(i as u8), "the stored event is returned"); j += 1; vf::reach("hit"); }
    }
    vf::check(j == got.len(), "no additional results");
    if j == 0 { vf::reach("none"); }
}
/// C22: an event without tags is selected by each clause that spans its time (see known_findings.txt)
pub fn h_untagged() {
    let (e, c) = (K { lamport: 1, lo: any_time(), hi: 0, tags: TagSet::default() }, vec![any_clause()]);
    let e = K { hi: e.lo, ..e };
    let (t, b) = tree(&[e.clone()], 1, true);
    let got = t.iter_filtered(&b.snapshot(), query(&c).boxed()).collect::<anyhow::Result<Vec<_>>>().unwrap();
    vf::reach(if matches(&c, &e) { "matches" } else { "does not match" });
    vf::check((got.len() == 1) == matches(&c, &e), "an event without tags below a branch is selected like in a leaf");
}
fn any_key(max: u64) -> K { if vf::flag("range") { let (lo, hi) = (any_time(), any_time()); vf::assume(lo <= hi); K { lamport: 0, lo, hi, tags: any_set(max) } } else { let lo = any_time(); K { lamport: vf::sym("lamport", 1, vf::param("tmax", u64::MAX)), lo, hi: lo, tags: any_set(max) } } }
/// C23: a key sequence gives back the keys it was built from
pub fn h_seq() {
    let n = vf::choose("n", 0, vf::param("n", 2));
    let ks: Vec<Key> = bulk().into_iter().map(|k| k.key()).chain((0..n).map(|_| any_key(vf::param("etags", 2)).key())).collect();
    let n = n + vf::param("bulk", 0);
    let s = KeySeq::from_iter(ks.clone());
    vf::check(s.len() as u64 == n, "length"); vf::check(s.is_empty() == (n == 0), "emptiness");
    for (i, k) in ks.iter().enumerate() { vf::check(s.get(i).as_ref() == Some(k), "get returns the key at the index"); }
    vf::check(s.get(n as usize).is_none(), "get beyond the end returns nothing");
    if n > 0 { vf::check(s.first() == ks[0] && s.last() == ks[n as usize - 1], "first and last"); }
    vf::check(s.to_vec() == ks, "all keys in order");
    let bits: Vec<bool> = ks.iter().enumerate().map(|(i, _)| if (i as u64) + 2 < vf::param("bulk", 0) { i % 3 == 0 } else { vf::flag("bit") }).collect();
    vf::check(s.select(&bits) == ks.iter().zip(&bits).filter(|x| *x.1).map(|x| x.0.clone()).collect::<Vec<_>>(), "select returns the selected keys in order");
    if n > 1 { vf::reach("several"); }
    vf::reach("done");
}
fn union(a: &TagSet, b: &TagSet) -> TagSet { a.iter().chain(b.iter()).cloned().collect() }
/// C23: a summary covers exactly the times and tags of what it summarizes
pub fn h_summary() {
    let (e, x) = (vf::param("etags", 2), vf::param("xtags", 1));
    let (a, b, c) = (any_key(e), any_key(e), any_key(x));
    let sum = |v: Vec<Key>| KeySeq::from_iter(v).summarize();
    vf::check(sum(vec![a.key()]) == a.key(), "the summary of a key is the key");
    let all = sum(vec![a.key(), b.key(), c.key()]);
    vf::check(sum(vec![sum(vec![a.key(), b.key()]), c.key()]) == all, "summaries of summaries are summaries");
    vf::check(sum(vec![a.key(), sum(vec![b.key(), c.key()])]) == all, "summaries of summaries are summaries");
    let t = union(&a.tags, &b.tags);
    if a.lamport == 0 || b.lamport == 0 {
        vf::check(sum(vec![a.key(), b.key()]) == Key::range(a.lo.min(b.lo), a.hi.max(b.hi), t), "a summary spans the times, and holds the tags, of all keys"); vf::reach("range");
    } else if a.lo == b.lo {
        vf::check(sum(vec![a.key(), b.key()]) == Key::single(a.lamport.min(b.lamport), a.lo, t), "a summary has the smallest lamport timestamp"); vf::reach("single");
    } else {
        let l = a.lamport.min(b.lamport); let (x, y) = (K { lamport: l, ..a.clone() }, K { lamport: l, ..b.clone() });
        vf::check(sum(vec![a.key(), b.key()]) == sum(vec![x.key(), y.key()]), "a summary has the smallest lamport timestamp of all times");
    }
}
fn enc<T: Encode<DagCborCodec>>(x: &T) -> Vec<u8> { let mut v = vec![]; x.encode(DagCborCodec, &mut v).unwrap(); v }
fn dec<T: Decode<DagCborCodec>>(x: &[u8]) -> anyhow::Result<T> { let mut c = std::io::Cursor::new(x); let r = T::decode(DagCborCodec, &mut c)?; anyhow::ensure!(c.position() as usize == x.len(), "left over"); Ok(r) }
/// C23: key sequences survive encoding and decoding
pub fn h_seq_wire() {
    let n = vf::choose("n", 0, vf::param("n", 2));
    let ks: Vec<Key> = bulk().into_iter().map(|k| k.key()).chain((0..n).map(|_| any_key(vf::param("etags", 2)).key())).collect();
    let s = KeySeq::from_iter(ks.clone());
    let b = enc(&s);
    let d: anyhow::Result<KeySeq> = dec(&b);
    vf::check(d.is_ok(), "an encoded key sequence decodes");
    vf::check(d.unwrap().to_vec() == ks, "decoding yields the encoded keys");
    if n > 1 { vf::reach("several"); }
}
/// C23: decoding an arbitrary table and index gives an error or exactly the encoded elements
pub fn h_index_wire() {
    let nt = vf::choose("table", 0, vf::param("table", 2));
    let table: Vec<String> = (0..nt).map(|_| any_tag(b'a').to_string()).collect();
    let ne = vf::choose("elements", 0, vf::param("elements", 2));
    let els: Vec<Vec<u32>> = (0..ne).map(|_| { let k = vf::choose("len", 0, vf::param("len", 2)); (0..k).map(|_| vf::sym("ix", 0, 3) as u32).collect() }).collect();
    let mut b = vec![0x82]; b.extend(enc(&table)); b.extend(enc(&els));
    index_result(dec::<TagIndex>(&b), &table, &els, nt);
}
fn index_result(r: anyhow::Result<TagIndex>, table: &[String], els: &[Vec<u32>], nt: u64) {
    let valid = els.iter().all(|e| e.iter().all(|i| (*i as u64) < nt));
    match r {
        Err(_) => { vf::check(!valid || !table.windows(2).all(|w| w[0] < w[1]), "a valid encoding is accepted"); vf::reach("refused"); }
        Ok(ix) => {
            vf::check(valid, "an index outside of the tag table is refused");
            let got = ix.as_elements();
            vf::check(got.len() == els.len(), "every element is decoded");
            for (g, e) in got.iter().zip(els) { let want: TagSet = e.iter().map(|i| Tag::from(table[*i as usize].as_str())).collect(); vf::check(*g == want, "decoded elements have the encoded tags"); }
            vf::reach("accepted");
        }
    }
}
/// C23: keys, key sequences and tag tables survive their serde form, and a table with a bad index or order is refused
pub fn h_json() {
    let n = vf::choose("n", 0, vf::param("n", 2));
    let ks: Vec<Key> = (0..n).map(|_| any_key(vf::param("etags", 1)).key()).collect();
    let s = KeySeq::from_iter(ks.clone());
    let j = serde_json::to_string(&s).unwrap();
    let d: Result<KeySeq, _> = serde_json::from_str(&j);
    vf::check(d.is_ok(), "a serialized key sequence deserializes");
    vf::check(d.unwrap().to_vec() == ks, "deserializing yields the keys");
    if n > 0 { let k: Result<Key, _> = serde_json::from_str(&serde_json::to_string(&ks[0]).unwrap()); vf::check(k.ok().as_ref() == Some(&ks[0]), "a serialized key deserializes to the key"); }
    if n > 1 { vf::reach("several"); }
}
pub fn h_json_index() {
    let nt = vf::choose("table", 0, vf::param("table", 2));
    let table: Vec<String> = (0..nt).map(|_| any_tag(b'a').to_string()).collect();
    let ne = vf::choose("elements", 0, vf::param("elements", 2));
    let els: Vec<Vec<u32>> = (0..ne).map(|_| { let k = vf::choose("len", 0, vf::param("len", 2)); (0..k).map(|_| vf::sym("ix", 0, 3) as u32).collect() }).collect();
    let mut j = b"[[".to_vec();
    for (i, t) in table.iter().enumerate() { if i > 0 { j.push(b','); } j.push(b'"'); j.extend(t.as_bytes()); j.push(b'"'); }
    j.extend(b"],[");
    for (i, e) in els.iter().enumerate() { if i > 0 { j.push(b','); } j.push(b'['); for (i, x) in e.iter().enumerate() { if i > 0 { j.push(b','); } j.push(b'0' + *x as u8); } j.push(b']'); }
    j.extend(b"]]");
    index_result(serde_json::from_slice::<TagIndex>(&j).map_err(anyhow::Error::new), &table, &els, nt);
}
/// C23: links survive their textual form
pub fn h_link_text() {
    let at = [0, 1, 15, 31][vf::choose("at", 0, 3) as usize];
    let dg: Vec<u8> = (0..32).map(|i| if i == at { vf::sym("d", 0, 255) as u8 } else { i as u8 * 7 }).collect();
    let mut b = vec![0xd8, 0x2a, 0x58, 37, 0, 1, 0x71, 0x12, 32]; b.extend(&dg);
    let d: Sha256Digest = dec(&b).unwrap();
    let t = d.to_string();
    vf::check(t.parse::<Sha256Digest>().ok() == Some(d), "the textual form of a link denotes the link");
    vf::check(format!("{:?}", d) == t, "the debug form is the textual form");
    vf::reach("done");
}
/// C23: links are exactly the sha2-256 dag-cbor cids
pub fn h_link() {
    let codec = vf::sym("codec", 0, 0x80) as u8; vf::assume(codec < 0x80);
    let code = vf::sym("code", 0, 0x7f) as u8;
    let len = [0u8, 1, 31, 32, 33][vf::choose("len", 0, 4) as usize];
    let dg: Vec<u8> = (0..len).map(|i| if i % 8 == 0 { vf::sym("d", 0, 255) as u8 } else { i }).collect();
    let mut b = vec![0xd8, 0x2a, 0x58, 5 + len, 0, 1, codec, code, len]; b.extend(&dg);
    if 5 + len < 24 { b = vec![0xd8, 0x2a, 0x40 + 5 + len, 0, 1, codec, code, len]; b.extend(&dg); }
    match dec::<Sha256Digest>(&b) {
        Ok(d) => {
            vf::check(codec == 0x71 && code == 0x12 && len == 32, "only sha2-256 dag-cbor cids are links");
            vf::check(Cid::from(d).hash().digest() == &dg[..], "the digest is preserved");
            vf::check(enc(&d) == b, "encoding a decoded link restores it"); vf::reach("link");
        }
        Err(_) => { vf::check(!(codec == 0x71 && code == 0x12 && len == 32), "every sha2-256 dag-cbor cid is a link"); vf::reach("refused"); }
    }
}
