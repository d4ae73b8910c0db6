//! Harnesses about reading: filtered queries, reverse iteration, chunks, random access.
use crate::{types::*, vf, h_tree::*};
use banyan::{index::*, query::*, *};
use std::{ops::Bound, sync::Arc};
/// keys in lo..=hi
#[derive(Debug, Clone)]
pub struct KeyQ(pub u64, pub u64);
impl Query<TT> for KeyQ {
    fn containing(&self, _: u64, index: &LeafIndex<TT>, res: &mut [bool]) {
        for (r, k) in res.iter_mut().zip(index.keys()) { *r = *r & (k.0 >= self.0) & (k.0 <= self.1); }
    }
    fn intersecting(&self, _: u64, index: &BranchIndex<TT>, res: &mut [bool]) {
        for (r, k) in res.iter_mut().zip(index.summaries()) { *r = *r & (k.1 >= self.0) & (k.0 <= self.1); }
    }
}
#[derive(Debug, Clone)]
pub enum Spec { All, Empty, Key(u64, u64), Off(Bound<u64>, Bound<u64>), And(Box<Spec>, Box<Spec>), Or(Box<Spec>, Box<Spec>) }
pub type DynQ = Arc<dyn Query<TT>>;
impl Spec {
    pub fn matches(&self, o: u64, k: Key) -> bool {
        match self {
            Spec::All => true, Spec::Empty => false,
            Spec::Key(a, b) => (k.0 >= *a) & (k.0 <= *b),
            Spec::Off(a, b) => (match a { Bound::Unbounded => true, Bound::Included(a) => o >= *a, Bound::Excluded(a) => o > *a }) & (match b { Bound::Unbounded => true, Bound::Included(b) => o <= *b, Bound::Excluded(b) => o < *b }),
            Spec::And(a, b) => a.matches(o, k) & b.matches(o, k),
            Spec::Or(a, b) => a.matches(o, k) | b.matches(o, k),
        }
    }
    /// whether a node with these keys can contain a match, as far as keys tell
    fn may_match(&self, k: KeyRange) -> bool {
        match self {
            Spec::All | Spec::Off(..) => true, Spec::Empty => false,
            Spec::Key(a, b) => (k.1 >= *a) & (k.0 <= *b),
            Spec::And(a, b) => a.may_match(k) & b.may_match(k),
            Spec::Or(a, b) => a.may_match(k) | b.may_match(k),
        }
    }
    fn by_offset(&self) -> bool { match self { Spec::Off(..) => true, Spec::And(a, b) | Spec::Or(a, b) => a.by_offset() | b.by_offset(), _ => false } }
    pub fn query(&self) -> DynQ {
        match self {
            Spec::All => Arc::new(AllQuery), Spec::Empty => Arc::new(EmptyQuery), Spec::Key(a, b) => Arc::new(KeyQ(*a, *b)),
            Spec::Off(a, b) => Arc::new(OffsetRangeQuery::from((a.clone(), b.clone()))),
            Spec::And(a, b) => Arc::new(AndQuery(a.query(), b.query())),
            Spec::Or(a, b) => Arc::new(OrQuery(a.query(), b.query())),
        }
    }
}
fn bound(l: &str) -> Bound<u64> { if vf::param("bkinds", 3) == 1 { let x = vf::sym(l, 0, u64::MAX); return if l == "a" { Bound::Included(x) } else { Bound::Excluded(x) }; } match vf::choose("bound", 0, 2) { 0 => Bound::Unbounded, 1 => Bound::Included(vf::sym(l, 0, u64::MAX)), _ => Bound::Excluded(vf::sym(l, 0, u64::MAX)) } }
pub fn any_spec(depth: u64, kinds: u64) -> Spec {
    match if depth > 0 && vf::param("qouter", 0) == 1 { vf::choose("outer", 4, 5) } else { vf::choose("q", vf::param("qmin", 0), if depth == 0 { kinds.min(3) } else { kinds }) } {
        0 => Spec::Off(bound("a"), bound("b")),
        1 => Spec::Key(vf::sym("klo", 0, u64::MAX), vf::sym("khi", 0, u64::MAX)),
        2 => Spec::All, 3 => Spec::Empty,
        4 => Spec::And(Box::new(any_spec(depth - 1, kinds)), Box::new(any_spec(depth - 1, kinds))),
        _ => Spec::Or(Box::new(any_spec(depth - 1, kinds)), Box::new(any_spec(depth - 1, kinds))),
    }
}
/// a tree from a symbolic history with at most `ops` operations
pub fn any_tree(s: &Store) -> (Txn, Sb, Model) {
    let mut t = txn(s);
    let mut b = Sb::new(any_config(), Default::default());
    let mut m = Model::new();
    any_history(&mut t, &mut b, &mut m);
    (t, b, m)
}
fn check_matches(got: &[(u64, Key, Val)], m: &Model, q: &Spec, avail: &[bool], what: &str) {
    let mut j = 0;
    for (i, x) in m.iter().enumerate() {
        let hit = j < got.len() && got[j].0 == i as u64;
        vf::check((avail[i] & q.matches(i as u64, x.0)) == hit, what);
        if hit { vf::check(got[j].1 == x.0 && got[j].2 == x.1, "a returned triple is the stored one"); vf::observe(got[j].0); j += 1; }
    }
    vf::check(j == got.len(), "no additional, repeated or reordered results");
    if j > 0 && j < m.len() { vf::reach("partial match"); }
}
/// C05
pub fn h_filter() {
    let s = Store::new();
    let (mut t, mut b, m) = any_tree(&s);
    let avail = if vf::param("purge", 0) == 1 { maybe_purge(&mut t, &mut b, &m) } else { vec![true; m.len()] };
    let q = any_spec(vf::param("qdepth", 1), vf::param("qkinds", 5));
    let tree = b.snapshot();
    let got = t.iter_filtered(&tree, q.query()).collect::<anyhow::Result<Vec<_>>>().unwrap();
    check_matches(&got, &m, &q, &avail, "a query returns exactly the matching elements");
    let st = crate::h_stream::drain(t.stream_filtered(&tree, q.query())).into_iter().collect::<anyhow::Result<Vec<_>>>().unwrap();
    vf::check(st == got, "stream_filtered equals iter_filtered");
}
/// C06
pub fn h_reverse() {
    let s = Store::new();
    let (mut t, mut b, m) = any_tree(&s);
    let avail = if vf::param("purge", 0) == 1 { maybe_purge(&mut t, &mut b, &m) } else { vec![true; m.len()] };
    let q = any_spec(vf::param("qdepth", 0), vf::param("qkinds", 3));
    let tree = b.snapshot();
    let got = t.iter_filtered(&tree, q.query()).collect::<anyhow::Result<Vec<_>>>().unwrap();
    let rch = t.iter_filtered_chunked_reverse(&tree, q.query(), &|_| ()).collect::<anyhow::Result<Vec<_>>>().unwrap();
    let mut flat: Vec<(u64, Key, Val)> = vec![];
    for c in &rch { for x in c.data.iter().rev() { flat.push(*x); } }
    flat.reverse();
    check_matches(&flat, &m, &q, &avail, "reverse chunked iteration returns exactly the matching elements");
    vf::check(flat == got, "reverse chunks are the forward result");
    let rev = t.iter_filtered_reverse(&tree, q.query()).collect::<anyhow::Result<Vec<_>>>().unwrap();
    let mut it = rev.clone(); it.reverse();
    vf::check(it == got, "iter_filtered_reverse yields the exact reverse of iter_filtered");
    if m.len() > 2 { vf::reach("done"); }
}
fn check_chunks<E>(chunks: &[FilteredChunk<(u64, Key, Val), E>], m: &Model, q: &Spec, avail: &[bool], reverse: bool) {
    let n = m.len() as u64;
    let mut pos = if reverse { n } else { 0 };
    for c in chunks {
        vf::check(c.range.start < c.range.end, "chunk ranges are not empty");
        if reverse { vf::check(c.range.end == pos, "chunk ranges are adjacent (reverse)"); pos = c.range.start; } else { vf::check(c.range.start == pos, "chunk ranges are adjacent"); pos = c.range.end; }
        let mut j = 0;
        for o in c.range.clone() {
            let hit = j < c.data.len() && c.data[j].0 == o;
            let want = q.matches(o, m[o as usize].0) & avail[o as usize];
            vf::check(hit == want, "a chunk contains exactly the matching available elements of its range, ascending");
            if hit { vf::check(c.data[j].1 == m[o as usize].0 && c.data[j].2 == m[o as usize].1, "chunk data is the stored data"); j += 1; }
        }
        vf::check(j == c.data.len(), "chunk data lies inside the chunk range");
    }
    vf::check(pos == if reverse { 0 } else { n }, "chunk ranges cover the whole tree");
}
/// purge parts of the tree: returns which offsets remain available
pub fn maybe_purge(t: &mut Txn, b: &mut Sb, m: &Model) -> Vec<bool> {
    if vf::flag("purge") {
        let lo = vf::sym("plo", 0, m.len() as u64); let hi = vf::sym("phi", 0, m.len() as u64);
        let q = OffsetRangeQuery::from((Bound::Included(lo), Bound::Excluded(hi)));
        t.retain(b, &q).unwrap();
    }
    // repair also purges unsealed nodes and nodes behind an unsealed node
    let losses = vf::param("losses", 0);
    if losses > 0 && vf::flag("repair") {
        let used: Vec<Link> = nodes(t, &b.snapshot()).iter().filter_map(|n| n.link).collect();
        let s = t.store().clone();
        s.with(|s| s.lost = vec![false; s.blocks.len()]);
        for _ in 0..losses { if !used.is_empty() { let l = used[vf::choose("lost", 0, used.len() as u64 - 1) as usize]; s.with(|s| s.lost[l.0 as usize] = true); } }
        t.repair(b).unwrap();
        vf::reach("repaired");
    }
    let avail: Vec<bool> = t.collect(&b.snapshot()).unwrap().iter().map(|x| x.is_some()).collect();
    vf::check(avail.len() == m.len(), "purging never changes the number of elements");
    if avail.iter().any(|x| !x) { vf::reach("purged"); }
    avail
}
type Extra = (u32, u64, bool, Option<Link>, u64, u8);
/// extra data of a chunk that identifies the node it was computed from
fn extra(n: &NodeInfo<TT, Store>) -> Extra {
    match n {
        NodeInfo::Leaf(i, _) => (0, i.keys.count(), i.sealed, i.link, i.keys.first().0, 0), NodeInfo::PurgedLeaf(i) => (0, i.keys.count(), i.sealed, i.link, i.keys.first().0, 1),
        NodeInfo::Branch(i, _) => (i.level, i.count, i.sealed, i.link, i.summaries.first().0, 2), NodeInfo::PurgedBranch(i) => (i.level, i.count, i.sealed, i.link, i.summaries.first().0, 3),
    }
}
/// each chunk carries the extra data of the node of the tree that covers its range
fn check_extra(chunks: &[FilteredChunk<(u64, Key, Val), Extra>], ns: &[Node]) {
    for c in chunks {
        let mut o = 0; let mut found = false;
        for n in ns {
            let kind = match (n.level > 0, n.link.is_some()) { (false, true) => 0, (false, false) => 1, (true, true) => 2, _ => 3 };
            let key = if n.level == 0 { n.keys[0].0 } else { n.summaries[0].0 };
            if o == c.range.start && n.count == c.range.end - o { found |= c.extra == (n.level, n.count, n.sealed, n.link, key, kind); }
            if n.nchildren == 0 { o += n.count; }
        }
        vf::check(found, "a chunk carries the extra data of the node that covers its range");
    }
}
/// C07
pub fn h_chunks() {
    let s = Store::new();
    let (mut t, mut b, m) = any_tree(&s);
    let avail = maybe_purge(&mut t, &mut b, &m);
    let q = any_spec(vf::param("qdepth", 0), vf::param("qkinds", 1));
    let tree = b.snapshot();
    let ns = nodes(&t, &tree);
    let f = t.iter_filtered_chunked(&tree, q.query(), &extra).collect::<anyhow::Result<Vec<_>>>().unwrap();
    check_chunks(&f, &m, &q, &avail, false); check_extra(&f, &ns);
    let r = t.iter_filtered_chunked_reverse(&tree, q.query(), &extra).collect::<anyhow::Result<Vec<_>>>().unwrap();
    check_chunks(&r, &m, &q, &avail, true); check_extra(&r, &ns);
    let sf = crate::h_stream::drain(t.stream_filtered_chunked(&tree, q.query(), &extra)).into_iter().collect::<anyhow::Result<Vec<_>>>().unwrap();
    vf::check(sf == f, "stream_filtered_chunked equals iter_filtered_chunked");
    let sr = crate::h_stream::drain(t.stream_filtered_chunked_reverse(&tree, q.query(), &extra)).into_iter().collect::<anyhow::Result<Vec<_>>>().unwrap();
    vf::check(sr == r, "stream_filtered_chunked_reverse equals iter_filtered_chunked_reverse");
    vf::observe(f.len() as u64); vf::observe(r.len() as u64);
    if f.len() > 2 { vf::reach("several chunks"); }
}
/// C08
pub fn h_random_access() {
    let s = Store::new();
    let (mut t, mut b, m) = any_tree(&s);
    let avail = maybe_purge(&mut t, &mut b, &m);
    let tree = b.snapshot();
    let o = vf::sym("offset", 0, u64::MAX);
    let g = t.get(&tree, o).unwrap();
    if o >= m.len() as u64 { vf::check(g.is_none(), "get beyond the end is None"); vf::reach("beyond"); }
    else {
        let i = vf::concretize(o) as usize;
        match g { Some((k, v)) => { vf::check(avail[i], "a purged element is not returned"); vf::check(k == m[i].0 && v == m[i].1, "get returns the element stored at the offset"); vf::reach("hit"); } None => vf::check(!avail[i], "get finds every available element") }
    }
    let c = t.collect_from(&tree, o).unwrap();
    if o >= m.len() as u64 { vf::check(c.is_empty(), "collect_from beyond the end is empty"); }
    else {
        let i = vf::concretize(o) as usize;
        vf::check(c.len() == m.len() - i, "collect_from returns the elements from the offset on");
        for (j, x) in c.iter().enumerate() { match x { Some((k, v)) => vf::check(avail[i + j] && *k == m[i + j].0 && *v == m[i + j].1, "collect_from element"), None => vf::check(!avail[i + j], "collect_from placeholder only for purged data") } }
    }
}
fn pre(ns: &[Node], i: &mut usize, o: &mut u64, q: &Spec, rev_out: &mut Vec<(u32, u64, Option<Link>)>, out: &mut Vec<(u32, u64, Option<Link>)>, t: &For, m: &Model) {
    let n = &ns[*i]; *i += 1;
    out.push((n.level, n.count, n.link));
    if n.nchildren == 0 { *o += n.count; return; }
    for ci in 0..n.nchildren {
        let ch = &ns[*i];
        let start = *o;
        // the node is visited iff the query cannot exclude it
        let hit = if n.summaries.len() > ci { q.may_match(n.summaries[ci]) } else { true };
        if hit { pre(ns, i, o, q, rev_out, out, t, m) } else { skip(ns, i); *o = start + ch.count; }
    }
}
fn skip(ns: &[Node], i: &mut usize) { let k = ns[*i].nchildren; *i += 1; for _ in 0..k { skip(ns, i) } }
/// C25
pub fn h_index_iter() {
    let s = Store::new();
    let (mut t, mut b, m) = any_tree(&s);
    maybe_purge(&mut t, &mut b, &m);
    let tree = b.snapshot();
    let q = any_spec(vf::param("qdepth", 0), vf::param("qkinds", 3));
    let f = t.iter_index(&tree, q.query()).collect::<anyhow::Result<Vec<_>>>().unwrap();
    let r = t.iter_index_reverse(&tree, q.query()).collect::<anyhow::Result<Vec<_>>>().unwrap();
    let ns = nodes(&t, &tree);
    let d = |x: &Index<TT>| (x.level(), x.count(), *x.link());
    let f: Vec<_> = f.iter().map(d).collect(); let r: Vec<_> = r.iter().map(d).collect();
    // same nodes in both directions, each at most once
    vf::check(f.len() == r.len(), "both directions visit the same number of nodes");
    for (i, x) in f.iter().enumerate() { if x.2.is_some() { vf::check(!f[..i].contains(x), "no node is visited twice"); vf::check(r.iter().filter(|y| *y == x).count() == 1, "reverse visits the same nodes"); } }
    let mut leaves_f: Vec<_> = f.iter().filter(|x| x.0 == 0).collect(); let leaves_r: Vec<_> = r.iter().filter(|x| x.0 == 0).collect();
    leaves_f.reverse(); vf::check(leaves_f == leaves_r, "reverse order of the leaves is the exact reverse");
    match q.by_offset() { true => {
        // every leaf that holds a matching element is visited
        let mut o = 0; for n in ns.iter().filter(|n| n.nchildren == 0) { let mut any = false; for i in 0..n.count { any |= q.matches(o + i, m[(o + i) as usize].0); } if any && n.link.is_some() { vf::check(f.iter().any(|x| x.2 == n.link), "every node with matching elements is visited"); } o += n.count; } }
        _ => if !ns.is_empty() { let (mut i, mut o, mut out) = (0, 0, vec![]); pre(&ns, &mut i, &mut o, &q, &mut vec![], &mut out, &t, &m); vf::check(out == f, "index iteration visits exactly the nodes the query cannot exclude, in order"); } }
    vf::observe(f.len() as u64);
    if f.len() > 3 { vf::reach("done"); }
}
