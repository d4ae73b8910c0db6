//! Harnesses about building, packing, reloading and snapshotting trees.
use crate::{types::*, vf};
use banyan::{index::*, query::AllQuery, store::*, *};
pub type Model = Vec<(Key, Val)>;
pub fn batch(n: u64) -> Model { let fixed = vf::param("fixkeys", 0) == 1; (0..n).map(|i| (Key(if fixed { i } else { vf::sym("k", 0, u64::MAX) }), Val(vf::sym("v", 0, u64::MAX)))).collect() }
pub fn any_config() -> Config { config(vf::choose("leaf", 1, vf::param("leafmax", 2)), vf::choose("kb", 1, vf::param("kbmax", 2)), vf::choose("sb", 2, vf::param("sbmax", 2))) }
/// one append-like operation chosen by the solver. 0 extend, 1 extend_unpacked, 2 pack, 3 push
pub fn append_op(t: &mut Txn, b: &mut Sb, m: &mut Model, nmax: u64, ops: u64) -> u64 {
    let op = vf::choose("op", 0, ops - 1);
    match op {
        0 | 1 => {
            let xs = batch(vf::choose("n", 0, nmax));
            m.extend(xs.iter().cloned());
            if op == 0 { t.extend(b, xs).unwrap() } else { t.extend_unpacked(b, xs).unwrap() }
        }
        2 => t.pack(b).unwrap(),
        _ => { let x = batch(1)[0]; m.push(x); t.push(b, x.0, x.1).unwrap() }
    }
    op
}
pub fn any_history(t: &mut Txn, b: &mut Sb, m: &mut Model) -> u64 {
    let mut unp = 0;
    for _ in 0..vf::param("ops", 3) { if append_op(t, b, m, vf::param("nmax", 4), vf::param("opkinds", 4)) == 1 { unp += 1; } }
    unp
}
pub fn same_content(t: &For, tree: &Tr, m: &[(Key, Val)]) {
    vf::check(tree.count() == m.len() as u64, "count of the tree equals the number of appended elements");
    vf::check(tree.is_empty() == m.is_empty(), "is_empty iff nothing was appended");
    let got = t.collect(tree).unwrap();
    vf::check(got.len() == m.len(), "collect returns every element");
    for (g, x) in got.iter().zip(m) { let g = g.unwrap(); vf::check(g.0 == x.0, "collect returns the appended key"); vf::check(g.1 == x.1, "collect returns the appended value"); vf::observe(g.1 .0); }
    same_iter(t, tree, m);
}
/// same_content for a tree of which only some elements are still available
pub fn same_avail(t: &For, tree: &Tr, m: &[(Key, Val)], avail: &[bool], what: &str) {
    let got = t.collect(tree).unwrap();
    vf::check(got.len() == m.len() && tree.count() == m.len() as u64, what);
    for (i, g) in got.iter().enumerate() { match g { Some(g) => vf::check(avail[i] && g.0 == m[i].0 && g.1 == m[i].1, what), None => vf::check(!avail[i], what) } }
}
pub fn same_iter(t: &For, tree: &Tr, m: &[(Key, Val)]) {
    let mut n = 0u64;
    for r in t.iter_filtered(tree, AllQuery) {
        let (o, k, v) = r.unwrap();
        vf::check(o == n, "iteration offsets are consecutive"); vf::check((n as usize) < m.len(), "iteration returns no extra element");
        vf::check(k == m[n as usize].0, "iteration returns the appended key"); vf::check(v == m[n as usize].1, "iteration returns the appended value"); n += 1;
    }
    vf::check(n == m.len() as u64, "iteration returns every element");
}
/// C01
pub fn h_content() {
    let s = Store::new();
    let mut t = txn(&s);
    let mut b = Sb::new(any_config(), Default::default());
    let mut m = Model::new();
    any_history(&mut t, &mut b, &mut m);
    vf::check(b.count() == m.len() as u64, "builder count");
    vf::check(b.is_empty() == m.is_empty(), "builder is_empty");
    let tree = b.snapshot();
    same_content(&t, &tree, &m);
    let mut n = 0;
    for r in t.iter_from(&tree) { let (o, k, v) = r.unwrap(); vf::check(o == n && k == m[n as usize].0 && v == m[n as usize].1, "iter_from"); n += 1; }
    vf::check(n == m.len() as u64, "iter_from returns every element");
    // a fresh reader without caches sees the same content
    same_iter(&forest(&s), &tree, &m);
    if m.len() > 4 { vf::reach("big") }
    vf::reach("done");
}

#[derive(Debug, Clone)]
pub struct Node { pub level: u32, pub count: u64, pub sealed: bool, pub link: Option<Link>, pub keys: Vec<Key>, pub summaries: Vec<KeyRange>, pub values: u64, pub value_bytes: u64, pub key_bytes: u64, pub nchildren: usize, pub depth: usize, pub children: Vec<Index<TT>>, pub block: u64, pub range: (u64, u64) }
/// all nodes of the tree in preorder, read from the store
pub fn nodes(t: &For, tree: &Tr) -> Vec<Node> {
    if tree.is_empty() { return vec![]; }
    let (_, ns) = t.dump_graph(tree, |(_, i): (usize, &NodeInfo<TT, Store>)| match i {
        NodeInfo::Branch(i, l) => { let b = l.load().unwrap(); Node { level: i.level, count: i.count, sealed: i.sealed, link: i.link, keys: vec![], summaries: i.summaries().collect(), values: 0, value_bytes: i.value_bytes, key_bytes: i.key_bytes, nchildren: b.children.len(), depth: 0, children: b.children.to_vec(), block: 0, range: (b.byte_range.start, b.byte_range.end) } }
        NodeInfo::Leaf(i, l) => { let v = l.load().unwrap(); Node { level: 0, count: i.keys.count(), sealed: i.sealed, link: i.link, keys: i.keys().collect(), summaries: vec![], values: v.as_ref().count().unwrap(), value_bytes: i.value_bytes, key_bytes: 0, nchildren: 0, depth: 0, children: vec![], block: v.as_ref().compressed().len() as u64, range: (v.byte_range.start, v.byte_range.end) } }
        NodeInfo::PurgedBranch(i) => Node { level: i.level, count: i.count, sealed: i.sealed, link: None, keys: vec![], summaries: i.summaries().collect(), values: 0, value_bytes: i.value_bytes, key_bytes: i.key_bytes, nchildren: 0, depth: 0, children: vec![], block: 0, range: (0, 0) },
        NodeInfo::PurgedLeaf(i) => Node { level: 0, count: i.keys.count(), sealed: i.sealed, link: None, keys: i.keys().collect(), summaries: vec![], values: 0, value_bytes: i.value_bytes, key_bytes: 0, nchildren: 0, depth: 0, children: vec![], block: 0, range: (0, 0) },
    }).unwrap();
    ns.into_iter().map(|x| x.1).collect()
}
pub struct Sub { pub lo: u64, pub hi: u64, pub count: u64, pub vb: u64, pub kb: u64 }
/// walks the preorder list, checking every documented structural invariant
pub fn walk(ns: &[Node], i: &mut usize, c: &Config, s: &Store) -> Sub {
    let n = &ns[*i]; *i += 1;
    if n.level == 0 {
        vf::check(n.count > 0, "leaves are not empty");
        vf::check(n.keys.len() as u64 == n.count && (n.link.is_none() || n.values == n.count), "leaf stores one value per key");
        vf::check(n.count <= c.max_leaf_count as u64, "leaf respects max_leaf_count");
        vf::check(n.sealed == (n.count >= c.max_leaf_count as u64), "leaf sealed iff full");
        if n.link.is_some() { vf::check(n.block == n.value_bytes, "value_bytes of a leaf is its block size"); }
        let (mut lo, mut hi) = (n.keys[0].0, n.keys[0].0);
        for k in &n.keys[1..] { lo = umin(lo, k.0); hi = umax(hi, k.0); }
        return Sub { lo, hi, count: n.count, vb: n.value_bytes, kb: 0 };
    }
    vf::check(n.nchildren > 0, "branches are not empty");
    vf::check(n.summaries.len() == n.nchildren, "one summary per child");
    let maxc = if n.level == 1 { c.max_key_branches } else { c.max_summary_branches };
    vf::check(n.nchildren <= maxc, "branch respects the configured number of children");
    let mut r = Sub { lo: u64::MAX, hi: 0, count: 0, vb: 0, kb: s.with(|s| 0 * s.puts) };
    let mut maxl = 0; let mut all_sealed = true; let mut all_below = true;
    for ci in 0..n.nchildren {
        let ch = &ns[*i];
        maxl = maxl.max(ch.level); all_sealed &= ch.sealed; all_below &= ch.level == n.level - 1;
        vf::check(n.children[ci].count() == ch.count && n.children[ci].level() == ch.level && n.children[ci].sealed() == ch.sealed, "child index matches the child");
        let sub = walk(ns, i, c, s);
        vf::check(n.summaries[ci].0 == sub.lo && n.summaries[ci].1 == sub.hi, "summary of a child equals the summary of its keys");
        if ci == 0 { r.lo = sub.lo; r.hi = sub.hi } else { r.lo = umin(r.lo, sub.lo); r.hi = umax(r.hi, sub.hi) } r.count += sub.count; r.vb += sub.vb; r.kb += sub.kb;
    }
    vf::check(n.level == maxl + 1, "level is one above the highest child");
    vf::check(n.count == r.count, "count is the sum of the children");
    vf::check(n.value_bytes == r.vb, "value_bytes is the sum of the children");
    let sealed = all_sealed && all_below && n.nchildren >= maxc;
    vf::check(n.sealed == sealed, "branch sealed iff full of sealed children one level below");
    if let Some(l) = n.link { r.kb += s.with(|s| s.blocks[l.0 as usize].len() as u64); vf::check(n.key_bytes == r.kb, "key_bytes is the size of all branch blocks below"); }
    r
}
pub fn check_structure(t: &For, b: &Sb, c: &Config, s: &Store) -> Vec<Node> {
    let ns = nodes(t, &b.snapshot());
    if !ns.is_empty() { let mut i = 0; let r = walk(&ns, &mut i, c, s); vf::check(i == ns.len(), "tree is well formed"); vf::check(r.count == b.count(), "root count"); }
    ns
}
/// independent definition of packed: only the right spine may contain unsealed nodes, and every
/// other child is exactly one level below its parent
fn packed(ns: &[Node], i: &mut usize, spine: bool) -> bool {
    let n = &ns[*i]; *i += 1;
    let mut ok = spine || n.sealed;
    for ci in 0..n.nchildren { let last = ci + 1 == n.nchildren; if !last { ok &= ns[*i].level == n.level - 1 && ns[*i].sealed; } let sub = packed(ns, i, spine && last); ok &= sub; }
    ok
}
pub fn is_packed(ns: &[Node]) -> bool { let mut i = 0; ns.is_empty() || packed(ns, &mut i, true) }
/// C04
pub fn h_invariants() {
    let s = Store::new();
    let mut t = txn(&s);
    let c = any_config();
    let mut b = Sb::new(c.clone(), Default::default());
    let mut m = Model::new();
    let unp = any_history(&mut t, &mut b, &mut m);
    let ns = check_structure(&t, &b, &c, &s);
    vf::check(t.check_invariants(&b).unwrap().is_empty(), "check_invariants reports nothing");
    vf::check(t.is_packed(&b.snapshot()).unwrap() == is_packed(&ns), "is_packed agrees with the definition");
    if unp == 0 { vf::check(is_packed(&ns), "packed appends keep the tree packed"); vf::reach("packed"); } else { vf::reach("unpacked"); }
    vf::observe(ns.len() as u64);
}
/// C02
pub fn h_pack() {
    let s = Store::new();
    let mut t = txn(&s);
    let c = any_config();
    let mut b = Sb::new(c.clone(), Default::default());
    let mut m = Model::new();
    any_history(&mut t, &mut b, &mut m);
    let before = nodes(&t, &b.snapshot());
    let was_packed = is_packed(&before);
    let puts = s.len();
    let (link0, level0) = (b.link(), b.level());
    t.pack(&mut b).unwrap();
    let tree = b.snapshot();
    same_content(&t, &tree, &m);
    let after = check_structure(&t, &b, &c, &s);
    vf::check(is_packed(&after), "packing yields a packed tree");
    vf::check(t.is_packed(&tree).unwrap(), "is_packed after pack");
    vf::check(m.is_empty() || b.level() > 0, "the root of a tree is a branch");
    if was_packed { vf::check(b.level() == level0, "packing a packed tree does not change its shape"); vf::check(before.len() == after.len() && before.iter().zip(&after).all(|(x, y)| x.level == y.level && x.count == y.count && x.sealed == y.sealed), "packing a packed tree is a no-op on the structure"); vf::check(b.link() == link0 && s.len() == puts, "packing a packed tree is a no-op"); vf::reach("was packed"); }
    else { vf::reach("was unpacked"); }
    // sealed nodes of the maximal left-aligned packed part are reused: every sealed leaf that the
    // packed tree has at the same offset with the same extent keeps its block
    let mut o = 0; let mut lv: Vec<(u64, u64, Option<Link>)> = vec![];
    for n in before.iter().filter(|n| n.level == 0) { if n.sealed { lv.push((o, n.count, n.link)); } o += n.count; }
    let mut aligned = true; let mut o2 = 0u64; let mut expect = 0u64;
    let mut la: Vec<(u64, u64, Option<Link>)> = vec![]; for n in after.iter().filter(|n| n.level == 0) { la.push((o2, n.count, n.link)); o2 += n.count; }
    for x in before.iter().filter(|n| n.level == 0) { aligned &= x.sealed; if aligned { vf::check(la.iter().any(|y| y.0 == expect && y.1 == x.count && y.2 == x.link), "leading sealed leaves are reused by packing"); expect += x.count; } }
    let p2 = s.len(); let l2 = b.link();
    t.pack(&mut b).unwrap();
    vf::check(s.len() == p2 && b.link() == l2, "packing twice is a no-op");
    same_iter(&t, &b.snapshot(), &m);
}
fn same_shape(a: &[Node], b: &[Node]) -> bool {
    if a.len() != b.len() { return false; }
    let mut ok = true;
    for (x, y) in a.iter().zip(b) { ok &= x.level == y.level && x.count == y.count && x.sealed == y.sealed && x.nchildren == y.nchildren && x.keys.len() == y.keys.len(); }
    ok
}
/// (level, offset, count) of all leaves or of all sealed nodes
fn fixed_part(ns: &[Node], leaves: bool) -> Vec<(u32, u64, u64)> {
    let mut o = 0; let mut r = vec![];
    for n in ns { if if leaves { n.level == 0 } else { n.sealed } { r.push((n.level, o, n.count)); } if n.level == 0 { o += n.count; } }
    r
}
/// C03
pub fn h_batching() {
    let s = Store::new();
    let mut t = txn(&s);
    let c = any_config();
    let mut b = Sb::new(c.clone(), Default::default());
    let mut m = Model::new();
    let unp = any_history(&mut t, &mut b, &mut m);
    if unp > 0 { t.pack(&mut b).unwrap(); vf::reach("via pack"); } else { vf::reach("via extend"); }
    let mut one = Sb::new(c.clone(), Default::default());
    t.extend(&mut one, m.clone()).unwrap();
    let (x, y) = (nodes(&t, &b.snapshot()), nodes(&t, &one.snapshot()));
    // only the height of the unsealed right spine may depend on the history of packing
    if unp == 0 { vf::check(same_shape(&x, &y), "the structure of an extended tree depends only on its content"); }
    vf::check(fixed_part(&x, true) == fixed_part(&y, true), "leaf boundaries depend only on the content");
    vf::check(fixed_part(&x, false) == fixed_part(&y, false), "sealed nodes depend only on the content");
}
/// C14
pub fn h_reload() {
    let s = Store::new();
    let mut t = txn(&s);
    let c = any_config();
    let mut b = Sb::new(c.clone(), Default::default());
    let mut m = Model::new();
    any_history(&mut t, &mut b, &mut m);
    let mut avail = if vf::param("purge", 0) == 1 { crate::h_query::maybe_purge(&mut t, &mut b, &m) } else { vec![true; m.len()] };
    let whole = avail.iter().all(|x| *x);
    let link = match b.link() { Some(l) => l, None => { vf::check(m.is_empty() || !whole, "non-empty builder has a link"); vf::reach("empty"); return; } };
    let f = forest(&s);
    let tree: Tr = f.load_tree(Default::default(), link).unwrap();
    vf::check(tree.link() == Some(link), "loaded tree has the link it was loaded from");
    vf::check(tree.level() == b.level() && tree.count() == b.count(), "loaded tree has the same level and count");
    vf::check(f.is_packed(&tree).unwrap() == is_packed(&nodes(&t, &b.snapshot())), "a loaded tree is packed iff the original is");
    if whole { same_content(&f, &tree, &m) } else { same_avail(&f, &tree, &m, &avail, "content of a loaded tree") }
    let mut t2 = txn(&s);
    let mut b2: Sb = t2.load_stream_builder(Default::default(), c.clone(), link).unwrap();
    match (b.index(), b2.index()) { (Some(Index::Branch(x)), Some(Index::Branch(y))) => {
        vf::check(x.level == y.level && x.count == y.count && x.sealed == y.sealed && x.link == y.link && (!whole || (x.value_bytes == y.value_bytes && x.key_bytes == y.key_bytes)), "reloaded builder has an equal root index");
        vf::check(x.summaries().collect::<Vec<_>>() == y.summaries().collect::<Vec<_>>(), "reloaded builder has equal summaries"); }
        _ => vf::check(false, "root is a branch") }
    // appending after the reload gives the same structure as appending without it
    let xs = batch(vf::choose("more", 1, vf::param("moremax", 2)));
    let mut m2 = m.clone(); m2.extend(xs.iter().cloned());
    t2.extend(&mut b2, xs.clone()).unwrap();
    t.extend(&mut b, xs).unwrap();
    avail.resize(m2.len(), true);
    if whole { check_structure(&t2, &b2, &c, &s); }
    vf::check(same_shape(&nodes(&t, &b.snapshot()), &nodes(&t2, &b2.snapshot())), "appending after a reload builds the same structure");
    if whole { same_content(&t2, &b2.snapshot(), &m2) } else { same_avail(&t2, &b2.snapshot(), &m2, &avail, "content after appending to a reloaded tree") }
    vf::reach("done");
}
/// C14: a stream can be continued with another configuration
pub fn h_reconfig() {
    let s = Store::new();
    let (mut t, mut b, mut m) = crate::h_query::any_tree(&s);
    let mut avail = if vf::param("purge", 0) == 1 { crate::h_query::maybe_purge(&mut t, &mut b, &m) } else { vec![true; m.len()] };
    let whole = avail.iter().all(|x| *x);
    let link = match b.link() { Some(l) => l, None => return };
    let c2 = config(vf::choose("leaf2", 1, vf::param("leafmax2", 3)), vf::choose("kb2", 1, vf::param("kbmax2", 2)), vf::choose("sb2", 2, vf::param("sbmax2", 3)));
    let mut t2 = txn(&s);
    let mut b2: Sb = t2.load_stream_builder(Default::default(), c2, link).unwrap();
    for _ in 0..vf::param("moreops", 1) { append_op(&mut t2, &mut b2, &mut m, vf::param("moremax", 2), vf::param("morekinds", 2)); }
    avail.resize(m.len(), true);
    if whole { same_content(&t2, &b2.snapshot(), &m) } else { same_avail(&t2, &b2.snapshot(), &m, &avail, "content of a stream continued with another configuration") }
    let (link, level) = (b2.link(), b2.level());
    let r = t2.pack(&mut b2);
    vf::check(r.is_ok() || !whole, "a stream continued with another configuration can be packed");
    if r.is_ok() { vf::check(t2.is_packed(&b2.snapshot()).unwrap(), "packing yields a packed tree"); } else { vf::check(b2.link() == link && b2.level() == level, "a failed pack leaves the tree as it was"); }
    if whole { same_content(&forest(&s), &b2.snapshot(), &m); vf::reach("done") } else { same_avail(&forest(&s), &b2.snapshot(), &m, &avail, "content after packing with another configuration"); vf::reach("done purged") }
}
/// C11
pub fn h_snapshot() {
    let s = Store::new();
    let mut t = txn(&s);
    let c = any_config();
    let mut b = Sb::new(c, Default::default());
    let mut m = Model::new();
    let mut snaps: Vec<(Tr, Model, Vec<u8>)> = vec![];
    for _ in 0..vf::param("ops", 3) {
        append_op(&mut t, &mut b, &mut m, vf::param("nmax", 3), vf::param("opkinds", 4));
        snaps.push((b.snapshot(), m.clone(), vec![]));
    }
    let n = s.len();
    let blocks = s.with(|s| s.blocks.clone());
    if vf::flag("retain") { t.retain(&mut b, &crate::h_query::KeyQ(0, vf::sym("hi", 0, u64::MAX))).unwrap(); }
    for (tree, m, _) in &snaps { same_content(&t, tree, m); }
    let f = forest(&s);
    for (tree, m, _) in &snaps { same_iter(&f, tree, m); if let Some(l) = tree.link() { let t2: Tr = f.load_tree(Default::default(), l).unwrap(); same_iter(&f, &t2, m); } }
    s.with(|s| vf::check(s.blocks[..n as usize] == blocks[..], "existing blocks are never modified"));
    vf::reach("done");
}

/// C02: packing a tree with purged parts keeps what is there, or fails and changes nothing
pub fn h_pack_purged() {
    let s = Store::new();
    let (mut t, mut b, mut m) = crate::h_query::any_tree(&s);
    let mut avail = crate::h_query::maybe_purge(&mut t, &mut b, &m);
    vf::assume(avail.iter().any(|x| !x));
    append_op(&mut t, &mut b, &mut m, vf::param("moremax", 3), vf::param("moreops", 2));
    avail.resize(m.len(), true);
    let (link, level) = (b.link(), b.level());
    let r = t.pack(&mut b);
    let got = t.collect(&b.snapshot()).unwrap();
    vf::check(got.len() == m.len() && b.count() == m.len() as u64, "packing a tree with purged parts does not change offsets");
    for (i, g) in got.iter().enumerate() { match g { Some(g) => vf::check(avail[i] && g.0 == m[i].0 && g.1 == m[i].1, "packing a tree with purged parts keeps its content"), None => vf::check(!avail[i], "packing does not purge anything") } }
    if r.is_ok() { vf::check(t.is_packed(&b.snapshot()).unwrap(), "packing yields a packed tree"); vf::reach("packed"); }
    else { vf::check(b.link() == link && b.level() == level, "a failed pack leaves the tree as it was"); vf::reach("refused"); }
    vf::check(t.check_invariants(&b).unwrap().is_empty(), "invariants hold after packing a tree with purged parts");
}
/// C29: roots, left roots and the graph of a tree agree with its structure
pub fn h_views() {
    let s = Store::new();
    let (mut t, mut b, m) = crate::h_query::any_tree(&s);
    let avail = crate::h_query::maybe_purge(&mut t, &mut b, &m);
    let tree = b.snapshot();
    // graph: preorder numbering, one edge from each node to its children
    if !tree.is_empty() {
        let (edges, ns) = t.dump_graph(&tree, |(id, i): (usize, &NodeInfo<TT, Store>)| match i {
            NodeInfo::Branch(i, l) => (id, i.level, i.count, l.load().unwrap().children.len()), NodeInfo::Leaf(i, _) => (id, 0, i.keys.count(), 0),
            NodeInfo::PurgedBranch(i) => (id, i.level, i.count, 0), NodeInfo::PurgedLeaf(i) => (id, 0, i.keys.count(), 0) }).unwrap();
        vf::check(ns.keys().cloned().eq(0..ns.len()) && ns.values().map(|x| x.0).eq(0..ns.len()), "nodes of the graph are numbered in preorder");
        vf::check(edges.len() + 1 == ns.len(), "each node but the root has one parent");
        let mut seen = vec![false; ns.len()];
        for (p, c) in &edges { vf::check(p < c && !seen[*c] && ns[p].1 > ns[c].1, "edges lead from parents to children"); seen[*c] = true; }
        for (id, x) in &ns { let cs: Vec<_> = edges.iter().filter(|e| e.0 == *id).collect(); vf::check(cs.len() == x.3, "a node has an edge to each child"); if x.3 > 0 { vf::check(cs.iter().map(|e| ns[&e.1].2).sum::<u64>() == x.2, "the children of a node make up its count"); } }
    } else { vf::check(t.dump_graph(&tree, |x: (usize, &NodeInfo<TT, Store>)| x.0).is_err(), "an empty tree has no graph"); }
    // left roots: prefixes of the tree, from the first leaf to the tree itself
    let ls = t.left_roots(&tree).unwrap();
    vf::check(ls.is_empty() == m.is_empty(), "a tree has left roots iff it is not empty");
    if let Some(l) = ls.last() { vf::check(l.link() == tree.link() && l.count() == tree.count(), "the last left root is the tree itself"); }
    let mut prev = (-1, 0);
    for l in &ls {
        vf::check(l.level() > prev.0 && l.count() >= prev.1 && l.count() > 0, "left roots grow"); prev = (l.level(), l.count());
        let got = t.collect(l).unwrap();
        vf::check(got.len() as u64 == l.count(), "count of a left root");
        for (i, g) in got.iter().enumerate() { match g { Some(g) => vf::check(avail[i] && g.0 == m[i].0 && g.1 == m[i].1, "a left root has a prefix of the content"), None => vf::check(!avail[i], "left roots lose nothing") } }
        if l.count() < tree.count() { vf::reach("proper prefix"); }
    }
    if !m.is_empty() && avail[0] { vf::check(ls[0].level() == 0, "the first left root is the first leaf"); }
    // roots: sealed nodes of descending level that make up a prefix
    let rs = t.roots(&b).unwrap();
    let (mut o, mut level) = (0u64, u32::MAX);
    for r in &rs {
        vf::check(r.sealed() && r.level() <= level, "roots are sealed, in descending levels"); level = r.level();
        vf::check(r.summarize().0 <= m[o as usize].0 .0 && r.summarize().1 >= m[o as usize].0 .0, "roots cover the content in order");
        if let Index::Leaf(l) = r { vf::check(l.keys().eq(m[o as usize..(o + r.count()) as usize].iter().map(|x| x.0)), "roots make up a prefix of the tree"); }
        o += r.count();
        if r.level() > 0 { vf::reach("sealed branch"); }
    }
    vf::check(o <= m.len() as u64, "roots are part of the tree");
    if rs.is_empty() && !m.is_empty() { vf::reach("nothing sealed"); }
}
