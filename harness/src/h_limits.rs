//! Harnesses about configured limits, read errors, key separation.
use crate::{types::*, vf, h_tree::*, h_query::*, h_write::*};
use banyan::{index::*, query::*, store::*, *};
use cbor_data::{codec::{CodecError, ReadCbor, WriteCbor}, Cbor, ItemKind, Writer};
use futures::stream;
/// byte string of any length
#[derive(Debug, Clone, PartialEq, Eq)]
pub struct BVal(pub Vec<u8>);
impl WriteCbor for BVal { fn write_cbor<W: Writer>(&self, w: W) -> W::Output { w.write_bytes(&self.0, []) } }
impl ReadCbor for BVal {
    fn fmt(f: &mut impl std::fmt::Write) -> std::fmt::Result { write!(f, "BVal") }
    fn read_cbor(cbor: &Cbor) -> Result<Self, CodecError> { match cbor.kind() { ItemKind::Bytes(b) => Ok(BVal(b.to_vec())), _ => Err(CodecError::type_error("BVal", &cbor.tagged_item())) } }
}
fn bval(l: u64) -> BVal { BVal((0..l).map(|_| vf::sym("byte", 0, 255) as u8).collect()) }
/// C18
pub fn h_limits() {
    let s = Store::new();
    let mut t = txn(&s);
    let u = (vf::choose("max uncompressed", 1, vf::param("umax", 6)) * vf::param("ustep", 1)) as usize;
    let target = if vf::flag("small target") { vf::choose("target", vf::param("tmin", 8), vf::param("tmax", 13)) as usize } else { 1 << 20 };
    let mut c = config(vf::choose("leaf", 1, vf::param("leafmax", 3)), vf::param("kb", 2), 2);
    c.max_uncompressed_leaf_size = u; c.target_leaf_size = target;
    let mut b = StreamBuilder::<TT, BVal>::new(c.clone(), Default::default());
    let mut m: Vec<(Key, BVal)> = vec![];
    for _ in 0..vf::param("ops", 2) {
        let xs: Vec<(Key, BVal)> = (0..vf::choose("n", 1, vf::param("nmax", 3))).map(|i| (Key(i), bval(vf::choose("len", 0, vf::param("lmax", 6)) * vf::param("lstep", 1)))).collect();
        let big = xs.iter().any(|x| x.1 .0.len() + 1 > u);
        let (l0, c0) = (b.link(), b.count());
        let op = vf::choose("op", 0, 1);
        let r = if op == 0 { t.extend(&mut b, xs.clone()) } else { t.extend_unpacked(&mut b, xs.clone()) };
        if big { vf::check(r.is_err(), "an item above the limit is refused"); vf::check(b.link() == l0 && b.count() == c0, "a refused item changes nothing"); vf::reach("refused"); }
        else { vf::check(r.is_ok(), "items within the limit are accepted"); m.extend(xs); }
    }
    let tree = b.snapshot();
    let got = t.collect(&tree).unwrap();
    vf::check(got.len() == m.len() && tree.count() == m.len() as u64, "every accepted element is stored");
    for (g, x) in got.iter().zip(&m) { let g = g.as_ref().unwrap(); vf::check(g.0 == x.0 && g.1 .0.len() == x.1 .0.len(), "element"); for (p, q) in g.1 .0.iter().zip(&x.1 .0) { vf::check(p == q, "value bytes are stored unchanged"); } }
    vf::check(t.check_invariants(&b).unwrap().is_empty(), "invariants hold with small limits");
    if m.is_empty() { return; }
    let (_, ns) = t.dump_graph(&tree, |(_, i): (usize, &NodeInfo<TT, Store>)| match i { NodeInfo::Leaf(i, _) => Some((i.keys.count(), i.sealed, i.value_bytes)), _ => None }).unwrap();
    let ls: Vec<_> = ns.into_iter().filter_map(|x| x.1).collect();
    let packed = t.is_packed(&tree).unwrap();
    let mut o = 0usize;
    for (i, (n, sealed, vb)) in ls.iter().enumerate() {
        let n = *n as usize;
        let size: usize = m[o..o + n].iter().map(|x| x.1 .0.len() + 1).sum();
        vf::check(n > 0 && n <= c.max_leaf_count, "leaf respects max_leaf_count");
        vf::check(size <= u, "leaf respects max_uncompressed_leaf_size");
        let full = n >= c.max_leaf_count || size >= u || *vb as usize >= target;
        if full { vf::check(*sealed, "a full leaf is sealed"); }
        if *sealed && !full { vf::check(i + 1 < ls.len() && packed_next(&m, o + n, size, u), "a leaf that is not full is sealed only if the next element does not fit"); vf::reach("sealed early"); }
        if !*sealed && packed { vf::check(i + 1 == ls.len(), "only the last leaf of a packed tree is unsealed"); }
        if *sealed && *vb as usize >= target { vf::reach("target"); }
        o += n;
    }
    vf::check(o == m.len(), "leaves contain all elements");
    vf::observe(ls.len() as u64);
}
fn packed_next(m: &[(Key, BVal)], i: usize, size: usize, u: usize) -> bool { i < m.len() && size + m[i].1 .0.len() + 1 > u }
/// C26
pub fn h_read_errors() {
    let s = Store::new();
    let (mut t, mut b, m) = any_tree(&s);
    let avail = if vf::param("purge", 0) == 1 { maybe_purge(&mut t, &mut b, &m) } else { vec![true; m.len()] };
    let tree = b.snapshot();
    let n = m.len() as u64;
    let q = if vf::param("queries", 0) == 1 { any_spec(0, vf::param("qkinds", 1)) } else { Spec::All };
    let want: Vec<(u64, Key, Val)> = (0..n).filter(|i| avail[*i as usize] && q.matches(*i, m[*i as usize].0)).map(|i| (i, m[i as usize].0, m[i as usize].1)).collect();
    let ns = nodes(&t, &tree);
    let fail = vf::choose("fail at", 0, vf::param("failmax", 5));
    let sticky = vf::flag("persistent");
    let api = if vf::param("queries", 0) == 1 { [3, 4, 5, 6, 9][vf::choose("api", 0, 4) as usize] } else { vf::choose("api", 0, 12) };
    let f = forest(&s);
    s.with(|s| { s.gets = 0; s.fail_get_at = Some(fail); s.sticky = sticky; });
    let cap = 2 * (n as usize + ns.len()) + 4;
    let mut failed = false; // an error was reported
    macro_rules! take { ($it:expr, $f:expr) => {{
        let mut it = $it; let mut r = vec![]; let mut left = cap;
        loop { vf::check(left > 0, "an iterator ends after an error"); left -= 1; match it.next() { None => break, Some(Ok(x)) => { vf::check(!failed, "nothing is delivered after an error"); r.push($f(x)) } Some(Err(_)) => { failed = true; } } }
        r }} }
    let prefix = |got: &[(u64, Key, Val)], failed: bool, rev: bool| {
        vf::check(got.len() <= want.len() && (failed || got.len() == want.len()), "without an error every element is returned");
        for (i, g) in got.iter().enumerate() { let w = if rev { want[want.len() - 1 - i] } else { want[i] }; vf::check(*g == w, "elements delivered before an error are correct"); }
    };
    let id = |x| x;
    match api {
        0 => { let o = vf::choose("offset", 0, n); match f.get(&tree, o) { Err(_) => failed = true, Ok(x) => vf::check(x == m.get(o as usize).cloned().filter(|_| avail[o as usize]), "get is exact or an error") } }
        1 | 2 => { let o = if api == 1 { 0 } else { vf::choose("offset", 0, n) }; match f.collect_from(&tree, o) { Err(_) => failed = true, Ok(x) => { vf::check(x.len() as u64 == n - o, "collect is complete or an error"); for (i, x) in x.iter().enumerate() { let i = i + o as usize; vf::check(x.is_some() == avail[i] && x.map(|x| x == m[i]).unwrap_or(true), "collect is exact or an error"); } } } }
        3 => { let r = take!(f.iter_filtered(&tree, q.query()), id); prefix(&r, failed, false); }
        4 => { let r = take!(f.iter_filtered_reverse(&tree, q.query()), id); prefix(&r, failed, true); }
        5 => { let r: Vec<Vec<_>> = take!(f.iter_filtered_chunked(&tree, q.query(), &|_| ()), |c: FilteredChunk<(u64, Key, Val), ()>| c.data); prefix(&r.concat(), failed, false); }
        6 => { let r: Vec<Vec<_>> = take!(f.iter_filtered_chunked_reverse(&tree, q.query(), &|_| ()), |c: FilteredChunk<(u64, Key, Val), ()>| c.data.into_iter().rev().collect::<Vec<_>>()); prefix(&r.concat(), failed, true); }
        7 | 8 => {
            let d = |x: Index<TT>| (x.level(), x.count(), *x.link());
            let r = if api == 7 { take!(f.iter_index(&tree, AllQuery), d) } else { take!(f.iter_index_reverse(&tree, AllQuery), d) };
            vf::check(r.len() <= ns.len() && (failed || r.len() == ns.len()), "index iteration without an error is complete");
            if api == 7 { for (x, y) in r.iter().zip(&ns) { vf::check(*x == (y.level, y.count, y.link), "index iteration before an error is correct"); } }
        }
        9 => { let mut r = vec![]; for x in crate::h_stream::drain_max(f.stream_filtered(&tree, q.query()), cap) { match x { Ok(x) => { vf::check(!failed, "nothing is streamed after an error"); r.push(x) } Err(_) => failed = true } } prefix(&r, failed, false); }
        10 => if let Some(l) = tree.link() { match f.load_tree::<Val>(Default::default(), l) { Err(_) => failed = true, Ok(x) => vf::check(x.count() == n, "load_tree is exact or an error") } },
        11 => match f.check_invariants(&b) { Err(_) => failed = true, Ok(x) => vf::check(x.is_empty(), "check_invariants is exact or an error") },
        _ => match f.is_packed(&tree) { Err(_) => failed = true, Ok(x) => vf::check(x == is_packed(&ns), "is_packed is exact or an error") },
    }
    let hit = s.with(|s| s.gets) > fail;
    vf::check(failed == hit, "an error is reported iff a read failed");
    vf::reach(if hit { "failed" } else { "not hit" });
}
/// C27
pub fn h_config() {
    let s = Store::new();
    s.with(|s| s.max_puts = 60);
    let mut t = txn(&s);
    let pick = |l: &str, v: &[usize]| v[vf::choose(l, 0, v.len() as u64 - 1) as usize];
    let c = Config { max_leaf_count: pick("leaf", &[0, 1, 2]), max_key_branches: pick("kb", &[0, 1, 2]), max_summary_branches: pick("sb", &[0, 1, 2, 3]), target_leaf_size: pick("target", &[0, 1, 30, 1 << 20, (1 << 20) + 1]), max_uncompressed_leaf_size: pick("uncompressed", &[0, 8, 9, 18, 16 << 20, (16 << 20) + 1]), zstd_level: pick("level", &[0, 1, 22, 23]) as i32 };
    if c.validate().is_err() { vf::reach("refused"); return; }
    vf::check(c.target_leaf_size <= 1 << 20 && c.max_uncompressed_leaf_size <= 16 << 20 && c.zstd_level >= 1 && c.zstd_level <= 22, "limits that are out of range are refused");
    let mut b = Sb::new(c.clone(), Default::default());
    let mut m = Model::new();
    for _ in 0..2 {
        let op = vf::choose("op", 0, 1);
        let xs = batch(vf::choose("n", 0, vf::param("nmax", 3)));
        let r = if op == 0 { t.extend(&mut b, xs.clone()) } else { t.extend_unpacked(&mut b, xs.clone()) };
        if c.max_uncompressed_leaf_size < 9 { vf::check(r.is_err() == !xs.is_empty(), "elements above the limit are refused"); } else { vf::check(r.is_ok(), "a validated config can be used"); m.extend(xs); }
    }
    t.pack(&mut b).unwrap();
    same_content(&t, &b.snapshot(), &m);
    vf::check(t.check_invariants(&b).unwrap().is_empty(), "invariants hold for every valid config");
    vf::reach("accepted");
}
/// C28
pub fn h_key_separation() {
    let s = Store::new();
    let c = any_config();
    let key = |x: u64| -> chacha20::Key { let mut k = [7u8; 32]; k[..8].copy_from_slice(&x.to_le_bytes()); k.into() };
    let (ik, vk) = (key(1 + vf::choose("index key", 0, 1)), key(3 + vf::choose("value key", 0, 1)));
    let secrets = Secrets::new(ik, vk);
    let mut t = txn(&s);
    let mut b = Sb::new(c.clone(), secrets.clone());
    let mut m = Model::new();
    any_history(&mut t, &mut b, &mut m);
    if vf::flag("reload") { if let Some(l) = b.link() { t = txn(&s); b = t.load_stream_builder(secrets.clone(), c.clone(), l).unwrap(); let x = batch(1); m.extend(x.iter().cloned()); t.extend(&mut b, x).unwrap(); } }
    // purging and repairing rewrite blocks
    let avail = if vf::param("purge", 1) == 1 { maybe_purge(&mut t, &mut b, &m) } else { vec![true; m.len()] };
    let tree = b.snapshot();
    if tree.link().is_none() { return; }
    let ns = nodes(&t, &tree);
    for n in &ns { if let Some(l) = n.link {
        let d = s.with(|s| s.blocks[l.0 as usize].clone());
        let (x, _) = ZstdDagCborSeq::decrypt(&d, &ik, TT::NONCE.into()).unwrap();
        let (y, _) = ZstdDagCborSeq::decrypt(&d, &vk, TT::NONCE.into()).unwrap();
        if n.level == 0 { vf::check(y.items::<Val>().is_ok(), "leaves are encrypted with the value key"); vf::check(x.items::<Val>().is_err(), "the index key does not open values"); }
        else { vf::check(x.items_ipld::<Index<TT>>().is_ok(), "branches are encrypted with the index key"); vf::check(y.items_ipld::<Index<TT>>().is_err(), "the value key does not open the index"); }
    } }
    let link = tree.link().unwrap();
    // only the index key: structure, counts and keys can be read, values can not
    let f = forest(&s);
    let t2: Tr = f.load_tree(Secrets::new(ik, key(9)), link).unwrap();
    vf::check(t2.count() == m.len() as u64, "the index key is enough to read the count");
    // offset and key of every element whose leaf index still exists
    let keys_of = |f: &For, x: &Tr| { let mut keys = vec![]; let mut off = 0; for i in f.iter_index(x, AllQuery) { match i.unwrap() { Index::Leaf(l) => for k in l.keys() { keys.push((off, k)); off += 1; }, Index::Branch(b) => if b.link.is_none() { off += b.count } } } keys };
    let keys = keys_of(&f, &t2);
    vf::check(avail.iter().any(|x| !x) || keys.len() == m.len(), "the index key is enough to read all keys");
    vf::check(keys.iter().all(|(o, k)| *k == m[*o as usize].0) && (0..m.len()).all(|i| !avail[i] || keys.iter().any(|(o, _)| *o == i as u64)), "the index key is enough to read the keys of all elements");
    if avail.iter().any(|x| *x) { vf::check(f.collect(&t2).is_err() && f.get(&t2, avail.iter().position(|x| *x).unwrap() as u64).is_err(), "values can not be read without the value key"); }
    // the wrong index key opens nothing
    let f = forest(&s);
    vf::check(f.load_tree::<Val>(Secrets::new(key(9), vk), link).is_err(), "the index can not be read without the index key");
    vf::check(f.load_stream_builder::<Val>(Secrets::new(vk, ik), c, link).is_err(), "keys are not interchangeable");
    let all = forest(&s).collect(&tree).unwrap();
    vf::check(all.len() == m.len() && (0..m.len()).all(|i| all[i] == if avail[i] { Some(m[i]) } else { None }), "both keys open everything that is available");
    vf::reach("done");
}
