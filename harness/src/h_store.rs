//! Harnesses about stores and caches.
use crate::{types::*, vf, h_tree::*};
use banyan::{index::*, query::AllQuery, store::*, *};
fn pick(l: &str, v: &[usize]) -> usize { v[vf::choose(l, 0, v.len() as u64 - 1) as usize] }
/// C20: caches of any size never change what is read
pub fn h_caches() {
    let s = Store::new();
    let bc = pick("branch cache", &[0, 1, 600, 1 << 20]);
    let cache = MemCache::new(s.clone(), pick("block limit", &[0, 60, 1 << 20]), pick("capacity", &[0, 1, 150, 1 << 20]));
    let branches = BranchCache::new(bc);
    let f: Forest<TT, MemCache<Link, Store>> = Forest::new(cache.clone(), branches.clone());
    let w = cache.write(|s| Ok(s.clone())).unwrap();
    let mut t = Transaction::new(f.clone(), w);
    let c = config(vf::choose("leaf", 1, vf::param("leafmax", 2)), vf::param("kb", 1), 2);
    let mut b = Sb::new(c, Default::default());
    let mut m = Model::new();
    let mut trees: Vec<(Tr, usize)> = vec![];
    for _ in 0..vf::param("ops", 2) {
        match vf::choose("op", 0, vf::param("opkinds", 4) - 1) {
            0 => { let xs = batch(vf::choose("n", 1, vf::param("nmax", 3))); m.extend(xs.iter().cloned()); t.extend(&mut b, xs).unwrap(); }
            1 => { let xs = batch(vf::choose("n", 1, vf::param("nmax", 3))); m.extend(xs.iter().cloned()); t.extend_unpacked(&mut b, xs).unwrap(); }
            2 => { let xs = batch(1); let p = s.with(|s| { s.fail_put_at = Some(s.puts); s.puts }); let r = t.extend(&mut b, xs); s.with(|s| s.fail_put_at = None); vf::check(r.is_err(), "a failed write is reported"); vf::check(cache.get(&Link(p)).is_err() == s.get(&Link(p)).is_err(), "a failed write leaves nothing in the cache"); vf::reach("failed write"); }
            _ => t.pack(&mut b).unwrap(),
        }
        trees.push((b.snapshot(), m.len()));
    }
    // another stream with its own secrets shares the store and the caches
    let mut b2 = Sb::new(config(1, 1, 2), Secrets::new([7; 32].into(), [8; 32].into()));
    let m2 = batch(2);
    t.extend(&mut b2, m2.clone()).unwrap();
    for pass in 0..2 {
        vf::check(f.collect(&b2.snapshot()).unwrap() == m2.iter().map(|x| Some(*x)).collect::<Vec<_>>(), "another stream behind the same caches keeps its content");
        for (tree, n) in &trees {
            let got = f.collect(tree).unwrap();
            vf::check(got.len() == *n, "reading through caches returns every element");
            for (g, x) in got.iter().zip(&m) { vf::check(*g == Some(*x), "reading through caches returns the stored elements"); }
            let it = f.iter_filtered(tree, AllQuery).collect::<anyhow::Result<Vec<_>>>().unwrap();
            vf::check(it.len() == *n && it.iter().enumerate().all(|(i, x)| x.0 == i as u64 && (x.1, x.2) == m[i]), "iterating through caches returns the stored elements");
        }
        if pass == 0 { let g = s.with(|s| s.gets); vf::observe(g); branches.reset(std::num::NonZeroUsize::new(600).unwrap()); }
    }
    // every block read through the cache is the block in the store
    for i in 0..s.len() { let (x, y) = (cache.get(&Link(i)).unwrap(), s.get(&Link(i)).unwrap()); vf::check(x == y, "a cached block is the stored block"); }
    vf::check(cache.get(&Link(s.len())).is_err(), "a block that does not exist is not found");
    vf::reach("done");
}
/// C20: MemStore and MemCache::offer against a map
pub fn h_mem_store() {
    let max = vf::choose("max size", 0, vf::param("maxsize", 6)) as usize;
    let mut s: MemStore<Link> = MemStore::new(max, |d| Link(d[0] as u64));
    let s2 = s.clone();
    let mut m: Vec<Option<Vec<u8>>> = vec![None, None, None];
    for _ in 0..vf::param("ops", 3) {
        let id = vf::choose("id", 0, 2) as usize;
        // content addressed: equal links have equal content, so the length is a function of the id
        let d = match &m[id] { Some(d) => d.clone(), None => { let mut d = vec![id as u8]; for _ in 0..vf::choose("extra", 0, vf::param("extra", 3)) { d.push(vf::sym("byte", 0, 255) as u8); } d } };
        let used: usize = m.iter().flatten().map(|x| x.len()).sum();
        let need = if m[id].is_some() { 0 } else { d.len() };
        match s.put(d.clone()) {
            Ok(l) => { vf::check(l == Link(id as u64), "put returns the link of the block"); vf::check(used + need <= max, "the size limit is respected"); m[id] = Some(d); }
            Err(_) => { vf::check(used + need > max, "a block is refused only if it does not fit"); vf::reach("full"); }
        }
        for i in 0..3 { match (s2.get(&Link(i as u64)), &m[i]) { (Ok(x), Some(y)) => { vf::check(x.len() == y.len() && x.iter().zip(y).all(|(p, q)| p == q), "get returns the stored block"); vf::reach("found"); } (Err(_), None) => {} _ => vf::check(false, "a block is found iff it was stored") } }
    }
    drop(s2);
    let map = s.into_inner().unwrap();
    vf::check(map.len() == m.iter().flatten().count(), "into_inner returns all blocks");
}
pub fn h_offer() {
    let s = Store::new();
    let mut w0 = s.clone();
    let c = MemCache::new(s.clone(), pick("block limit", &[0, 2, 100]), pick("capacity", &[0, 1, 4, 100]));
    let mut m: Vec<Vec<u8>> = vec![];
    for i in 0..vf::param("ops", 3) {
        let d: Vec<u8> = (0..vf::choose("len", 0, vf::param("extra", 3))).map(|_| vf::sym("byte", 0, 255) as u8).collect();
        let l = match vf::choose("how", 0, 2) { 0 => w0.put(d.clone()).unwrap(), 1 => c.write(|s| Ok(s.clone())).unwrap().put(d.clone()).unwrap(), _ => { let l = w0.put(d.clone()).unwrap(); c.offer(&l, &d); l } };
        vf::check(l == Link(i), "put returns the link of the store"); m.push(d);
        for (j, d) in m.iter().enumerate() { let g = c.get(&Link(j as u64)).unwrap(); vf::check(g.len() == d.len() && g.iter().zip(d).all(|(p, q)| p == q), "a block read through the cache is the written block"); }
    }
    vf::reach("done");
}
