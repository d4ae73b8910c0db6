//! Harnesses with several threads: the engine explores the schedules.
use crate::{types::*, vf, h_tree::*, h_query::*, h_stream::*};
use banyan::{query::*, store::*, *};
use futures::{executor::{block_on, ThreadPool}, stream, StreamExt};
/// C30: threaded streaming across growing trees
pub fn h_threaded() {
    let s = Store::new();
    let mut t = txn(&s);
    let mut b = Sb::new(config(vf::choose("leaf", 1, vf::param("leafmax", 2)), vf::param("kb", 1), 2), Default::default());
    let mut m = Model::new();
    let mut trees: Vec<Tr> = vec![];
    if vf::param("empty", 0) == 1 && vf::flag("leading empty tree") { trees.push(b.snapshot()); }
    for _ in 0..vf::param("ops", 2) { append_op(&mut t, &mut b, &mut m, vf::param("nmax", 2), vf::param("opkinds", 2)); trees.push(b.snapshot()); }
    let n = m.len() as u64;
    let start = vf::sym("start", 0, u64::MAX); let end = vf::sym("end", 0, u64::MAX);
    vf::assume(start <= end);
    let q = any_spec(0, vf::param("qkinds", 2));
    let fail = if vf::param("faults", 1) == 1 && vf::flag("fault") { Some(vf::choose("fail at", 0, vf::param("failmax", 3))) } else { None };
    let stop = if vf::param("early", 1) == 1 && fail.is_none() && vf::flag("early stop") { vf::choose("stop after", 0, 1) as usize } else { usize::MAX };
    let pool = ThreadPool::builder().pool_size(vf::param("pool", 1) as usize).create().unwrap();
    s.with(|s| { s.gets = 0; s.fail_get_at = fail; });
    // the number of reads before each tree is requested, which is after the traversal of the one before has ended
    let (pulls, ntrees) = (std::sync::Arc::new(std::sync::Mutex::new(vec![])), trees.len());
    let source = { let (s, p) = (s.clone(), pulls.clone()); stream::iter(trees).map(move |t| { p.lock().unwrap().push(s.with(|s| s.gets)); t }) };
    let st = forest(&s).stream_trees_chunked_threaded(q.query(), source, start..=end, &|_| (), pool);
    let got = block_on(st.take(stop).collect::<Vec<_>>());
    let failed = match fail { Some(f) => s.with(|s| { s.fail_get_at = None; s.gets > f }), None => false };
    // only an error in the last tree, or the consumer, ends the data early
    let partial = stop != usize::MAX || { let p = pulls.lock().unwrap(); failed && p.len() == ntrees && fail.unwrap() >= p[p.len() - 1] };
    let mut data: Vec<(u64, Key, Val)> = vec![];
    for c in got { match c { Ok(c) => { for d in &c.data { vf::check((d.0 >= c.range.start) & (d.0 < c.range.end), "chunk data lies in the chunk range"); } data.extend(c.data) } Err(_) => vf::check(false, "errors are not delivered") } }
    let mut j = 0;
    for i in 0..n {
        let want = q.matches(i, m[i as usize].0) & (i >= start) & (i <= end);
        let hit = j < data.len() && data[j].0 == i;
        if j == data.len() && partial { break; }
        vf::check(want == hit, "threaded streaming delivers exactly the matching elements of the range, once, in order");
        if hit { vf::check(data[j].1 == m[i as usize].0 && data[j].2 == m[i as usize].1, "threaded streaming delivers the stored element"); j += 1; }
    }
    vf::check(j == data.len(), "no element is delivered twice");
    if j > 1 && !partial { vf::reach("complete"); }
    if failed { vf::reach("with fault"); }
    if stop != usize::MAX { vf::reach("stopped early"); }
}
fn reads(f: &Forest<TT, MemCache<Link, Store>>, tree: &Tr, m: &Model) {
    let got = f.collect(tree).unwrap();
    vf::check(got.len() == m.len(), "a concurrent reader sees every element of its snapshot");
    for (g, x) in got.iter().zip(m) { vf::check(*g == Some(*x), "a concurrent reader sees the elements of its snapshot"); }
}
/// C31: threads sharing one forest (branch cache, block cache, store), one extending, the other reading a snapshot or writing another tree
pub fn h_shared() {
    let s = Store::new();
    let bc = [0usize, 600, 1 << 20][vf::choose("branch cache", 0, 2) as usize];
    let cache = MemCache::new(s.clone(), 1 << 20, [150usize, 1 << 20][vf::choose("capacity", 0, 1) as usize]);
    let f: Forest<TT, MemCache<Link, Store>> = Forest::new(cache.clone(), BranchCache::new(bc));
    let writer = || cache.write(|s| Ok(s.clone())).unwrap();
    let c = config(vf::choose("leaf", 1, vf::param("leafmax", 1)), 1, 2);
    let mut b = Sb::new(c.clone(), Default::default());
    let mut m = batch(vf::choose("n", 0, vf::param("nmax", 2)));
    let mut t = Transaction::new(f.clone(), writer());
    t.extend(&mut b, m.clone()).unwrap();
    let (snap, before) = (b.snapshot(), m.clone());
    let two = vf::flag("second writer");
    let more = batch(vf::choose("more", 1, vf::param("moremax", 2)));
    let (other, f2, w2) = (if two { batch(vf::choose("other", 1, vf::param("moremax", 2))) } else { vec![] }, f.clone(), writer());
    let (snap2, before2, other2) = (snap.clone(), before.clone(), other.clone());
    let h = std::thread::spawn(move || -> Option<Tr> {
        if two { let mut t = Transaction::new(f2, w2); let mut b = Sb::new(c, Default::default()); t.extend(&mut b, other2).unwrap(); Some(b.snapshot()) } else { reads(&f2, &snap2, &before2); None }
    });
    m.extend(more.iter().cloned());
    t.extend(&mut b, more).unwrap();
    reads(&f, &b.snapshot(), &m);
    if let Some(tree) = h.join().unwrap() { reads(&f, &tree, &other); vf::reach("two writers"); } else { vf::reach("reader"); }
    reads(&f, &snap, &before);
    reads(&f, &b.snapshot(), &m);
    for i in 0..s.len() { let (x, y) = (cache.get(&Link(i)).unwrap(), s.get(&Link(i)).unwrap()); vf::check(x == y, "a cached block is the stored block"); }
}
/// C31: a memory store shared by two writers
pub fn h_shared_store() {
    let max = vf::choose("max size", 0, vf::param("maxsize", 5)) as usize;
    let s: MemStore<Link> = MemStore::new(max, |d| Link(d[0] as u64));
    let _ = s.get(&Link(9)); // the lock exists before the second thread does
    let block = |w: u64| -> Vec<u8> { let id = vf::choose("id", 0, 1); let mut d = vec![id as u8]; for _ in 0..id + 1 { d.push(0); } d[1] = vf::sym("byte", 0, 255) as u8 & 0xf0 | id as u8; let _ = w; d };
    // content addressed: equal links have equal content
    let (a, b) = (block(0), block(1));
    if a[0] == b[0] { vf::assume(a[1] == b[1]); }
    let (mut s1, mut s2, a2) = (s.clone(), s.clone(), a.clone());
    let h = std::thread::spawn(move || { vf::jitter(); let r = s1.put(a2).is_ok(); let g = s1.get(&Link(a[0] as u64)); vf::check(g.is_ok() == r, "a block is found iff it was stored"); if let Ok(g) = g { vf::check(*g == a[..], "get returns the stored block"); } (r, a) });
    vf::jitter();
    let rb = s2.put(b.clone()).is_ok();
    let gb = s2.get(&Link(b[0] as u64));
    vf::check(gb.is_ok() || !rb, "a stored block is found while another thread uses the store");
    if let Ok(g) = gb { vf::check(*g == b[..], "get returns the stored block"); }
    let (ra, a) = h.join().unwrap();
    let used = if ra { a.len() } else { 0 } + if rb && !(ra && a[0] == b[0]) { b.len() } else { 0 };
    vf::check(used <= max, "the size limit is respected by concurrent writers");
    if !ra { vf::check((rb && a[0] != b[0] && a.len() + b.len() > max) || a.len() > max, "a block is refused only if it does not fit"); }
    if !rb { vf::check((ra && a[0] != b[0] && a.len() + b.len() > max) || b.len() > max, "a block is refused only if it does not fit"); }
    if ra && rb { vf::reach("both"); } else { vf::reach("refused"); }
    drop(s2);
    let m = s.into_inner().unwrap();
    vf::check(m.len() == if ra && rb { if a[0] == b[0] { 1 } else { 2 } } else { ra as usize + rb as usize }, "every accepted block is stored once");
    let total: usize = m.values().map(|x| x.len()).sum();
    vf::check(total == used, "the blocks are stored whole");
}
