//! Harnesses about writing: keystream use, atomicity, purging, repair, limits, keys.
use crate::{types::*, vf, h_tree::*, h_query::*};
use banyan::{index::*, query::*, store::*, *};
use std::ops::Bound;

fn b_empty(b: &Sb) -> bool { b.count() == 0 }
/// keystream range of a stored block
pub fn cipher_range(d: &[u8], key: &chacha20::Key) -> (u64, u64) {
    let (z, r) = ZstdDagCborSeq::decrypt(d, key, TT::NONCE.into()).unwrap();
    (r.start, r.start + z.compressed().len() as u64)
}
/// the root block again, as it would be at another place of the stream
fn move_root(s: &Store, b: &Sb, off: u64) -> Link {
    let key = *Secrets::default().index_key();
    let d = s.with(|s| s.blocks[b.link().unwrap().0 as usize].clone());
    let (z, _) = ZstdDagCborSeq::decrypt(&d, &key, TT::NONCE.into()).unwrap();
    let d = z.encrypt(&key, TT::NONCE.into(), off).unwrap();
    s.with(|s| { s.blocks.push(d); Link(s.blocks.len() as u64 - 1) })
}
/// C09: no two blocks that were ever handed to the store use overlapping parts of the keystream
pub fn h_keystream() {
    let s = Store::new();
    s.with(|s| s.record = Some(vec![]));
    let c = any_config();
    let mut t = txn(&s);
    let mut b = Sb::new(c.clone(), Default::default());
    let mut m = Model::new();
    let nmax = vf::param("nmax", 3);
    if vf::param("late", 0) == 1 {
        // a stream that has already used a lot of its keystream
        let xs = batch(1); t.extend(&mut b, xs.clone()).unwrap(); m.extend(xs);
        let off = [(1 << 32) - 200, 1 << 32, (1 << 38) - 100, 1 << 38, 1 << 50][vf::choose("late offset", 0, 4) as usize];
        let l = move_root(&s, &b, off);
        b = t.load_stream_builder(Default::default(), c.clone(), l).unwrap();
        s.with(|s| s.record = Some(vec![]));
        vf::reach("late");
    }
    // true while nothing was written after the current root
    let mut at_root = true;
    for _ in 0..vf::param("ops", 3) {
        match vf::choose("kop", 0, vf::param("kops", 6)) {
            0 | 1 => { let before = b.link(); append_op(&mut t, &mut b, &mut m, nmax, 2); if b.link() != before { at_root = true } }
            2 => { let before = b.link(); t.pack(&mut b).unwrap(); if b.link() != before { at_root = true } }
            3 => { let xs = batch(vf::choose("n", 1, nmax)); { let mut x = b.transaction(); t.extend(&mut x, xs).unwrap(); } at_root = false; vf::reach("rollback"); }
            4 => {
                let xs = batch(vf::choose("n", 1, nmax)); let unp = vf::flag("unpacked");
                let p = s.with(|s| s.puts) + vf::choose("fail at", 0, vf::param("failmax", 2));
                s.with(|s| s.fail_put_at = Some(p));
                let r = if unp { t.extend_unpacked(&mut b, xs.clone()) } else { t.extend(&mut b, xs.clone()) };
                s.with(|s| s.fail_put_at = None);
                if r.is_err() { at_root = false; vf::reach("failed write"); } else { m.extend(xs); at_root = true; }
            }
            5 => { let before = b.link(); t.retain(&mut b, &KeyQ(0, vf::sym("hi", 0, u64::MAX))).unwrap(); if b.link() != before { at_root = b.link().is_some(); } }
            _ => if let (true, Some(l)) = (at_root, b.link()) { t = txn(&s); b = t.load_stream_builder(Default::default(), c.clone(), l).unwrap(); vf::reach("reload"); }
        }
    }
    let key = *Secrets::default().index_key();
    let all = s.with(|s| s.record.take().unwrap());
    let rs: Vec<_> = all.iter().map(|d| cipher_range(d, &key)).collect();
    for d in &all { crate::h_codec::check_ciphertext(d, &key, TT::NONCE.into()) }
    let mut end = 0;
    for i in 0..rs.len() { vf::check(rs[i].0 < rs[i].1, "blocks are not empty"); for j in 0..i { vf::check(rs[i].1 <= rs[j].0 || rs[j].1 <= rs[i].0, "no part of the keystream is used for two blocks"); } end = end.max(rs[i].1); }
    vf::observe(rs.len() as u64); let _ = end;
    if rs.len() > 4 { vf::reach("several blocks") }
}
/// C10: failed or abandoned operations leave the builder as it was
pub fn h_atomic() {
    let s = Store::new();
    let c = any_config();
    let mut t = txn(&s);
    let mut b = Sb::new(c.clone(), Default::default());
    let mut m = Model::new();
    any_history(&mut t, &mut b, &mut m);
    let avail = if vf::param("purge", 1) == 1 { maybe_purge(&mut t, &mut b, &m) } else { vec![true; m.len()] };
    let same = |t: &For, b: &Sb, m: &Model, avail: &[bool]| {
        let got = t.collect(&b.snapshot()).unwrap();
        vf::check(b.count() == m.len() as u64 && got.len() == m.len(), "count of the builder");
        for i in 0..got.len() { if i < avail.len() && !avail[i] { vf::check(got[i].is_none(), "purged data stays purged"); } else { match &got[i] { Some((k, v)) => vf::check(*k == m[i].0 && *v == m[i].1, "content of the builder"), None => vf::check(false, "no data disappears") } } }
    };
    let (link, level) = (b.link(), b.level());
    let xs = batch(vf::choose("n1", 1, vf::param("nmax1", 2)));
    let op = vf::choose("last op", 0, 3);
    let fault = vf::choose("fault", 0, 2);
    let mut t2 = if vf::flag("cold cache") { txn(&s) } else { Transaction::new(t.read().clone(), s.clone()) };
    if fault > 0 {
        let at = vf::choose("fail at", 0, vf::param("failmax", 3));
        s.with(|s| { s.sticky = true; if fault == 1 { s.fail_put_at = Some(s.puts + at) } else { s.fail_get_at = Some(s.gets + at) } });
    }
    let run = |t2: &mut Txn, b: &mut Sb| match op { 0 => t2.extend(b, xs.clone()), 1 => t2.extend_unpacked(b, xs.clone()), 2 => t2.pack(b), _ => t2.retain(b, &KeyQ(1, 0)) };
    let (ok, kept);
    if vf::flag("transaction") {
        let commit = vf::flag("commit");
        let mut x = b.transaction();
        ok = run(&mut t2, &mut x).is_ok();
        kept = commit;
        if commit { x.commit() } else { drop(x); vf::reach("rollback") }
        // commit after a failure keeps whatever the failed operation left: must be the old state
    } else { ok = run(&mut t2, &mut b).is_ok(); kept = true; }
    s.with(|s| { s.sticky = false; s.fail_put_at = None; s.fail_get_at = None; });
    if !ok { vf::reach(if fault == 1 { "failed write" } else if fault == 2 { "failed read" } else { "other failure" }); }
    vf::check(ok || fault > 0 || avail.iter().any(|x| !x), "an operation fails only for a reason");
    if ok && kept {
        if op < 2 { m.extend(xs.iter().cloned()); }
        if op != 3 { same(&t, &b, &m, &avail); } else { vf::check(b.count() == m.len() as u64, "retain keeps the count"); return; }
    } else {
        vf::check(b.link() == link && b.level() == level, "a failed or abandoned operation leaves the root as it was");
        same(&t, &b, &m, &avail);
    }
    // the builder can still be used
    let ys = batch(1); m.extend(ys.iter().cloned());
    let mut t3 = txn(&s);
    t3.extend(&mut b, ys).unwrap();
    same(&t3, &b, &m, &avail);
    vf::check(t3.check_invariants(&b).unwrap().is_empty(), "invariants hold after a failure");
}
/// which elements belong to unsealed leaves, and (offset, count, sealed) of all leaves
pub fn leaves(ns: &[Node]) -> Vec<(u64, u64, bool, Option<Link>)> {
    let mut o = 0; let mut r = vec![];
    for n in ns { if n.nchildren == 0 { if n.level == 0 { r.push((o, n.count, n.sealed, n.link)); } o += n.count; } }
    r
}
/// C12
pub fn h_retain() {
    let s = Store::new();
    let (mut t, mut b, mut m) = any_tree(&s);
    let avail0 = if vf::param("prepurge", 0) == 1 { maybe_purge(&mut t, &mut b, &m) } else { vec![true; m.len()] };
    let whole = avail0.iter().all(|x| *x);
    let before = nodes(&t, &b.snapshot());
    let packed = is_packed(&before);
    let q = any_spec(vf::param("qdepth", 0), vf::param("qkinds", 3));
    let hits: Vec<bool> = m.iter().enumerate().map(|(i, x)| q.matches(i as u64, x.0)).collect();
    let (link, level, puts) = (b.link(), b.level(), s.len());
    let want = t.iter_filtered(&b.snapshot(), q.query()).collect::<anyhow::Result<Vec<_>>>().unwrap();
    let snapshot = b.snapshot();
    t.retain(&mut b, &q.query()).unwrap();
    let tree = b.snapshot();
    vf::check(tree.count() == m.len() as u64 && b.level() == level, "retain does not change offsets");
    let got = t.collect(&tree).unwrap();
    vf::check(got.len() == m.len(), "retain does not change the number of elements");
    let avail: Vec<bool> = got.iter().map(|x| x.is_some()).collect();
    for (i, g) in got.iter().enumerate() {
        if let Some(g) = g { vf::check(avail0[i] && g.0 == m[i].0 && g.1 == m[i].1, "retained elements are unchanged"); }
        else { vf::check(!hits[i] || !avail0[i], "retain keeps every matching element"); }
    }
    let mut unmatched = false;
    for (o, n, sealed, _) in leaves(&before) {
        let r = o as usize..(o + n) as usize;
        if !sealed { vf::check(avail[r.clone()] == avail0[r], "unsealed leaves are kept"); }
        else { let mut any = false; for i in r.clone() { any |= hits[i]; }
            if !any { unmatched = true; if packed { vf::check(avail[r].iter().all(|x| !x), "in a packed tree every sealed leaf without a match is purged"); vf::reach("purged"); } } }
    }
    if !unmatched && whole { vf::check(b.link() == link && s.len() == puts, "a retain that keeps everything changes nothing"); vf::reach("all kept"); }
    let after = t.iter_filtered(&tree, q.query()).collect::<anyhow::Result<Vec<_>>>().unwrap();
    vf::check(after == want, "the retained query returns the same results after the retain");
    vf::check(t.check_invariants(&b).unwrap().is_empty(), "invariants hold after a retain");
    // again is a no-op
    let (l2, p2) = (b.link(), s.len());
    t.retain(&mut b, &q.query()).unwrap();
    vf::check(b.link() == l2 && s.len() == p2, "retaining twice is a no-op");
    // the old tree is not affected
    if whole { same_iter(&forest(&s), &snapshot, &m) } else { same_avail(&forest(&s), &snapshot, &m, &avail0, "retain does not affect older trees") }
    // and the purged tree can be appended to
    let ys = batch(vf::choose("more", 1, vf::param("moremax", 2))); let n = m.len(); m.extend(ys.iter().cloned());
    t.extend(&mut b, ys).unwrap();
    let got = txn(&s).collect(&b.snapshot()).unwrap();
    vf::check(got.len() == m.len(), "appending after a retain keeps the offsets");
    for (i, g) in got.iter().enumerate() { vf::check(g.is_some() == (i >= n || avail[i]), "appending after a retain keeps what is available"); if let Some(g) = g { vf::check(g.0 == m[i].0 && g.1 == m[i].1, "content after appending to a purged tree"); } }
}
/// expected availability after a repair, and the topmost lost links
fn survive(ns: &[Node], i: &mut usize, lost: bool, isl: &dyn Fn(Link) -> bool, avail: &mut Vec<bool>, top: &mut Vec<Link>) {
    let n = &ns[*i]; *i += 1;
    let me = match n.link { Some(l) => !lost && isl(l), None => false };
    if me { top.push(n.link.unwrap()); }
    let gone = lost || me || n.link.is_none();
    if n.nchildren == 0 { for _ in 0..n.count { avail.push(!gone); } }
    for _ in 0..n.nchildren { survive(ns, i, gone, isl, avail, top) }
}
/// C13
pub fn h_repair() { repair(false) }
/// C10: a repair that can not write leaves the tree as it was
pub fn h_repair_fault() { repair(true) }
fn repair(fault: bool) {
    let s = Store::new();
    let (mut t, mut b, m) = any_tree(&s);
    if vf::param("purge", 0) == 1 { maybe_purge(&mut t, &mut b, &m); }
    let before = nodes(&t, &b.snapshot());
    // every block is lost or not
    let nb = s.len();
    let used: Vec<Link> = before.iter().filter_map(|n| n.link).collect();
    let lost: Vec<bool> = (0..nb).map(|i| used.contains(&Link(i)) && vf::flag("lost")).collect();
    let how = vf::choose("how", 0, vf::param("hows", 1));
    if how == 0 { s.with(|s| s.lost = lost.clone()); } else { s.with(|s| for i in 0..nb as usize { if lost[i] { let k = s.blocks[i].len(); s.blocks[i].truncate(k - 1); } }); }
    let isl = |l: Link| lost[l.0 as usize];
    let (mut avail, mut top) = (vec![], vec![]);
    if !before.is_empty() { survive(&before, &mut 0, false, &isl, &mut avail, &mut top); }
    let mut first = None;
    if fault {
        let (link, level) = (b.link(), b.level());
        s.with(|s| { s.sticky = true; s.fail_put_at = Some(s.puts + vf::choose("fail at", 0, vf::param("failmax", 2))); });
        let r = t.repair(&mut b);
        s.with(|s| { s.sticky = false; s.fail_put_at = None; });
        if r.is_err() { vf::check(b.link() == link && b.level() == level && b.count() == m.len() as u64, "a failed repair leaves the root as it was"); vf::reach("failed repair"); } else { first = r.ok(); }
    }
    let (link, puts) = (b.link(), s.len());
    let report = match first { Some(r) => r, None => t.repair(&mut b).unwrap() };
    vf::check(report.is_empty() == top.is_empty(), "repair reports something iff a block is missing");
    for l in &top { let x = l.to_string(); vf::check(report.iter().any(|r| r.contains(&x)), "every missing block is reported"); }
    if top.is_empty() { vf::check(b.link() == link && s.len() == puts, "repairing an intact tree changes nothing"); vf::reach("intact"); } else { vf::reach("repaired"); }
    let f = forest(&s);
    let tree = b.snapshot();
    vf::check(b.count() == m.len() as u64, "repair does not change offsets");
    let got = f.collect(&tree).unwrap();
    vf::check(got.len() == m.len(), "repair does not change the number of elements");
    for i in 0..m.len() { match &got[i] { Some(g) => vf::check(avail[i] && g.0 == m[i].0 && g.1 == m[i].1, "surviving data is unchanged"), None => vf::check(!avail[i], "repair keeps everything that can still be read") } }
    let mut n = 0;
    for r in f.iter_filtered(&tree, AllQuery) { let (o, k, v) = r.unwrap(); vf::check(avail[o as usize] && k == m[o as usize].0 && v == m[o as usize].1, "iterating a repaired tree"); n += 1; }
    vf::check(n == avail.iter().filter(|x| **x).count(), "a repaired tree can be traversed without errors");
    let (l2, p2) = (b.link(), s.len());
    let again = t.repair(&mut b).unwrap();
    vf::check(again.is_empty() && b.link() == l2 && s.len() == p2, "repairing twice is a no-op");
}
