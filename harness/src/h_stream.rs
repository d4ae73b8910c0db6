//! Harnesses about streaming across growing trees.
use crate::{types::*, vf, h_tree::*, h_query::*};
use banyan::{query::*, *};
use futures::{stream, task::noop_waker, Stream, StreamExt};
use std::{pin::Pin, sync::{Arc, Mutex}, task::{Context, Poll}};
pub fn drain<T>(s: impl Stream<Item = T>) -> Vec<T> {
    let mut s: Pin<Box<dyn Stream<Item = T>>> = unsafe { std::mem::transmute::<Pin<Box<dyn Stream<Item = T> + '_>>, Pin<Box<dyn Stream<Item = T> + 'static>>>(Box::pin(s)) };
    let w = noop_waker(); let mut cx = Context::from_waker(&w);
    let mut r = vec![];
    loop { match s.poll_next_unpin(&mut cx) { Poll::Ready(Some(x)) => r.push(x), Poll::Ready(None) => return r, Poll::Pending => { vf::check(false, "stream over ready data is pending"); return r; } } }
}
pub fn drain_max<T>(s: impl Stream<Item = T>, max: usize) -> Vec<T> { let r = drain(s.take(max + 1)); vf::check(r.len() <= max, "a stream ends after an error"); r }
/// C19
pub fn h_stream_trees() {
    let s = Store::new();
    let mut t = txn(&s);
    let mut b = Sb::new(any_config(), Default::default());
    let mut m = Model::new();
    let mut trees: Vec<Tr> = vec![];
    let mut avail = vec![];
    if vf::param("purge", 0) == 1 { for _ in 0..vf::param("preops", 1) { append_op(&mut t, &mut b, &mut m, vf::param("nmax", 3), vf::param("opkinds", 3)); } avail = maybe_purge(&mut t, &mut b, &m); trees.push(b.snapshot()); }
    else if vf::flag("leading empty tree") { trees.push(b.snapshot()); }
    for _ in 0..vf::param("ops", 2) { append_op(&mut t, &mut b, &mut m, vf::param("nmax", 3), vf::param("opkinds", 3)); trees.push(b.snapshot()); }
    let n = m.len() as u64;
    avail.resize(m.len(), true);
    let start = vf::sym("start", 0, u64::MAX); let end = vf::sym("end", 0, u64::MAX);
    vf::assume(start <= end);
    let q = any_spec(0, vf::param("qkinds", 2));
    let fwd = vf::flag("forward");
    // a transient read error at any point of the traversal
    let fail = if vf::param("faults", 1) == 1 && vf::flag("fault") { Some(vf::choose("fail at", 0, vf::param("failmax", 6))) } else { None };
    let r = forest(&s);
    s.with(|s| { s.gets = 0; s.fail_get_at = fail; });
    // the number of reads before each tree is requested
    let pulls = Arc::new(Mutex::new(vec![]));
    let source = { let (s, p) = (s.clone(), pulls.clone()); stream::iter(trees.clone()).map(move |t| { p.lock().unwrap().push(s.with(|s| s.gets)); t }) };
    let got = if fwd { drain(r.stream_trees_chunked(q.query(), source, start..=end, &|_| ())) } else { drain(r.stream_trees_chunked_reverse(q.query(), source, start..=end, &|_| ())) };
    s.with(|s| s.fail_get_at = None);
    let failed = match fail { Some(f) => s.with(|s| s.gets) > f, None => false };
    // only an error in the last tree ends the data early
    let cut = { let p = pulls.lock().unwrap(); failed && p.len() == trees.len() && fail.unwrap() >= p[p.len() - 1] };
    if failed && !cut { vf::reach("error before the last tree"); }
    let mut data: Vec<(u64, Key, Val)> = vec![];
    let mut ranges: Vec<(u64, u64)> = vec![];
    for c in got { if let Ok(c) = c { ranges.push((c.range.start, c.range.end)); if fwd { data.extend(c.data) } else { data.extend(c.data.into_iter().rev()) } } }
    vf::check(failed || !ranges.is_empty() || n == 0, "the stream delivers chunks");
    if fwd {
        // delivered are the first elements of the expected sequence: all of them unless a read failed
        let mut j = 0;
        for i in 0..n {
            let want = q.matches(i, m[i as usize].0) & (i >= start) & (i <= end) & avail[i as usize];
            let hit = j < data.len() && data[j].0 == i;
            if j == data.len() && cut { break; }
            vf::check(want == hit, "forward streaming delivers exactly the matching elements of the range, once, in order");
            if hit { vf::check(data[j].1 == m[i as usize].0 && data[j].2 == m[i as usize].1, "streamed element is the stored one"); j += 1; }
        }
        vf::check(j == data.len(), "no element is delivered twice");
        if j > 1 { vf::reach("forward"); if failed { vf::reach("forward with fault") } }
        if let Some(c) = ranges.last() { if !failed && end < n { vf::check(c.1 > end, "stream ends once the end of the range is reached"); vf::reach("bounded"); } }
    } else if let Some(top) = ranges.first().map(|x| x.1) {
        vf::check(trees.iter().any(|x| x.count() == top), "reverse streaming starts at the end of a tree");
        let mut j = 0;
        if start < top {
            for i in (0..top).rev() {
                let want = q.matches(i, m[i as usize].0) & (i >= start) & (i <= end) & avail[i as usize];
                let hit = j < data.len() && data[j].0 == i;
                if j == data.len() && cut { break; }
                vf::check(want == hit, "reverse streaming delivers exactly the matching elements of the range, once, in reverse order");
                if hit { vf::check(data[j].1 == m[i as usize].0 && data[j].2 == m[i as usize].1, "streamed element is the stored one"); j += 1; }
            }
            vf::check(j == data.len(), "no element is delivered twice (reverse)");
            if j > 1 { vf::reach("reverse"); if failed { vf::reach("reverse with fault") } }
        } else { for w in data.windows(2) { vf::check(w[0].0 > w[1].0, "reverse order is strictly descending"); } for d in &data { vf::check((d.0 >= start) & (d.0 <= end), "only elements of the range"); } }
    }
    let all = drain(t.stream_trees(AllQuery, stream::iter(trees))).into_iter().collect::<anyhow::Result<Vec<_>>>().unwrap();
    vf::check(all.len() == avail.iter().filter(|x| **x).count(), "stream_trees delivers every element once");
    for (j, x) in all.iter().enumerate() { let i = if avail.len() == all.len() { j } else { x.0 as usize }; vf::check(i < m.len() && avail[i] && (j == 0 || all[j - 1].0 < x.0) && x.0 == i as u64 && x.1 == m[i].0 && x.2 == m[i].1, "stream_trees element"); }
}
