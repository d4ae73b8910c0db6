//! Tag expressions, their disjunctive normal form, and matching against a tag index.
use crate::{tag_index::*, vf};
use smol_str::SmolStr;
/// a tag with an arbitrary byte in lo..lo+nt: one character, or (`long`) at either end of a text too long for an inline string
pub fn any_tag(lo: u8) -> SmolStr {
    let pool = vf::param("pad", 0);
    if pool > 0 && vf::param("padlits", 0) == 1 && vf::flag("pad literal") { return pad_tag([0, 1, pool - 1][vf::choose("pad tag", 0, 2) as usize]); }
    let b = vf::sym("tag", lo as u64, lo as u64 + vf::param("nt", 4) - 1) as u8;
    let mut v = vec![b];
    if vf::param("long", 0) == 1 { let t = b"a text that does not fit into an inline string"; v = if vf::flag("front") { [&[b][..], t].concat() } else { [t, &[b][..]].concat() }; }
    SmolStr::new(unsafe { std::str::from_utf8_unchecked(&v) })
}
pub fn pad_tag(i: u64) -> SmolStr { SmolStr::new(&format!("A{:03}", i)) }
/// up to `max` arbitrary tags, and (`pad`) none, one, more than fit inline or many further ones
pub fn any_tags(max: u64, lo: u8) -> TagSet {
    let mut r = TagSet::default();
    for _ in 0..vf::choose("ntags", 0, max) { r.insert(any_tag(lo)); }
    let pool = vf::param("pad", 0);
    if pool > 0 { let n = [0, 1, pool][vf::choose("pads", 0, 2) as usize]; let p: TagSet = (0..n).map(pad_tag).collect(); r.extend(p); }
    r
}
pub fn has(s: &TagSet, t: &SmolStr) -> bool { s.iter().any(|x| x == t) }
pub fn eval(e: &Expression, s: &TagSet) -> bool {
    match e {
        Expression::Literal(t) => has(s, t),
        Expression::And(v) => v.iter().all(|x| eval(x, s)),
        Expression::Or(v) => v.iter().any(|x| eval(x, s)),
    }
}
/// any expression with at most `lits` literals and the given nesting depth; `raw`: not flattened
fn any_expr(depth: u64, lits: &mut u64, min: u64, raw: bool, lo: u8) -> Expression {
    let k = if depth == 0 { 0 } else { vf::choose("kind", 0, 2) };
    if k == 0 { vf::assume(*lits > 0); *lits -= 1; return Expression::literal(any_tag(lo)); }
    let n = vf::choose("children", min, vf::param("fan", 2));
    let mut v = vec![];
    for _ in 0..n { v.push(any_expr(depth - 1, lits, min, raw, lo)); }
    match (k, raw) { (1, true) => Expression::And(v), (1, false) => Expression::and(v), (_, true) => Expression::Or(v), _ => Expression::or(v) }
}
/// an arbitrary expression, and (`factors`) its conjunction with as many disjunctions of two fixed tags, or the dual form
fn expr(min: u64, raw: bool, lo: u8) -> Expression {
    let e = any_expr(vf::param("depth", 2), &mut vf::param("lits", 3), min, raw, lo);
    let f = vf::param("factors", 0);
    if f == 0 { return e; }
    let l = |i: u64| Expression::literal(pad_tag(i));
    let last = vf::flag("last");
    if vf::flag("dual") { let mut v: Vec<_> = (0..f).map(|i| Expression::and(vec![l(2 * i), l(2 * i + 1)])).collect(); v.insert(if last { v.len() } else { 0 }, e); Expression::or(v) }
    else { let mut v: Vec<_> = (0..f).map(|i| Expression::or(vec![l(2 * i), l(2 * i + 1)])).collect(); v.insert(if last { v.len() } else { 0 }, e); Expression::and(v) }
}
/// C21: matching() returns exactly the indices of the elements satisfying the expression
pub fn h_match() {
    let e = expr(vf::param("minc", 0), true, b'a');
    let n = vf::choose("elements", 0, vf::param("elements", 1));
    let es: Vec<TagSet> = (0..n).map(|_| any_tags(vf::param("etags", 2), b'a')).collect();
    let ix = TagIndex::from_elements(&es);
    vf::check(ix.as_elements() == es, "the index represents exactly the given elements");
    let d = e.clone().dnf();
    let got = ix.matching(d.clone());
    let mut j = 0;
    for (i, x) in es.iter().enumerate() {
        let want = eval(&e, x);
        let hit = j < got.len() && got[j] == i;
        vf::check(hit == want, "matching returns exactly the elements that satisfy the expression");
        if hit { j += 1; vf::reach("match"); } else { vf::reach("no match"); }
        vf::check(eval(&e.simplify(), x) == want, "simplify preserves the meaning");
        vf::check(eval(&d.clone().expression(), x) == want, "the expression of a normal form means the same");
    }
    vf::check(j == got.len(), "matching reports ascending indices of elements, each once");
    vf::observe(got.len() as u64);
}
/// C21: simplifying and normalizing nested expressions does not change what they select
pub fn h_simplify() {
    let e = expr(vf::param("minc", 2), true, b'a');
    let (s, d) = (e.simplify(), e.clone().dnf());
    let x = d.expression();
    let nt = vf::param("nt", 3);
    for mask in 0..1u32 << nt {
        let set: TagSet = (0..nt as u8).filter(|i| mask >> i & 1 == 1).map(|i| SmolStr::new(unsafe { std::str::from_utf8_unchecked(&[b'a' + i]) })).collect();
        let want = eval(&e, &set);
        vf::check(eval(&s, &set) == want, "simplify preserves the meaning");
        vf::check(eval(&x, &set) == want, "the expression of a normal form means the same");
        if want { vf::reach("selected") } else { vf::reach("not selected") }
    }
}
/// C21: the normal form is canonical: minimal, and stable under conversion
pub fn h_dnf() {
    let e = expr(vf::param("minc", 0), true, b'a');
    let d = e.clone().dnf();
    for (i, a) in d.0.iter().enumerate() {
        for (k, b) in d.0.iter().enumerate() {
            vf::check(i == k || !a.is_subset(b), "no clause of a normal form is implied by another one");
        }
        // every clause satisfies the expression, and is minimal in doing so
        vf::check(eval(&e, a), "every clause of the normal form satisfies the expression");
        for drop in a.iter() {
            let smaller: TagSet = a.iter().filter(|x| *x != drop).cloned().collect();
            vf::check(!eval(&e, &smaller), "no clause of the normal form can be shortened");
        }
    }
    vf::check(d.clone().expression().dnf() == d, "a normal form is its own normal form");
    vf::check(e.simplify().dnf() == d, "simplification does not change the normal form");
    vf::observe(d.0.len() as u64);
    if d.0.len() > 1 { vf::reach("several clauses"); }
    if d.0.is_empty() { vf::reach("nothing matches"); }
    vf::reach("done");
}
/// parser for the textual form: or = and { " | " and }; and = atom { " & " atom }; atom = quoted | "( " or " )"
struct P<'a>(&'a [u8], usize);
impl<'a> P<'a> {
    fn eat(&mut self, s: &[u8]) -> bool { if self.0.len() >= self.1 + s.len() && self.0[self.1..self.1 + s.len()] == *s { self.1 += s.len(); true } else { false } }
    fn or(&mut self, s: &TagSet) -> Option<bool> { let mut r = self.and(s)?; while self.eat(b" | ") { r |= self.and(s)?; } Some(r) }
    fn and(&mut self, s: &TagSet) -> Option<bool> { let mut r = self.atom(s)?; while self.eat(b" & ") { r &= self.atom(s)?; } Some(r) }
    fn atom(&mut self, s: &TagSet) -> Option<bool> {
        if self.eat(b"( ") { let r = self.or(s)?; return if self.eat(b" )") { Some(r) } else { None }; }
        if !self.eat(b"'") { return None; }
        let mut t = Vec::new();
        loop {
            if self.eat(b"''") { t.push(b'\''); } else if self.eat(b"'") { break } else { t.push(*self.0.get(self.1)?); self.1 += 1; }
        }
        Some(has(s, &SmolStr::new(std::str::from_utf8(&t).ok()?)))
    }
}
/// C21: the textual form of an expression built with the flattening constructors is unambiguous
pub fn h_display() {
    // the alphabet contains the quote, the and sign and both brackets
    let e = expr(1, false, b'&');
    let x = any_tags(vf::param("etags", 2), b'&');
    let t = e.to_string();
    let mut p = P(t.as_bytes(), 0);
    let r = p.or(&x);
    vf::check(r.is_some() && p.1 == t.len(), "the textual form is well formed");
    vf::check(r == Some(eval(&e, &x)), "the textual form has the meaning of the expression");
    if t.len() > 9 { vf::reach("compound"); }
}
