//! Interval and bound monitors: I01-I14.
//!
//! Oracle: m increasing values are points of a dense line; position 2i+1 is value i,
//! position 2i+2 the open gap above it. A non-empty interval between table values is a
//! run of positions lo..=hi; every set statement is a statement about runs.
use advanced_collections::interval::{Interval, LowerBound, UpperBound};
use std::cmp::Ordering::{self, *};
use std::collections::hash_map::DefaultHasher;
use std::fmt::{Debug, Display};
use std::hash::{Hash, Hasher};
use std::net::Ipv4Addr;
use std::num::Wrapping;
use std::ops::*;
use std::time::{Duration, SystemTime};
use vh::ck;
use vh::mon::{self, count, h, op, quiet, retrace, state, Run as Ctx, Tags};
use vh::rng::Rng;

#[global_allocator]
static A: vh::alloc::Counting = vh::alloc::Counting;

const I01: Tags = &["I01"];
const I02: Tags = &["I02"];
const I03: Tags = &["I03"];
const I04: Tags = &["I04"];
const I05: Tags = &["I05"];
const I06: Tags = &["I06"];
const I07: Tags = &["I07"];
const I08: Tags = &["I08"];
const I09: Tags = &["I09"];
const I10: Tags = &["I10"];
const I11: Tags = &["I11"];
const I12: Tags = &["I12"];
const I13: Tags = &["I13"];
const I14: Tags = &["I14"];
const I15: Tags = &["I15"];

type Run = Option<(usize, usize)>;

/// Table of increasing values; `at` makes a fresh value (the type may not be Clone).
struct Tb<'a, T> {
    n: usize,
    at: Box<dyn Fn(usize) -> T + 'a>,
    name: String,
    /// Serial number of the table: case index (and so the shard) of per-table cases.
    k: u64,
}
static SERIAL: std::sync::atomic::AtomicU64 = std::sync::atomic::AtomicU64::new(0);
fn serial() -> u64 {
    SERIAL.fetch_add(1, std::sync::atomic::Ordering::Relaxed)
}
impl<'a, T: Ord + Clone + 'a> Tb<'a, T> {
    fn of(name: &str, mut v: Vec<T>) -> Tb<'a, T> {
        v.sort();
        v.dedup();
        Tb { n: v.len(), at: Box::new(move |i| v[i].clone()), name: name.to_string(), k: serial() }
    }
}
impl<'a, T: Ord> Tb<'a, T> {
    fn find(&self, v: &T) -> Option<usize> {
        (0..self.n).find(|i| (self.at)(*i) == *v)
    }
    /// All runs, the empty one first.
    fn runs(&self) -> Vec<Run> {
        let m = 2 * self.n;
        let mut v = vec![None];
        for lo in 1..m {
            for hi in lo..m { v.push(Some((lo, hi))) }
        }
        v
    }
    fn parts(&self, r: (usize, usize)) -> (usize, bool, usize, bool) {
        let (i, lc) = if r.0 % 2 == 1 { (r.0 / 2, true) } else { (r.0 / 2 - 1, false) };
        (i, lc, r.1 / 2, r.1 % 2 == 1)
    }
    fn build(&self, r: Run, route: u64) -> Interval<T> {
        let Some(r) = r else { return Interval::empty() };
        let (i, lc, j, uc) = self.parts(r);
        let (l, u) = ((self.at)(i), (self.at)(j));
        match route % 3 {
            0 => Interval::new(l, lc, u, uc),
            1 => Interval::from_bounds(LowerBound::new(l, lc), UpperBound::new(u, uc)),
            _ => match (lc, uc) {
                (true, true) => Interval::closed(l, u),
                (false, false) => Interval::open(l, u),
                (true, false) => Interval::lower_closed(l, u),
                (false, true) => Interval::upper_closed(l, u),
            },
        }
    }
    /// What the interval says about itself, as a run (None inside: not expressible).
    fn read(&self, i: &Interval<T>) -> Option<Run> {
        let Some((l, u)) = i.bounds() else { return Some(None) };
        let (li, ui) = (self.find(l.val())?, self.find(u.val())?);
        let lo = if l.is_closed() { 2 * li + 1 } else { 2 * li + 2 };
        let hi = if u.is_closed() { 2 * ui + 1 } else { 2 * ui };
        if lo <= hi { Some(Some((lo, hi))) } else { None }
    }
    fn s(&self, r: Run) -> String {
        match r {
            None => "empty".into(),
            Some(x) => {
                let (i, lc, j, uc) = self.parts(x);
                format!("{}v{i},v{j}{}", if lc { '[' } else { '(' }, if uc { ']' } else { ')' })
            }
        }
    }
    /// The interval must describe exactly this run.
    fn is(&self, i: &Interval<T>, want: Run, tags: Tags, what: &str) -> bool {
        let got = self.read(i);
        let g = match got {
            Some(r) => self.s(r),
            None => format!("an ill-formed interval ({:?} closed ends, bounds in table: {:?})", i.bounds().map(|(l, u)| (l.is_closed(), u.is_closed())),
                i.bounds().map(|(l, u)| (self.find(l.val()), self.find(u.val())))),
        };
        ck!(tags, got == Some(want), "{what} is {g}, expected {} ({})", self.s(want), self.name)
    }
}

fn hash<T: Hash>(t: &T) -> u64 {
    let mut h = DefaultHasher::new();
    t.hash(&mut h);
    h.finish()
}

/// Every accessor agrees with the run.
fn accessors<T: Ord>(t: &Tb<T>, i: &Interval<T>, r: Run, tags: Tags, what: &str) {
    t.is(i, r, tags, what);
    let w = r.map(|x| t.parts(x));
    ck!(tags, i.is_empty() == r.is_none(), "{what}: is_empty() is {} for {}", i.is_empty(), t.s(r));
    let single = matches!(r, Some((a, b)) if a == b && a % 2 == 1);
    ck!(tags, i.is_single() == single, "{what}: is_single() is {} for {}", i.is_single(), t.s(r));
    ck!(tags, i.is_lower_closed() == w.map(|w| w.1), "{what}: is_lower_closed() is {:?} for {}", i.is_lower_closed(), t.s(r));
    ck!(tags, i.is_upper_closed() == w.map(|w| w.3), "{what}: is_upper_closed() is {:?} for {}", i.is_upper_closed(), t.s(r));
    let lo = i.lower().map(|l| (t.find(l.val()), l.is_closed()));
    let up = i.upper().map(|l| (t.find(l.val()), l.is_closed()));
    ck!(tags, lo == w.map(|w| (Some(w.0), w.1)), "{what}: lower() is {lo:?} for {}", t.s(r));
    ck!(tags, up == w.map(|w| (Some(w.2), w.3)), "{what}: upper() is {up:?} for {}", t.s(r));
    let b = i.bounds().map(|(l, u)| (t.find(l.val()), l.is_closed(), t.find(u.val()), u.is_closed()));
    ck!(tags, b == w.map(|w| (Some(w.0), w.1, Some(w.2), w.3)), "{what}: bounds() is {b:?} for {}", t.s(r));
}

fn construction<T: Ord>(t: &Tb<T>) {
    for i in 0..t.n {
        for j in 0..t.n {
            for k in 0..4u64 {
                let (lc, uc) = (k & 1 == 1, k & 2 == 2);
                let valid = i < j || i == j && lc && uc;
                let run = if valid { Some((if lc { 2 * i + 1 } else { 2 * i + 2 }, if uc { 2 * j + 1 } else { 2 * j })) } else { None };
                for route in 0..3u64 {
                    op("construct", i as u64 * 100 + j as u64, k, route, I01);
                    let what = ["new", "from_bounds", ["open", "lower_closed", "upper_closed", "closed"][k as usize]][route as usize];
                    let make = || match (route, k) {
                        (0, _) => Interval::new((t.at)(i), lc, (t.at)(j), uc),
                        (1, _) => Interval::from_bounds(LowerBound::new((t.at)(i), lc), UpperBound::new((t.at)(j), uc)),
                        (_, 0) => Interval::open((t.at)(i), (t.at)(j)),
                        (_, 1) => Interval::lower_closed((t.at)(i), (t.at)(j)),
                        (_, 2) => Interval::upper_closed((t.at)(i), (t.at)(j)),
                        (_, _) => Interval::closed((t.at)(i), (t.at)(j)),
                    };
                    let r = quiet(make);
                    match r {
                        Err(e) => { ck!(I01, !valid, "{what}(v{i} closed {lc}, v{j} closed {uc}) panicked ({e}) on valid bounds ({})", t.name); }
                        Ok(iv) => {
                            if !ck!(I01, valid, "{what}(v{i} closed {lc}, v{j} closed {uc}) accepted invalid bounds ({})", t.name) { continue }
                            accessors(t, &iv, run, I01, what);
                            let tup = iv.into_tuple().map(|(a, b, c, d)| (t.find(&a), b, t.find(&c), d));
                            ck!(I01, tup == Some((Some(i), lc, Some(j), uc)), "into_tuple gives {tup:?} for {}", t.s(run));
                            let b = t.build(run, route).into_bounds().map(|(l, u)| {
                                let (l, u) = (l.into_tuple(), u.into_tuple());
                                (t.find(&l.0), l.1, t.find(&u.0), u.1)
                            });
                            ck!(I01, b == Some((Some(i), lc, Some(j), uc)), "into_bounds gives {b:?} for {}", t.s(run));
                            state(h(&[i as u64, j as u64, k, route]));
                        }
                    }
                }
            }
        }
    }
    op("construct empty", 0, 0, 0, I01);
    accessors(t, &Interval::empty(), None, I01, "empty()");
    ck!(I01, Interval::<T>::empty().into_tuple().is_none() && Interval::<T>::empty().into_bounds().is_none(), "empty() has bounds when taken apart");
}
fn singles<T: Ord + Clone>(t: &Tb<T>) {
    for i in 0..t.n {
        op("single", i as u64, 0, 0, I01);
        let v = (t.at)(i);
        let iv = Interval::single(v);
        accessors(t, &iv, Some((2 * i + 1, 2 * i + 1)), I01, "single");
    }
}

fn with_values<T: Ord>(t: &Tb<T>, ra: Run, route: u64) {
    let a = t.build(ra, route);
    for k in 0..t.n {
        let v = (t.at)(k);
        let p = 2 * k + 1;
        op("contains_val", k as u64, 0, 0, I02);
        let want = ra.is_some_and(|(l, u)| l <= p && p <= u);
        let got = a.contains_val(&v);
        ck!(I02, got == want, "contains_val(v{k}) is {got} for {} ({})", t.s(ra), t.name);
        op("compare with value", k as u64, 0, 0, I08);
        let (lt, gt, le, ge, eq) = match ra {
            None => (false, false, false, false, false),
            Some((l, u)) => (u < p, l > p, u <= p, l >= p, l == p && u == p),
        };
        let got = (a < v, a > v, a <= v, a >= v, a == v, a != v);
        ck!(I08, got == (lt, gt, le, ge, eq, !eq), "comparing {} with v{k}: (<,>,<=,>=,==,!=) is {got:?}, expected {:?} ({})", t.s(ra), (lt, gt, le, ge, eq, !eq), t.name);
        let pc = if lt { Some(Less) } else if gt { Some(Greater) } else if eq { Some(Equal) } else { None };
        let got = a.partial_cmp(&v);
        ck!(I08, got == pc, "partial_cmp of {} with v{k} is {got:?}, expected {pc:?} ({})", t.s(ra), t.name);
        state(h(&[ra.map_or(0, |r| (r.0 * 1000 + r.1) as u64), k as u64, 8]));
    }
}

fn pair<T: Ord + Hash>(t: &Tb<T>, ra: Run, rb: Run, route: u64, dbg: fn(&Interval<T>) -> String) {
    let mk_a = || t.build(ra, route);
    let mk_b = || t.build(rb, route / 3);
    let (a, b) = (mk_a(), mk_b());
    let (sa, sb) = (t.s(ra), t.s(rb));
    state(h(&[ra.map_or(0, |r| (r.0 * 1000 + r.1) as u64), rb.map_or(0, |r| (r.0 * 1000 + r.1) as u64), route]));

    op("contains_interval", 0, 0, 0, I03);
    let want = match (ra, rb) {
        (_, None) => true,
        (None, _) => false,
        (Some(x), Some(y)) => x.0 <= y.0 && y.1 <= x.1,
    };
    let got = a.contains_interval(&b);
    ck!(I03, got == want, "{sa} contains_interval {sb} is {got} ({})", t.name);

    op("intersect", 0, 0, 0, I04);
    let inter = match (ra, rb) {
        (Some(x), Some(y)) => {
            let (l, u) = (x.0.max(y.0), x.1.min(y.1));
            if l <= u { Some((l, u)) } else { None }
        }
        _ => None,
    };
    let got = a.intersects(&b);
    ck!(I04, got == inter.is_some(), "{sa} intersects {sb} is {got} ({})", t.name);
    t.is(&mk_a().into_intersection(mk_b()), inter, I04, &format!("{sa} into_intersection {sb}"));
    let mut c = mk_a();
    c.intersection(mk_b());
    t.is(&c, inter, I04, &format!("{sa} intersection {sb}"));
    accessors(t, &c, inter, I04, "intersection");

    op("merge", 0, 0, 0, I05);
    let merged = match (ra, rb) {
        (None, x) | (x, None) => Some(x),
        (Some(x), Some(y)) => if x.0.max(y.0) <= x.1.min(y.1) + 1 { Some(Some((x.0.min(y.0), x.1.max(y.1)))) } else { None },
    };
    let got = a.can_be_merged(&b);
    ck!(I05, got == merged.is_some(), "{sa} can_be_merged {sb} is {got} ({})", t.name);
    match mk_a().into_merged(mk_b()) {
        Ok(m) => {
            if ck!(I05, merged.is_some(), "{sa} into_merged {sb} succeeded although a gap remains ({})", t.name) {
                t.is(&m, merged.unwrap(), I05, &format!("{sa} into_merged {sb}"));
            }
        }
        Err((x, y)) => {
            ck!(I05, merged.is_none(), "{sa} into_merged {sb} failed although their union is an interval ({})", t.name);
            t.is(&x, ra, I05, "the first interval handed back by into_merged");
            t.is(&y, rb, I05, "the second interval handed back by into_merged");
        }
    }
    let mut c = mk_a();
    match c.merge(mk_b()) {
        Ok(()) => {
            if ck!(I05, merged.is_some(), "{sa} merge {sb} succeeded although a gap remains ({})", t.name) {
                t.is(&c, merged.unwrap(), I05, &format!("{sa} merge {sb}"));
                accessors(t, &c, merged.unwrap(), I05, "merge");
            }
        }
        Err(y) => {
            ck!(I05, merged.is_none(), "{sa} merge {sb} failed although their union is an interval ({})", t.name);
            t.is(&c, ra, I05, "the target of a failed merge");
            t.is(&y, rb, I05, "the interval handed back by merge");
        }
    }

    op("span", 0, 0, 0, I06);
    let span = match (ra, rb) {
        (None, x) | (x, None) => x,
        (Some(x), Some(y)) => Some((x.0.min(y.0), x.1.max(y.1))),
    };
    t.is(&mk_a().into_span(mk_b()), span, I06, &format!("{sa} into_span {sb}"));
    let mut c = mk_a();
    c.span(mk_b());
    t.is(&c, span, I06, &format!("{sa} span {sb}"));
    accessors(t, &c, span, I06, "span");

    op("compare", 0, 0, 0, I07);
    let eq = ra == rb;
    let (lt, gt, le, ge) = match (ra, rb) {
        (Some(x), Some(y)) => (x.1 < y.0, x.0 > y.1, x.1 < y.0 || x.1 == y.0 && x.1 % 2 == 1, x.0 > y.1 || x.0 == y.1 && x.0 % 2 == 1),
        _ => (false, false, false, false),
    };
    let got = (a < b, a > b, a <= b, a >= b);
    ck!(I07, got == (lt, gt, le, ge), "comparing {sa} with {sb}: (<,>,<=,>=) is {got:?}, expected {:?} ({})", (lt, gt, le, ge), t.name);
    let got = (a == b, a != b);
    ck!(&["I07", "I10"], got == (eq, !eq), "comparing {sa} with {sb}: (==,!=) is {got:?} ({})", t.name);
    let pc = if lt { Some(Less) } else if gt { Some(Greater) } else if eq { Some(Equal) } else { None };
    let got = a.partial_cmp(&b);
    ck!(I07, got == pc, "partial_cmp of {sa} with {sb} is {got:?}, expected {pc:?} ({})", t.name);

    op("canonical form", 0, 0, 0, I10);
    if eq {
        ck!(I10, hash(&a) == hash(&b), "equal intervals {sa} hash differently ({})", t.name);
        ck!(I10, dbg(&a) == dbg(&b), "equal intervals {sa} print as {} and {}", dbg(&a), dbg(&b));
    }
    // results of operations equal, hash and print like freshly built intervals
    for (what, r, i) in [("intersection", inter, mk_a().into_intersection(mk_b())), ("span", span, mk_a().into_span(mk_b()))] {
        let f = t.build(r, route / 2);
        if t.read(&i) == Some(r) {
            ck!(I10, i == f && !(i != f) && hash(&i) == hash(&f) && dbg(&i) == dbg(&f), "{what} of {sa} and {sb} differs from the same interval built directly: {} and {}", dbg(&i), dbg(&f));
        } else {
            ck!(I10, t.read(&i).is_some(), "{what} of {sa} and {sb} is not in canonical form: {}", dbg(&i));
        }
    }
}

fn display<T: Ord + Display>(t: &Tb<T>, r: Run, route: u64, seen: &mut std::collections::HashMap<String, Run>) {
    op("display", route, 0, 0, I11);
    let i = t.build(r, route);
    let want = match r {
        None => "Ø".to_string(),
        Some(x) => {
            let (i, lc, j, uc) = t.parts(x);
            let mut s = String::from(if lc { "[" } else { "(" });
            s.push_str(&(t.at)(i).to_string());
            s.push(',');
            s.push_str(&(t.at)(j).to_string());
            s.push(if uc { ']' } else { ')' });
            s
        }
    };
    let got = i.to_string();
    ck!(I11, got == want, "{} displays as {got}, expected {want} ({})", t.s(r), t.name);
    let via = format!("{i}|{}", &i);
    ck!(I11, via == format!("{want}|{want}"), "{} formats as {via}", t.s(r));
    if let Some(o) = seen.insert(got.clone(), r) {
        ck!(I11, o == r, "{} and {} both display as {got}", t.s(o), t.s(r));
    }
    state(h(&[vh::rng::hash_str(&want), 11]));
}

// ------------------------------------------------------------------ bounds
fn cmp_all<X: PartialOrd<Y>, Y>(a: &X, b: &Y) -> (bool, bool, bool, bool, bool, bool, Option<Ordering>) {
    (a < b, a <= b, a > b, a >= b, a == b, a != b, a.partial_cmp(b))
}
fn expect(o: Ordering) -> (bool, bool, bool, bool, bool, bool, Option<Ordering>) {
    (o == Less, o != Greater, o == Greater, o != Less, o == Equal, o != Equal, Some(o))
}

fn bounds<T: Ord + Hash>(t: &Tb<T>) {
    let n = t.n;
    let lo = |i: usize, c: bool| LowerBound::new((t.at)(i), c);
    let up = |i: usize, c: bool| UpperBound::new((t.at)(i), c);
    let lp = |i: usize, c: bool| if c { 2 * i + 1 } else { 2 * i + 2 };
    let upos = |i: usize, c: bool| if c { 2 * i + 1 } else { 2 * i };
    for i in 0..n {
        for ci in [true, false] {
            op("bound accessors", i as u64, ci as u64, 0, I14);
            let (l, u) = (lo(i, ci), up(i, ci));
            ck!(I14, t.find(l.val()) == Some(i) && l.is_closed() == ci, "lower bound (v{i},{ci}) reports {:?},{}", t.find(l.val()), l.is_closed());
            ck!(I14, t.find(u.val()) == Some(i) && u.is_closed() == ci, "upper bound (v{i},{ci}) reports {:?},{}", t.find(u.val()), u.is_closed());
            let (a, b) = (l.into_tuple(), u.into_tuple());
            ck!(I14, t.find(&a.0) == Some(i) && a.1 == ci && t.find(&b.0) == Some(i) && b.1 == ci, "into_tuple of bound (v{i},{ci}) gives ({:?},{}) and ({:?},{})", t.find(&a.0), a.1, t.find(&b.0), b.1);
            for j in 0..n {
                // bound against value
                op("compare bound with value", i as u64, j as u64, ci as u64, I12);
                let v = (t.at)(j);
                let w = expect(lp(i, ci).cmp(&(2 * j + 1)));
                let got = cmp_all(&lo(i, ci), &v);
                ck!(I12, got == w, "lower bound (v{i}, closed {ci}) against v{j}: (<,<=,>,>=,==,!=,partial_cmp) is {got:?}, expected {w:?} ({})", t.name);
                let w = expect(upos(i, ci).cmp(&(2 * j + 1)));
                let got = cmp_all(&up(i, ci), &v);
                ck!(I12, got == w, "upper bound (v{i}, closed {ci}) against v{j}: (<,<=,>,>=,==,!=,partial_cmp) is {got:?}, expected {w:?} ({})", t.name);
                for cj in [true, false] {
                    op("compare bounds", i as u64, j as u64, ci as u64 * 2 + cj as u64, I12);
                    state(h(&[i as u64, j as u64, ci as u64 * 2 + cj as u64, 12]));
                    let o = lp(i, ci).cmp(&lp(j, cj));
                    let (a, b) = (lo(i, ci), lo(j, cj));
                    let got = cmp_all(&a, &b);
                    ck!(I12, got == expect(o) && a.cmp(&b) == o, "lower bounds (v{i}, closed {ci}) and (v{j}, closed {cj}): {got:?}, cmp {:?}, expected {o:?} ({})", a.cmp(&b), t.name);
                    if o == Equal {
                        ck!(I12, hash(&a) == hash(&b), "equal lower bounds hash differently");
                    }
                    let (mn, mx) = (lo(i, ci).min(lo(j, cj)), lo(i, ci).max(lo(j, cj)));
                    let f = |b: &LowerBound<T>| lp(t.find(b.val()).unwrap_or(99), b.is_closed());
                    ck!(I12, f(&mn) == lp(i, ci).min(lp(j, cj)) && f(&mx) == lp(i, ci).max(lp(j, cj)), "min/max of lower bounds (v{i},{ci}) (v{j},{cj}) are wrong");
                    let o = upos(i, ci).cmp(&upos(j, cj));
                    let (a, b) = (up(i, ci), up(j, cj));
                    let got = cmp_all(&a, &b);
                    ck!(I12, got == expect(o) && a.cmp(&b) == o, "upper bounds (v{i}, closed {ci}) and (v{j}, closed {cj}): {got:?}, cmp {:?}, expected {o:?} ({})", a.cmp(&b), t.name);
                    if o == Equal {
                        ck!(I12, hash(&a) == hash(&b), "equal upper bounds hash differently");
                    }
                    let (mn, mx) = (up(i, ci).min(up(j, cj)), up(i, ci).max(up(j, cj)));
                    let f = |b: &UpperBound<T>| upos(t.find(b.val()).unwrap_or(99), b.is_closed());
                    ck!(I12, f(&mn) == upos(i, ci).min(upos(j, cj)) && f(&mx) == upos(i, ci).max(upos(j, cj)), "min/max of upper bounds (v{i},{ci}) (v{j},{cj}) are wrong");

                    // clamped between the two
                    if lp(i, ci) <= lp(j, cj) {
                        for (k, ck) in (0..n).flat_map(|k| [(k, true), (k, false)]) {
                            op("clamp lower bound", i as u64 * 2 + ci as u64, j as u64 * 2 + cj as u64, k as u64 * 2 + ck as u64, I12);
                            let c = lo(k, ck).clamp(lo(i, ci), lo(j, cj));
                            let at = lp(t.find(c.val()).unwrap_or(99), c.is_closed());
                            ck!(I12, at == lp(k, ck).clamp(lp(i, ci), lp(j, cj)), "lower bound (v{k},{ck}) clamped between (v{i},{ci}) and (v{j},{cj}) is wrong");
                        }
                    }
                    if upos(i, ci) <= upos(j, cj) {
                        for (k, ck) in (0..n).flat_map(|k| [(k, true), (k, false)]) {
                            op("clamp upper bound", i as u64 * 2 + ci as u64, j as u64 * 2 + cj as u64, k as u64 * 2 + ck as u64, I12);
                            let c = up(k, ck).clamp(up(i, ci), up(j, cj));
                            let at = upos(t.find(c.val()).unwrap_or(99), c.is_closed());
                            ck!(I12, at == upos(k, ck).clamp(upos(i, ci), upos(j, cj)), "upper bound (v{k},{ck}) clamped between (v{i},{ci}) and (v{j},{cj}) is wrong");
                        }
                    }

                    // lower i against upper j
                    op("compare lower with upper", i as u64, j as u64, ci as u64 * 2 + cj as u64, I13);
                    let (l, u) = (lo(i, ci), up(j, cj));
                    let room = lp(i, ci) <= upos(j, cj);
                    ck!(I13, (u < l) == !room, "upper (v{j}, closed {cj}) < lower (v{i}, closed {ci}) is {} ({})", u < l, t.name);
                    ck!(I13, (l > u) == !room, "lower (v{i}, closed {ci}) > upper (v{j}, closed {cj}) is {} ({})", l > u, t.name);
                    let got = (l <= u, l >= u, u <= l, u >= l);
                    ck!(I13, got == (i <= j, i >= j, j <= i, j >= i), "lower (v{i},{ci}) and upper (v{j},{cj}): <=,>= (both ways) are {got:?} ({})", t.name);
                    let got = (l == u, l != u, u == l, u != l);
                    ck!(I13, got == (false, true, false, true), "lower (v{i},{ci}) and upper (v{j},{cj}): ==,!= (both ways) are {got:?} ({})", t.name);
                    if i != j {
                        let o = i.cmp(&j);
                        let got = (l < u, u > l, l.partial_cmp(&u), u.partial_cmp(&l));
                        ck!(I13, got == (o == Less, o == Less, Some(o), Some(o.reverse())), "lower (v{i},{ci}) and upper (v{j},{cj}): l<u, u>l, partial_cmp both ways are {got:?} ({})", t.name);
                    }
                    let sep = i > j || i == j && !ci && !cj;
                    let got = (l.is_separated_from(&u), u.is_separated_from(&l));
                    ck!(I13, got == (sep, sep), "lower (v{i}, closed {ci}) and upper (v{j}, closed {cj}): is_separated_from (both ways) is {got:?} ({})", t.name);
                }
            }
        }
    }
}

// ------------------------------------------------------------------ everything for one table
fn all<T: Ord + Hash>(cx: &mut Ctx, t: &Tb<T>, dbg: fn(&Interval<T>) -> String) {
    let (p, miri) = (cx.a.prop.clone(), cx.miri());
    let phase = format!("pairs/{}", t.name);
    let runs = t.runs();
    if cx.any(&["I12", "I13", "I14"]) {
        cx.case("bounds", t.k, |_| { mon::note(t.name.clone()); bounds(t) });
        return;
    }
    if p == "I01" {
        cx.case("construction", t.k, |_| { mon::note(t.name.clone()); construction(t) });
    }
    if p == "I09" { return }
    for (i, ra) in runs.iter().enumerate() {
        if miri && i % 7 != 0 { continue }
        cx.case(&phase, i as u64, |_| {
            for route in 0..3 {
                retrace();
                mon::note(format!("{} of {}", t.s(*ra), t.name));
                with_values(t, *ra, route);
            }
            for rb in &runs {
                for route in [0, 4, 8, 2, 3] {
                    retrace();
                    mon::note(format!("{} and {} of {}", t.s(*ra), t.s(*rb), t.name));
                    pair(t, *ra, *rb, route, dbg);
                }
            }
        });
    }
}
/// Values with long, odd or piecewise written texts.
fn display_long(cx: &mut Ctx, cases: u64) {
    /// Writes its text in pieces of `n` characters, some of them through padding.
    #[derive(Clone, PartialEq, Eq, PartialOrd, Ord, Hash, Debug)]
    struct Piecewise(String, usize);
    impl Display for Piecewise {
        fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
            for (k, c) in self.0.chars().collect::<Vec<_>>().chunks(self.1).enumerate() {
                let s: String = c.iter().collect();
                if k % 2 == 0 { f.write_str(&s)? } else { write!(f, "{s}")? }
            }
            Ok(())
        }
    }
    let dict = cx.dict.clone();
    for idx in 0..cases {
        cx.case("display-long", idx, |r| {
            let n = match r.below(4) { 0 => (*r.pick(&dict)).min(20_000) + r.below(3), 1 => r.below(70_000), 2 => r.below(40), _ => r.below(600) };
            let alpha: Vec<char> = match r.below(4) {
                0 => "a".chars().collect(),
                1 => "abcxyz0189 ".chars().collect(),
                2 => "aé∅𝄞ß".chars().collect(),
                _ => "a,()[]{}\"\\\n\t\0 Ø%".chars().collect(),
            };
            let text = |r: &mut Rng, n: u64| (0..n).map(|_| *r.pick(&alpha)).collect::<String>();
            let mut a = text(r, n);
            let m = match r.below(3) { 0 => n, 1 => r.below(n + 2), _ => r.below(30) };
            let mut b = if r.chance(1, 2) { format!("{a}{}", text(r, 1 + m)) } else { text(r, m) };
            if a == b { b.push('!') }
            if a > b { std::mem::swap(&mut a, &mut b) }
            op("display long", n, m, 0, I11);
            let q = 1 + r.us(n as usize + 1).min(50);
            for k in 0..5u64 {
                fn both<T: Ord + Clone + Display>(k: u64, a: &T, b: &T) -> String {
                    let (a, b) = (a.clone(), b.clone());
                    match k {
                        0 => Interval::closed(a, b),
                        1 => Interval::open(a, b),
                        2 => Interval::lower_closed(a, b),
                        3 => Interval::upper_closed(a, b),
                        _ => Interval::single(a),
                    }.to_string()
                }
                let (lo, up) = [("[", "]"), ("(", ")"), ("[", ")"), ("(", "]"), ("[", "]")][k as usize];
                let want = format!("{lo}{a},{}{up}", if k == 4 { &a } else { &b });
                for got in [both(k, &a, &b), both(k, &Piecewise(a.clone(), q), &Piecewise(b.clone(), q))] {
                    let at = got.chars().zip(want.chars()).position(|(x, y)| x != y);
                    ck!(I11, got == want, "the text of an interval of values of {} and {} characters has {} characters, expected {}, first difference at {at:?}; begins {:?}",
                        a.chars().count(), b.chars().count(), got.chars().count(), want.chars().count(), want.chars().take(40).collect::<String>());
                }
            }
            state(h(&[n, m, vh::rng::hash_str(&a), 111]));
        });
    }
}
fn shown<T: Ord + Hash + Display>(cx: &mut Ctx, t: &Tb<T>) {
    if !cx.is("I11") { return }
    cx.case("display", t.k, |_| {
        mon::note(t.name.clone());
        let mut seen = Default::default();
        for r in t.runs() {
            for route in 0..3 { display(t, r, route, &mut seen) }
        }
    });
}
fn dbg<T: Ord + Debug>(i: &Interval<T>) -> String {
    format!("{i:?}")
}

/// Neither Clone nor Copy, ordering reversed with respect to the payload.
#[derive(PartialEq, Eq, Hash, Debug)]
struct Odd(i64);
impl PartialOrd for Odd {
    fn partial_cmp(&self, o: &Odd) -> Option<Ordering> { Some(self.cmp(o)) }
}
impl Ord for Odd {
    fn cmp(&self, o: &Odd) -> Ordering { o.0.cmp(&self.0) }
}

fn tables(cx: &mut Ctx) {
    macro_rules! go { ($name:expr, $v:expr) => {{
        let t = Tb::of($name, $v);
        all(cx, &t, dbg);
        if cx.is("I01") { cx.case("single", t.k, |_| { mon::note(t.name.clone()); singles(&t) }); }
        shown(cx, &t);
    }} }
    macro_rules! nodisp { ($name:expr, $v:expr) => {{
        let t = Tb::of($name, $v);
        all(cx, &t, dbg);
        if cx.is("I01") { cx.case("single", t.k, |_| { mon::note(t.name.clone()); singles(&t) }); }
    }} }
    go!("i32", vec![-7i32, -1, 0, 1, 2]);
    go!("i32 extremes", vec![i32::MIN, i32::MIN + 1, 0, i32::MAX - 1, i32::MAX]);
    go!("u8", vec![0u8, 1, 2, 254, 255]);
    go!("i64", vec![i64::MIN, -1, 0, 1 << 40, i64::MAX]);
    go!("u64", vec![0u64, 1, 1 << 63, u64::MAX - 1, u64::MAX]);
    go!("i8", vec![-128i8, -127, 0, 126, 127]);
    go!("u16", vec![0u16, 255, 256, 32768, 65535]);
    go!("u128", vec![0u128, 1, u64::MAX as u128, 1 << 64, u128::MAX]);
    go!("i128", vec![i128::MIN, -1, 0, 1 << 100, i128::MAX]);
    go!("usize", vec![0usize, 1, 2, 3, usize::MAX]);
    go!("isize", vec![isize::MIN, -2, -1, 5, isize::MAX]);
    go!("char", vec!['\0', 'a', 'b', 'ź', char::MAX]);
    go!("bool", vec![false, true]);
    go!("String", vec![String::new(), "a".into(), "a\0".into(), "b".into(), "żółw".into()]);
    go!("&str", vec!["", "a", "aa", "b"]);
    go!("Ipv4Addr", vec![Ipv4Addr::new(0, 0, 0, 0), Ipv4Addr::new(10, 0, 0, 1), Ipv4Addr::new(10, 0, 0, 2), Ipv4Addr::new(255, 255, 255, 255)]);
    go!("Rat", vec![rat(-1, 2), rat(0, 1), rat(1, 3), rat(1, 2)]);
    nodisp!("(i32,String)", vec![(0, "z".to_string()), (1, String::new()), (1, "a".into()), (2, "a".into())]);
    nodisp!("Option<u8>", vec![None, Some(0u8), Some(1), Some(255)]);
    nodisp!("Reverse<u8>", vec![std::cmp::Reverse(9u8), std::cmp::Reverse(5), std::cmp::Reverse(1)]);
    nodisp!("Vec<u8>", vec![vec![], vec![0u8], vec![0, 0], vec![1]]);
    nodisp!("Duration", vec![Duration::ZERO, Duration::from_nanos(1), Duration::from_secs(1), Duration::MAX]);
    nodisp!("unit", vec![()]);
    let vals = [9i64, 4, 1, -5];
    all(cx, &Tb { n: 4, at: Box::new(move |i| Odd(vals[i])), name: "Odd (no Clone)".into(), k: serial() }, dbg);
    // references
    let words = ["b".to_string(), "a".to_string(), "c".to_string()];
    go!("&String", words.iter().collect());
    // random tables out of dictionary and random values
    let dict = cx.dict.clone();
    let n = if cx.miri() { 1 } else { cx.n(40, 1500) };
    for k in 0..n {
        let mut r = Rng::new(vh::rng::mix(cx.a.seed) ^ k);
        let mut v: Vec<i64> = (0..5).map(|_| match r.below(4) {
            0 => *r.pick(&dict) as i64,
            1 => -(*r.pick(&dict) as i64).saturating_abs(),
            2 => r.range(-20, 20),
            _ => r.next() as i64,
        }).collect();
        // neighbours
        let x = v[0].saturating_add(1);
        v.push(x);
        match k % 4 {
            0 => go!(&format!("random i64 {k}"), v),
            1 => go!(&format!("random i32 {k}"), v.iter().map(|x| *x as i32).collect()),
            2 => go!(&format!("random u64 {k}"), v.iter().map(|x| *x as u64).collect()),
            _ => go!(&format!("random u8 {k}"), v.iter().map(|x| *x as u8).collect()),
        }
    }
}

// ------------------------------------------------------------------ exact rationals, odd number types
#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
struct Rat(i128, i128);
fn gcd(a: i128, b: i128) -> i128 { if b == 0 { a.abs() } else { gcd(b, a % b) } }
fn rat(a: i128, b: i128) -> Rat {
    let g = gcd(a, b).max(1) * b.signum();
    Rat(a / g, b / g)
}
impl Ord for Rat {
    fn cmp(&self, o: &Rat) -> Ordering { (self.0 * o.1).cmp(&(o.0 * self.1)) }
}
impl PartialOrd for Rat {
    fn partial_cmp(&self, o: &Rat) -> Option<Ordering> { Some(self.cmp(o)) }
}
impl Display for Rat {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { write!(f, "{}/{}", self.0, self.1) }
}
macro_rules! rops { ($($tr:ident $f:ident $tra:ident $fa:ident |$a:ident,$b:ident| $e:expr);*) => { $(
    impl $tr for Rat { type Output = Rat; fn $f(self, o: Rat) -> Rat { let ($a, $b) = (self, o); $e } }
    impl $tra for Rat { fn $fa(&mut self, o: Rat) { *self = (*self).$f(o) } }
)* } }
rops!(Add add AddAssign add_assign |a, b| rat(a.0 * b.1 + b.0 * a.1, a.1 * b.1);
      Sub sub SubAssign sub_assign |a, b| rat(a.0 * b.1 - b.0 * a.1, a.1 * b.1);
      Mul mul MulAssign mul_assign |a, b| rat(a.0 * b.0, a.1 * b.1);
      Div div DivAssign div_assign |a, b| rat(a.0 * b.1, a.1 * b.0));
impl Neg for Rat { type Output = Rat; fn neg(self) -> Rat { Rat(-self.0, self.1) } }

/// Records the operations applied, in order and with operand positions: (x op y) is not
/// (y op x), and nothing commutes. Ordered by `key`, which the operations move.
#[derive(Clone, PartialEq, Eq, Hash, Debug, PartialOrd, Ord)]
struct Log { key: i64, text: String }
fn log(key: i64) -> Log { Log { key, text: format!("{key}") } }
macro_rules! lops { ($($tr:ident $f:ident $tra:ident $fa:ident $c:expr, |$a:ident,$b:ident| $e:expr);*) => { $(
    impl $tr for Log { type Output = Log; fn $f(self, o: Log) -> Log { let ($a, $b) = (self.key, o.key); Log { key: $e, text: format!("({}{}{})", self.text, $c, o.text) } } }
    impl $tr<i8> for Log { type Output = Log; fn $f(self, o: i8) -> Log { let ($a, $b) = (self.key, o as i64); Log { key: $e, text: format!("({}{}{}i8)", self.text, $c, o) } } }
    impl $tra for Log { fn $fa(&mut self, o: Log) { *self = self.clone().$f(o) } }
    impl $tra<i8> for Log { fn $fa(&mut self, o: i8) { *self = self.clone().$f(o) } }
)* } }
lops!(Add add AddAssign add_assign '+', |a, b| a.wrapping_add(b); Sub sub SubAssign sub_assign '-', |a, b| a.wrapping_sub(b);
      Mul mul MulAssign mul_assign '*', |a, b| a.wrapping_mul(b); Div div DivAssign div_assign '/', |a, b| a.wrapping_div(if b == 0 { 1 } else { b }));

type Four<T> = Option<(T, bool, T, bool)>;
fn four<T: Ord + Clone>(i: &Interval<T>) -> Four<T> {
    i.bounds().map(|(l, u)| (l.val().clone(), l.is_closed(), u.val().clone(), u.is_closed()))
}
/// Expected result of applying f to both bounds.
fn image<T: Ord>(i: Four<T>, f: impl Fn(T) -> T) -> Four<T> {
    let (l, lc, u, uc) = i?;
    let (l, u) = (f(l), f(u));
    match l.cmp(&u) {
        Less => Some((l, lc, u, uc)),
        Greater => Some((u, uc, l, lc)),
        Equal => if lc && uc { Some((l, true, u, true)) } else { None },
    }
}

fn gen_four<T: Ord + Clone>(r: &mut Rng, mut v: impl FnMut(&mut Rng) -> T) -> Four<T> {
    if r.chance(1, 15) { return None }
    let (a, b) = (v(r), v(r));
    let (a, b) = if a <= b { (a, b) } else { (b, a) };
    if a == b || r.chance(1, 12) {
        return Some((a.clone(), true, a, true));
    }
    Some((a, r.chance(1, 2), b, r.chance(1, 2)))
}
fn mk<T: Ord>(f: Four<T>) -> Interval<T> {
    match f {
        None => Interval::empty(),
        Some((l, lc, u, uc)) => Interval::new(l, lc, u, uc),
    }
}

/// Model-independent: the interval is well formed and indistinguishable from one built
/// from the bounds it reports.
fn canonical<T: Ord + Clone + Hash + Debug>(i: &Interval<T>, what: &str) {
    match four(i) {
        None => {
            let e = Interval::empty();
            ck!(I10, i.is_empty() && *i == e && hash(i) == hash(&e), "after {what}: {i:?} has no bounds but is not like the empty interval");
        }
        Some((l, lc, u, uc)) => {
            let valid = l < u || l == u && lc && uc;
            ck!(I10, valid, "after {what}: {i:?} is neither empty nor well formed");
            if let Ok(f) = quiet(|| Interval::new(l.clone(), lc, u.clone(), uc)) {
                ck!(I10, !i.is_empty() && *i == f && !(*i != f) && hash(i) == hash(&f) && format!("{i:?}") == format!("{f:?}"),
                    "after {what}: {i:?} differs from {f:?} built from its own bounds");
            }
        }
    }
}

fn op_check<T: Ord + Clone + Hash + Debug>(what: &str, src: &Four<T>, got: Interval<T>, want: Four<T>) {
    let g = four(&got);
    ck!(I09, g == want, "{src:?} {what} is {g:?}, expected {want:?}");
    ck!(I09, got.is_empty() == want.is_none(), "{src:?} {what}: is_empty() is {}", got.is_empty());
    canonical(&got, what);
}

macro_rules! arith_ops { ($i:expr, $c:expr, $clone:expr, [$($name:expr, $o:tt, $oa:tt);*]) => {{
    let f = $i;
    let c = $c;
    $(
        op($name, 0, 0, 0, I09);
        let want = image(f.clone(), |x| x $o c.clone());
        op_check(&format!("{} {c:?}", stringify!($o)), &f, mk(f.clone()) $o c.clone(), want.clone());
        let mut x = mk(f.clone());
        x $oa c.clone();
        op_check(&format!("{} {c:?}", stringify!($oa)), &f, x, want);
    )*
}} }

fn arithmetic(cx: &mut Ctx, cases: u64) {
    let dict = cx.dict.clone();
    for idx in 0..cases {
        cx.case("exact arithmetic", idx, |r| {
            let q = |r: &mut Rng| rat(r.range(-12, 12) as i128, r.range(1, 5) as i128);
            for _ in 0..4 {
                let f = gen_four(r, q);
                let mut c = q(r);
                if c.0 == 0 { c = rat(-1, 2) }
                retrace();
                mon::note(format!("{f:?} with {c:?}"));
                arith_ops!(f, c, true, ["add", +, +=; "sub", -, -=; "mul", *, *=; "div", /, /=]);
                op("neg", 0, 0, 0, I09);
                op_check("negated", &f, -mk(f), image(f, |x| -x));
                // zero: only the form of the result is prescribed
                op("mul by zero", 0, 0, 0, I09);
                canonical(&(mk(f) * rat(0, 1)), "multiplication by zero");
                let mut z = mk(f);
                z *= rat(0, 1);
                canonical(&z, "multiplication by zero");
                // image of the point set, point by point
                let i = mk(f);
                for _ in 0..12 {
                    let p = match (r.below(3), f) { (0, Some((l, ..))) => l, (1, Some((_, _, u, _))) => u, _ => q(r) };
                    let inside = match f { None => false, Some((l, lc, u, uc)) => (l < p || l == p && lc) && (p < u || p == u && uc) };
                    let got = ((i + c).contains_val(&(p + c)), (i - c).contains_val(&(p - c)), (i * c).contains_val(&(p * c)), (i / c).contains_val(&(p / c)), (-i).contains_val(&-p));
                    ck!(I09, got == (inside, inside, inside, inside, inside), "point {p:?} of {f:?}, c = {c:?}: images contained in the image (+,-,*,/,neg): {got:?}, expected {inside}");
                }
                state(h(&[vh::rng::hash_str(&format!("{f:?}{c:?}"))]));
            }
        });
        cx.case("integer arithmetic", idx, |r| {
            macro_rules! int { ($t:ty, $w:ty) => {{
                let (min, max) = (<$t>::MIN as $w, <$t>::MAX as $w);
                let v = |r: &mut Rng| -> $t { match r.below(5) {
                    0 => <$t>::MIN.wrapping_add(r.below(3) as $t),
                    1 => <$t>::MAX.wrapping_sub(r.below(3) as $t),
                    2 => *r.pick(&dict) as $t,
                    3 => (r.below(40) as $t).wrapping_sub(if <$t>::MIN == 0 { 0 } else { 20 }),
                    _ => r.next() as $t,
                } };
                let f: Four<$t> = gen_four(r, v);
                let c0 = if r.chance(1, 2) { v(r) } else { (r.below(9) as $t).wrapping_sub(if <$t>::MIN == 0 { 0 } else { 4 }) };
                retrace();
                mon::note(format!("{} {f:?} with {c0}", stringify!($t)));
                let fits = |g: &dyn Fn($w) -> $w| f.map_or(true, |(l, _, u, _)| { let (a, b) = (g(l as $w), g(u as $w)); a >= min && a <= max && b >= min && b <= max });
                let c = c0 as $w;
                if fits(&|x| x + c) { arith_ops!(f, c0, true, ["int add", +, +=]) }
                if fits(&|x| x - c) { arith_ops!(f, c0, true, ["int sub", -, -=]) }
                if c != 0 && fits(&|x| x.checked_mul(c).unwrap_or(max + 1)) { arith_ops!(f, c0, true, ["int mul", *, *=]) }
                if c != 0 && fits(&|x| x / c) { arith_ops!(f, c0, true, ["int div", /, /=]) }
                if f.is_none() { arith_ops!(f, c0, true, ["empty", +, +=; "empty", -, -=; "empty", *, *=]) }
                state(h(&[vh::rng::hash_str(&format!("{f:?}{c:?}")), 3]));
            }} }
            macro_rules! neg { ($t:ty) => {{
                let v = |r: &mut Rng| -> $t { match r.below(3) { 0 => <$t>::MIN + 1 + r.below(2) as $t, 1 => <$t>::MAX - r.below(2) as $t, _ => (r.next() as $t).max(<$t>::MIN + 1) } };
                let f: Four<$t> = gen_four(r, v);
                op("int neg", 0, 0, 0, I09);
                op_check("negated", &f, -mk(f), image(f, |x| -x));
            }} }
            int!(i32, i128);
            int!(i8, i128);
            int!(u8, i128);
            int!(i64, i128);
            int!(u32, i128);
            int!(u64, i128);
            int!(i16, i128);
            int!(usize, i128);
            neg!(i8);
            neg!(i32);
            neg!(i64);
            neg!(i128);
        });
        cx.case("odd arithmetic", idx, |r| {
            // everything recorded, non-commutative, mixed operand types
            let f = gen_four(r, |r| log(r.range(-9, 9)));
            let c = log(match r.range(-4, 4) { 0 => 5, x => x });
            let d = match r.range(-4, 4) { 0 => 3i8, x => x as i8 };
            retrace();
            mon::note(format!("{f:?} with {c:?} and {d}"));
            arith_ops!(f.clone(), c.clone(), true, ["log add", +, +=; "log sub", -, -=; "log mul", *, *=; "log div", /, /=]);
            op("mixed types", 0, 0, 0, I09);
            op_check(&format!("+ {d}i8"), &f, mk(f.clone()) + d, image(f.clone(), |x| x + d));
            op_check(&format!("- {d}i8"), &f, mk(f.clone()) - d, image(f.clone(), |x| x - d));
            op_check(&format!("* {d}i8"), &f, mk(f.clone()) * d, image(f.clone(), |x| x * d));
            op_check(&format!("/ {d}i8"), &f, mk(f.clone()) / d, image(f.clone(), |x| x / d));
            // wrapping numbers: the order may be reversed by adding
            let f: Four<Wrapping<u8>> = gen_four(r, |r| Wrapping(r.next() as u8));
            let c = Wrapping(r.next() as u8 | 1);
            arith_ops!(f, c, true, ["wrapping add", +, +=; "wrapping sub", -, -=; "wrapping mul", *, *=; "wrapping div", /, /=]);
            op_check("negated", &f, -mk(f), image(f, |x| -x));
            // strings: only + exists
            let f: Four<String> = gen_four(r, |r| ["", "a", "ab", "b", "ba"][r.us(5)].to_string());
            let s = ["", "x", "a"][r.us(3)];
            op("string add", 0, 0, 0, I09);
            op_check(&format!("+ {s:?}"), &f, mk(f.clone()) + s, image(f.clone(), |x| x + s));
            // durations and times
            let f: Four<Duration> = gen_four(r, |r| Duration::from_nanos(r.below(50)));
            let k = 1 + r.below(5) as u32;
            op_check(&format!("* {k}"), &f, mk(f) * k, image(f, |x| x * k));
            op_check(&format!("/ {k}"), &f, mk(f) / k, image(f, |x| x / k));
            let e = Duration::from_nanos(r.below(9));
            arith_ops!(f, e, true, ["duration add", +, +=]);
            let f: Four<SystemTime> = gen_four(r, |r| SystemTime::UNIX_EPOCH + Duration::from_secs(r.below(90)));
            op_check("+ duration", &f, mk(f) + e, image(f, |x| x + e));
            op_check("- duration", &f, mk(f) - e, image(f, |x| x - e));
        });
    }
}

/// I14: arithmetic on single bounds.
fn bound_arithmetic(cx: &mut Ctx, cases: u64) {
    for idx in 0..cases {
        cx.case("bound arithmetic", idx, |r| {
            macro_rules! bo { ($v:expr, $c:expr, [$($o:tt $oa:tt),*]) => {{
                let (v, c) = ($v, $c);
                for closed in [true, false] {
                    $(
                        op(concat!("bound ", stringify!($o)), closed as u64, 0, 0, I14);
                        let want = v.clone() $o c.clone();
                        let l = LowerBound::new(v.clone(), closed) $o c.clone();
                        let u = UpperBound::new(v.clone(), closed) $o c.clone();
                        ck!(I14, *l.val() == want && l.is_closed() == closed, "lower bound ({v:?},{closed}) {} {c:?} is ({:?},{}), expected {want:?}", stringify!($o), l.val(), l.is_closed());
                        ck!(I14, *u.val() == want && u.is_closed() == closed, "upper bound ({v:?},{closed}) {} {c:?} is ({:?},{}), expected {want:?}", stringify!($o), u.val(), u.is_closed());
                        let mut l = LowerBound::new(v.clone(), closed);
                        l $oa c.clone();
                        let mut u = UpperBound::new(v.clone(), closed);
                        u $oa c.clone();
                        ck!(I14, *l.val() == want && l.is_closed() == closed, "lower bound ({v:?},{closed}) {} {c:?} is ({:?},{}), expected {want:?}", stringify!($oa), l.val(), l.is_closed());
                        ck!(I14, *u.val() == want && u.is_closed() == closed, "upper bound ({v:?},{closed}) {} {c:?} is ({:?},{}), expected {want:?}", stringify!($oa), u.val(), u.is_closed());
                        state(h(&[vh::rng::hash_str(&format!("{want:?}")), closed as u64]));
                    )*
                }
            }} }
            let nz = |r: &mut Rng, k: i64| match r.range(-k, k) { 0 => k + 1, x => x };
            bo!(log(r.range(-99, 99)), log(nz(r, 9)), [+ +=, - -=, * *=, / /=]);
            bo!(log(r.range(-99, 99)), nz(r, 9) as i8, [+ +=, - -=, * *=, / /=]);
            bo!(r.range(-1 << 30, 1 << 30), nz(r, 1 << 30), [+ +=, - -=, * *=, / /=]);
            bo!(r.range(-11, 11) as i8, nz(r, 10) as i8, [+ +=, - -=, * *=, / /=]);
            bo!(rat(r.range(-9, 9) as i128, 1 + r.below(5) as i128), rat(nz(r, 9) as i128, 1 + r.below(5) as i128), [+ +=, - -=, * *=, / /=]);
            bo!(Wrapping(r.next() as u32), Wrapping(r.next() as u32 | 1), [+ +=, - -=, * *=, / /=]);
            bo!(format!("s{}", r.below(9)), ["", "x"][r.us(2)], [+ +=]);
            bo!(Duration::from_nanos(r.below(99)), 1 + r.below(9) as u32, [* *=, / /=]);
        });
    }
}

/// I10 (and every operation's own property): long histories of mixed operations.
fn histories(cx: &mut Ctx, cases: u64, steps: usize) {
    for idx in 0..cases {
        cx.case("history", idx, |r| {
            let wide = r.range(3, 60);
            let v = move |r: &mut Rng| r.range(-wide, wide);
            let mut m: Four<i64> = gen_four(r, v);
            let mut i = mk(m);
            for _ in 0..steps {
                let o = gen_four(r, v);
                let j = mk(o);
                let before = m;
                // on the integers used here the dense line is enough: compare through doubled positions
                let key = |f: &Four<i64>| f.map(|(l, lc, u, uc)| (2 * l + !lc as i64, 2 * u - !uc as i64));
                let unkey = |k: Option<(i64, i64)>| -> Four<i64> {
                    let (a, b) = k?;
                    Some((a.div_euclid(2), a.rem_euclid(2) == 0, (b + 1).div_euclid(2), b.rem_euclid(2) == 0))
                };
                let what;
                let tags: Tags;
                match r.below(12) {
                    0 | 1 => {
                        what = "intersection";
                        tags = I04;
                        op(what, 0, 0, 0, tags);
                        m = unkey(match (key(&m), key(&o)) { (Some(a), Some(b)) if a.0.max(b.0) <= a.1.min(b.1) => Some((a.0.max(b.0), a.1.min(b.1))), _ => None });
                        if r.chance(1, 2) { i.intersection(j) } else { i = i.into_intersection(j) }
                    }
                    2 | 3 | 4 => {
                        what = "merge";
                        tags = I05;
                        op(what, 0, 0, 0, tags);
                        let ok = match (key(&m), key(&o)) { (Some(a), Some(b)) => a.0.max(b.0) <= a.1.min(b.1) + 1, _ => true };
                        if ok {
                            m = unkey(match (key(&m), key(&o)) { (None, x) | (x, None) => x, (Some(a), Some(b)) => Some((a.0.min(b.0), a.1.max(b.1))) });
                        }
                        if r.chance(1, 2) {
                            let e = i.merge(j);
                            ck!(I05, e.is_ok() == ok, "merging {before:?} with {o:?}: success {}", e.is_ok());
                            if let Err(e) = e { ck!(I05, four(&e) == o, "merge returned {:?} for {o:?}", four(&e)); }
                        } else {
                            match i.into_merged(j) {
                                Ok(x) => { ck!(I05, ok, "merged {before:?} with {o:?} over a gap"); i = x }
                                Err((x, y)) => {
                                    ck!(I05, !ok && four(&y) == o, "into_merged of {before:?} with {o:?} failed, returning {:?}", four(&y));
                                    i = x
                                }
                            }
                        }
                    }
                    5 | 6 => {
                        what = "span";
                        tags = I06;
                        op(what, 0, 0, 0, tags);
                        m = unkey(match (key(&m), key(&o)) { (None, x) | (x, None) => x, (Some(a), Some(b)) => Some((a.0.min(b.0), a.1.max(b.1))) });
                        if r.chance(1, 2) { i.span(j) } else { i = i.into_span(j) }
                    }
                    7 => {
                        what = "addition";
                        tags = I09;
                        op(what, 0, 0, 0, tags);
                        let c = r.range(-5, 5);
                        m = image(m, |x| x + c);
                        if r.chance(1, 2) { i = i + c } else { i += c }
                    }
                    8 => {
                        what = "subtraction";
                        tags = I09;
                        op(what, 0, 0, 0, tags);
                        let c = r.range(-5, 5);
                        m = image(m, |x| x - c);
                        if r.chance(1, 2) { i = i - c } else { i -= c }
                    }
                    9 => {
                        what = "multiplication";
                        tags = I09;
                        op(what, 0, 0, 0, tags);
                        let c = *r.pick(&[-3i64, -2, -1, 1, 2, 3]);
                        m = image(m, |x| x * c);
                        if r.chance(1, 2) { i = i * c } else { i *= c }
                    }
                    10 => {
                        what = "division";
                        tags = I09;
                        op(what, 0, 0, 0, tags);
                        let c = *r.pick(&[-3i64, -2, -1, 1, 2, 3, 7]);
                        m = image(m, |x| x / c);
                        if r.chance(1, 2) { i = i / c } else { i /= c }
                    }
                    _ => {
                        what = "negation";
                        tags = I09;
                        op(what, 0, 0, 0, tags);
                        m = image(m, |x| -x);
                        i = -i;
                    }
                }
                let g = four(&i);
                if !ck!(tags, g == m, "{what} of {before:?} with {o:?} gives {g:?}, expected {m:?}") { m = g }
                canonical(&i, what);
                // the same interval reached directly is indistinguishable
                op("canonical form", 0, 0, 0, I10);
                let f = mk(m);
                ck!(I10, i == f && !(i != f) && hash(&i) == hash(&f) && format!("{i:?}") == format!("{f:?}") && i.clone() == i, "{i:?} after {what} differs from {f:?} built directly");
                ck!(&["I11", "I10"], i.to_string() == f.to_string(), "{i} after {what} displays unlike {f} built directly");
                let k = gen_four(r, v);
                if k != m {
                    ck!(I10, i != mk(k), "{i:?} equals {:?}", mk(k));
                }
                let mut z = mk(k);
                z.clone_from(&i);
                ck!(I10, four(&z) == g && z == i, "clone_from {i:?} over {:?} gives {z:?}", mk(k));
                // stay in range; restart from a fresh interval now and then
                if m.is_none() && r.chance(2, 3) || m.is_some_and(|(l, _, u, _)| l.abs() > 1 << 40 || u.abs() > 1 << 40) {
                    m = gen_four(r, v);
                    i = mk(m);
                }
                state(h(&[vh::rng::hash_str(&format!("{m:?}"))]));
            }
        });
    }
}

/// Containment and merging related through random triples (set laws over real values).
fn laws(cx: &mut Ctx, cases: u64) {
    let dict = cx.dict.clone();
    for idx in 0..cases {
        cx.case("laws", idx, |r| {
            let v = |r: &mut Rng| if r.chance(1, 3) { *r.pick(&dict) as i64 } else { r.range(-6, 6) };
            let (fa, fb) = (gen_four(r, v), gen_four(r, v));
            let (a, b) = (mk(fa), mk(fb));
            let inside = |f: &Four<i64>, p: i64| match f { None => false, Some((l, lc, u, uc)) => (*l < p || *l == p && *lc) && (p < *u || p == *u && *uc) };
            for _ in 0..8 {
                let p = match (r.below(5), fa, fb) {
                    (0, Some((l, ..)), _) => l,
                    (1, Some((_, _, u, _)), _) => u,
                    (2, _, Some((l, ..))) => l,
                    (3, _, Some((_, _, u, _))) => u.saturating_add(r.range(-1, 1)),
                    _ => v(r),
                };
                op("contains_val", 0, 0, 0, I02);
                ck!(I02, a.contains_val(&p) == inside(&fa, p), "contains_val({p}) is {} for {fa:?}", a.contains_val(&p));
                op("intersect", 0, 0, 0, I04);
                let x = a.into_intersection(b);
                ck!(I04, inside(&four(&x), p) == (inside(&fa, p) && inside(&fb, p)), "point {p}: intersection of {fa:?} and {fb:?} is {:?}", four(&x));
                op("span", 0, 0, 0, I06);
                let s = a.into_span(b);
                ck!(I06, inside(&four(&s), p) || !(inside(&fa, p) || inside(&fb, p)), "point {p}: span of {fa:?} and {fb:?} is {:?}", four(&s));
                op("merge", 0, 0, 0, I05);
                if let Ok(s) = a.into_merged(b) {
                    ck!(I05, inside(&four(&s), p) == (inside(&fa, p) || inside(&fb, p)), "point {p}: merge of {fa:?} and {fb:?} is {:?}", four(&s));
                }
            }
            op("contains_interval", 0, 0, 0, I03);
            ck!(I03, a.contains_interval(&a) && a.contains_interval(&Interval::empty()), "{fa:?} does not contain itself or the empty interval");
            ck!(I03, (a.contains_interval(&b) && b.contains_interval(&a)) == (fa == fb), "mutual containment of {fa:?} and {fb:?}");
            let x = a.into_intersection(b);
            let s = a.into_span(b);
            ck!(I03, a.contains_interval(&x) && b.contains_interval(&x) && s.contains_interval(&a) && s.contains_interval(&b), "containment of intersection/span of {fa:?} and {fb:?}");
            ck!(I03, a.contains_interval(&b) == (x == b), "{fa:?} contains {fb:?}: {}", a.contains_interval(&b));
            op("compare", 0, 0, 0, I07);
            ck!(I07, (a < b) == (b > a) && (a <= b) == (b >= a) && (!(a < b) || a <= b), "asymmetric comparison of {fa:?} and {fb:?}");
            state(h(&[vh::rng::hash_str(&format!("{fa:?}{fb:?}"))]));
        });
    }
}

// ------------------------------------------------------------------ I15: panics in value code
/// Value whose comparison, cloning or arithmetic panics when a fuse burns down.
#[derive(Debug, Hash)]
struct Fz(i64);
thread_local! {
    static FUSES: [std::cell::Cell<u64>; 3] = const { [const { std::cell::Cell::new(0) }; 3] };
}
fn burn(k: usize) {
    let fire = FUSES.with(|f| {
        let v = f[k].get();
        f[k].set(v.saturating_sub(1));
        v == 1
    });
    if fire { std::panic::panic_any(mon::Injected) }
}
/// Sets the fuses; true if one had burned down (or none was set).
fn light(v: [u64; 3]) -> bool {
    FUSES.with(|f| {
        let burned = f.iter().all(|c| c.get() == 0);
        for (c, x) in f.iter().zip(v) { c.set(x) }
        burned
    })
}
impl PartialEq for Fz { fn eq(&self, o: &Fz) -> bool { burn(0); self.0 == o.0 } }
impl Eq for Fz {}
impl Ord for Fz { fn cmp(&self, o: &Fz) -> Ordering { burn(0); self.0.cmp(&o.0) } }
impl PartialOrd for Fz { fn partial_cmp(&self, o: &Fz) -> Option<Ordering> { burn(0); self.0.partial_cmp(&o.0) } }
impl Clone for Fz { fn clone(&self) -> Fz { burn(1); Fz(self.0) } }
macro_rules! fops { ($($tr:ident $f:ident $tra:ident $fa:ident $o:tt);*) => { $(
    impl $tr for Fz { type Output = Fz; fn $f(self, o: Fz) -> Fz { burn(2); Fz(self.0 $o o.0) } }
    impl $tra for Fz { fn $fa(&mut self, o: Fz) { burn(2); self.0 = self.0 $o o.0 } }
)* } }
fops!(Add add AddAssign add_assign +; Sub sub SubAssign sub_assign -; Mul mul MulAssign mul_assign *; Div div DivAssign div_assign /);

type Ends = Option<(i64, bool, i64, bool)>;
fn ends(i: &Interval<Fz>) -> Ends {
    i.bounds().map(|(l, u)| (l.val().0, l.is_closed(), u.val().0, u.is_closed()))
}
/// Valid, and usable like any other interval.
fn still_valid<T: Ord + Clone + Debug>(i: &Interval<T>, what: &str, f: impl Fn(&Interval<T>) -> Option<(T, bool, T, bool)>) {
    op("use after panic", 0, 0, 0, I15);
    match f(i) {
        None => { ck!(I15, i.is_empty(), "{what}: the interval is left without bounds but not empty"); }
        Some((l, lc, u, uc)) => {
            if !ck!(I15, !i.is_empty() && (l < u || l == u && lc && uc), "{what}: the interval is left as {l:?} (closed {lc}), {u:?} (closed {uc}), which is neither empty nor well formed") { return }
            // whatever it is, it behaves like the same interval built directly
            let fresh = Interval::new(l.clone(), lc, u.clone(), uc);
            ck!(I15, *i == fresh && i.contains_interval(&fresh) && i.intersects(&fresh) && i.clone().into_intersection(fresh.clone()) == fresh
                && i.clone().into_span(fresh.clone()) == fresh && i.clone().into_merged(fresh.clone()).ok() == Some(fresh), "{what}: the interval left does not behave like its own bounds");
        }
    }
}

fn panics(cx: &mut Ctx) {
    let vals = [-4i64, 1, 2, 7];
    let t = Tb { n: vals.len(), at: Box::new(move |i| Fz(vals[i])), name: "panicking values".into(), k: 0 };
    let runs = t.runs();
    for (idx, ra) in runs.iter().enumerate() {
        if cx.miri() && idx % 9 != 0 { continue }
        cx.case("panics", idx as u64, |_| {
            for rb in &runs {
                for kind in 0..3 {
                    for fuse in 0..2 {
                        for k in 1..30u64 {
                            let (mut a, b) = (t.build(*ra, 0), t.build(*rb, 0));
                            let (ea, eb) = (ends(&a), ends(&b));
                            let name = ["merge, panicking", "intersection, panicking", "span, panicking"][kind];
                            op(name, fuse as u64, k, 0, I15);
                            let mut set = [0; 3];
                            set[fuse] = k;
                            light(set);
                            let r = quiet(|| match kind {
                                0 => drop(a.merge(b)),
                                1 => a.intersection(b),
                                _ => a.span(b),
                            });
                            let burned = light([0; 3]);
                            if !burned || r.is_ok() { break }
                            let what = format!("{name} at {} {k} ({} with {})", ["comparison", "clone"][fuse], t.s(*ra), t.s(*rb));
                            ck!(I15, r == Err("injected".into()), "{what}: a different panic came out: {r:?}");
                            still_valid(&a, &what, |i| i.bounds().map(|(l, u)| (Fz(l.val().0), l.is_closed(), Fz(u.val().0), u.is_closed())));
                            if let Some((l, lc, u, uc)) = ends(&a) {
                                let lo = [ea, eb].iter().flatten().any(|e| (e.0, e.1) == (l, lc));
                                let up = [ea, eb].iter().flatten().any(|e| (e.2, e.3) == (u, uc));
                                ck!(I15, lo && up, "{what}: the interval is left as {l} (closed {lc}), {u} (closed {uc}), bounds no operand had");
                            }
                            state(h(&[ra.map_or(0, |r| (r.0 * 1000 + r.1) as u64), rb.map_or(0, |r| (r.0 * 1000 + r.1) as u64), kind as u64 * 100 + fuse as u64 * 50 + k]));
                        }
                    }
                }
            }
            for c in [-9i64, -3, -1, 1, 2, 5, 11] {
                for kind in 0..4 {
                    for fuse in 0..3 {
                        for k in 1..30u64 {
                            let mut a = t.build(*ra, 1);
                            let ea = ends(&a);
                            let name = ["+=, panicking", "-=, panicking", "*=, panicking", "/=, panicking"][kind];
                            op(name, fuse as u64, k, 0, I15);
                            let v = Fz(c);
                            let mut set = [0; 3];
                            set[fuse] = k;
                            light(set);
                            let r = quiet(|| match kind { 0 => a += v, 1 => a -= v, 2 => a *= v, _ => a /= v });
                            let burned = light([0; 3]);
                            if !burned || r.is_ok() { break }
                            let what = format!("{name} {c} at {} {k} ({})", ["comparison", "clone", "calculation"][fuse], t.s(*ra));
                            still_valid(&a, &what, |i| i.bounds().map(|(l, u)| (Fz(l.val().0), l.is_closed(), Fz(u.val().0), u.is_closed())));
                            let full = image(ea, |x| match kind { 0 => x + c, 1 => x - c, 2 => x * c, _ => x / c });
                            let now = ends(&a);
                            ck!(I15, now.is_none() || now == ea || now == full, "{what}: the interval is left as {now:?}, neither as it was ({ea:?}) nor as asked ({full:?})");
                            state(h(&[ra.map_or(0, |r| (r.0 * 1000 + r.1) as u64), c as u64, 1000 + kind as u64 * 100 + fuse as u64 * 50 + k]));
                        }
                    }
                }
            }
        });
    }
    // real arithmetic: overflow and division by zero (overflow panics only where it is checked)
    let n = if cx.miri() { 3 } else { cx.n(4_000, 100_000) };
    for idx in 0..n {
        cx.case("overflow", idx, |r| {
            macro_rules! over { ($t:ty) => {{
                let f = gen_four(r, |r| match r.below(3) { 0 => <$t>::MAX - r.below(4) as $t, 1 => <$t>::MIN + r.below(4) as $t, _ => r.next() as $t });
                for kind in 0..4 {
                    let c = match r.below(6) { 0 => 0, 1 => <$t>::MAX, 2 => <$t>::MIN, 3 => r.below(5) as $t, _ => r.next() as $t };
                    let mut i = mk(f);
                    op("overflowing arithmetic", kind, c as u64, 0, I15);
                    let res = quiet(|| match kind { 0 => i += c, 1 => i -= c, 2 => i *= c, _ => i /= c });
                    if res.is_err() {
                        let what = format!("{} {c} panicking on {f:?}", ["+=", "-=", "*=", "/="][kind as usize]);
                        still_valid(&i, &what, four);
                        ck!(I15, i.is_empty() || four(&i) == f, "{what}: the interval is left as {:?}", four(&i));
                        state(h(&[vh::rng::hash_str(&what)]));
                    }
                }
            }} }
            over!(i8);
            over!(u8);
            over!(i32);
            over!(u64);
            over!(i64);
        });
    }
}

fn main() {
    let a = vh::args::parse();
    let cx = &mut Ctx::new(a);
    let m = cx.miri();
    let q = |cx: &Ctx, n: u64, t: u64| if m { 2 } else { cx.n(n, t) };
    if cx.is("I15") {
        panics(cx);
        cx.finish();
    }
    tables(cx);
    match cx.a.prop.as_str() {
        "I09" => {
            arithmetic(cx, q(cx, 20_000, 600_000));
            histories(cx, q(cx, 6_000, 100_000), 60);
        }
        "I12" | "I13" => {}
        "I14" => bound_arithmetic(cx, q(cx, 20_000, 400_000)),
        "I10" => {
            histories(cx, q(cx, 16_000, 400_000), 60);
            arithmetic(cx, q(cx, 3_000, 60_000));
        }
        "I01" | "I08" => {}
        "I11" => {
            histories(cx, q(cx, 6_000, 100_000), 60);
            laws(cx, q(cx, 60_000, 1_000_000));
            display_long(cx, q(cx, 1_500, 20_000));
        }
        _ => {
            histories(cx, q(cx, 6_000, 100_000), 60);
            laws(cx, q(cx, 60_000, 1_000_000));
        }
    }
    count("dictionary entries", cx.dict.len() as u64);
    cx.finish()
}
