//! Disjoint-set monitors: D01-D03, D05, D06 against a naive relabelling model; stack part of D04.
use advanced_collections::disjoint_set::DisjointSet;
use std::collections::{BTreeMap, HashMap};
use vh::ck;
use vh::keys::*;
use vh::mon::{self, count, h, op, quiet, report, retrace, state, Run, Tags};
use vh::rng::Rng;

#[global_allocator]
static A: vh::alloc::Counting = vh::alloc::Counting;

const D1: Tags = &["D01"];
const D2: Tags = &["D02"];
const D3: Tags = &["D03"];
const D4: Tags = &["D04"];
const D5: Tags = &["D05"];
const D6: Tags = &["D06"];

trait ExtRef: Key {
    fn ext_ref<S: Hs>(c: &mut DisjointSet<Self, S>, src: &[Self], kind: u64);
}
macro_rules! ext_ref { ($($t:ty),*) => { $( impl ExtRef for $t {
    fn ext_ref<S: Hs>(c: &mut DisjointSet<Self, S>, src: &[Self], kind: u64) {
        c.extend(feed(src.iter(), src.len(), kind));
    }
} )* } }
macro_rules! ext_own { ($($t:ty),*) => { $( impl ExtRef for $t {
    fn ext_ref<S: Hs>(c: &mut DisjointSet<Self, S>, src: &[Self], kind: u64) {
        c.extend(feed(src.iter().cloned(), src.len(), kind));
    }
} )* } }
ext_ref!(u64, i32, u8, char, (), Coarse);
ext_own!(String, (u8, Option<Box<u64>>));

/// The model: element -> label; union relabels. Nothing clever.
#[derive(Clone, Default, PartialEq, Debug)]
struct P {
    label: BTreeMap<u64, u64>,
    fresh: u64,
}
impl P {
    fn add(&mut self, x: u64) {
        if !self.label.contains_key(&x) {
            self.fresh += 1;
            self.label.insert(x, self.fresh);
        }
    }
    fn union(&mut self, x: u64, y: u64) {
        self.add(x);
        self.add(y);
        let (a, b) = (self.label[&x], self.label[&y]);
        if a != b {
            for l in self.label.values_mut() {
                if *l == b { *l = a }
            }
        }
    }
    fn same(&self, x: u64, y: u64) -> bool {
        match (self.label.get(&x), self.label.get(&y)) {
            (Some(a), Some(b)) => a == b,
            _ => false,
        }
    }
    /// Sorted groups of sorted elements.
    fn groups(&self) -> Vec<Vec<u64>> {
        let mut g: HashMap<u64, Vec<u64>> = HashMap::new();
        for (x, l) in &self.label { g.entry(*l).or_default().push(*x) }
        let mut v: Vec<Vec<u64>> = g.into_values().collect();
        v.sort();
        v
    }
    fn hash(&self) -> u64 {
        // canonical: each element's label replaced by the first element of its group
        let mut first: HashMap<u64, u64> = HashMap::new();
        self.label.iter().fold(9, |a, (x, l)| {
            let f = *first.entry(*l).or_insert(*x);
            h(&[a, *x, f])
        })
    }
}

fn groups<K: Key, S: Hs>(d: &mut DisjointSet<K, S>) -> Vec<Vec<u64>> {
    let mut v: Vec<Vec<u64>> = vec![];
    for g in &mut *d {
        let mut g: Vec<u64> = g.map(|k| k.id()).collect();
        g.sort();
        v.push(g);
    }
    v.sort();
    v
}

/// `ct`: blame for contents, `pt`: blame for the partition.
fn check<K: Key, S: Hs>(d: &mut DisjointSet<K, S>, p: &P, ct: Tags, pt: Tags, what: &str) {
    let n = p.label.len();
    ck!(ct, d.len() == n && d.is_empty() == (n == 0), "after {what}: len {} is_empty {} with {n} elements", d.len(), d.is_empty());
    let ks: Vec<u64> = if n <= 14 { p.label.keys().copied().collect() } else { p.label.keys().copied().step_by(n / 14 + 1).chain(p.label.keys().next_back().copied()).collect() };
    let keys: Vec<K> = ks.iter().map(|k| K::make(*k)).collect();
    for (x, kx) in ks.iter().zip(&keys) {
        ck!(ct, d.contains(kx), "after {what}: element {x} is missing");
        for (y, ky) in ks.iter().zip(&keys) {
            let (got, want) = (d.in_union(kx, ky), p.same(*x, *y));
            ck!(pt, got == want, "after {what}: in_union({x},{y}) is {got}, expected {want}; partition {:?}", show(p));
        }
    }
    for x in [0u64, 1, 2, 9, 300, 1 << 33] {
        let x = K::norm(x);
        if !p.label.contains_key(&x) {
            let k = K::make(x);
            ck!(ct, !d.contains(&k), "after {what}: element {x} was never added but is contained");
            ck!(&["D01", "D02"], !d.in_union(&k, &k), "after {what}: in_union({x},{x}) holds for an unknown element");
            if let Some(y) = keys.first() {
                ck!(&["D01", "D02"], !d.in_union(&k, y) && !d.in_union(y, &k), "after {what}: unknown element {x} is in a union");
            }
        }
    }
    ck!(D2, d.len() == n, "a query changed the number of elements to {}", d.len());
}
fn check_iter<K: Key, S: Hs>(d: &mut DisjointSet<K, S>, p: &P, what: &str) {
    op("iterate", 0, 0, 0, D3);
    let g = groups(d);
    let w = p.groups();
    ck!(D3, g == w, "after {what}: iteration yields {:?}, expected {:?}", &g[..g.len().min(12)], &w[..w.len().min(12)]);
}
/// Iteration through provided iterator methods. The order of groups is free, so the
/// judgement is about which groups appear, how often and how many are left.
fn iterate_via<K: Key, S: Hs>(d: &mut DisjointSet<K, S>, p: &P, how: u64, k: usize) {
    op("iterate through iterator methods", how, k as u64, 0, D3);
    let w = p.groups();
    let total = w.len();
    let ids = |g: &mut dyn Iterator<Item = &K>| -> Vec<u64> { let mut v: Vec<u64> = g.map(|k| k.id()).collect(); v.sort(); v };
    let mut got: Vec<Vec<u64>> = vec![];
    let mut skipped = 0;
    {
        let mut it = (&mut *d).into_iter();
        match how {
            0 => {
                if let Some(mut g) = it.nth(k) { got.push(ids(&mut g)) }
                skipped = k.min(total);
                for mut g in it { got.push(ids(&mut g)) }
            }
            1 => {
                let n = it.count();
                ck!(D3, n == total, "iteration counts {n} groups of {total}");
                return;
            }
            2 => {
                let g = it.last().map(|mut g| ids(&mut g));
                ck!(D3, g.is_some() == (total > 0), "the last group is {g:?} of {total}");
                got.extend(g);
                skipped = total.saturating_sub(1);
            }
            3 => {
                let (lo, hi) = it.size_hint();
                ck!(D3, lo <= total && hi.map_or(true, |h| h >= total), "size_hint {:?} of an iteration over {total} groups", (lo, hi));
                let _ = it.next();
                let left = total.saturating_sub(1);
                let (lo, hi) = it.size_hint();
                ck!(D3, lo <= left && hi.map_or(true, |h| h >= left), "size_hint {:?} of an iteration with {left} groups left", (lo, hi));
                skipped = total.min(1);
                it.for_each(|mut g| got.push(ids(&mut g)));
            }
            4 => {
                skipped = k.min(total);
                for mut g in it.skip(k) { got.push(ids(&mut g)) }
            }
            5 => {
                // skipping inside a group
                for mut g in it {
                    let n = g.len();
                    let first = g.nth(k).map(|x| x.id());
                    let (lo, hi) = g.size_hint();
                    let rest = ids(&mut g);
                    ck!(D3, lo == rest.len() && hi == Some(lo), "size_hint {:?} of a group with {} elements left", (lo, hi), rest.len());
                    ck!(D3, first.is_some() == (k < n) && rest.len() == n.saturating_sub(k + 1), "nth({k}) in a group of {n} elements left {} elements", rest.len());
                }
                return;
            }
            6 => {
                for g in it {
                    // from both ends
                    let (a, b): (Vec<u64>, Vec<u64>) = { let mut g = g; let mut a = vec![]; let mut b = vec![];
                        while let Some(x) = g.next() { a.push(x.id()); match g.next_back() { Some(y) => b.push(y.id()), None => break } } (a, b) };
                    let mut v = [a, b].concat();
                    v.sort();
                    got.push(v);
                }
            }
            _ => {
                let step = k + 1;
                for mut g in it.step_by(step) { got.push(ids(&mut g)) }
                skipped = total - total.div_ceil(step);
            }
        }
    }
    got.sort();
    ck!(D3, got.len() == total - skipped, "iteration (method {how}, {k}) yields {} groups after skipping {skipped} of {total}", got.len());
    ck!(D3, got.windows(2).all(|g| g[0] != g[1]) && got.iter().all(|g| w.contains(g)), "iteration (method {how}, {k}) yields {:?}, groups are {:?}", &got[..got.len().min(12)], &w[..w.len().min(12)]);
}
fn show(p: &P) -> String {
    let g = p.groups();
    if p.label.len() <= 30 { format!("{g:?}") } else { format!("{} groups of {} elements", g.len(), p.label.len()) }
}

/// Rebuild the model from what the structure says, after a mismatch that another property owns.
fn resync<K: Key, S: Hs>(d: &mut DisjointSet<K, S>, p: &mut P) {
    let g = groups(d);
    let mut q = P::default();
    for grp in &g {
        for x in grp { q.union(grp[0], *x) }
    }
    if q.groups() != p.groups() {
        *p = q;
    }
}

struct W<K: Key, S: Hs> {
    d: DisjointSet<K, S>,
    p: P,
    other: Option<(DisjointSet<K, S>, P)>,
    dict: std::rc::Rc<Vec<u64>>,
    keys: u64,
    cap: usize,
}

impl<K: ExtRef, S: Hs> W<K, S> {
    fn new(r: &mut Rng, dict: std::rc::Rc<Vec<u64>>, keys: u64, cap: usize) -> Self {
        let n = r.us(9);
        op("new", n as u64, 0, 0, D5);
        let d = match r.below(5) {
            0 => DisjointSet::new(),
            1 => DisjointSet::default(),
            2 => DisjointSet::with_capacity(n),
            3 => DisjointSet::with_hasher(S::custom(5)),
            _ => DisjointSet::with_capacity_and_hasher(n, S::custom(6)),
        };
        W { d, p: P::default(), other: None, dict, keys, cap }
    }
    fn id(&self, r: &mut Rng) -> u64 {
        K::norm(if r.chance(1, 12) { *r.pick(&self.dict) } else { r.below(self.keys) })
    }
    fn known(&self, r: &mut Rng) -> u64 {
        let n = self.p.label.len();
        if n == 0 { return self.id(r) }
        if n < 64 {
            *self.p.label.keys().nth(r.us(n)).unwrap()
        } else {
            let x = self.id(r);
            self.p.label.range(x..).next().map(|(k, _)| *k).unwrap_or_else(|| *self.p.label.keys().next().unwrap())
        }
    }
    fn size(&self, r: &mut Rng) -> usize {
        if r.chance(1, 6) { (*r.pick(&self.dict) as usize).min(self.cap) } else { r.us(self.cap.min(10) + 1) }
    }
    /// One operation; `look`: query right away (queries compress paths, so histories
    /// with few queries are generated as well).
    fn step(&mut self, r: &mut Rng, only: Option<u64>, look: bool) {
        let k = only.unwrap_or_else(|| r.below(40));
        let (mut ct, mut pt): (Tags, Tags) = (D2, D1);
        let what;
        match k {
            0..=14 => {
                let (x, y) = match r.below(6) {
                    0 => { let x = self.known(r); (x, x) }
                    1 | 2 => (self.known(r), self.known(r)),
                    3 => (self.known(r), self.id(r)),
                    _ => (self.id(r), self.id(r)),
                };
                op("union", x, y, 0, D1);
                self.d.union(K::make(x), K::make(y));
                self.p.union(x, y);
                what = "union";
            }
            15..=17 => {
                let x = if r.chance(1, 2) { self.known(r) } else { self.id(r) };
                op("make_set", x, 0, 0, D2);
                self.d.make_set(K::make(x));
                self.p.add(x);
                what = "make_set";
            }
            18..=20 => {
                let n = self.size(r);
                let kind = r.below(8);
                let ids: Vec<u64> = (0..n).map(|_| if r.chance(1, 3) { self.known(r) } else { self.id(r) }).collect();
                op("extend", n as u64, kind, k % 2, D5);
                let src: Vec<K> = ids.iter().map(|i| K::make(*i)).collect();
                if k % 2 == 0 {
                    self.d.extend(feed(src.into_iter(), n, kind));
                } else {
                    K::ext_ref(&mut self.d, &src, kind);
                }
                for i in ids { self.p.add(i) }
                what = "extend";
                ct = &["D05", "D02"];
                pt = &["D05", "D01", "D02"];
            }
            21 => {
                if !r.chance(1, 4) { return }
                let n = self.size(r);
                let kind = r.below(8);
                op("from_iter", n as u64, kind, 0, D5);
                let ids: Vec<u64> = (0..n).map(|_| self.id(r)).collect();
                let src: Vec<K> = ids.iter().map(|i| K::make(*i)).collect();
                self.d = if r.chance(1, 2) { feed(src.into_iter(), n, kind).collect() } else { feed(src.iter(), n, kind).collect() };
                self.p = P::default();
                for i in ids { self.p.add(i) }
                what = "from_iter";
                ct = &["D05", "D02"];
                pt = &["D05", "D01"];
            }
            22 => {
                if !r.chance(1, 3) { return }
                op("clear", 0, 0, 0, D2);
                self.d.clear();
                self.p = P::default();
                what = "clear";
                pt = &["D02", "D01"];
            }
            23 => {
                let n = self.size(r);
                op("reserve", n as u64, 0, 0, D5);
                self.d.reserve(n);
                what = "reserve";
                ct = &["D05", "D02"];
                pt = &["D05", "D01"];
            }
            24..=26 => {
                op("clone", 0, 0, 0, D5);
                let mut c = self.d.clone();
                let mut q = self.p.clone();
                ct = D5;
                pt = D5;
                what = "changing a clone";
                check(&mut c, &q, D5, D5, "clone");
                if k == 24 {
                    // change the clone, then look at the original
                    for _ in 0..r.us(5) + 1 {
                        let (x, y) = (self.known(r), self.id(r));
                        c.union(K::make(x), K::make(y));
                        q.union(x, y);
                    }
                    check(&mut c, &q, D5, D5, "unions in a clone");
                    if r.chance(1, 4) { c.clear() }
                } else if k == 25 {
                    if r.chance(1, 3) {
                        // clone_from over whatever is there
                        let (mut t, tq) = match self.other.take() {
                            Some(x) if r.chance(1, 2) => x,
                            _ => {
                                let mut t: DisjointSet<K, S> = DisjointSet::with_hasher(S::custom(12));
                                for _ in 0..r.us(6) { t.union(K::make(self.id(r)), K::make(self.id(r))) }
                                (t, q.clone())
                            }
                        };
                        let _ = tq;
                        op("clone_from", 0, 0, 0, D5);
                        t.clone_from(&self.d);
                        check(&mut t, &q, D5, D5, "clone_from");
                        check_iter(&mut t, &q, "clone_from");
                        c = t;
                    }
                    self.other = Some((c, q));
                } else if let Some((c, q)) = self.other.take() {
                    // carry on with an old clone: everything since must not have touched it
                    self.d = c;
                    self.p = q;
                }
            }
            27 | 28 => {
                check_iter(&mut self.d, &self.p, "a history");
                // abandoned iteration
                op("partial iteration", 0, 0, 0, D3);
                let mut it = (&mut self.d).into_iter();
                if let Some(mut g) = it.next() { let _ = g.next(); }
                drop(it);
                let (how, k) = (r.below(8), r.us(5));
                iterate_via(&mut self.d, &self.p, how, k);
                what = "iteration";
                ct = D3;
                pt = D3;
            }
            29..=31 => {
                let (x, y) = (self.id(r), self.known(r));
                op("query", x, y, 0, D1);
                let got = self.d.in_union(&K::make(x), &K::make(y));
                ck!(D1, got == self.p.same(x, y), "in_union({x},{y}) is {got} in {}", show(&self.p));
                ck!(D2, self.d.contains(&K::make(x)) == self.p.label.contains_key(&x), "contains({x}) is wrong");
                what = "a query";
            }
            32 | 33 => {
                // a run of unions in an adverse order
                let n = self.size(r);
                op("union run", n as u64, k, 0, D1);
                let base = self.id(r);
                let xs: Vec<u64> = (0..n as u64).map(|i| K::norm(base.wrapping_add(i))).collect();
                match r.below(4) {
                    0 => for w in xs.windows(2) { self.both(w[0], w[1]) },
                    1 => for w in xs.windows(2).rev() { self.both(w[1], w[0]) },
                    2 => for x in &xs { self.both(*x, xs[0]) },
                    _ => {
                        let mut g = 1;
                        while g < n {
                            for i in (0..n).step_by(2 * g) {
                                if i + g < n { self.both(xs[i + g], xs[i]) }
                            }
                            g *= 2;
                        }
                    }
                }
                what = "a run of unions";
            }
            _ => {
                let (x, y) = (self.known(r), self.known(r));
                op("union", x, y, 1, D1);
                self.both(x, y);
                what = "union";
            }
        }
        if look {
            check(&mut self.d, &self.p, ct, pt, what);
        }
        state(self.p.hash());
    }
    fn both(&mut self, x: u64, y: u64) {
        self.d.union(K::make(x), K::make(y));
        self.p.union(x, y);
    }
}

fn random<K: ExtRef, S: Hs>(run: &mut Run, cases: u64, steps: usize, keys: u64, cap: usize) {
    let phase = format!("random/{}/{}/{keys}/{cap}", K::NAME, S::NAME);
    let dict = std::rc::Rc::new(run.dict.clone());
    let focus: &[u64] = match run.a.prop.as_str() {
        "D02" => &[15, 22, 18, 29],
        "D03" => &[27],
        "D05" => &[18, 21, 23, 24, 25, 26],
        _ => &[0, 32],
    };
    for idx in 0..cases {
        run.case(&phase, idx, |r| {
            let mut w: W<K, S> = W::new(r, dict.clone(), keys, cap);
            check(&mut w.d, &w.p, D5, D5, "creation");
            // how often to look: always, sometimes, only at the end
            let rate = [1, 4, u64::MAX][r.us(3)];
            for i in 0..steps {
                let only = if r.chance(1, 4) { Some(*r.pick(focus)) } else { None };
                w.step(r, only, rate != u64::MAX && i as u64 % rate == 0);
            }
            if r.chance(1, 2) {
                check_iter(&mut w.d, &w.p, "a history");
            }
            check(&mut w.d, &w.p, D2, D1, "a history");
            check_iter(&mut w.d, &w.p, "a history");
            check(&mut w.d, &w.p, D3, D3, "iteration");
            if let Some((mut c, q)) = w.other.take() {
                check(&mut c, &q, D5, D5, "changing the original");
                check_iter(&mut c, &q, "changing the original");
            }
            resync(&mut w.d, &mut w.p);
        });
    }
}

/// Every sequence of unions over n elements up to the given length.
fn exhaustive<S: Hs>(run: &mut Run, n: u64, len: u32) {
    let phase = format!("all-unions/{}/{n}/{len}", S::NAME);
    let base = n * n;
    let total = base.pow(len);
    let chunk = (total / 256).max(1);
    for idx in 0..total.div_ceil(chunk) {
        run.case(&phase, idx, |_| {
            for code in idx * chunk..((idx + 1) * chunk).min(total) {
                retrace();
                let mut c = code;
                let mut d: DisjointSet<u64, S> = DisjointSet::with_hasher(S::custom(1));
                let mut p = P::default();
                for _ in 0..len {
                    let (x, y) = (c % base / n, c % base % n);
                    c /= base;
                    op("union", x, y, 0, D1);
                    d.union(x, y);
                    p.union(x, y);
                }
                if code % 2 == 0 {
                    check_iter(&mut d, &p, "unions");
                }
                for x in 0..=n {
                    for y in 0..=n {
                        let got = d.in_union(&x, &y);
                        ck!(D1, got == p.same(x, y), "in_union({x},{y}) is {got} in {}", show(&p));
                    }
                }
                ck!(D2, d.len() == p.label.len(), "len {} of {}", d.len(), show(&p));
                check_iter(&mut d, &p, "unions and queries");
                state(p.hash());
            }
        });
    }
}

/// Short programs that look only where they say so: an answer remembered from before a
/// union, clear, clone or iteration would show, because nothing in between overwrites it.
fn episode<K: Key, S: Hs>(ops: &[(u64, u64, u64)]) -> Result<u64, (usize, Tags, String)> {
    let mk = K::make;
    let mut d: DisjointSet<K, S> = DisjointSet::with_hasher(S::custom(3));
    let mut p = P::default();
    let mut o = (d.clone(), p.clone());
    for (i, &(k, x, y)) in ops.iter().enumerate() {
        match k {
            0..=3 => {
                op("union", x, y, 2, D1);
                d.union(mk(x), mk(y));
                p.union(x, y);
            }
            4 | 5 => {
                op("make_set", x, 2, 0, D2);
                d.make_set(mk(x));
                p.add(x);
            }
            6..=11 => {
                op("query", x, y, 2, D1);
                let got = d.in_union(&mk(x), &mk(y));
                if got != p.same(x, y) { return Err((i, D1, format!("in_union({x},{y}) is {got} in {}", show(&p)))) }
            }
            12 => {
                op("contains", x, 2, 0, D2);
                let got = d.contains(&mk(x));
                if got != p.label.contains_key(&x) { return Err((i, D2, format!("contains({x}) is {got} in {}", show(&p)))) }
            }
            13 => {
                op("len", 2, 0, 0, D2);
                let (n, e) = (d.len(), d.is_empty());
                if n != p.label.len() || e != (n == 0) { return Err((i, D2, format!("len is {n}, is_empty {e} in {}", show(&p)))) }
            }
            14 | 15 => {
                op("iterate", 2, 0, 0, D3);
                let g = groups(&mut d);
                if g != p.groups() { return Err((i, D3, format!("iteration yields {g:?}, expected {}", show(&p)))) }
            }
            16 => {
                op("partial iteration", x, 2, 0, D3);
                for g in (&mut d).into_iter().take(1) { let _ = g.take(x as usize % 3).count(); }
            }
            17 | 18 => {
                op("clear", 2, 0, 0, D2);
                d.clear();
                p = P::default();
            }
            19 => {
                op("clone", 2, 0, 0, D5);
                d = d.clone();
            }
            20 => {
                op("clone", 3, 0, 0, D5);
                o = (d.clone(), p.clone());
            }
            21 => {
                std::mem::swap(&mut d, &mut o.0);
                std::mem::swap(&mut p, &mut o.1);
            }
            22 => {
                op("clone_from", 2, 0, 0, D5);
                o.0.clone_from(&d);
                o.1 = p.clone();
                std::mem::swap(&mut d, &mut o.0); // both hold the same
            }
            23 => {
                op("extend", 2, 2, 0, D5);
                d.extend([mk(x), mk(y)]);
                p.add(x);
                p.add(y);
            }
            _ => {
                op("reserve", x, 2, 0, D5);
                d.reserve(x as usize);
            }
        }
    }
    for x in p.label.keys() {
        for y in p.label.keys() {
            op("query", *x, *y, 3, D1);
            let got = d.in_union(&mk(*x), &mk(*y));
            if got != p.same(*x, *y) { return Err((ops.len(), D1, format!("in_union({x},{y}) is {got} in {}", show(&p)))) }
        }
    }
    Ok(p.hash())
}
fn episodes<K: Key, S: Hs>(run: &mut Run, cases: u64) {
    let phase = format!("episodes/{}/{}", K::NAME, S::NAME);
    for idx in 0..cases {
        run.case(&phase, idx, |r| for _ in 0..200 {
            retrace();
            let n = 2 + r.below(3);
            let hot = (K::norm(r.below(n)), K::norm(r.below(n)));
            let ops: Vec<(u64, u64, u64)> = (0..3 + r.us(10)).map(|_| {
                let (x, y) = match r.below(4) {
                    0 | 1 => hot,
                    2 => (hot.1, hot.0),
                    _ => (K::norm(r.below(n)), K::norm(r.below(n))),
                };
                (r.below(25), x, y)
            }).collect();
            let good = |v: Vec<(u64, u64, u64)>| episode::<K, S>(&v).is_ok();
            match episode::<K, S>(&ops) {
                Ok(s) => state(s),
                Err((at, t, msg)) => {
                    // whose fault? the same program without the clones, without what was cleared, without the iterations
                    let v = &ops[..(at + 1).min(ops.len())];
                    let no = |f: &dyn Fn(u64) -> bool| v.iter().copied().filter(|o| !f(o.0)).collect::<Vec<_>>();
                    let clear = v.iter().rposition(|o| o.0 == 17 || o.0 == 18);
                    let b2 = clear.is_some_and(|c| good(v[c + 1..].to_vec()));
                    let b5 = v.iter().any(|o| (19..=22).contains(&o.0)) && good(no(&|k| (19..=22).contains(&k)));
                    let b3 = v.iter().any(|o| (14..=16).contains(&o.0)) && t == D1 && good(no(&|k| (14..=16).contains(&k)));
                    op("episode", at as u64, ops.len() as u64, 0, D1);
                    for (tag, b) in [(t, true), (D2, b2), (D3, b3), (D5, b5)] {
                        ck!(tag, !b, "program {v:?}: {msg}");
                    }
                    return;
                }
            }
        });
    }
}

/// Big instances against a fast independent union-find.
struct Fast(Vec<u32>);
impl Fast {
    fn root(&self, mut x: usize) -> usize {
        while self.0[x] as usize != x { x = self.0[x] as usize }
        x
    }
    /// Root of every element (parents have lower indices than their children).
    fn roots(&self) -> Vec<u32> {
        let mut v = self.0.clone();
        for i in 0..v.len() { v[i] = v[v[i] as usize] }
        v
    }
    /// Link by index order with halving done by the caller's batch relabelling.
    fn union(&mut self, x: usize, y: usize) {
        let (a, b) = (self.root(x), self.root(y));
        let (lo, hi) = (a.min(b), a.max(b));
        self.0[hi] = lo as u32;
        for mut z in [x, y] {
            while self.0[z] as usize != lo {
                let n = self.0[z] as usize;
                self.0[z] = lo as u32;
                z = n;
            }
        }
    }
}
/// Union orders that stress depth. Pairs of indices below n.
fn order(r: &mut Rng, n: usize, shape: u64, f: &mut dyn FnMut(usize, usize)) {
    match shape {
        0 => for i in 1..n { f(i - 1, i) },
        1 => for i in 1..n { f(i, i - 1) },
        2 => for i in (1..n).rev() { f(i - 1, i) },
        3 => for i in (1..n).rev() { f(i, i - 1) },
        4 => for i in 1..n { f(0, i) },
        5 => for i in 1..n { f(i, 0) },
        6 | 7 => {
            // tournament: roots meet roots, maximal ranks
            let mut g = 1;
            while g < n {
                let mut i = 0;
                while i + g < n {
                    if shape == 6 { f(i, i + g) } else { f(i + g, i) }
                    i += 2 * g;
                }
                g *= 2;
            }
        }
        8 => for _ in 0..n { f(r.us(n), r.us(n)) },
        // tournament in which deep leaves meet deep leaves
        9 | 10 => {
            let mut g = 1;
            while g < n {
                let mut i = 0;
                while i + g < n {
                    let (x, y) = ((i + g - 1).min(n - 1), (i + 2 * g - 1).min(n - 1));
                    if shape == 9 { f(x, y) } else { f(y, x) }
                    i += 2 * g;
                }
                g *= 2;
            }
        }
        // many small stars, then their members chained
        11 => {
            let k = 64;
            for i in 0..n { f(i / k * k, i) }
            for i in (k..n).step_by(k) { f(i - 1, i + k.min(n - i) - 1) }
        }
        // two halves built in opposite directions, zipped
        12 => for i in 0..n / 2 { f(i, n - 1 - i); if i > 0 { f(n - i, i) } },
        // groups of eight (14) or of a seventh of all (15) far from each other, by tournaments in random order
        14 | 15 => {
            let k = if shape == 14 { (n / 8).max(1) } else { 7 };
            let mut g = 1;
            while g * k < n {
                let mut us: Vec<(usize, usize)> = vec![];
                for c in 0..k {
                    let mut i = 0;
                    while c + (i + g) * k < n {
                        us.push((c + (i + r.us(g)) * k, c + (i + g) * k));
                        i += 2 * g;
                    }
                }
                for i in (1..us.len()).rev() { us.swap(i, r.us(i + 1)) }
                for (x, y) in us { if r.chance(1, 2) { f(x, y) } else { f(y, x) } }
                g *= 2;
            }
        }
        // random pairs, few enough to leave many groups
        16 => for _ in 0..n / 2 { f(r.us(n), r.us(n)) },
        // random trees: each element meets a random earlier one
        17 => for i in 1..n { f(r.us(i), i) },
        18.. => vh::shapes::blocks(shape as usize - 18, n, r, f),
        // a block grows by merging with singletons placed first / second alternately
        _ => for i in 1..n { if i % 2 == 0 { f(i, i / 2) } else { f(i / 2, i) } },
    }
}
const SHAPES: u64 = 18 + vh::shapes::BLOCKS as u64;

fn big<S: Hs>(run: &mut Run, n: usize, phase: &str, stack: usize, every: usize) {
    let phase = format!("{phase}/{}/{n}", S::NAME);
    for idx in (0..SHAPES * 2).skip(n % every).step_by(every) {
        run.case(&phase, idx, |r| {
            let seed = r.next();
            let go = move || {
                let mut r = Rng::new(seed);
                let r = &mut r;
                let tags: Tags = &["D04", "D01"];
                let shape = idx % SHAPES;
                op("large unions", n as u64, shape, idx / SHAPES, tags);
                let mut d: DisjointSet<u32, S> = if idx % 2 == 0 { DisjointSet::with_hasher(S::custom(1)) } else { DisjointSet::with_capacity(n) };
                let mut m = Fast((0..n as u32).collect());
                if idx >= SHAPES {
                    d.extend(0..n as u32);
                }
                let mut seen = vec![idx >= SHAPES; n];
                let mut cnt = 0u64;
                order(r, n, shape, &mut |x, y| {
                    d.union(x as u32, y as u32);
                    m.union(x, y);
                    seen[x] = true;
                    seen[y] = true;
                    cnt += 1;
                    if cnt % 4096 == 0 { mon::progress() }
                });
                count("unions in large instances", cnt);
                let mut root = m.roots();
                // first queries go to the oldest, newest and random elements
                let mut probe: Vec<usize> = vec![0, n - 1, n / 2, 1, n - 2];
                probe.extend((0..4000).map(|_| r.us(n)));
                op("large queries", n as u64, shape, 0, tags);
                for w in probe.windows(2) {
                    let (x, y) = (w[0], w[1]);
                    let want = seen[x] && seen[y] && root[x] == root[y];
                    let got = d.in_union(&(x as u32), &(y as u32));
                    ck!(D1, got == want, "in_union({x},{y}) is {got}, expected {want} (shape {shape}, {n} elements)");
                }
                ck!(D2, d.len() == seen.iter().filter(|s| **s).count(), "len {}", d.len());
                op("large iteration", n as u64, shape, 0, &["D04", "D03"]);
                let mut total = 0;
                let mut label: HashMap<usize, usize> = HashMap::new();
                let mut groups = 0usize;
                for (gi, g) in (&mut d).into_iter().enumerate() {
                    groups += 1;
                    let mut first = None;
                    for x in g {
                        total += 1;
                        let rt = root[*x as usize] as usize;
                        if *first.get_or_insert(rt) != rt {
                            report(D3, format!("group mixes subsets (shape {shape}, {n} elements)"));
                        }
                    }
                    match first {
                        None => report(D3, "iteration yields an empty group".into()),
                        Some(rt) => if let Some(o) = label.insert(rt, gi) {
                            report(D3, format!("one subset is split over groups {o} and {gi}"));
                        }
                    }
                    if gi % 4096 == 0 { mon::progress() }
                }
                ck!(D3, total == d.len(), "iteration yields {total} of {} elements", d.len());
                // after iterating (every path is compressed now): more unions of far elements, asked again
                op("large queries after more unions", n as u64, shape, 0, tags);
                for _ in 0..2_000 {
                    let (x, y) = (r.us(n), r.us(n));
                    d.union(x as u32, y as u32);
                    m.union(x, y);
                    seen[x] = true;
                    seen[y] = true;
                }
                root = m.roots();
                for _ in 0..4_000 {
                    let (x, y) = (r.us(n), r.us(n));
                    let want = seen[x] && seen[y] && root[x] == root[y];
                    let got = d.in_union(&(x as u32), &(y as u32));
                    ck!(D1, got == want, "in_union({x},{y}) is {got}, expected {want} (shape {shape}, {n} elements, after iterating and more unions)");
                }
                state(h(&[n as u64, shape, groups as u64]));
            };
            if stack == 0 {
                go();
            } else {
                // a small thread stack: deep recursion overflows it and kills the process (SIGSEGV)
                let t = std::thread::Builder::new().stack_size(stack).spawn(move || {
                    mon::adopt_thread();
                    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(go));
                    match r {
                        Ok(()) => Ok(mon::take_thread()),
                        Err(p) => Err((p, mon::last_panic(), mon::take_thread())),
                    }
                }).unwrap();
                match t.join().unwrap() {
                    Ok(tl) => mon::merge_thread(tl),
                    Err((p, lp, tl)) => {
                        mon::merge_thread(tl);
                        mon::set_last_panic(lp);
                        std::panic::resume_unwind(p)
                    }
                }
            }
        });
    }
}

/// Capacity promises, watched at the allocator.
fn capacity(run: &mut Run, cases: u64) {
    fn one<S: Hs>(r: &mut Rng, n: usize, how: u64) {
        op("capacity", n as u64, how, 0, D5);
        let s = S::custom(3);
        let a1 = vh::alloc::counts();
        let mut d: DisjointSet<u64, S> = match how {
            0 => DisjointSet::with_capacity(n),
            1 => DisjointSet::with_capacity_and_hasher(n, s),
            2 => { let mut d = DisjointSet::with_hasher(s); d.reserve(n); d }
            _ => {
                let mut d: DisjointSet<u64, S> = (0..r.us(50) as u64).collect();
                d.clear();
                d.reserve(n);
                d
            }
        };
        let a2 = vh::alloc::counts();
        if n == 0 && how < 3 {
            ck!(D5, a1.0 == a2.0, "an empty disjoint set of capacity 0 allocated {} times", a2.0 - a1.0);
        }
        let base = r.next() >> 2;
        let a2 = vh::alloc::counts();
        for i in 0..n as u64 {
            if i % 3 == 0 || i + 1 == n as u64 { d.make_set(base + i) } else { d.union(base + i, base + r.below(i + 1)) }
        }
        for i in 0..n as u64 {
            d.union(base + i, base + (i * 7) % n as u64);
            d.make_set(base + i);
        }
        let q = n == 0 || d.in_union(&base, &(base + n as u64 / 2));
        let a3 = vh::alloc::counts();
        ck!(D5, a2 == a3, "adding {n} distinct elements to a disjoint set with capacity for them made {} allocations (way {how})", a3.0 - a2.0);
        ck!(D5, d.len() == n && (q || n > 0), "filling a reserved disjoint set gave {} elements", d.len());
        state(h(&[n as u64, how, 78]));
    }
    let dict = run.dict.clone();
    for idx in 0..cases {
        run.case("capacity", idx, |r| {
            let n = match r.below(3) {
                _ if idx % 128 == 127 => if r.chance(1, 2) { (*r.pick(&dict) as usize).min(200_000) } else { r.us(150_000) },
                0 => r.us(40),
                1 => (*r.pick(&dict) as usize).min(5000),
                _ => r.skewed(3000) as usize,
            };
            let how = r.below(4);
            match r.below(3) {
                0 => one::<std::collections::hash_map::RandomState>(r, n, how),
                1 => one::<fnv::FnvBuildHasher>(r, n, how),
                _ => one::<Salted>(r, n, how),
            }
        });
    }
    for how in 0..4 {
        run.case("capacity-zero", how, |r| {
            one::<fnv::FnvBuildHasher>(r, 0, how);
            one::<Salted>(r, 0, how);
            one::<fnv::FnvBuildHasher>(r, 1, how);
            let a = vh::alloc::counts();
            let c: DisjointSet<u64, fnv::FnvBuildHasher> = DisjointSet::new();
            let e: DisjointSet<u64, fnv::FnvBuildHasher> = std::iter::empty::<u64>().collect();
            let b = vh::alloc::counts();
            ck!(D5, a == b && c.len() + e.len() == 0, "empty disjoint sets allocated {} times", b.0 - a.0);
        });
    }
}

/// The same elements and unions through different construction paths give the same partition.
fn paths(run: &mut Run, cases: u64) {
    fn build<S: Hs>(r: &mut Rng, ids: &[u64], us: &[(u64, u64)], how: u64) -> Vec<Vec<u64>> {
        op("construct", how, ids.len() as u64, 0, D5);
        let src: Vec<u64> = ids.to_vec();
        let kind = r.below(8);
        let n = src.len();
        let mut d: DisjointSet<u64, S> = match how % 8 {
            0 => feed(src.iter(), n, kind).collect(),
            1 => feed(src.into_iter(), n, kind).collect(),
            2 => { let mut d = DisjointSet::new(); d.extend(&src); d }
            3 => { let mut d = DisjointSet::with_capacity(r.us(20)); d.extend(feed(src.into_iter(), n, kind)); d }
            4 => { let mut d = DisjointSet::with_hasher(S::custom(8)); for x in src { d.make_set(x) } d }
            5 => { let mut d = DisjointSet::with_capacity_and_hasher(r.us(20), S::custom(8)); for x in src.iter().rev() { d.make_set(*x) } d }
            6 => { let mut d = DisjointSet::new(); d.extend(100..130u64); d.union(100, 101); d.clear(); d.extend(src); d }
            _ => { let mut d = DisjointSet::new(); for x in src { d.union(x, x) } d.reserve(30); d.clone() }
        };
        for (x, y) in us { d.union(*x, *y) }
        let g = groups(&mut d);
        let n: usize = g.iter().map(|g| g.len()).sum();
        ck!(D5, d.len() == n, "len {} with {n} elements", d.len());
        g
    }
    for idx in 0..cases {
        run.case("paths", idx, |r| {
            let n = r.us(12);
            let ids: Vec<u64> = (0..n).map(|_| r.below(12)).collect();
            let us: Vec<(u64, u64)> = (0..r.us(6)).map(|_| (r.below(14), r.below(14))).collect();
            let mut p = P::default();
            for i in &ids { p.add(*i) }
            for (x, y) in &us { p.union(*x, *y) }
            let w = p.groups();
            for how in 0..8 {
                let g = match (how + idx) % 4 {
                    0 => build::<fnv::FnvBuildHasher>(r, &ids, &us, how),
                    1 => build::<Salted>(r, &ids, &us, how),
                    2 => build::<Collide>(r, &ids, &us, how),
                    _ => build::<std::collections::hash_map::RandomState>(r, &ids, &us, how),
                };
                ck!(D5, g == w, "construction path {how} from {ids:?} with unions {us:?} gives {g:?}, expected {w:?}");
            }
            state(p.hash());
        });
    }
}

// ------------------------------------------------------------------ D06
fn pgroups<S: Hs>(d: &mut DisjointSet<PKey, S>) -> Vec<Vec<u64>> {
    let mut v: Vec<Vec<u64>> = (&mut *d).into_iter().map(|g| { let mut g: Vec<u64> = g.map(|k| k.id).collect(); g.sort(); g }).collect();
    v.sort();
    v
}
fn poison<S: Hs>(run: &mut Run, cases: u64) {
    let phase = format!("poison/{}", S::NAME);
    for idx in 0..cases {
        run.case(&phase, idx, |r| {
            let mut d: DisjointSet<PKey, S> = DisjointSet::with_capacity_and_hasher(r.us(5), S::custom(2));
            let mut p = P::default();
            for _ in 0..r.us(9) {
                let (x, y) = (r.below(8), r.below(8));
                d.union(PKey::new(x, 0), PKey::new(y, 0));
                p.union(x, y);
            }
            for _ in 0..7 {
                let flag = 1 + r.below(2) as u8;
                let (x, y) = (r.below(12), r.below(12));
                let n = r.us(7);
                let at = r.us(n + 1);
                let keys: Vec<u64> = (0..n).map(|_| r.below(14)).collect();
                let mut maybe: Vec<u64> = vec![];
                let mut done: Vec<u64> = vec![];
                let what;
                match r.below(8) {
                    0 => {
                        what = "make_set of an element whose hash or comparison panics";
                        op("make_set (panics)", x, flag as u64, 0, D6);
                        let k = PKey::new(x, flag);
                        if quiet(|| d.make_set(k)).is_ok() { done.push(x) }
                    }
                    1 | 2 | 3 => {
                        let which = r.below(3);
                        what = "union with an element whose hash or comparison panics";
                        op("union (panics)", x, y, flag as u64 * 4 + which, D6);
                        let (a, b) = (PKey::new(x, if which != 1 { flag } else { 0 }), PKey::new(y, if which != 0 { flag } else { 0 }));
                        if quiet(|| d.union(a, b)).is_ok() {
                            // the flagged one was never compared
                            p.union(x, y);
                        } else {
                            // one of the two may have been added completely
                            maybe = vec![x, y];
                        }
                    }
                    4 => {
                        what = "a query about an element whose hash or comparison panics";
                        op("query (panics)", x, y, flag as u64, D6);
                        let (a, b) = (PKey::new(x, 0), PKey::new(y, flag));
                        if let Ok(g) = quiet(|| d.in_union(&a, &b)) {
                            ck!(D6, g == p.same(x, y), "in_union({x},{y}) is {g}");
                        }
                        if let Ok(g) = quiet(|| d.contains(&b)) {
                            ck!(D6, g == p.label.contains_key(&y), "contains({y}) is {g}");
                        }
                    }
                    5 => {
                        what = "extending with an element whose hash or comparison panics";
                        op("extend (element panics)", at as u64, flag as u64, 0, D6);
                        let c = std::cell::Cell::new(0);
                        let it = keys.iter().enumerate().map(|(i, k)| { c.set(i); PKey::new(*k, if i == at { flag } else { 0 }) });
                        let res = quiet(|| d.extend(feed(it, n, r.next())));
                        let k = if res.is_ok() { n } else { c.get() };
                        done.extend(&keys[..k]);
                    }
                    6 => {
                        what = "extending from an iterator that panics";
                        op("extend (iterator panics)", at as u64, 0, 0, D6);
                        let it = Bomb { it: keys.iter().map(|k| PKey::new(*k, 0)), left: at, hint: r.us(20) };
                        let _ = quiet(|| d.extend(it));
                        done.extend(&keys[..at.min(n)]);
                    }
                    _ => {
                        what = "building another disjoint set from something that panics";
                        op("from_iter (panics)", at as u64, 0, 0, D6);
                        let it = Bomb { it: keys.iter().map(|k| PKey::new(*k, 0)), left: at, hint: r.us(20) };
                        let _ = quiet(|| it.collect::<DisjointSet<PKey, S>>());
                    }
                }
                heal();
                // elements added before the panic may or may not be there, as singletons
                op("use after a panic", 0, 0, 0, D6);
                for k in done.iter().chain(&maybe) {
                    if !p.label.contains_key(k) && d.contains(&PKey::new(*k, 0)) { p.add(*k) }
                }
                let n = p.label.len();
                ck!(D6, d.len() == n, "after {what}: len {} with {n} elements", d.len());
                let look = r.chance(1, 2);
                if look {
                    let g = pgroups(&mut d);
                    ck!(D6, g == p.groups(), "after {what}: partition {g:?}, expected {:?}", p.groups());
                }
                // later operations, including on the very elements involved
                op("use after a panic", x, y, 0, D6);
                for (x, y) in [(x, r.below(12)), (r.below(14), y), (r.below(16), r.below(16))] {
                    if r.chance(1, 2) {
                        d.union(PKey::new(x, 0), PKey::new(y, 0));
                        p.union(x, y);
                    } else {
                        d.make_set(PKey::new(y, 0));
                        p.add(y);
                    }
                    for a in 0..16 {
                        let g = d.in_union(&PKey::new(a, 0), &PKey::new(y, 0));
                        ck!(D6, g == p.same(a, y), "after {what} and further operations: in_union({a},{y}) is {g}, partition {:?}", p.groups());
                    }
                }
                if r.chance(1, 6) {
                    d.clear();
                    p = P::default();
                }
                let g = pgroups(&mut d);
                ck!(D6, g == p.groups() && d.len() == p.label.len(), "after {what} and further operations: partition {g:?}, expected {:?}", p.groups());
                state(h(&[p.hash(), flag as u64]));
            }
        });
    }
}

fn main() {
    let a = vh::args::parse();
    let run = &mut Run::new(a);
    use std::collections::hash_map::RandomState as R;
    type F = fnv::FnvBuildHasher;
    let m = run.miri();
    let q = |run: &Run, n: u64, t: u64| if m { 2 } else { run.n(n, t) };
    let t = run.a.thorough;
    match run.a.prop.as_str() {
        "D06" => {
            poison::<R>(run, q(run, 8_000, 300_000));
            poison::<F>(run, q(run, 8_000, 300_000));
            poison::<Weak>(run, q(run, 8_000, 300_000));
            poison::<Collide>(run, q(run, 4_000, 100_000));
        }
        "D04" => {
            big::<F>(run, 1_000_000, "stack", 128 << 10, 1);
            if t { big::<F>(run, 3_000_000, "stack", 128 << 10, 1) }
        }
        p => {
            let p = p.to_string();
            if m {
                exhaustive::<F>(run, 2, 2);
            } else {
                exhaustive::<F>(run, 3, 4);
                exhaustive::<R>(run, 4, 3);
                exhaustive::<Collide>(run, 4, 3);
                exhaustive::<F>(run, 4, 4);
                exhaustive::<F>(run, 5, if t { 4 } else { 3 });
                if t { exhaustive::<F>(run, 4, 5) }
            }
            if p == "D05" {
                capacity(run, q(run, 3_000, 40_000));
                paths(run, q(run, 6_000, 100_000));
            }
            let n = q(run, 1_200, 40_000);
            episodes::<u64, F>(run, n);
            episodes::<u64, Salted>(run, n);
            episodes::<String, Collide>(run, n / 2 + 1);
            let n = q(run, 2_500, 60_000);
            random::<u64, R>(run, n, 40, 8, 12);
            random::<u64, F>(run, n, 40, 12, 20);
            random::<u64, F>(run, n, 60, 40, 40);
            random::<u64, Collide>(run, n / 2 + 1, 40, 8, 12);
            random::<u64, Salted>(run, n, 40, 8, 12);
            random::<String, R>(run, n / 2 + 1, 40, 8, 12);
            random::<(u8, Option<Box<u64>>), Weak>(run, n / 2 + 1, 40, 9, 12);
            random::<char, Salted>(run, n / 2 + 1, 40, 8, 12);
            random::<i32, F>(run, n / 2 + 1, 40, 8, 12);
            random::<u8, Collide>(run, n / 2 + 1, 60, 300, 300);
            random::<Coarse, R>(run, n / 2 + 1, 40, 8, 12);
            random::<(), F>(run, n / 8 + 1, 30, 1, 12);
            if !m {
                random::<u64, F>(run, run.n(160, 3_000), 80, 600, 300);
                random::<u64, R>(run, run.n(40, 600), 60, 5_000, 2_000);
                big::<F>(run, if t { 400_000 } else { 140_000 }, "large", 0, 1);
                // exact numbers of elements: around powers of two and around what the sources mention
                let mut sizes: Vec<usize> = [1usize << 8, 1 << 10, 1 << 12, 1 << 15, 1 << 16, 1 << 17].iter().flat_map(|s| s - 2..s + 3).collect();
                sizes.extend(run.dict.iter().filter(|d| (500..200_000).contains(*d)).map(|d| *d as usize));
                sizes.sort();
                sizes.dedup();
                for n in sizes { big::<F>(run, n, "exact", 0, if t { 5 } else { 29 }) }
                big::<Salted>(run, if t { 70_000 } else { 9_000 }, "large", 0, 1);
            }
        }
    }
    count("dictionary entries", run.dict.len() as u64);
    let _ = D4;
    run.finish()
}
