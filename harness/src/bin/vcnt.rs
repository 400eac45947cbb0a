//! Counter monitors: C01-C06 against a plain multiset.
use advanced_collections::counter::{Counter, FastCounter};
use std::collections::{BTreeMap, HashMap};
use std::hash::BuildHasher;
use vh::ck;
use vh::keys::*;
use vh::mon::{self, count, h, op, quiet, report, retrace, state, Run, Tags};
use vh::rng::Rng;

#[global_allocator]
static A: vh::alloc::Counting = vh::alloc::Counting;

const T1: Tags = &["C01"];
const T2: Tags = &["C02"];
const T3: Tags = &["C03"];
const T4: Tags = &["C04"];
const T5: Tags = &["C05"];
const T6: Tags = &["C06"];

type M = BTreeMap<u64, usize>;

trait ExtRef: Key {
    fn ext_ref<S: BuildHasher>(c: &mut Counter<Self, S>, src: &[Self], kind: u64);
}
macro_rules! ext_ref { ($($t:ty),*) => { $( impl ExtRef for $t {
    fn ext_ref<S: BuildHasher>(c: &mut Counter<Self, S>, src: &[Self], kind: u64) {
        c.extend(feed(src.iter(), src.len(), kind));
    }
} )* } }
macro_rules! ext_own { ($($t:ty),*) => { $( impl ExtRef for $t {
    fn ext_ref<S: BuildHasher>(c: &mut Counter<Self, S>, src: &[Self], kind: u64) {
        c.extend(feed(src.iter().cloned(), src.len(), kind));
    }
} )* } }
ext_ref!(u64, i32, u8, char, (), Coarse);
ext_own!(String, (u8, Option<Box<u64>>));

fn show(m: &M) -> String {
    if m.len() <= 16 {
        format!("{m:?}")
    } else {
        format!("{:?}.. ({} elements)", m.iter().take(12).collect::<Vec<_>>(), m.len())
    }
}

/// Pairs as a map; reports elements that appear twice.
fn pairs<'a, K: Key>(it: impl Iterator<Item = (u64, usize)>, tags: Tags, what: &str, _k: std::marker::PhantomData<&'a K>) -> M {
    let mut m = M::new();
    for (k, v) in it {
        if m.insert(k, v).is_some() {
            report(tags, format!("{what} shows element {k} twice"));
        }
    }
    m
}

fn content<K: Key, S: BuildHasher>(c: &Counter<K, S>, tags: Tags) -> M {
    pairs::<K>(c.iter().map(|(k, v)| (k.id(), *v)), tags, "iter()", Default::default())
}

/// Everything readable against the model; resynchronises after a mismatch that
/// belongs to another property.
fn check<K: Key, S: BuildHasher>(c: &Counter<K, S>, m: &mut M, tags: Tags, what: &str, full: bool) {
    let got = content(c, tags);
    if got != *m {
        report(tags, format!("after {what}: counts {}, expected {}", show(&got), show(m)));
        *m = got;
        return;
    }
    mon::checked();
    ck!(tags, c.len() == m.len() && c.is_empty() == m.is_empty(), "after {what}: len {} with {} elements", c.len(), m.len());
    let step = if full { 1 } else { (m.len() / 64).max(1) };
    for (k, v) in m.iter().step_by(step) {
        let key = K::make(*k);
        let g = c.get(&key).copied();
        ck!(tags, g == Some(*v), "after {what}: element {k} has count {g:?}, expected {v}");
        ck!(tags, c[&key] == *v && c.contains_key(&key), "after {what}: [] and get differ for {k}");
    }
    for k in [0u64, 1, 2, 77, 255, 1 << 20] {
        let k = K::norm(k);
        if !m.contains_key(&k) {
            ck!(tags, c.get(&K::make(k)).is_none(), "after {what}: element {k} was never added but is present");
        }
    }
}

struct W<K: Key, S1: Hs, S2: Hs> {
    a: Counter<K, S1>,
    ma: M,
    b: Counter<K, S2>,
    mb: M,
    dict: std::rc::Rc<Vec<u64>>,
    keys: u64,
    cap: usize,
}

impl<K: ExtRef, S1: Hs, S2: Hs> W<K, S1, S2> {
    fn new(r: &mut Rng, dict: std::rc::Rc<Vec<u64>>, keys: u64, cap: usize) -> Self {
        let n = r.us(9);
        op("new", n as u64, 0, 0, T1);
        let a = match r.below(6) {
            0 => Counter::new(),
            1 => Counter::default(),
            2 => Counter::with_capacity(n),
            3 => Counter::with_hasher(S1::custom(5)),
            4 => Counter::with_capacity_and_hasher(n, S1::custom(9)),
            _ => {
                let mut h = HashMap::with_hasher(S1::custom(3));
                h.reserve(n);
                Counter::from_hashmap(h)
            }
        };
        W { a, ma: M::new(), b: Counter::with_hasher(S2::custom(7)), mb: M::new(), dict, keys, cap }
    }
    fn id(&self, r: &mut Rng) -> u64 {
        K::norm(if r.chance(1, 8) { *r.pick(&self.dict) } else { r.below(self.keys) })
    }
    fn ids(&self, r: &mut Rng, n: usize) -> Vec<u64> {
        match r.below(4) {
            // many repeats of few elements
            0 => {
                let k = self.id(r);
                let j = self.id(r);
                (0..n).map(|i| if i % 3 == 0 { j } else { k }).collect()
            }
            // all different
            1 => {
                let k = r.below(1000);
                (0..n as u64).map(|i| K::norm(k + i)).collect()
            }
            _ => (0..n).map(|_| self.id(r)).collect(),
        }
    }
    fn size(&self, r: &mut Rng) -> usize {
        if r.chance(1, 6) {
            (*r.pick(&self.dict) as usize).min(self.cap)
        } else {
            r.us(self.cap.min(12) + 1)
        }
    }
    /// A count that may be extreme; sums stay representable (budget 1/8 of usize each).
    fn big(&self, r: &mut Rng) -> usize {
        match r.below(5) {
            0 => (*r.pick(&self.dict) as usize).clamp(1, usize::MAX >> 3),
            1 => (usize::MAX >> 3) - r.us(3),
            2 => 1 + (r.next() as usize & (usize::MAX >> 4)),
            3 => 1usize << r.below(61),
            _ => 1 + r.us(5),
        }
    }
    fn total_ok(m: &M, add: usize) -> bool {
        m.values().all(|v| *v <= (usize::MAX >> 1) - add)
    }
    fn tame(&mut self) {
        // keep sums representable and counts positive for the arithmetic
        for v in self.a.values_mut() {
            if *v == 0 { *v = 1 }
            if *v > usize::MAX >> 2 { *v = usize::MAX >> 2 }
        }
        for v in self.b.values_mut() {
            if *v == 0 { *v = 1 }
            if *v > usize::MAX >> 2 { *v = usize::MAX >> 2 }
        }
        self.ma = content(&self.a, T5);
        self.mb = content(&self.b, T5);
    }

    fn step(&mut self, r: &mut Rng, only: Option<u64>) {
        let k = only.unwrap_or_else(|| r.below(44));
        let full = self.cap <= 64;
        match k {
            0..=5 => {
                let id = self.id(r);
                op("push", id, 0, 0, T1);
                if self.ma.get(&id).is_some_and(|v| *v == usize::MAX) { return }
                self.a.push(K::make(id));
                *self.ma.entry(id).or_insert(0) += 1;
                check(&self.a, &mut self.ma, T1, "push", full);
            }
            6..=8 => {
                let id = self.id(r);
                op("push to the other", id, 0, 0, T1);
                if self.mb.get(&id).is_some_and(|v| *v == usize::MAX) { return }
                self.b.push(K::make(id));
                *self.mb.entry(id).or_insert(0) += 1;
                check(&self.b, &mut self.mb, T1, "push", full);
            }
            9..=12 => {
                let n = self.size(r);
                let ids = self.ids(r, n);
                let kind = r.below(8);
                op("extend", n as u64, kind, k % 2, T1);
                if !Self::total_ok(&self.ma, n) { return }
                let src: Vec<K> = ids.iter().map(|i| K::make(*i)).collect();
                if k % 2 == 0 {
                    self.a.extend(feed(src.into_iter(), n, kind));
                } else {
                    K::ext_ref(&mut self.a, &src, kind);
                }
                for i in ids { *self.ma.entry(i).or_insert(0) += 1 }
                check(&self.a, &mut self.ma, T1, "extend", full);
            }
            13 | 14 => {
                let n = self.size(r);
                let ids = self.ids(r, n);
                let kind = r.below(8);
                op("from_iter", n as u64, kind, k % 2, T1);
                let src: Vec<K> = ids.iter().map(|i| K::make(*i)).collect();
                self.a = if k % 2 == 0 { feed(src.into_iter(), n, kind).collect() } else { feed(src.iter(), n, kind).collect() };
                self.ma.clear();
                for i in ids { *self.ma.entry(i).or_insert(0) += 1 }
                check(&self.a, &mut self.ma, T1, "from_iter", full);
            }
            15 => {
                let n = self.size(r);
                let ids = self.ids(r, n);
                op("from_iter of the other", n as u64, 0, 0, T1);
                self.b = ids.iter().map(|i| K::make(*i)).collect();
                self.mb.clear();
                for i in ids { *self.mb.entry(i).or_insert(0) += 1 }
                check(&self.b, &mut self.mb, T1, "from_iter", full);
            }
            16 | 17 => {
                op("most_common", 0, 0, 0, T2);
                let v: Vec<(u64, usize)> = self.a.most_common().iter().map(|(k, n)| (k.id(), *n)).collect();
                self.listing(v, "most_common");
                check(&self.a, &mut self.ma, T2, "most_common", full);
                op("into_most_common", 0, 0, 0, T2);
                let v: Vec<(u64, usize)> = self.a.clone().into_most_common().iter().map(|(k, n)| (k.id(), *n)).collect();
                self.listing(v, "into_most_common");
            }
            18..=24 => self.arith(r, true, full),
            25..=31 => self.arith(r, false, full),
            32 => self.convert(r, full),
            33 => self.iterate(r, full),
            34 | 35 => {
                // direct counts, extreme values, through the map interface
                for _ in 0..1 + r.us(3) {
                    let id = self.id(r);
                    let n = self.big(r);
                    op("insert through the map", id, n as u64, 0, T5);
                    if k == 34 {
                        self.a.insert(K::make(id), n);
                        self.ma.insert(id, n);
                    } else {
                        self.b.insert(K::make(id), n);
                        self.mb.insert(id, n);
                    }
                }
                check(&self.a, &mut self.ma, T5, "insert", full);
                check(&self.b, &mut self.mb, T5, "insert", full);
            }
            36 => {
                let id = self.id(r);
                op("change through the map", id, 0, 0, T5);
                match r.below(6) {
                    0 => {
                        let g = self.a.remove(&K::make(id));
                        ck!(T5, g == self.ma.remove(&id), "remove gave {g:?}");
                    }
                    1 => {
                        if let Some(v) = self.a.get_mut(&K::make(id)) { *v = 3 }
                        if let Some(v) = self.ma.get_mut(&id) { *v = 3 }
                    }
                    2 => {
                        let f = r.below(3) + 2;
                        self.a.retain(|k, _| k.id() % f != 0);
                        self.ma.retain(|k, _| k % f != 0);
                    }
                    3 => {
                        *self.a.entry(K::make(id)).or_insert(5) = 6;
                        self.ma.insert(id, 6);
                    }
                    4 => self.a.shrink_to_fit(),
                    _ => {
                        if r.chance(1, 3) {
                            self.a.clear();
                            self.ma.clear();
                        } else {
                            self.a.reserve(40);
                        }
                    }
                }
                check(&self.a, &mut self.ma, T5, "a change through the map interface", full);
            }
            37 | 38 => {
                op("clone", 0, 0, 0, T5);
                let mut c = self.a.clone();
                let mut mc = self.ma.clone();
                check(&c, &mut mc, T5, "clone", full);
                if r.chance(1, 3) {
                    let mut t: Counter<K, S1> = Counter::with_capacity_and_hasher(r.us(9), S1::custom(21));
                    for _ in 0..r.us(9) { t.push(K::make(self.id(r))) }
                    op("clone_from", 0, 0, 0, T5);
                    t.clone_from(&self.a);
                    check(&t, &mut mc, T5, "clone_from", full);
                    c = t;
                }
                let id = self.id(r);
                if mc.get(&id).map_or(true, |v| *v < usize::MAX) {
                    c.push(K::make(id));
                    *mc.entry(id).or_insert(0) += 1;
                }
                if let Some(k) = mc.keys().next().copied() {
                    c.remove(&K::make(k));
                    mc.remove(&k);
                }
                for v in c.values_mut() { *v = 1 }
                for v in mc.values_mut() { *v = 1 }
                check(&c, &mut mc, T5, "changing a clone", full);
                check(&self.a, &mut self.ma, T5, "changing a clone", full);
                if k == 38 {
                    // change the original, look at the clone
                    let c = self.a.clone();
                    let mut mc = self.ma.clone();
                    self.a.clear();
                    self.a.push(K::make(1));
                    self.ma.clear();
                    self.ma.insert(K::norm(1), 1);
                    check(&c, &mut mc, T5, "changing the original", full);
                    if r.chance(1, 2) {
                        self.a = c;
                        self.ma = mc;
                    }
                }
            }
            39 => {
                op("zero count through the map", 0, 0, 0, T2);
                let id = self.id(r);
                self.a.insert(K::make(id), 0);
                self.ma.insert(id, 0);
                if r.chance(1, 2) {
                    let id = self.id(r);
                    let n = usize::MAX - r.us(2);
                    self.a.insert(K::make(id), n);
                    self.ma.insert(id, n);
                }
                let v: Vec<(u64, usize)> = self.a.most_common().iter().map(|(k, n)| (k.id(), *n)).collect();
                self.listing(v, "most_common");
                let v: Vec<(u64, usize)> = self.a.clone().into_most_common().iter().map(|(k, n)| (k.id(), *n)).collect();
                self.listing(v, "into_most_common");
                check(&self.a, &mut self.ma, T2, "most_common", full);
            }
            40 => {
                // rebuild the right side relative to the left: equal, smaller, larger, disjoint
                op("derive operand", 0, 0, 0, T5);
                self.tame();
                self.b = Counter::with_hasher(S2::custom(1));
                self.mb.clear();
                for (k, v) in &self.ma {
                    let n = match r.below(6) {
                        0 => *v,
                        1 => v - 1,
                        2 => v + 1,
                        3 => 0,
                        4 => v / 2,
                        _ => self.big(r),
                    };
                    if n > 0 {
                        self.b.insert(K::make(*k), n);
                        self.mb.insert(*k, n);
                    }
                }
                check(&self.b, &mut self.mb, T5, "insert", full);
            }
            _ => {
                let id = self.id(r);
                op("push repeatedly", id, 0, 0, T1);
                let n = self.size(r);
                if !Self::total_ok(&self.ma, n) { return }
                for _ in 0..n { self.a.push(K::make(id)) }
                if n > 0 { *self.ma.entry(id).or_insert(0) += n }
                check(&self.a, &mut self.ma, T1, "repeated push", full);
            }
        }
        state(h(&[self.ma.len() as u64, self.mb.len() as u64, self.ma.iter().fold(k, |a, (k, v)| h(&[a, *k, *v as u64]))]));
    }

    fn listing(&self, v: Vec<(u64, usize)>, what: &str) {
        ck!(T2, v.windows(2).all(|w| w[0].1 >= w[1].1), "{what} is not in non-increasing order: {:?}", &v[..v.len().min(40)]);
        let n = v.len();
        let m: M = v.into_iter().collect();
        ck!(T2, m == self.ma && n == self.ma.len(), "{what} lists {} ({n} entries), expected {}", show(&m), show(&self.ma));
    }

    /// All forms of + or -, between equal and between different hashers.
    fn arith(&mut self, r: &mut Rng, add: bool, full: bool) {
        self.tame();
        let tags = if add { T3 } else { T4 };
        // operands: a op b (different hashers), or a op c (same hasher type, other instance)
        let same = r.chance(1, 3);
        let form = r.below(4);
        op(if add { "add" } else { "subtract" }, form, same as u64, 0, tags);
        let mut want = self.ma.clone();
        let mut rhs = if same && r.chance(1, 4) { self.ma.clone() } else { self.mb.clone() };
        for (k, v) in &rhs {
            if add {
                *want.entry(*k).or_insert(0) += v;
            } else if let Some(w) = want.get(k).copied() {
                if w > *v { want.insert(*k, w - v); } else { want.remove(k); }
            }
        }
        let names = if add { ["a + b", "a + &b", "a += b", "a += &b"] } else { ["a - b", "a - &b", "a -= b", "a -= &b"] };
        let name = names[form as usize];
        let a = std::mem::replace(&mut self.a, Counter::with_hasher(S1::custom(2)));
        macro_rules! go { ($c:expr) => {{
            let c = $c;
            match form {
                0 => self.a = if add { a + c } else { a - c },
                1 => {
                    self.a = if add { a + &c } else { a - &c };
                    check(&c, &mut rhs, tags, &format!("being the right side of {name}"), full);
                }
                2 => {
                    let mut a = a;
                    if add { a += c } else { a -= c }
                    self.a = a;
                }
                _ => {
                    let mut a = a;
                    if add { a += &c } else { a -= &c }
                    self.a = a;
                    check(&c, &mut rhs, tags, &format!("being the right side of {name}"), full);
                }
            }
        }} }
        if same {
            let mut c: Counter<K, S1> = Counter::with_capacity_and_hasher(r.us(3), S1::custom(11));
            for (k, v) in &rhs { c.insert(K::make(*k), *v); }
            go!(c);
        } else {
            let mut c: Counter<K, S2> = self.b.clone();
            if rhs.is_empty() { c.clear() }
            go!(c);
            check(&self.b, &mut self.mb, tags, "arithmetic with its clone", full);
        }
        self.ma = want;
        check(&self.a, &mut self.ma, tags, name, full);
    }

    fn convert(&mut self, r: &mut Rng, full: bool) {
        op("convert", 0, 0, 0, T5);
        let mut hm: HashMap<K, usize, S2> = HashMap::with_hasher(S2::custom(4));
        let mut mm = M::new();
        for _ in 0..self.size(r) {
            let id = self.id(r);
            let n = if r.chance(1, 9) { 0 } else { self.big(r) };
            hm.insert(K::make(id), n);
            mm.insert(id, n);
        }
        let c: Counter<K, S1> = Counter::from(&hm);
        check(&c, &mut mm, T5, "conversion from a map reference", full);
        let back: M = hm.iter().map(|(k, v)| (k.id(), *v)).collect();
        ck!(T5, back == mm, "conversion changed the source map");
        let c: Counter<K, S2> = Counter::from(&hm);
        check(&c, &mut mm, T5, "conversion from a map reference", full);
        let c: Counter<K, S2> = Counter::from_hashmap(hm.clone());
        check(&c, &mut mm, T5, "from_hashmap", full);
        let c2: Counter<K, S2> = hm.clone().into();
        check(&c2, &mut mm, T5, "conversion from a map", full);
        let c3: Counter<K, S1> = hm.into();
        check(&c3, &mut mm, T5, "conversion from a map", full);
        if r.chance(1, 2) {
            self.a = c3;
            self.ma = mm;
        } else {
            self.b = c;
            self.mb = mm;
        }
    }

    fn iterate(&mut self, r: &mut Rng, full: bool) {
        op("iterate", 0, 0, 0, T5);
        let ph = std::marker::PhantomData::<&K>;
        let m = pairs((&self.a).into_iter().map(|(k, v)| (k.id(), *v)), T5, "&counter", ph);
        ck!(T5, m == self.ma, "iterating &counter shows {}, expected {}", show(&m), show(&self.ma));
        let m = pairs(self.a.clone().into_iter().map(|(k, v)| (k.id(), v)), T5, "counter", ph);
        ck!(T5, m == self.ma, "consuming iteration shows {}, expected {}", show(&m), show(&self.ma));
        let mut seen = M::new();
        let f = r.us(5);
        for (k, v) in &mut self.a {
            if seen.insert(k.id(), *v).is_some() {
                report(T5, format!("mutable iteration shows element {} twice", k.id()));
            }
            if k.id() % 3 == 1 { *v = f + 1 }
        }
        ck!(T5, seen == self.ma, "mutable iteration shows {}, expected {}", show(&seen), show(&self.ma));
        for (k, v) in &mut self.ma {
            if k % 3 == 1 { *v = f + 1 }
        }
        check(&self.a, &mut self.ma, T5, "writing through mutable iteration", full);
        let ks: std::collections::BTreeSet<u64> = self.a.keys().map(|k| k.id()).collect();
        ck!(T5, ks.iter().eq(self.ma.keys()), "keys() differ");
        let (how, k) = (r.below(6), r.us(4));
        self.via((&self.a).into_iter().map(|(k, v)| (k.id(), *v)), how, k, "&counter");
        self.via(self.a.clone().into_iter().map(|(k, v)| (k.id(), v)), how, k, "counter");
        let mut c = self.a.clone();
        self.via((&mut c).into_iter().map(|(k, v)| (k.id(), *v)), how, k, "&mut counter");
        self.via(self.a.iter().map(|(k, v)| (k.id(), *v)), how, k, "iter()");
        // partial consuming iteration must not disturb anything
        let mut it = self.a.clone().into_iter();
        let _ = it.next();
        drop(it);
        check(&self.a, &mut self.ma, T5, "iterating a clone", full);
    }
}

impl<K: ExtRef, S1: Hs, S2: Hs> W<K, S1, S2> {
    /// Iteration through provided iterator methods; the order is free.
    fn via(&self, mut it: impl Iterator<Item = (u64, usize)>, how: u64, k: usize, what: &str) {
        let total = self.ma.len();
        let mut got: Vec<(u64, usize)> = vec![];
        let skipped;
        match how {
            0 => {
                got.extend(it.nth(k));
                skipped = k.min(total);
                got.extend(it);
            }
            1 => {
                let n = it.count();
                ck!(T5, n == total, "iterating {what} counts {n} elements of {total}");
                return;
            }
            2 => {
                let l = it.last();
                ck!(T5, l.is_some() == (total > 0), "last of {what} is {l:?} with {total} elements");
                got.extend(l);
                skipped = total.saturating_sub(1);
            }
            3 => {
                let (lo, hi) = it.size_hint();
                ck!(T5, lo <= total && hi.map_or(true, |h| h >= total), "size_hint {:?} of {what} with {total} elements", (lo, hi));
                got.extend(it.next());
                let left = total.saturating_sub(1);
                let (lo, hi) = it.size_hint();
                ck!(T5, lo <= left && hi.map_or(true, |h| h >= left), "size_hint {:?} of {what} with {left} elements left", (lo, hi));
                it.for_each(|x| got.push(x));
                skipped = 0;
            }
            4 => {
                got = it.fold(vec![], |mut v, x| { v.push(x); v });
                skipped = 0;
            }
            _ => {
                let step = k + 1;
                got.extend(it.step_by(step));
                skipped = total - total.div_ceil(step);
            }
        }
        let n = got.len();
        let m: M = got.into_iter().collect();
        ck!(T5, n == total - skipped && m.len() == n, "iterating {what} (method {how}, {k}) shows {n} elements after skipping {skipped} of {total}");
        ck!(T5, m.iter().all(|(k, v)| self.ma.get(k) == Some(v)), "iterating {what} (method {how}, {k}) shows {}, expected {}", show(&m), show(&self.ma));
    }
}

fn random<K: ExtRef, S1: Hs, S2: Hs>(run: &mut Run, cases: u64, steps: usize, keys: u64, cap: usize) {
    let phase = format!("random/{}/{}x{}/{keys}/{cap}", K::NAME, S1::NAME, S2::NAME);
    let dict = std::rc::Rc::new(run.dict.clone());
    // a quarter of the operations concentrate on the property being checked
    let focus: &[u64] = match run.a.prop.as_str() {
        "C02" => &[16, 39, 17],
        "C03" => &[18, 40],
        "C04" => &[25, 40],
        "C05" => &[32, 33, 36, 37, 38],
        _ => &[0, 9, 10, 13, 14],
    };
    for idx in 0..cases {
        run.case(&phase, idx, |r| {
            let mut w: W<K, S1, S2> = W::new(r, dict.clone(), keys, cap);
            check(&w.a, &mut w.ma, T1, "creation", true);
            for _ in 0..steps {
                let only = if r.chance(1, 4) { Some(*r.pick(focus)) } else { None };
                w.step(r, only);
            }
        });
    }
}

/// All small pairs of counters: a op b for every assignment of counts 0..=3 to three elements.
fn small_pairs<S1: Hs, S2: Hs>(run: &mut Run) {
    let phase = format!("all-pairs/{}x{}", S1::NAME, S2::NAME);
    let mk = |code: u64| -> M { (0..3).map(|i| (i, (code >> (2 * i)) as usize & 3)).filter(|(_, v)| *v > 0).collect() };
    for x in 0..64u64 {
        run.case(&phase, x, |r| {
            for y in 0..64u64 {
                retrace();
                mon::note(format!("{:?} and {:?}", mk(x), mk(y)));
                for add in [true, false] {
                    for _ in 0..6 {
                        let mut w: W<u64, S1, S2> = W::new(r, std::rc::Rc::new(vec![1]), 4, 8);
                        for (k, v) in mk(x) {
                            for _ in 0..v { w.a.push(k) }
                        }
                        for (k, v) in mk(y) { w.b.insert(k, v); }
                        w.ma = mk(x);
                        w.mb = mk(y);
                        w.arith(r, add, true);
                        // the result must be an ordinary counter
                        w.step(r, Some(0));
                        w.step(r, Some(16));
                    }
                }
            }
        });
    }
}

/// Listings: every shape of ties, extremes.
fn listings(run: &mut Run, cases: u64) {
    let dict = run.dict.clone();
    for idx in 0..cases {
        run.case("listing", idx, |r| {
            let n = if r.chance(1, 4) { (*r.pick(&dict) as usize).min(3000) } else { r.us(60) };
            let mut c: FastCounter<u64> = Counter::new();
            let mut m = M::new();
            let spread = r.below(6);
            for k in 0..n as u64 {
                let v = match spread {
                    0 => 1 + r.us(2),
                    1 => 1 + k as usize,
                    2 => n - k as usize,
                    3 => r.next() as usize,
                    4 => usize::MAX - r.us(3) * r.us(2),
                    _ => *r.pick(&dict) as usize,
                };
                c.insert(k, v);
                m.insert(k, v);
            }
            op("most_common", n as u64, spread, 0, T2);
            let w = W::<u64, fnv::FnvBuildHasher, Weak> { a: c, ma: m, b: Counter::new(), mb: M::new(), dict: std::rc::Rc::new(vec![]), keys: 1, cap: 1 };
            let v = w.a.most_common();
            w.listing(v, "most_common");
            ck!(T2, content(&w.a, T2) == w.ma, "most_common changed the counter");
            let W { a, ma, b, mb, dict, keys, cap } = w;
            let v = a.into_most_common();
            let w = W::<u64, fnv::FnvBuildHasher, Weak> { a: Counter::new(), ma, b, mb, dict, keys, cap };
            w.listing(v, "into_most_common");
        });
    }
}

/// Equality for hashers that can be compared.
fn equality(run: &mut Run, cases: u64) {
    fn pair<K: ExtRef, S: Hs + PartialEq>(r: &mut Rng, x: &M, y: &M, s1: S, s2: S) {
        let build = |r: &mut Rng, m: &M, s: S| {
            let mut c: Counter<K, S> = if r.chance(1, 2) { Counter::with_hasher(s) } else { Counter::with_capacity_and_hasher(r.us(70), s) };
            let mut seq: Vec<u64> = m.iter().flat_map(|(k, v)| std::iter::repeat(*k).take((*v).min(3))).collect();
            r.shuffle(&mut seq);
            // detour: elements that are added and removed again
            if r.chance(1, 2) {
                for i in 0..r.us(20) as u64 { c.push(K::make(500 + i)) }
                c.retain(|k, _| k.id() < 500);
            }
            c.extend(seq.into_iter().map(K::make));
            for (k, v) in m.iter().filter(|(_, v)| **v > 3) {
                if let Some(n) = c.get_mut(&K::make(*k)) { *n = *v }
            }
            c
        };
        op("equality", x.len() as u64, y.len() as u64, 0, T5);
        let (a, b) = (build(r, x, s1), build(r, y, s2));
        let eq = x == y;
        ck!(T5, (a == b) == eq && (a != b) != eq && (b == a) == eq, "{x:?} and {y:?}: == gives {}, != gives {}", a == b, a != b);
        let c = a.clone();
        ck!(T5, c == a && !(c != a), "clone of {x:?} is not equal to the original");
        state(h(&[x.len() as u64, y.len() as u64, eq as u64, r.next() % 16]));
    }
    for idx in 0..cases {
        run.case("equality", idx, |r| {
            let n = if r.chance(1, 12) { 20 + r.us(200) } else { r.us(8) };
            let keys = if n < 8 { 10 } else { 400 };
            let mut x: M = (0..n).map(|_| (r.below(keys), 1 + r.us(3))).collect();
            let step = [1, 1, 1 << 8, 1 << 16, 1 << 32, 1 << 48, 1 << 63, usize::MAX / 2][r.us(8)];
            if r.chance(1, 3) {
                for v in x.values_mut() { if r.chance(1, 2) { *v = v.wrapping_add(step).max(1) } }
            }
            let mut y = x.clone();
            let two = |r: &mut Rng, y: &M| {
                let ks: Vec<u64> = y.keys().copied().collect();
                (*r.pick(&ks), *r.pick(&ks))
            };
            match r.below(9) {
                5 if n > 0 => { let (i, j) = two(r, &y); let (a, b) = (y[&i], y[&j]); y.insert(i, b); y.insert(j, a); }
                6 if n > 0 => { let (i, j) = two(r, &y); if y[&i] > 1 && y[&j] < usize::MAX { *y.get_mut(&i).unwrap() -= 1; *y.get_mut(&j).unwrap() += 1 } }
                7 if n > 0 => { let (i, _) = two(r, &y); let v = y[&i]; y.insert(i, v.wrapping_add(step).max(1)); }
                8 if n > 0 => { let (i, _) = two(r, &y); let v = y.remove(&i).unwrap(); y.insert(r.below(keys), v); }
                0 | 1 => {}
                2 => { y.insert(r.below(10), 1 + r.us(3)); }
                3 => { if let Some(k) = y.keys().next().copied() { y.remove(&k); } }
                _ => { if let Some(v) = y.values_mut().next() { *v += 1 } }
            }
            match r.below(4) {
                0 => pair::<u64, fnv::FnvBuildHasher>(r, &x, &y, Default::default(), Default::default()),
                1 => {
                    let salt = 1 + r.below(2);
                    pair::<String, Salted>(r, &x, &y, Salted(1), Salted(salt))
                }
                2 => pair::<Coarse, Collide>(r, &x, &y, Default::default(), Default::default()),
                _ => pair::<char, Weak>(r, &x, &y, Default::default(), Default::default()),
            }
        });
    }
}

/// Capacity promises, watched at the allocator.
fn capacity(run: &mut Run, cases: u64) {
    let dict = run.dict.clone();
    fn one<S: Hs>(r: &mut Rng, n: usize, how: u64) {
        op("capacity", n as u64, how, 0, T5);
        let a0 = vh::alloc::counts();
        let s = S::custom(3);
        let a1 = vh::alloc::counts();
        let mut c: Counter<u64, S> = match how {
            0 => Counter::with_capacity(n),
            1 => Counter::with_capacity_and_hasher(n, s),
            2 => { let mut c = Counter::with_hasher(s); c.reserve(n); c }
            3 => { let mut c: Counter<u64, S> = Counter::new(); c.reserve(n); c }
            // an emptied counter that is reserved for more
            4 => {
                let mut c: Counter<u64, S> = (0..20u64).collect();
                c.clear();
                c.reserve(n);
                c
            }
            // taking a map over keeps its storage
            _ => Counter::from_hashmap(HashMap::with_capacity_and_hasher(n, s)),
        };
        let a2 = vh::alloc::counts();
        if n == 0 && how != 4 {
            ck!(T5, a1.0 == a2.0 && a0.0 <= a1.0, "an empty counter of capacity 0 allocated {} times", a2.0 - a1.0);
        }
        ck!(T5, c.capacity() >= n, "capacity() is {} after asking for {n}", c.capacity());
        let base = r.next() >> 1;
        let a2 = vh::alloc::counts();
        for i in 0..n as u64 { c.push(base.wrapping_add(i.wrapping_mul(0x9E37_79B9))) }
        for i in 0..n as u64 { c.push(base.wrapping_add(i.wrapping_mul(0x9E37_79B9))) }
        let a3 = vh::alloc::counts();
        ck!(T5, a2 == a3, "adding {n} distinct elements to a counter with capacity for them made {} allocations (way {how})", a3.0 - a2.0);
        ck!(T5, c.len() == n && c.values().all(|v| *v == 2), "counts wrong after filling a reserved counter");
        state(h(&[n as u64, how, 77]));
    }
    for idx in 0..cases {
        run.case("capacity", idx, |r| {
            let n = match r.below(3) {
                _ if idx % 128 == 127 => if r.chance(1, 2) { (*r.pick(&dict) as usize).min(200_000) } else { r.us(150_000) },
                0 => r.us(40),
                1 => (*r.pick(&dict) as usize).min(5000),
                _ => r.skewed(3000) as usize,
            };
            let how = r.below(6);
            match r.below(3) {
                0 => one::<std::collections::hash_map::RandomState>(r, n, how),
                1 => one::<fnv::FnvBuildHasher>(r, n, how),
                _ => one::<Salted>(r, n, how),
            }
        });
    }
    for how in 0..6 {
        run.case("capacity-zero", how, |r| {
            one::<fnv::FnvBuildHasher>(r, 0, how);
            one::<fnv::FnvBuildHasher>(r, 1, how);
            one::<Salted>(r, 0, how);
            let a = vh::alloc::counts();
            let c: FastCounter<u64> = Counter::new();
            let d: FastCounter<u64> = Counter::default();
            let e: FastCounter<u64> = std::iter::empty::<u64>().collect();
            let b = vh::alloc::counts();
            ck!(T5, a == b && c.len() + d.len() + e.len() == 0, "empty counters allocated {} times", b.0 - a.0);
        });
    }
}

/// Long streams with many distinct elements.
fn streams(run: &mut Run, cases: u64, n: usize) {
    fn go<S: Hs>(r: &mut Rng, n: usize) {
        let keys = 1 + r.skewed(n as u64);
        let mut m: HashMap<u64, usize> = HashMap::new();
        let mut c: Counter<u64, S> = Counter::new();
        let skew = r.chance(1, 2);
        op("stream", n as u64, keys, 0, T1);
        for i in 0..n {
            let k = if skew { r.skewed(keys) } else { r.below(keys) };
            if i % 1000 == 999 { mon::progress() }
            c.push(k);
            *m.entry(k).or_insert(0) += 1;
        }
        ck!(T1, c.len() == m.len(), "{} distinct elements, expected {}", c.len(), m.len());
        for (k, v) in &m {
            ck!(T1, c.get(k) == Some(v), "element {k} has count {:?}, expected {v}", c.get(k));
        }
        op("most_common", 0, 0, 0, T2);
        let l = c.most_common();
        ck!(T2, l.len() == m.len() && l.windows(2).all(|w| w[0].1 >= w[1].1) && l.iter().all(|(k, v)| m[k] == *v), "most_common wrong for {} elements", m.len());
        op("add", 0, 0, 0, T3);
        let d: Counter<u64, Salted> = (0..keys / 2).collect();
        let s = c.clone() + &d;
        ck!(T3, s.iter().all(|(k, v)| *v == m.get(k).copied().unwrap_or(0) + (*k < keys / 2) as usize), "sum wrong");
        op("subtract", 0, 0, 0, T4);
        let s = s - &c;
        ck!(T4, s.len() as u64 == keys / 2 && s.iter().all(|(k, v)| *v == 1 && *k < keys / 2), "a + d - a is not d: {} elements, expected {}", s.len(), keys / 2);
    }
    for idx in 0..cases {
        run.case("stream", idx, |r| match idx % 3 {
            0 => go::<std::collections::hash_map::RandomState>(r, n),
            1 => go::<fnv::FnvBuildHasher>(r, n),
            _ => go::<Salted>(r, n),
        });
    }
}

// ------------------------------------------------------------------ C06
fn pcheck<S: BuildHasher>(c: &Counter<PKey, S>, m: &mut M, what: &str) {
    let mut got = M::new();
    for (k, v) in c.iter() {
        if got.insert(k.id, *v).is_some() {
            report(T6, format!("after {what}: element {} appears twice", k.id));
        }
    }
    ck!(T6, got == *m && c.len() == m.len(), "after {what}: counts {}, expected {}", show(&got), show(m));
    for (k, v) in m.iter() {
        let g = c.get(&PKey::new(*k, 0)).copied();
        ck!(T6, g == Some(*v), "after {what}: element {k} has count {g:?}, expected {v}");
    }
    *m = got;
}
fn poison<S: Hs>(run: &mut Run, cases: u64) {
    let phase = format!("poison/{}", S::NAME);
    for idx in 0..cases {
        run.case(&phase, idx, |r| {
            let mut c: Counter<PKey, S> = Counter::with_capacity_and_hasher(r.us(5), S::custom(2));
            let mut m = M::new();
            for _ in 0..r.us(12) {
                let k = r.below(6);
                c.push(PKey::new(k, 0));
                *m.entry(k).or_insert(0) += 1;
            }
            for _ in 0..8 {
                let n = r.us(8);
                let at = r.us(n + 2);
                let flag = 1 + r.below(2) as u8;
                let keys: Vec<u64> = (0..n).map(|_| r.below(9)).collect();
                let what;
                match r.below(5) {
                    0 => {
                        what = "pushing an element whose hash or comparison panics";
                        op("push (panics)", flag as u64, 0, 0, T6);
                        let k = r.below(9);
                        let p = PKey::new(k, flag);
                        let res = quiet(|| c.push(p));
                        if res.is_ok() {
                            // possible only when no comparison was needed; then it was added (still flagged)
                            *m.entry(k).or_insert(0) += 1;
                        }
                    }
                    1 => {
                        what = "extending with an element whose hash or comparison panics";
                        op("extend (element panics)", flag as u64, at as u64, 0, T6);
                        let done = std::cell::Cell::new(0);
                        let it = keys.iter().enumerate().map(|(i, k)| {
                            done.set(i);
                            PKey::new(*k, if i == at { flag } else { 0 })
                        });
                        let res = quiet(|| c.extend(feed(it, n, r.next())));
                        let cnt = if res.is_ok() { n } else { done.get() };
                        for k in &keys[..cnt] { *m.entry(*k).or_insert(0) += 1 }
                    }
                    2 => {
                        what = "extending from an iterator that panics";
                        op("extend (iterator panics)", at as u64, 0, 0, T6);
                        let it = Bomb { it: keys.iter().map(|k| PKey::new(*k, 0)), left: at, hint: r.us(20) };
                        let _ = quiet(|| c.extend(it));
                        for k in &keys[..at.min(n)] { *m.entry(*k).or_insert(0) += 1 }
                    }
                    3 => {
                        what = "building another counter from something that panics";
                        op("from_iter (panics)", at as u64, 0, 0, T6);
                        let it = Bomb { it: keys.iter().map(|k| PKey::new(*k, 0)), left: at, hint: r.us(20) };
                        let _ = quiet(|| it.collect::<Counter<PKey, S>>());
                    }
                    _ => {
                        what = "adding a counter one of whose elements panics in hashing";
                        op("add (element panics)", flag as u64, 0, 0, T6);
                        let mut d: Counter<PKey, Weak> = Counter::new();
                        for k in &keys { d.push(PKey::new(*k, 0)) }
                        let dm: M = d.iter().map(|(k, v)| (k.id, *v)).collect();
                        let bad = keys.first().copied();
                        for k in d.keys() {
                            if Some(k.id) == bad { k.flag.set(if r.chance(1, 2) { 1 } else { 3 }) }
                        }
                        let by_ref = r.chance(1, 2);
                        let order: Vec<u64> = d.iter().map(|(k, _)| k.id).collect();
                        let res = quiet(|| if by_ref { c += &d } else { c += d });
                        let res_ok = res.is_ok();
                        // each element is either completely added or untouched; the bad one only if nothing panicked
                        let mut now = M::new();
                        for (k, v) in c.iter() { now.insert(k.id, *v); }
                        for k in &order {
                            let old = m.get(k).copied().unwrap_or(0);
                            let new = now.get(k).copied().unwrap_or(0);
                            let full = old + dm[k];
                            let ok = if res_ok { new == full } else if Some(*k) == bad { new == old } else { new == old || new == full };
                            ck!(T6, ok, "after {what}: element {k} went from {old} to {new}, operand has {}", dm[k]);
                            if new > 0 { m.insert(*k, new); }
                            else { m.remove(k); }
                        }
                    }
                }
                // poisoned keys that were legitimately added become harmless
                heal();
                pcheck(&c, &mut m, what);
                op("use after a panic", 0, 0, 0, T6);
                let k = r.below(9);
                c.push(PKey::new(k, 0));
                *m.entry(k).or_insert(0) += 1;
                if r.chance(1, 4) {
                    c.extend((0..30).map(|k| PKey::new(k, 0)));
                    for k in 0..30 { *m.entry(k).or_insert(0) += 1 }
                }
                if r.chance(1, 4) {
                    let d: Counter<PKey, S> = (3..6).map(|k| PKey::new(k, 0)).collect();
                    c -= &d;
                    for k in 3..6 {
                        match m.get(&k).copied() {
                            Some(v) if v > 1 => { m.insert(k, v - 1); }
                            _ => { m.remove(&k); }
                        }
                    }
                }
                if r.chance(1, 5) {
                    c.clear();
                    m.clear();
                }
                pcheck(&c, &mut m, "further operations");
                let l = c.clone().into_most_common();
                ck!(T6, l.len() == m.len() && l.windows(2).all(|w| w[0].1 >= w[1].1) && l.iter().all(|(k, v)| m.get(&k.id) == Some(v)), "listing wrong after an injected panic");
                state(h(&[flag as u64, at as u64, m.iter().fold(1, |a, (k, v)| h(&[a, *k, *v as u64]))]));
            }
        });
    }
}

fn main() {
    let a = vh::args::parse();
    let run = &mut Run::new(a);
    use std::collections::hash_map::RandomState as R;
    type F = fnv::FnvBuildHasher;
    let m = run.miri();
    let q = |run: &Run, n: u64, t: u64| if m { 2 } else { run.n(n, t) };
    match run.a.prop.as_str() {
        "C06" => {
            poison::<R>(run, q(run, 12_000, 300_000));
            poison::<F>(run, q(run, 12_000, 300_000));
            poison::<Weak>(run, q(run, 12_000, 300_000));
            poison::<Collide>(run, q(run, 6_000, 150_000));
        }
        p => {
            let p = p.to_string();
            if p == "C02" { listings(run, q(run, 12_000, 200_000)) }
            if p == "C03" || p == "C04" {
                small_pairs::<R, F>(run);
                small_pairs::<F, F>(run);
                small_pairs::<Collide, Salted>(run);
            }
            if p == "C05" {
                equality(run, q(run, 30_000, 500_000));
                capacity(run, q(run, 3_000, 40_000));
            }
            let (n, t) = (q(run, 2_500, 60_000), 40);
            random::<u64, R, F>(run, n, t, 6, 12);
            random::<u64, F, R>(run, n, t, 6, 12);
            random::<u64, F, F>(run, n, t, 4, 12);
            random::<u64, Collide, Weak>(run, n / 2 + 1, t, 6, 12);
            random::<u64, Salted, Salted>(run, n, t, 12, 40);
            random::<String, R, Salted>(run, n / 2 + 1, t, 6, 12);
            random::<(u8, Option<Box<u64>>), Weak, F>(run, n / 2 + 1, t, 9, 12);
            random::<char, F, Salted>(run, n / 2 + 1, t, 6, 12);
            random::<i32, R, R>(run, n / 2 + 1, t, 6, 12);
            random::<u8, Salted, Collide>(run, n / 2 + 1, t, 300, 300);
            random::<Coarse, R, F>(run, n / 2 + 1, t, 6, 12);
            random::<(), F, R>(run, n / 4 + 1, t, 1, 12);
            if !m {
                random::<u64, F, R>(run, run.n(160, 3_000), 60, 2000, 4096);
                random::<u64, R, Salted>(run, run.n(80, 1_500), 60, 100_000, 70_000);
                streams(run, run.n(24, 200), if run.a.thorough { 400_000 } else { 100_000 });
            }
        }
    }
    count("dictionary entries", run.dict.len() as u64);
    run.finish()
}
