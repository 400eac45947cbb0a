//! X01: sharing and sending collections between threads.
//!
//! Monitors: auto-trait probes (compile either way), digests of concurrent read-only use
//! against the model, independent instances against their own models. Race detectors
//! (Miri, ThreadSanitizer) watch the same executions.
use advanced_collections::circular_buffer::{self, CircularBuffer};
use advanced_collections::counter::{Counter, FastCounter};
use advanced_collections::disjoint_set::{DisjointSet, FastDisjointSet};
use advanced_collections::interval::{Interval, LowerBound, UpperBound};
use std::cell::Cell;
use std::collections::{BTreeMap, VecDeque};
use std::hash::{Hash, Hasher};
use std::marker::PhantomData;
use std::rc::Rc;
use std::sync::{Barrier, Mutex};
use vh::ck;
use vh::mon::{self, count, h, op, state, Run as Ctx, Tags};
use vh::rng::{mix, Rng};

const X: Tags = &["X01"];

// ------------------------------------------------------------------ auto traits
struct Sent<T: ?Sized>(PhantomData<T>);
struct Shared<T: ?Sized>(PhantomData<T>);
trait No { const YES: bool = false; }
impl<T: ?Sized> No for Sent<T> {}
impl<T: ?Sized> No for Shared<T> {}
impl<T: ?Sized + Send> Sent<T> { const YES: bool = true; }
impl<T: ?Sized + Sync> Shared<T> { const YES: bool = true; }

macro_rules! probe { ($($t:ty => $send:expr, $sync:expr);* $(;)?) => {{ $(
    op("auto traits", 0, 0, 0, X);
    let got = (<Sent<$t>>::YES, <Shared<$t>>::YES);
    ck!(X, got == ($send, $sync), "{}: (Send, Sync) is {got:?}, expected {:?}", stringify!($t), ($send, $sync));
    state(h(&[vh::rng::hash_str(stringify!($t))]));
)* }} }

fn auto_traits() {
    type S = String;
    type M = Cell<u8>; // Send, not Sync
    type R = Rc<u8>; // neither
    type G = std::sync::MutexGuard<'static, u8>; // Sync, not Send
    probe! {
        CircularBuffer<u8> => true, true;
        CircularBuffer<S> => true, true;
        CircularBuffer<Box<dyn Fn() + Send + Sync>> => true, true;
        CircularBuffer<M> => true, false;
        CircularBuffer<R> => false, false;
        CircularBuffer<G> => false, true;
        CircularBuffer<*mut u8> => false, false;
        CircularBuffer<&'static M> => false, false;
        CircularBuffer<CircularBuffer<R>> => false, false;
        circular_buffer::IntoIter<R> => false, false;
        circular_buffer::Iter<'static, M> => false, false;
        circular_buffer::Iter<'static, R> => false, false;
        circular_buffer::IterMut<'static, R> => false, false;
        circular_buffer::Drain<'static, R> => false, false;
        Counter<u8> => true, true;
        Counter<S> => true, true;
        FastCounter<u64> => true, true;
        DisjointSet<u8> => true, true;
        DisjointSet<S> => true, true;
        FastDisjointSet<u64> => true, true;
        Interval<u8> => true, true;
        Interval<S> => true, true;
        LowerBound<S> => true, true;
        UpperBound<S> => true, true;
        Counter<R> => false, false;
        DisjointSet<R> => false, false;
        Interval<R> => false, false;
        Interval<Rc<S>> => false, false;
        LowerBound<R> => false, false;
        UpperBound<R> => false, false;
    }
}

// ------------------------------------------------------------------ helpers
/// The workload must build even if a collection lost Send or Sync.
struct Force<T>(T);
unsafe impl<T> Sync for Force<T> {}
unsafe impl<T> Send for Force<T> {}
impl<T> Force<T> {
    fn get(&self) -> &T { &self.0 }
    fn take(self) -> T { self.0 }
}

/// Run `f` on `n` threads at once; monitors' observations are merged, the first
/// violation of any of them is raised here.
fn threads(n: usize, f: impl Fn(usize) + Sync) {
    let bar = Barrier::new(n);
    let bad: Mutex<Option<Box<dyn std::any::Any + Send>>> = Mutex::new(None);
    let seen = Mutex::new(vec![]);
    std::thread::scope(|s| {
        for i in 0..n {
            let (bar, bad, seen, f) = (&bar, &bad, &seen, &f);
            s.spawn(move || {
                mon::adopt_thread();
                bar.wait();
                let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| f(i)));
                if let Err(p) = r {
                    let lp = mon::last_panic();
                    bad.lock().unwrap().get_or_insert_with(|| if p.is::<mon::Violation>() { p } else { Box::new(lp) });
                }
                seen.lock().unwrap().push(mon::take_thread());
            });
        }
    });
    for t in seen.into_inner().unwrap() { mon::merge_thread(t) }
    count("threads run", n as u64);
    if let Some(p) = bad.into_inner().unwrap() {
        if let Some(s) = p.downcast_ref::<String>() {
            if s.contains("harness/src/") || s.starts_with("panicked at src/") {
                mon::set_last_panic(s.clone());
                panic!("thread: {s}");
            }
            mon::report(X, format!("a thread panicked: {s}"));
        } else {
            std::panic::resume_unwind(p);
        }
    }
}

fn hash<T: Hash>(t: &T) -> u64 {
    let mut h = std::collections::hash_map::DefaultHasher::new();
    t.hash(&mut h);
    h.finish()
}

trait Val: Ord + Clone + Hash + std::fmt::Debug + Send + Sync + 'static {
    fn mk(i: u64) -> Self;
}
impl Val for u64 {
    fn mk(i: u64) -> u64 { i }
}
impl Val for String {
    fn mk(i: u64) -> String { format!("value {i}") }
}
impl Val for () {
    fn mk(_: u64) {}
}

// ------------------------------------------------------------------ shared readers
fn read_buffer<T: Val>(b: &CircularBuffer<T>, other: &CircularBuffer<T>, m: &[T], om: &[T], cap: usize, r: &mut Rng) {
    for _ in 0..12 {
        op("shared buffer read", 0, 0, 0, X);
        let k = r.below(14);
        let ok = match k {
            0 => b.len() == m.len() && b.is_empty() == m.is_empty() && b.capacity() == cap && b.is_full() == (m.len() == cap),
            1 => b.iter().eq(m.iter()),
            2 => b.iter().rev().eq(m.iter().rev()),
            3 => m.is_empty() || { let i = r.us(m.len()); b[i] == m[i] },
            4 => b.first() == m.first() && b.last() == m.last(),
            5 => { let (x, y) = b.slices(); x.iter().chain(y).eq(m.iter()) }
            6 => (b == other) == (m == om) && *b == *m,
            7 => b.cmp(other) == m.cmp(om) && b.partial_cmp(other) == m.partial_cmp(om),
            8 => { let c = b.clone(); c.iter().eq(m.iter()) && c.capacity() == cap }
            9 => format!("{b:?}").len() > 0,
            10 => (&b).into_iter().eq(m.iter()),
            11 => b.clone().into_iter().eq(m.iter().cloned()),
            12 => { let mut c = b.clone(); c.push_back(T::mk(1)); c.reverse(); c.clear(); b.len() == m.len() }
            _ => { let mut it = b.iter(); it.next(); it.next_back(); it.count() == m.len().saturating_sub(2) }
        };
        ck!(X, ok, "concurrent read {k} of a shared buffer disagrees with its contents {m:?}");
        state(h(&[k, m.len() as u64, cap as u64]));
    }
}

fn shared_buffer<T: Val>(r: &mut Rng, n: usize, rounds: usize, max: u64) {
    let mut mk = |r: &mut Rng| {
        let c = r.below(max) as usize;
        let mut b = CircularBuffer::with_capacity(c);
        let mut m = VecDeque::new();
        for _ in 0..r.below(3 * max) {
            let v = T::mk(r.below(9));
            match r.below(4) {
                0 => { b.pop_front(); m.pop_front(); }
                1 => {
                    b.push_front(v.clone());
                    m.push_front(v);
                    m.truncate(c);
                }
                _ => {
                    b.push_back(v.clone());
                    m.push_back(v);
                    if m.len() > c { m.pop_front(); }
                }
            }
        }
        (Force(b), m.into_iter().collect::<Vec<T>>(), c)
    };
    let ((a, am, ac), (b, bm, bc)) = (mk(r), mk(r));
    let seed = r.next();
    threads(n, |i| {
        let mut r = Rng::new(mix(seed) ^ i as u64);
        for _ in 0..rounds {
            read_buffer(a.get(), b.get(), &am, &bm, ac, &mut r);
            read_buffer(b.get(), a.get(), &bm, &am, bc, &mut r);
        }
    });
}

fn shared_counter<T: Val>(r: &mut Rng, n: usize, rounds: usize, max: u64) {
    let mut c: Counter<T> = Counter::new();
    let mut fast: FastCounter<T> = FastCounter::default();
    let (mut m, mut fm) = (BTreeMap::new(), BTreeMap::new());
    for _ in 0..r.below(4 * max) {
        let v = T::mk(r.below(max));
        if r.chance(2, 3) { c.push(v.clone()); *m.entry(v.clone()).or_insert(0usize) += 1; }
        if r.chance(1, 2) { fast.push(v.clone()); *fm.entry(v).or_insert(0usize) += 1; }
    }
    let seed = r.next();
    let (c, fast) = (Force(c), Force(fast));
    threads(n, |i| {
        let (c, fast) = (c.get(), fast.get());
        let mut r = Rng::new(mix(seed) ^ i as u64);
        let same = |it: Vec<(T, usize)>, m: &BTreeMap<T, usize>| it.len() == m.len() && it.into_iter().collect::<BTreeMap<_, _>>() == *m;
        for _ in 0..6 * rounds {
            op("shared counter read", 0, 0, 0, X);
            let k = r.below(9);
            let v = T::mk(r.below(max));
            let sum = || { let mut s = m.clone(); for (k, v) in &fm { *s.entry(k.clone()).or_insert(0) += v } s };
            let diff = || { let mut s = m.clone(); for (k, v) in &fm { if let Some(x) = s.get_mut(k) { *x = x.saturating_sub(*v) } } s.retain(|_, v| *v > 0); s };
            let ok = match k {
                0 => c.get(&v) == m.get(&v) && c.contains_key(&v) == m.contains_key(&v),
                1 => c.len() == m.len() && fast.len() == fm.len(),
                2 => { let l = c.most_common(); l.windows(2).all(|w| w[0].1 >= w[1].1) && same(l, &m) }
                3 => same(c.iter().map(|(k, v)| (k.clone(), *v)).collect(), &m),
                4 => same((c.clone() + fast).into_iter().collect(), &sum()),
                5 => same((c.clone() - fast).into_iter().collect(), &diff()),
                6 => same(c.clone().into_most_common(), &m),
                7 => same(fast.most_common(), &fm) && same(fast.into_iter().map(|(k, v)| (k.clone(), *v)).collect(), &fm),
                _ => format!("{c:?}").len() > 0 && { let mut d = c.clone(); d.push(v); d.clear(); c.len() == m.len() },
            };
            ck!(X, ok, "concurrent read {k} of shared counters disagrees with {m:?} and {fm:?}");
            state(h(&[100 + k, m.len() as u64]));
        }
    });
}

fn shared_set<T: Val>(r: &mut Rng, n: usize, rounds: usize, max: u64) {
    let mut d: DisjointSet<T> = DisjointSet::new();
    let mut label: Vec<Option<u64>> = vec![None; max as usize];
    for _ in 0..r.below(2 * max) {
        let (a, b) = (r.below(max), r.below(max));
        if r.chance(1, 3) {
            d.make_set(T::mk(a));
            label[a as usize].get_or_insert(a);
        } else {
            d.union(T::mk(a), T::mk(b));
            let x = *label[a as usize].get_or_insert(a);
            let y = *label[b as usize].get_or_insert(b);
            for l in label.iter_mut().filter(|l| **l == Some(y)) { *l = Some(x) }
        }
    }
    let distinct = T::mk(0) != T::mk(1);
    let seed = r.next();
    let d = Force(d);
    threads(n, |i| {
        let d = d.get();
        let mut r = Rng::new(mix(seed) ^ i as u64);
        for _ in 0..4 * rounds {
            op("shared disjoint set read", 0, 0, 0, X);
            let (a, b) = (r.below(max), r.below(max));
            let k = r.below(4);
            let size = label.iter().flatten().count();
            let size = if distinct { size } else { size.min(1) };
            let has = |a: u64| if distinct { label[a as usize].is_some() } else { size == 1 };
            let ok = match k {
                0 => d.contains(&T::mk(a)) == has(a),
                1 => d.len() == size && d.is_empty() == (size == 0),
                2 => format!("{d:?}").len() > 0,
                _ => {
                    let mut c = d.clone();
                    let (x, y) = (label[a as usize], label[b as usize]);
                    let joined = if distinct { x.is_some() && x == y } else { size == 1 };
                    let j = c.in_union(&T::mk(a), &T::mk(b)) == joined;
                    c.union(T::mk(a), T::mk(b));
                    c.make_set(T::mk(max + 1));
                    let t: usize = (&mut c).into_iter().map(|g| g.count()).sum();
                    j && c.in_union(&T::mk(a), &T::mk(b)) && t == c.len()
                }
            };
            ck!(X, ok, "concurrent use {k} of a shared disjoint set disagrees with its partition {label:?}");
            state(h(&[200 + k, size as u64]));
        }
    });
}

fn shared_interval<T: Val>(r: &mut Rng, n: usize, rounds: usize) {
    // positions as in the interval monitor
    let mk = |r: &mut Rng| {
        let (a, b) = (r.below(9), r.below(9));
        let (a, b) = (T::mk(a.min(b)), T::mk(a.max(b)));
        let (lc, uc) = (a >= b || r.chance(1, 2), a >= b || r.chance(1, 2));
        let (a, b) = if a <= b { (a, b) } else { (b, a) };
        (Force(Interval::new(a.clone(), lc, b.clone(), uc)), (a, lc, b, uc))
    };
    let v: Vec<_> = (0..4).map(|_| mk(r)).collect();
    let seed = r.next();
    threads(n, |i| {
        let mut r = Rng::new(mix(seed) ^ i as u64);
        for _ in 0..8 * rounds {
            op("shared interval read", 0, 0, 0, X);
            let (a, (l, lc, u, uc)) = { let x = &v[r.us(v.len())]; (x.0.get(), x.1.clone()) };
            let (b, (ol, olc, ou, ouc)) = { let x = &v[r.us(v.len())]; (x.0.get(), x.1.clone()) };
            let p = T::mk(r.below(9));
            let inside = |p: &T| (l < *p || l == *p && lc) && (*p < u || u == *p && uc);
            let oinside = |p: &T| (ol < *p || ol == *p && olc) && (*p < ou || ou == *p && ouc);
            let k = r.below(9);
            let ok = match k {
                0 => a.contains_val(&p) == inside(&p),
                1 => a.bounds().is_some_and(|(x, y)| *x.val() == l && x.is_closed() == lc && *y.val() == u && y.is_closed() == uc),
                2 => (a == b) == ((&l, lc, &u, uc) == (&ol, olc, &ou, ouc)) && a.is_single() == (l == u),
                3 => a.clone().into_intersection(b.clone()).contains_val(&p) == (inside(&p) && oinside(&p)),
                4 => a.clone().into_merged(b.clone()).map_or(true, |m| m.contains_val(&p) == (inside(&p) || oinside(&p))),
                5 => a.clone().into_span(b.clone()).contains_interval(a) && (a.contains_interval(b) == (a.clone().into_intersection(b.clone()) == *b)),
                6 => a.intersects(b) != a.clone().into_intersection(b.clone()).is_empty(),
                7 => hash(a) == hash(&a.clone()) && format!("{a:?}") == format!("{:?}", a.clone()),
                _ => (a < b) == (u < ol || u == ol && !(uc && olc)) && (*a < p) == (u < p || u == p && !uc),
            };
            ck!(X, ok, "concurrent read {k} of shared intervals {a:?} and {b:?} is wrong");
            state(h(&[300 + k]));
        }
    });
}

// ------------------------------------------------------------------ separate instances
/// A history on own instances, checked against own models. Returns a digest of what was seen.
fn own(seed: u64, steps: u64, max: u64) -> u64 {
    let mut r = Rng::new(seed);
    let cap = 1 + r.below(max) as usize;
    let mut b = CircularBuffer::with_capacity(cap);
    let mut bm: VecDeque<u64> = VecDeque::new();
    let mut c: Counter<u64> = Counter::new();
    let mut cm: BTreeMap<u64, usize> = BTreeMap::new();
    let mut d: FastDisjointSet<u64> = FastDisjointSet::default();
    let mut dl: Vec<Option<u64>> = vec![None; max as usize];
    let mut iv = Interval::closed(0i64, 0);
    let mut im = (0i64, 0i64);
    let mut dig = 0u64;
    for _ in 0..steps {
        op("separate instances", 0, 0, 0, X);
        let (x, y) = (r.below(max), r.below(max));
        match r.below(8) {
            0 => { b.push_back(x); bm.push_back(x); if bm.len() > cap { bm.pop_front(); } }
            1 => { b.push_front(x); bm.push_front(x); bm.truncate(cap); }
            2 => { ck!(X, b.pop_back() == bm.pop_back(), "separate buffer: wrong element popped"); }
            3 => { c.push(x); *cm.entry(x).or_insert(0) += 1; }
            4 => {
                d.union(x, y);
                let p = *dl[x as usize].get_or_insert(x);
                let q = *dl[y as usize].get_or_insert(y);
                for l in dl.iter_mut().filter(|l| **l == Some(q)) { *l = Some(p) }
            }
            5 => {
                let j = dl[x as usize].is_some() && dl[x as usize] == dl[y as usize];
                ck!(X, d.in_union(&x, &y) == j, "separate disjoint set: in_union({x},{y}) is not {j}");
            }
            6 => { iv.span(Interval::closed(x as i64, x as i64 + y as i64)); im = (im.0.min(x as i64), im.1.max((x + y) as i64)); }
            _ => { iv += y as i64; iv = -iv; im = (-(im.1 + y as i64), -(im.0 + y as i64)); }
        }
        ck!(X, b.len() == bm.len() && b.iter().eq(&bm), "separate buffer: {b:?} is not {bm:?}");
        ck!(X, c.get(&x) == cm.get(&x) && c.len() == cm.len(), "separate counter: {c:?} is not {cm:?}");
        ck!(X, d.contains(&x) == dl[x as usize].is_some(), "separate disjoint set: contains({x}) is wrong");
        ck!(X, iv == Interval::closed(im.0, im.1), "separate interval: {iv} is not {im:?}");
        dig = mix(dig ^ b.len() as u64 ^ (c.len() as u64) << 8 ^ (d.len() as u64) << 16 ^ (im.1 as u64) << 24);
    }
    let l = c.most_common();
    ck!(X, l.windows(2).all(|w| w[0].1 >= w[1].1) && l.into_iter().collect::<BTreeMap<_, _>>() == cm, "separate counter: wrong listing");
    let t: usize = (&mut d).into_iter().map(|g| g.count()).sum();
    ck!(X, t == dl.iter().flatten().count(), "separate disjoint set: iteration gives {t} elements");
    state(h(&[seed, dig]));
    dig
}

/// Instances handed from thread to thread, changed on each.
fn passed(r: &mut Rng, hops: usize, max: u64) {
    let cap = 1 + r.below(max) as usize;
    let mut b = Force(CircularBuffer::<String>::with_capacity(cap));
    let mut c = Force(Counter::<String>::new());
    let mut d = Force(DisjointSet::<String>::new());
    let mut iv = Force(Interval::closed("m".to_string(), "m".to_string()));
    let mut bm: VecDeque<String> = VecDeque::new();
    let mut cm: BTreeMap<String, usize> = BTreeMap::new();
    for hop in 0..hops {
        let seed = r.next();
        let (tb, tc, td, ti, tbm, tcm) = std::thread::spawn(move || {
            let mut r = Rng::new(seed);
            let (mut b, mut c, mut d, mut iv) = (b.take(), c.take(), d.take(), iv.take());
            for _ in 0..r.below(2 * max) {
                let v = format!("{}", r.below(max));
                b.push_back(v.clone());
                bm.push_back(v.clone());
                if bm.len() > cap { bm.pop_front(); }
                c.push(v.clone());
                *cm.entry(v.clone()).or_insert(0) += 1;
                d.union(v.clone(), format!("{}", cm.len()));
                iv.span(Interval::single(v));
            }
            if r.chance(1, 3) { b.linearize(); }
            (Force(b), Force(c), Force(d), Force(iv), bm, cm)
        }).join().expect("passed thread");
        (b, c, d, iv, bm, cm) = (tb, tc, td, ti, tbm, tcm);
        op("handed over", hop as u64, 0, 0, X);
        ck!(X, b.get().iter().eq(&bm), "buffer after being sent: {:?}, expected {bm:?}", b.get());
        ck!(X, c.get().len() == cm.len() && cm.iter().all(|(k, v)| c.get().get(k) == Some(v)), "counter after being sent: {:?}", c.get());
        ck!(X, cm.keys().all(|k| d.get().contains(k) && iv.get().contains_val(k)), "disjoint set or interval lost elements when sent");
    }
    // dropped elsewhere
    std::thread::spawn(move || drop((b, c, d, iv))).join().unwrap();
}

// ------------------------------------------------------------------ instances used by the elements of others
thread_local! {
    static INSIDE: Cell<bool> = const { Cell::new(false) };
    static TURN: Cell<u64> = const { Cell::new(0) };
    static EVERY: Cell<u64> = const { Cell::new(1) };
}
/// An element whose clone, drop, comparison, hash and arithmetic use other collections.
struct Nest(u64);
fn nested() {
    if INSIDE.with(|i| i.get()) || std::thread::panicking() { return }
    let turn = TURN.with(|t| { t.set(t.get() + 1); t.get() });
    if turn % EVERY.with(|e| e.get()) != 0 { return }
    INSIDE.with(|i| i.set(true));
    let mut r = Rng::new(mix(turn));
    let kind = r.next();
    work(&mut r, kind, 6);
    INSIDE.with(|i| i.set(false));
    count("operations by elements", 1);
}
impl Clone for Nest { fn clone(&self) -> Nest { nested(); Nest(self.0) } }
impl Drop for Nest { fn drop(&mut self) { nested() } }
impl PartialEq for Nest { fn eq(&self, o: &Nest) -> bool { nested(); self.0 == o.0 } }
impl Eq for Nest {}
impl PartialOrd for Nest { fn partial_cmp(&self, o: &Nest) -> Option<std::cmp::Ordering> { Some(self.cmp(o)) } }
impl Ord for Nest { fn cmp(&self, o: &Nest) -> std::cmp::Ordering { nested(); self.0.cmp(&o.0) } }
impl Hash for Nest { fn hash<H: Hasher>(&self, h: &mut H) { nested(); self.0.hash(h) } }
impl std::ops::Add<u64> for Nest { type Output = Nest; fn add(self, o: u64) -> Nest { nested(); Nest(self.0 + o) } }
impl std::fmt::Display for Nest { fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { nested(); write!(f, "{}", self.0) } }

/// One small program on one kind of collection, against its model.
fn work(r: &mut Rng, kind: u64, size: u64) {
    let ids: Vec<u64> = (0..r.below(size + 1)).map(|_| r.below(size)).collect();
    let mk = |v: &[u64]| v.iter().map(|i| Nest(*i)).collect::<Vec<_>>();
    let is = |b: &CircularBuffer<Nest>, v: &[u64]| b.len() == v.len() && b.iter().map(|x| x.0).eq(v.iter().copied());
    op("nested instances", kind % 4, 0, 0, X);
    match kind % 4 {
        0 => {
            let cap = 1 + r.us(size as usize);
            let mut b: CircularBuffer<Nest> = CircularBuffer::new(cap);
            let rot = r.us(cap);
            for _ in 0..rot { b.push_back(Nest(99)); drop(b.pop_front()); }
            b.extend(mk(&ids));
            b.extend(mk(&ids).iter());
            let mut m: VecDeque<u64> = ids.iter().chain(&ids).copied().collect();
            while m.len() > cap { m.pop_front(); }
            let mut m: Vec<u64> = m.into();
            ck!(X, is(&b, &m), "nested buffer: wrong content after extending");
            let c = b.clone();
            ck!(X, is(&c, &m) && c == b && c.cmp(&b).is_eq() && !(c < b), "nested buffer: wrong clone");
            b.reverse();
            m.reverse();
            b.linearize();
            if m.len() > 1 { b.swap(0, m.len() - 1); let k = m.len() - 1; m.swap(0, k); }
            ck!(X, is(&b, &m) && b.partial_cmp(&c) == Some(m.iter().cmp(c.iter().map(|x| &x.0))), "nested buffer: wrong after rearranging");
            let to = r.us(cap + 2);
            b.resize(to);
            m.drain(..m.len().saturating_sub(to));
            ck!(X, is(&b, &m), "nested buffer: wrong after resizing");
            let mut d: CircularBuffer<Nest> = mk(&ids).into_iter().collect();
            d.append(&mut b);
            let mut w: Vec<u64> = ids.iter().chain(&m).copied().collect();
            w.drain(..w.len() - ids.len());
            ck!(X, is(&d, &w) && b.is_empty(), "nested buffer: wrong after appending");
            let k = w.len() / 2;
            let t: Vec<u64> = d.drain().take(k).map(|x| x.0).collect();
            ck!(X, t == w[..k] && is(&d, &w[k..]), "nested buffer: wrong after draining");
            match r.below(3) { 0 => d.clear(), 1 => d.into_iter().for_each(drop), _ => drop(d.into_iter().next()) }
        }
        1 => {
            let mut c: Counter<Nest> = mk(&ids).iter().collect();
            let mut m: BTreeMap<u64, usize> = BTreeMap::new();
            for i in &ids { *m.entry(*i).or_insert(0) += 1 }
            let o: Counter<Nest> = mk(&ids[..ids.len() / 2]).into_iter().collect();
            let mut om: BTreeMap<u64, usize> = BTreeMap::new();
            for i in &ids[..ids.len() / 2] { *om.entry(*i).or_insert(0) += 1 }
            let as_map = |l: &[(Nest, usize)]| l.iter().map(|(k, v)| (k.0, *v)).collect::<BTreeMap<_, _>>();
            let sorted = |l: &[(Nest, usize)]| l.windows(2).all(|w| w[0].1 >= w[1].1);
            let l = c.most_common();
            ck!(X, sorted(&l) && l.len() == m.len() && as_map(&l) == m, "nested counter: wrong listing");
            match r.below(4) {
                0 => { c += &o; for (k, v) in &om { *m.get_mut(k).unwrap() += v } }
                1 => { c = c + o.clone(); for (k, v) in &om { *m.get_mut(k).unwrap() += v } }
                2 => { c -= &o; for (k, v) in &om { *m.get_mut(k).unwrap() -= v } }
                _ => { c = c - o.clone(); for (k, v) in &om { *m.get_mut(k).unwrap() -= v } }
            }
            m.retain(|_, v| *v > 0);
            ck!(X, c.len() == m.len() && c.iter().all(|(k, v)| m.get(&k.0) == Some(v)), "nested counter: wrong counts after arithmetic");
            ck!(X, (*c == *o) == (m == om), "nested counter: wrong comparison");
            c.extend(mk(&ids));
            c.push(Nest(1));
            for i in ids.iter().chain(&[1]) { *m.entry(*i).or_insert(0) += 1 }
            let l = c.clone().into_most_common();
            ck!(X, sorted(&l) && as_map(&l) == m, "nested counter: wrong consuming listing");
            ck!(X, c.into_iter().map(|(k, v)| (k.0, v)).collect::<BTreeMap<_, _>>() == m, "nested counter: wrong entries");
        }
        2 => {
            let mut d: DisjointSet<Nest> = mk(&ids).into_iter().collect();
            let mut l: Vec<Option<u64>> = vec![None; size as usize];
            for i in &ids { l[*i as usize] = Some(*i) }
            for _ in 0..size {
                let (x, y) = (r.below(size), r.below(size));
                d.union(Nest(x), Nest(y));
                let p = *l[x as usize].get_or_insert(x);
                let q = *l[y as usize].get_or_insert(y);
                for v in l.iter_mut().filter(|v| **v == Some(q)) { *v = Some(p) }
                let (x, y) = (r.below(size), r.below(size));
                let j = l[x as usize].is_some() && l[x as usize] == l[y as usize];
                ck!(X, d.in_union(&Nest(x), &Nest(y)) == j, "nested disjoint set: in_union({x},{y}) is not {j}");
                if r.chance(1, 4) { d = d.clone() }
            }
            d.make_set(Nest(0));
            l[0].get_or_insert(0);
            let mut n = 0;
            for g in &mut d {
                let g: Vec<u64> = g.map(|x| x.0).collect();
                n += g.len();
                let p = l[g[0] as usize];
                ck!(X, p.is_some() && g.iter().all(|x| l[*x as usize] == p) && l.iter().filter(|v| **v == p).count() == g.len(), "nested disjoint set: wrong group {g:?}");
            }
            ck!(X, n == d.len() && n == l.iter().flatten().count(), "nested disjoint set: {n} elements iterated");
            d.clear();
            ck!(X, d.is_empty() && !d.contains(&Nest(0)), "nested disjoint set: not empty after clear");
        }
        _ => {
            let (a, b, c, e) = (r.below(size), r.below(size), r.below(size), r.below(size));
            let (a, b, c, e) = (a.min(b), a.max(b), c.min(e), c.max(e));
            let x = Interval::closed(Nest(a), Nest(b));
            let y = Interval::closed(Nest(c), Nest(e));
            let has = |i: &Interval<Nest>, lo: u64, hi: u64| (0..3 * size).all(|p| i.contains_val(&Nest(p)) == (lo <= p && p <= hi));
            let meet = a.max(c) <= b.min(e);
            let i = x.clone().into_intersection(y.clone());
            ck!(X, x.intersects(&y) == meet && i.is_empty() != meet && (!meet || has(&i, a.max(c), b.min(e))), "nested interval: wrong intersection");
            let mut s = x.clone();
            s.span(y.clone());
            ck!(X, has(&s, a.min(c), b.max(e)) && s.contains_interval(&x) && s.contains_interval(&y), "nested interval: wrong span");
            let mut t = x.clone();
            let ok = t.merge(y.clone()).is_ok();
            ck!(X, ok == meet && (if ok { t == s } else { t == x }), "nested interval: wrong merge");
            ck!(X, (x < y) == (b < c) && (x > y) == (a > e) && (x == y) == (a == c && b == e), "nested interval: wrong comparison");
            ck!(X, x.to_string() == format!("[{a},{b}]") && has(&(x + 2), a + 2, b + 2), "nested interval: wrong after adding, or wrong text");
        }
    }
    state(h(&[kind % 4, ids.len() as u64, size]));
}

fn main() {
    let a = vh::args::parse();
    let cx = &mut Ctx::new(a);
    let m = cx.miri();
    let max = if m { 5 } else { 24 };
    let (n, rounds) = if m { (3, 1) } else { (4, 12) };
    // under Miri every shard runs one case of each kind
    let q = |cx: &Ctx, n: u64, t: u64| if m { cx.a.shards } else { cx.n(n, t) };
    cx.case("auto traits", 0, |_| auto_traits());
    for i in 0..q(cx, 400, 10_000) {
        cx.case("shared buffer", i, |r| match i % 3 {
            0 => shared_buffer::<String>(r, n, rounds, max),
            1 => shared_buffer::<u64>(r, n, rounds, max),
            _ => shared_buffer::<()>(r, n, rounds, max),
        });
        cx.case("shared counter", i, |r| if i % 2 == 0 { shared_counter::<String>(r, n, rounds, max) } else { shared_counter::<u64>(r, n, rounds, max) });
        cx.case("shared disjoint set", i, |r| if i % 2 == 1 { shared_set::<String>(r, n, rounds, max) } else { shared_set::<u64>(r, n, rounds, max) });
        cx.case("shared interval", i, |r| if i % 2 == 0 { shared_interval::<String>(r, n, rounds) } else { shared_interval::<u64>(r, n, rounds) });
        cx.case("separate instances", i, |r| {
            let seed = r.next();
            let steps = if m { 12 } else { 200 };
            let before = own(seed, steps, max);
            threads(n, |t| {
                // thread 0 repeats the sequential run, the others do something else
                let d = own(if t == 0 { seed } else { mix(seed ^ t as u64) }, steps, max);
                ck!(X, t != 0 || d == before, "separate instances saw something else while other threads ran");
            });
        });
        cx.case("handed over", i, |r| passed(r, 3, max));
        cx.case("nested instances", i, |r| {
            EVERY.with(|e| e.set(1 + r.below(9)));
            for kind in 0..4 { work(r, kind, if m { 5 } else { 16 }) }
        });
    }
    cx.finish()
}
