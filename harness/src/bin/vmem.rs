//! X02: memory is given back, and what is held stays proportional to what is stored.
//!
//! A metering allocator counts the bytes allocated less those freed inside library calls
//! (values given to the library are made, and values it gives back are dropped, inside the
//! metered region). Monitors: everything is given back once the collections are dropped;
//! at any time no more than a generous multiple of the contents is held; repeating a
//! workload that stores nothing new does not hold more and more.
use advanced_collections::circular_buffer::CircularBuffer;
use advanced_collections::counter::Counter;
use advanced_collections::disjoint_set::DisjointSet;
use advanced_collections::interval::Interval;
use std::collections::HashMap;
use std::hash::{BuildHasherDefault, Hash};
use std::hint::black_box;
use vh::alloc::{held, held_reset, metered as m};
use vh::ck;
use vh::mon::{h, note, op, state, Run as Ctx, Tags};
use vh::rng::{mix, Rng};

#[global_allocator]
static A: vh::alloc::Counting = vh::alloc::Counting;

const X: Tags = &["X02"];

trait Val: Clone + Ord + Hash + 'static {
    const NAME: &'static str;
    /// Most heap bytes one value can own.
    const HEAP: usize = 0;
    fn mk(i: u64) -> Self;
}
impl Val for u8 { const NAME: &'static str = "u8"; fn mk(i: u64) -> Self { i as u8 } }
impl Val for u64 { const NAME: &'static str = "u64"; fn mk(i: u64) -> Self { i } }
impl Val for [u64; 4] { const NAME: &'static str = "[u64;4]"; fn mk(i: u64) -> Self { [i; 4] } }
impl Val for () { const NAME: &'static str = "()"; fn mk(_: u64) -> Self {} }
impl Val for String { const NAME: &'static str = "String"; const HEAP: usize = 64; fn mk(i: u64) -> Self { format!("{i}") } }
impl Val for Box<[u64; 3]> { const NAME: &'static str = "Box"; const HEAP: usize = 24; fn mk(i: u64) -> Self { Box::new([i; 3]) } }

fn empty_handed(what: &str) {
    ck!(X, held() == 0, "{what}: {} bytes are still held after every collection was dropped", held());
}

/// An iterator whose upper size hint promises far more than it delivers (which is allowed).
struct Promises<I>(I);
impl<I: Iterator> Iterator for Promises<I> {
    type Item = I::Item;
    fn next(&mut self) -> Option<I::Item> { self.0.next() }
    fn size_hint(&self) -> (usize, Option<usize>) { (0, Some(1 << 20)) }
}

// ------------------------------------------------------------------ circular buffer
struct Bufs<T> { v: Vec<CircularBuffer<T>> }
impl<T: Val> Bufs<T> {
    fn bound(&self) -> i64 {
        let own: usize = self.v.iter().map(|b| 4 * (b.capacity() + 1) * std::mem::size_of::<T>() + b.len() * T::HEAP + 512).sum();
        own as i64
    }
    fn check(&self, what: &str, hist: &str) {
        ck!(X, held() <= self.bound(), "{what}: {} bytes are held by {} buffers of capacity and length {:?} ({}, at most {} expected){hist}",
            held(), self.v.len(), self.v.iter().map(|b| (b.capacity(), b.len())).collect::<Vec<_>>(), T::NAME, self.bound());
    }
}

fn cap(r: &mut Rng, big: bool) -> usize {
    match r.below(8) {
        0 => r.us(3),
        1..=4 => 1 + r.us(16),
        5 => [31, 32, 33, 63, 64, 65, 127, 128][r.us(8)],
        6 => 100 + r.us(200),
        _ => if big { 1000 + r.us(9000) } else { 20 },
    }
}

fn buffers<T: Val>(cx: &mut Ctx, n: u64) {
    for k in 0..n {
        cx.case(&format!("buffers of {}", T::NAME), k, |r| {
            held_reset();
            let mut w: Bufs<T> = Bufs { v: m(|| Vec::new()) };
            let c = cap(r, true);
            w.v = vec![m(|| CircularBuffer::new(c))];
            let steps = 20 + r.us(120);
            let mut s = 0u64;
            for _ in 0..steps {
                let i = r.us(w.v.len());
                let x = r.below(1 << 20);
                let kk = r.below(27);
                let (cp, ln) = (w.v[i].capacity(), w.v[i].len());
                op("buffer operation", kk, cp as u64, ln as u64, X);
                let few = r.us(cp + 3).min(400);
                match kk {
                    0 | 1 => m(|| w.v[i].push_back(T::mk(x))),
                    2 => m(|| w.v[i].push_front(T::mk(x))),
                    3 => m(|| drop(w.v[i].pop_back())),
                    4 => m(|| drop(w.v[i].pop_front())),
                    5 => m(|| w.v[i].extend((0..few as u64).map(T::mk))),
                    6 => m(|| w.v[i].clear()),
                    7 => { let c = cap(r, false); m(|| w.v[i].resize(c)) }
                    8 => m(|| w.v[i].resize(cp + few)),
                    9 => m(|| w.v[i].resize(ln)),
                    10 => m(|| { w.v[i].linearize(); }),
                    11 => m(|| w.v[i].reverse()),
                    12 => m(|| { for v in w.v[i].drain().take(few) { black_box(&v); } }),
                    13 => m(|| drop(w.v[i].drain())),
                    14 => {
                        // consumed in part, the rest abandoned
                        let b = w.v.swap_remove(i);
                        m(|| { let mut it = b.into_iter(); for _ in 0..few { it.next(); } drop(it) });
                    }
                    15 => { let b = m(|| w.v[i].clone()); w.v.push(b) }
                    16 if w.v.len() > 1 => {
                        let j = (i + 1) % w.v.len();
                        let mut b = w.v.swap_remove(j);
                        let i = r.us(w.v.len());
                        m(|| w.v[i].clone_from(&b));
                        m(|| b.append(&mut w.v[i]));
                        m(|| drop(b));
                    }
                    17 if w.v.len() > 1 => {
                        let j = (i + 1) % w.v.len();
                        let mut b = w.v.swap_remove(j);
                        let i = r.us(w.v.len());
                        m(|| w.v[i].append(&mut b));
                        w.v.push(b);
                    }
                    18 => {
                        // more than asked for: spare capacity of the source must not be kept
                        let spare = [0, 10, 1000, 50_000][r.us(4)];
                        let b = m(|| {
                            let mut v = Vec::with_capacity(few + spare);
                            v.extend((0..few as u64).map(T::mk));
                            CircularBuffer::from(v)
                        });
                        w.v.push(b)
                    }
                    19 => { let b = m(|| (0..few as u64).map(T::mk).collect::<CircularBuffer<T>>()); w.v.push(b) }
                    20 => {
                        let b = m(|| {
                            let v: Vec<T> = (0..few as u64).map(T::mk).collect();
                            v.iter().collect::<CircularBuffer<T>>()
                        });
                        w.v.push(b)
                    }
                    21 => { let b = m(|| Promises((0..few as u64).map(T::mk)).collect::<CircularBuffer<T>>()); w.v.push(b) }
                    22 => m(|| { let v: Vec<T> = (0..few as u64).map(T::mk).collect(); w.v[i].extend(&v) }),
                    23 => m(|| w.v[i].extend(Promises((0..few as u64).map(T::mk)))),
                    24 => m(|| { black_box((w.v[i].iter().max(), w.v[i].first(), w.v[i].slices(), format!("{:?}", w.v[i]))); }),
                    25 if ln > 0 => m(|| { let q = w.v[i].len(); w.v[i].swap(few % q, 0); w.v[i][few % q] = T::mk(x); black_box(w.v[i] == w.v[0]); }),
                    26 if w.v.len() > 1 => { let b = w.v.swap_remove(i); m(|| drop(b)) }
                    _ => {}
                }
                while w.v.len() > 4 { let b = w.v.swap_remove(0); m(|| drop(b)) }
                if w.v.is_empty() { w.v.push(m(|| CircularBuffer::new(cp))) }
                s = h(&[s, kk]);
                state(h(&[1, kk, cp.min(70) as u64, ln.min(70) as u64, w.v.len() as u64]));
                w.check(&format!("after operation {kk}"), "");
            }
            while let Some(b) = w.v.pop() { m(|| drop(b)); w.check("after dropping one buffer", ""); }
            empty_handed(T::NAME);
        });
    }
}

/// Repeats `round` and checks that no more is held after many rounds than after the first few.
fn steady(name: &str, rounds: usize, mut round: impl FnMut(u64)) {
    let mut top = 0;
    for i in 0..rounds {
        op("round", i as u64, 0, 0, X);
        round(i as u64);
        if i < 4 {
            top = top.max(held());
        } else {
            ck!(X, held() <= 2 * top + 1024, "{name}: {} bytes are held after {} rounds that store nothing new, {} after the first 4", held(), i + 1, top);
        }
    }
    state(h(&[3, vh::rng::hash_str(name), top as u64]));
}

fn steady_buffers<T: Val>(cx: &mut Ctx, rounds: usize) {
    const KINDS: u64 = 20;
    for k in 0..KINDS * 4 {
        cx.case(&format!("steady buffers of {}", T::NAME), k, |r| {
            held_reset();
            let c = [3, 8, 17, 40][(k / KINDS) as usize];
            note(format!("kind {} capacity {c}", k % KINDS));
            let mut a = m(|| CircularBuffer::<T>::new(c));
            let mut b = m(|| CircularBuffer::<T>::new(c + 5));
            for i in 0..r.below(2 * c as u64) { m(|| a.push_back(T::mk(i))) }
            for i in 0..r.below(c as u64) { m(|| b.push_front(T::mk(i))) }
            let cu = c as u64;
            steady(&format!("{} capacity {c} kind {}", T::NAME, k % KINDS), rounds, |i| m(|| match k % KINDS {
                0 => { a.push_back(T::mk(i)); a.pop_front(); }
                1 => a.push_back(T::mk(i)),
                2 => a.push_front(T::mk(i)),
                3 => { a.extend((0..cu).map(T::mk)); a.clear() }
                4 => a.resize(if i % 2 == 0 { 2 * c } else { c }),
                5 => { a.resize(c / 2); a.resize(c); a.push_back(T::mk(i)) }
                6 => { a.append(&mut b); b.append(&mut a) }
                7 => b.clone_from(&a),
                8 => a = a.clone(),
                9 => { a.linearize(); a.push_back(T::mk(i)); }
                10 => { a.reverse(); a.push_front(T::mk(i)) }
                11 => { a.extend((0..cu).map(T::mk)); for x in a.drain().take(c / 2) { drop(x) } }
                12 => { a.extend((0..cu).map(T::mk)); drop(a.drain()) }
                13 => { a = std::mem::replace(&mut a, CircularBuffer::new(0)).into_iter().take(c - 1).chain(Some(T::mk(i))).collect(); }
                14 => { let mut it = b.clone().into_iter(); it.next(); drop(it) }
                15 => { black_box((a == b, a.cmp(&b), a.iter().count(), format!("{a:?}"), a.slices().0.len(), a.iter_mut().count())); }
                16 => { a.clone_from(&b); b.resize(c + 5); std::mem::swap(&mut a, &mut b) }
                17 => { a.clone_from(&b); b.clone_from(&a); a.push_back(T::mk(i)) }
                18 => { b = a.iter().cloned().collect(); b.push_back(T::mk(i)); std::mem::swap(&mut a, &mut b) }
                _ => { let n = a.len(); a.resize(c / 3); a.resize(n.max(1)); a.extend((0..cu).map(T::mk)); b.append(&mut a); a.append(&mut b) }
            }));
            m(|| drop((a, b)));
            empty_handed(T::NAME);
        });
    }
}

// ------------------------------------------------------------------ counter and disjoint set
#[derive(Default)]
struct Mix(u64);
impl std::hash::Hasher for Mix {
    fn finish(&self) -> u64 { self.0 }
    fn write(&mut self, b: &[u8]) { for x in b { self.0 = mix(self.0 ^ *x as u64) } }
}
type S = BuildHasherDefault<Mix>;
type C<T> = Counter<T, S>;
type D<T> = DisjointSet<T, S>;

/// `e`: most entries the collection ever had to have room for.
fn map_bound<T: Val>(e: usize, len: usize) -> i64 {
    (8 * (e + 1) * (std::mem::size_of::<T>() + 8 + 1) + 8 * (e + 1) * 24 + len * T::HEAP + 2048) as i64
}

fn counters<T: Val>(cx: &mut Ctx, n: u64) {
    for k in 0..n {
        cx.case(&format!("counters of {}", T::NAME), k, |r| {
            held_reset();
            let space = [1, 4, 20, 200, 3000][r.us(5)];
            let mut v: Vec<(C<T>, usize)> = vec![];
            for _ in 0..20 + r.us(100) {
                if v.is_empty() || v.len() < 3 && r.chance(1, 8) {
                    let e = r.us(50);
                    op("new", e as u64, 0, 0, X);
                    v.push(match r.below(3) {
                        0 => (m(|| C::new()), 0),
                        1 => (m(|| C::with_capacity(e)), e),
                        _ => (m(|| C::with_capacity_and_hasher(e, S::default())), e),
                    });
                }
                let i = r.us(v.len());
                let x = r.below(space);
                let big = r.chance(1, 8);
                let few = r.below(if big { 2 * space } else { 12 });
                let kk = r.below(22);
                op("counter operation", kk, v[i].0.len() as u64, few, X);
                state(h(&[5, kk, v[i].0.len().min(100) as u64, v.len() as u64]));
                let grow = |v: &mut Vec<(C<T>, usize)>, i: usize, d: usize| { v[i].1 = v[i].1.max(v[i].0.len() + d) };
                let keys = |s: u64| (0..few).map(move |j| T::mk(mix(s ^ j) % space));
                match kk {
                    0..=2 => m(|| v[i].0.push(T::mk(x))),
                    3 => { grow(&mut v, i, few as usize); m(|| v[i].0.extend(keys(x))) }
                    4 => { grow(&mut v, i, few as usize); m(|| { let q: Vec<T> = keys(x).collect(); v[i].0.extend(q.iter().cloned()) }) }
                    5 => m(|| v[i].0.extend(Promises(keys(x)))),
                    6..=13 => {
                        let (o, oe) = if v.len() > 1 && r.chance(1, 2) { let j = (i + 1) % v.len(); let e = v[j].1.max(v[j].0.len()); (m(|| v[j].0.clone()), e) } else { (m(|| keys(x).collect()), few as usize) };
                        let (c, e) = &mut v[i];
                        *e = (*e).max(c.len() + o.len()).max(oe);
                        match kk {
                            6 => m(|| *c += o),
                            7 => m(|| { *c += &o; drop(o) }),
                            8 => m(|| *c -= o),
                            9 => m(|| { *c -= &o; drop(o) }),
                            10 => m(|| *c = std::mem::take(c) + o),
                            11 => m(|| { *c = std::mem::take(c) + &o; drop(o) }),
                            12 => m(|| *c = std::mem::take(c) - o),
                            _ => m(|| { *c = std::mem::take(c) - &o; drop(o) }),
                        }
                    }
                    14 => m(|| { black_box(v[i].0.most_common()); }),
                    15 => { let (c, _) = v.swap_remove(i); m(|| { black_box(c.into_most_common()); }) }
                    16 => { let (c, _) = v.swap_remove(i); m(|| { black_box(c.into_iter().take(few as usize).count()); }) }
                    17 => m(|| { for (_, q) in &mut v[i].0 { *q += 1 } black_box((&v[i].0).into_iter().count()); }),
                    18 => {
                        let c = m(|| { let q: HashMap<T, usize> = keys(x).map(|y| (y, 3)).collect(); if x % 2 == 0 { C::from(q) } else { C::from(&q) } });
                        v.push((c, 0))
                    }
                    19 => {
                        let c = m(|| { let q: HashMap<T, usize, S> = keys(x).map(|y| (y, 3)).collect(); C::from_hashmap(q) });
                        v.push((c, few as usize))
                    }
                    20 => { let c = if x % 2 == 0 { m(|| keys(x).collect::<C<T>>()) } else { m(|| { let q: Vec<T> = keys(x).collect(); q.iter().collect::<C<T>>() }) }; v.push((c, few as usize)) }
                    _ => m(|| { v[i].0.clear() }),
                }
                for (c, e) in v.iter_mut() { *e = (*e).max(c.len()) }
                while v.len() > 3 { let c = v.swap_remove(0); m(|| drop(c)) }
                let bound: i64 = v.iter().map(|(c, e)| map_bound::<T>(*e, c.len())).sum();
                ck!(X, held() <= bound, "after operation {kk}: {} bytes are held by counters of {:?} entries (now, ever) ({}, at most {bound} expected)",
                    held(), v.iter().map(|(c, e)| (c.len(), *e)).collect::<Vec<_>>(), T::NAME);
            }
            while let Some(c) = v.pop() { m(|| drop(c)) }
            empty_handed(T::NAME);
        });
    }
}

fn steady_counters<T: Val>(cx: &mut Ctx, rounds: usize) {
    const KINDS: u64 = 20;
    for k in 0..KINDS * 3 {
        cx.case(&format!("steady counters of {}", T::NAME), k, |_| {
            held_reset();
            let n = [1u64, 12, 150][(k / KINDS) as usize];
            note(format!("kind {} entries {n}", k % KINDS));
            let mut a: C<T> = m(|| (0..n).map(T::mk).collect());
            let mut b: C<T> = m(|| (n / 2..n + n / 2).map(T::mk).collect());
            steady(&format!("counter of {} {} kind {}", n, T::NAME, k % KINDS), rounds, |i| m(|| match k % KINDS {
                0 => a.push(T::mk(i % n)),
                1 => a.extend((0..n).map(T::mk)),
                2 => { let q: Vec<T> = (0..n).map(T::mk).collect(); a.extend(q.iter().cloned()) }
                3 => { a += &b; a -= &b }
                4 => { a += b.clone(); a -= b.clone() }
                5 => a = std::mem::take(&mut a) + &b - &b,
                6 => a = std::mem::take(&mut a) + b.clone() - b.clone(),
                7 => { black_box((a.most_common(), a.clone().into_most_common())); }
                8 => { a.clear(); a.extend((0..n).map(T::mk)) }
                9 => a.clone_from(&b),
                10 => { black_box((a == b, format!("{}", a.len()), (&a).into_iter().count(), (&mut a).into_iter().count(), a.clone().into_iter().next())); }
                11 => a = C::from(&*a),
                12 => a = std::mem::take(&mut a).into_iter().map(|(x, _)| x).collect(),
                13 => a.extend(Promises((0..n).map(T::mk))),
                // back and forth between two counters: capacity must not be handed up and up
                14 => { a += &b; a -= &b; b += &a; b -= &a; b.extend((n / 2..n + n / 2).map(T::mk)) }
                15 => { a += &b; b += &a; a.clear(); b.clear(); a.push(T::mk(0)); b.push(T::mk(1)) }
                16 => { a = std::mem::take(&mut a) + &b; b = std::mem::take(&mut b) + &a; for (_, c) in &mut a { *c = 1 } for (_, c) in &mut b { *c = 1 } }
                17 => { a = std::mem::take(&mut a) + b.clone(); b = std::mem::take(&mut b) + a.clone(); for (_, c) in &mut a { *c = 1 } for (_, c) in &mut b { *c = 1 } }
                18 => { let c = a.clone() - &b; b = c + &b; a = std::mem::take(&mut b); b = a.clone(); for (_, c) in &mut a { *c = 1 } for (_, c) in &mut b { *c = 1 } }
                _ => { std::mem::swap(&mut a, &mut b); a += std::mem::take(&mut b); b = a.clone(); a -= &b; std::mem::swap(&mut a, &mut b) ; for (_, c) in &mut a { *c = 1 } }
            }));
            m(|| drop((a, b)));
            empty_handed(T::NAME);
        });
    }
}

fn sets<T: Val>(cx: &mut Ctx, n: u64) {
    for k in 0..n {
        cx.case(&format!("disjoint sets of {}", T::NAME), k, |r| {
            held_reset();
            let space = [1, 4, 20, 200, 3000][r.us(5)];
            let mut v: Vec<(D<T>, usize)> = vec![];
            for _ in 0..20 + r.us(100) {
                if v.is_empty() || v.len() < 3 && r.chance(1, 8) {
                    let e = r.us(50);
                    op("new", e as u64, 0, 0, X);
                    v.push(if e < 10 { (m(|| D::default()), 0) } else { (m(|| D::with_capacity(e)), e) });
                }
                let i = r.us(v.len());
                let (x, y) = (r.below(space), r.below(space));
                let big = r.chance(1, 8);
                let few = r.below(if big { 2 * space } else { 12 });
                let kk = r.below(17);
                op("set operation", kk, v[i].0.len() as u64, few, X);
                state(h(&[7, kk, v[i].0.len().min(100) as u64, v.len() as u64]));
                let keys = |s: u64| (0..few).map(move |j| T::mk(mix(s ^ j) % space));
                let (d, e) = &mut v[i];
                match kk {
                    0..=2 => m(|| d.make_set(T::mk(x))),
                    3..=6 => m(|| d.union(T::mk(x), T::mk(y))),
                    7 | 8 => m(|| { black_box((d.in_union(&T::mk(x), &T::mk(y)), d.contains(&T::mk(x)))); }),
                    9 => { *e = (*e).max(d.len() + few as usize); m(|| d.extend(keys(x))) }
                    10 => m(|| d.extend(Promises(keys(x)))),
                    11 => m(|| { black_box(d.into_iter().map(|g| g.count()).max()); }),
                    12 => m(|| { black_box(d.into_iter().take(2).map(|mut g| g.next()).count()); }),
                    13 => m(|| d.clear()),
                    14 => { *e = (*e).max(d.len() + few as usize); m(|| d.reserve(few as usize)) }
                    15 => { let c = m(|| d.clone()); let e = *e; v.push((c, e)) }
                    _ => { let c = if x % 2 == 0 { m(|| keys(x).collect::<D<T>>()) } else { m(|| { let q: Vec<T> = keys(x).collect(); q.iter().collect::<D<T>>() }) }; v.push((c, few as usize)) }
                }
                for (c, e) in v.iter_mut() { *e = (*e).max(c.len()) }
                while v.len() > 3 { let c = v.swap_remove(0); m(|| drop(c)) }
                let bound: i64 = v.iter().map(|(c, e)| map_bound::<T>(*e, c.len())).sum();
                ck!(X, held() <= bound, "after operation {kk}: {} bytes are held by disjoint sets of {:?} elements (now, ever) ({}, at most {bound} expected)",
                    held(), v.iter().map(|(c, e)| (c.len(), *e)).collect::<Vec<_>>(), T::NAME);
            }
            while let Some(c) = v.pop() { m(|| drop(c)) }
            empty_handed(T::NAME);
        });
    }
}

fn steady_sets<T: Val>(cx: &mut Ctx, rounds: usize) {
    const KINDS: u64 = 13;
    for k in 0..KINDS * 3 {
        cx.case(&format!("steady disjoint sets of {}", T::NAME), k, |_| {
            held_reset();
            let n = [1u64, 12, 150][(k / KINDS) as usize];
            note(format!("kind {} elements {n}", k % KINDS));
            let mut a: D<T> = m(|| (0..n).map(T::mk).collect());
            let mut b: D<T> = m(|| a.clone());
            steady(&format!("disjoint set of {} {} kind {}", n, T::NAME, k % KINDS), rounds, |i| m(|| match k % KINDS {
                0 => a.make_set(T::mk(i % n)),
                1 => a.union(T::mk(i % n), T::mk(i * 7 % n)),
                2 => a.union(T::mk(i % n), T::mk(i % n)),
                3 => { black_box(a.in_union(&T::mk(i % n), &T::mk(0))); }
                4 => a.extend((0..n).map(T::mk)),
                5 => { a.clear(); for j in 0..n { a.union(T::mk(j), T::mk(j / 2)) } }
                6 => { black_box(a.into_iter().map(|g| g.count()).sum::<usize>()); }
                7 => { black_box(a.into_iter().next()); }
                8 => a.clone_from(&b),
                9 => { black_box((a.contains(&T::mk(n + 1)), a.in_union(&T::mk(n + 1), &T::mk(0)), a.len(), a.is_empty())); }
                10 => a.extend(Promises((0..n).map(T::mk))),
                11 => { b = a.clone(); a.clear(); a.extend((0..n).map(T::mk)); std::mem::swap(&mut a, &mut b) }
                _ => { b.clear(); b.reserve(n as usize); b.clone_from(&a); std::mem::swap(&mut a, &mut b) }
            }));
            m(|| drop((a, b)));
            empty_handed(T::NAME);
        });
    }
}

// ------------------------------------------------------------------ intervals
fn intervals<T: Val>(cx: &mut Ctx, n: u64) {
    for k in 0..n {
        cx.case(&format!("intervals of {}", T::NAME), k, |r| {
            held_reset();
            let mut v: Vec<Interval<T>> = vec![];
            for _ in 0..60 {
                let kk = r.below(18);
                op("interval operation", kk, v.len() as u64, 0, X);
                let (x, y) = (r.below(90) + 10, r.below(90) + 10); // two digits: text order is number order
                let (lo, up) = (x.min(y), x.max(y));
                let (lc, uc) = (r.chance(1, 2), r.chance(1, 2));
                let mk = |v: &mut Vec<Interval<T>>| v.push(m(|| if lo < up { Interval::new(T::mk(lo), lc, T::mk(up), uc) } else { Interval::single(T::mk(lo)) }));
                if v.len() < 2 { mk(&mut v); mk(&mut v) }
                let i = r.us(v.len());
                let a = v.swap_remove(i);
                let i = r.us(v.len());
                let b = v.swap_remove(i);
                state(h(&[9, kk, a.is_empty() as u64, b.is_empty() as u64, a.intersects(&b) as u64]));
                let mut back = |i: Interval<T>| v.push(i);
                match kk {
                    0 => { back(m(|| a.into_intersection(b))) }
                    1 => { back(m(|| a.into_span(b))) }
                    2 => match m(|| a.into_merged(b)) { Ok(i) => back(i), Err((i, j)) => { back(i); back(j) } },
                    3 => { let mut a = a; m(|| a.intersection(b)); back(a) }
                    4 => { let mut a = a; m(|| a.span(b)); back(a) }
                    5 => { let mut a = a; if let Err(b) = m(|| a.merge(b)) { back(b) } back(a) }
                    6 => { m(|| drop((a.into_tuple(), b.into_bounds()))) }
                    7 => { back(m(|| match a.into_bounds() { Some((l, u)) => Interval::from_bounds(l, u), None => Interval::empty() })); back(b) }
                    8 => { back(m(|| a.clone())); back(a); back(b) }
                    9 => { let mut a = a; m(|| a.clone_from(&b)); back(a); back(b) }
                    10 => { m(|| { black_box((a.intersects(&b), a.contains_interval(&b), a.can_be_merged(&b), a.contains_val(&T::mk(x)), a == b)); }); back(a); back(b) }
                    11 => { m(|| { black_box((a.bounds(), a.lower(), a.upper(), a.is_single(), a == b)); }); back(a); back(b) }
                    12 => { m(|| drop(b)); back(a); back(m(|| Interval::empty())) }
                    _ => { back(a); back(b); mk(&mut v) }
                }
                while v.len() > 8 { let c = v.swap_remove(0); m(|| drop(c)) }
                let bound = (v.len() * 2 * T::HEAP) as i64;
                ck!(X, held() <= bound, "after operation {kk}: {} bytes are held by {} intervals of {}, at most {bound} expected", held(), v.len(), T::NAME);
            }
            while let Some(c) = v.pop() { m(|| drop(c)) }
            empty_handed(T::NAME);
        });
    }
}

fn main() {
    let a = vh::args::parse();
    let cx = &mut Ctx::new(a);
    macro_rules! each { ($f:ident, $n:expr, $($t:ty),*) => {{ $( $f::<$t>(cx, $n); )* }} }
    let n = cx.n(600, 20_000);
    each!(buffers, n, u8, u64, [u64; 4], (), String, Box<[u64; 3]>);
    each!(counters, n / 2, u8, u64, [u64; 4], (), String, Box<[u64; 3]>);
    each!(sets, n / 2, u8, u64, [u64; 4], (), String, Box<[u64; 3]>);
    each!(intervals, n, u64, String, Box<[u64; 3]>);
    let r = cx.n(1000, 20_000) as usize;
    each!(steady_buffers, r, u8, u64, [u64; 4], (), String, Box<[u64; 3]>);
    each!(steady_counters, r, u8, u64, String, Box<[u64; 3]>);
    each!(steady_sets, r, u8, u64, String, Box<[u64; 3]>);
    cx.finish()
}
