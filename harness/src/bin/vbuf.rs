//! Circular buffer monitors: B01-B07, B08 (allocator), B09 (injected panics), B03 (workload for sanitizers).
use advanced_collections::circular_buffer::CircularBuffer;
use std::collections::VecDeque;
use std::num::NonZeroU32;
use std::rc::Rc;
use vh::elem::*;
use vh::iters::{drive, drive_back, Front};
use vh::mon::{self, count, h, op, quiet, report, retrace, state, Run, Tags};
use vh::rng::Rng;
use vh::ck;

#[global_allocator]
static A: vh::alloc::Counting = vh::alloc::Counting;

const T_SEQ: Tags = &["B01"];
const T_VIEW: Tags = &["B04", "B01"];
const T_BULK: Tags = &["B05", "B01"];
const T_ARR: Tags = &["B06", "B01"];
const T_CMP: Tags = &["B07"];
const T_CLONE: Tags = &["B07", "B02"];
const T_OWN: Tags = &["B02", "B03"];
const T_HEAP: Tags = &["B08"];
const T_UNW: Tags = &["B09"];
/// Elements used or dropped after being dropped, whatever panicked: not memory safe.
const T_MEM: Tags = &["B09", "B03"];

struct S<E> {
    b: CircularBuffer<E>,
    cap: usize,
    q: VecDeque<u64>,
}

/// Run an operation that must not touch the allocator.
fn na<E: Elem, R>(what: &str, f: impl FnOnce() -> R) -> R {
    let before = vh::alloc::counts();
    let r = f();
    let after = vh::alloc::counts();
    if E::NOHEAP {
        ck!(T_HEAP, before == after, "{what} made {} allocations and {} deallocations (elements are {})",
            after.0 - before.0, after.1 - before.1, E::NAME);
    }
    r
}

/// Iterator kinds that feed extend/from_iter.
struct Feed<I> {
    it: I,
    hint: (usize, Option<usize>),
}
impl<I: Iterator> Iterator for Feed<I> {
    type Item = I::Item;
    fn next(&mut self) -> Option<I::Item> {
        self.it.next()
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        self.hint
    }
}
fn feed<I: Iterator>(it: I, n: usize, kind: u64) -> Feed<I> {
    let hint = match kind % 6 {
        0 => (n, Some(n)),
        1 => (0, None),
        2 => (n / 2, Some(n * 2 + 1)),
        3 => (0, Some(n)),
        // what take_while over a huge range says
        4 => (0, Some(usize::MAX)),
        _ => (n / 2, Some(usize::MAX / 3)),
    };
    Feed { it, hint }
}

impl<E: Elem> S<E> {
    fn new(cap: usize) -> S<E> {
        op("new", cap as u64, 0, 0, T_SEQ);
        let b = if cap % 2 == 0 { CircularBuffer::new(cap) } else { CircularBuffer::with_capacity(cap) };
        S { b, cap, q: VecDeque::new() }
    }
    /// A buffer whose storage has been rotated by `off`, then filled with `len` elements.
    fn at(cap: usize, off: usize, len: usize, back: bool, next: &mut u64) -> S<E> {
        let mut s = S::new(cap);
        if cap > 0 {
            for _ in 0..off {
                s.push_back(999_000);
                s.pop_front();
            }
        }
        for _ in 0..len {
            *next += 1;
            if back { s.push_back(*next) } else { s.push_front(*next) }
        }
        s
    }
    fn push_back(&mut self, id: u64) {
        op("push_back", id, 0, 0, T_SEQ);
        let e = E::make(id);
        na::<E, _>("push_back", || self.b.push_back(e));
        self.m_push_back(E::norm(id));
    }
    fn m_push_back(&mut self, id: u64) {
        if self.cap == 0 {
            return;
        }
        if self.q.len() == self.cap {
            self.q.pop_front();
        }
        self.q.push_back(id);
    }
    fn push_front(&mut self, id: u64) {
        op("push_front", id, 0, 0, T_SEQ);
        let e = E::make(id);
        na::<E, _>("push_front", || self.b.push_front(e));
        if self.cap == 0 {
            return;
        }
        if self.q.len() == self.cap {
            self.q.pop_back();
        }
        self.q.push_front(E::norm(id));
    }
    fn pop_front(&mut self) {
        op("pop_front", 0, 0, 0, T_SEQ);
        let r = na::<E, _>("pop_front", || self.b.pop_front());
        let r = r.map(|e| e.id());
        let want = self.q.pop_front();
        ck!(T_SEQ, r == want, "pop_front gave {r:?}, expected {want:?}");
    }
    fn pop_back(&mut self) {
        op("pop_back", 0, 0, 0, T_SEQ);
        let r = na::<E, _>("pop_back", || self.b.pop_back());
        let r = r.map(|e| e.id());
        let want = self.q.pop_back();
        ck!(T_SEQ, r == want, "pop_back gave {r:?}, expected {want:?}");
    }
    fn resize(&mut self, n: usize) {
        op("resize", n as u64, 0, 0, T_BULK);
        self.b.resize(n);
        self.cap = n;
        while self.q.len() > n {
            self.q.pop_front();
        }
    }

    /// Compare everything observable with the model. `tags`: who is to blame for wrong content.
    fn check(&mut self, tags: Tags, deep: bool) {
        let b = &mut self.b;
        let n = self.q.len();
        let fwd: Vec<u64> = na_iter::<E>(b);
        let via_slices: Vec<u64> = {
            let (x, y) = b.slices();
            x.iter().chain(y.iter()).map(|e| e.id()).collect()
        };
        let same = fwd.len() == n && fwd.iter().eq(self.q.iter());
        if !same && via_slices == fwd {
            report(tags, format!("content is {}, expected {} (capacity {})", sh(fwd.iter()), sh(self.q.iter()), self.cap));
        } else if !same {
            report(T_VIEW, format!("iter shows {}, slices show {}, expected {}", sh(fwd.iter()), sh(via_slices.iter()), sh(self.q.iter())));
        } else {
            ck!(T_VIEW, via_slices == fwd, "slices show {}, iter shows {}", sh(via_slices.iter()), sh(fwd.iter()));
        }
        mon::checked();
        let (len, empty, full, cap) = (b.len(), b.is_empty(), b.is_full(), b.capacity());
        ck!(T_SEQ, len == n, "len() is {len}, expected {n}");
        ck!(T_SEQ, empty == (n == 0), "is_empty() is {empty} with {n} elements");
        ck!(tags, cap == self.cap, "capacity() is {cap}, expected {}", self.cap);
        ck!(T_SEQ, full == (n == self.cap), "is_full() is {full} with {n} of {} elements", self.cap);
        ck!(T_SEQ, len <= cap, "len {len} exceeds capacity {cap}");
        state(h(&[cap as u64, n as u64, b.slices().0.len() as u64, fwd.first().copied().unwrap_or(7) % 3]));
        if !same {
            // belongs to another property: continue from what is really there
            self.q = fwd.into();
            self.cap = cap;
            return;
        }
        if deep {
            self.views(&fwd);
        }
    }

    /// All read views against `v` (the forward iteration).
    fn views(&mut self, v: &[u64]) {
        let n = v.len();
        let b = &mut self.b;
        op("views", 0, 0, 0, T_VIEW);
        let rev: Vec<u64> = b.iter().rev().map(|e| e.id()).collect();
        ck!(T_VIEW, rev.iter().rev().eq(v.iter()), "iter().rev() shows {}, iter() {}", sh(rev.iter()), sh(v.iter()));
        let via_ref: Vec<u64> = (&*b).into_iter().map(|e| e.id()).collect();
        ck!(T_VIEW, via_ref == v, "&buffer iteration shows {}, iter() {}", sh(via_ref.iter()), sh(v.iter()));
        let sz = b.iter().size_hint();
        ck!(T_VIEW, sz.0 <= n && sz.1.map_or(true, |u| u >= n), "iter().size_hint() {sz:?} with {n} elements");
        let cnt = b.iter().count();
        ck!(T_VIEW, cnt == n, "iter().count() is {cnt} with {n} elements");
        let fold = b.iter().fold(0u64, |a, e| a.wrapping_mul(31).wrapping_add(e.id()));
        let wfold = v.iter().fold(0u64, |a, e| a.wrapping_mul(31).wrapping_add(*e));
        ck!(T_VIEW, fold == wfold, "iter().fold differs from the sequence {}", sh(v.iter()));
        // meet in the middle
        {
            let mut it = b.iter();
            let (mut f, mut r) = (vec![], vec![]);
            loop {
                match it.next() {
                    Some(e) => f.push(e.id()),
                    None => break,
                }
                match it.next_back() {
                    Some(e) => r.push(e.id()),
                    None => break,
                }
            }
            let none = it.next().is_none() && it.next_back().is_none();
            f.extend(r.iter().rev());
            ck!(T_VIEW, none && f == v, "alternating next/next_back shows {}, iter() {}", sh(f.iter()), sh(v.iter()));
        }
        {
            let mut it = b.iter_mut();
            let (mut f, mut r) = (vec![], vec![]);
            loop {
                match it.next_back() {
                    Some(e) => r.push(e.id()),
                    None => break,
                }
                match it.next() {
                    Some(e) => f.push(e.id()),
                    None => break,
                }
            }
            f.extend(r.iter().rev());
            ck!(T_VIEW, f == v, "alternating iter_mut shows {}, iter() {}", sh(f.iter()), sh(v.iter()));
        }
        {
            // provided methods of the iterators: a different one each time
            let salt = mon::ops_so_far();
            let (kind, k) = (salt, (salt / 3) as usize % (n + 2));
            let mut q: VecDeque<u64> = v.iter().copied().collect();
            let got = match salt / 16 % 4 {
                0 => drive(b.iter(), kind, k, n, |e| e.id()),
                1 => drive(b.iter_mut(), kind, k, n, |e| e.id()),
                2 => drive((&*b).into_iter(), kind, k, n, |e| e.id()),
                _ => drive((&mut *b).into_iter(), kind, k, n, |e| e.id()),
            };
            let want = drive(Front(&mut q), kind, k, n, |x| x);
            ck!(T_VIEW, got == want, "iteration through iterator method {kind} ({k}) shows {}, expected {}", sh(got.iter()), sh(want.iter()));
            let got = if salt % 2 == 0 { drive_back(b.iter(), kind / 2, k, |e| e.id()) } else { drive_back(b.iter_mut(), kind / 2, k, |e| e.id()) };
            let want = drive_back(v.iter(), kind / 2, k, |x| *x);
            ck!(T_VIEW, got == want, "backward iteration through iterator method {} ({k}) shows {}, expected {}", kind / 2, sh(got.iter()), sh(want.iter()));
        }
        let step = (n / 48).max(1);
        // evenly spread; around the wrap; around powers of two
        let wrap = b.slices().0.len();
        let mut at: Vec<usize> = (0..n).step_by(step).chain(n.checked_sub(1)).collect();
        if n > 48 {
            at.extend((6..40).map(|k| 1usize << k).take_while(|p| *p <= n).chain([wrap]).flat_map(|p| [p.saturating_sub(1), p, p + 1]).filter(|i| *i < n));
        }
        for i in at {
            let x = na::<E, _>("index", || b[i].id());
            ck!(T_VIEW, x == v[i], "[{i}] is {x}, iteration shows {}", v[i]);
            let x = na::<E, _>("index_mut", || {
                let e = &mut b[i];
                e.id()
            });
            ck!(T_VIEW, x == v[i], "mutable [{i}] is {x}, iteration shows {}", v[i]);
            if n <= 16 {
                let x = b.iter().nth(i).map(|e| e.id());
                ck!(T_VIEW, x == Some(v[i]), "iter().nth({i}) is {x:?}, expected {}", v[i]);
            }
        }
        let f = na::<E, _>("first", || b.first().map(|e| e.id()));
        let l = na::<E, _>("last", || b.last().map(|e| e.id()));
        ck!(T_VIEW, f == v.first().copied(), "first() is {f:?} of {}", sh(v.iter()));
        ck!(T_VIEW, l == v.last().copied(), "last() is {l:?} of {}", sh(v.iter()));
        let f = na::<E, _>("first_mut", || b.first_mut().map(|e| e.id()));
        let l = na::<E, _>("last_mut", || b.last_mut().map(|e| e.id()));
        ck!(T_VIEW, f == v.first().copied(), "first_mut() is {f:?} of {}", sh(v.iter()));
        ck!(T_VIEW, l == v.last().copied(), "last_mut() is {l:?} of {}", sh(v.iter()));
        let (p, q) = na::<E, _>("slices", || {
            let (x, y) = b.slices();
            (x.len(), y.len())
        });
        ck!(T_VIEW, p + q == n, "slices have {p} and {q} elements of {n}");
        let sm: Vec<u64> = {
            let (x, y) = b.slices_mut();
            x.iter().chain(y.iter()).map(|e| e.id()).collect()
        };
        ck!(T_VIEW, sm == v, "slices_mut show {}, iter() {}", sh(sm.iter()), sh(v.iter()));
        let im: Vec<u64> = na_iter_mut::<E>(b);
        ck!(T_VIEW, im == v, "iter_mut shows {}, iter() {}", sh(im.iter()), sh(v.iter()));
        let im: Vec<u64> = (&mut *b).into_iter().map(|e| e.id()).collect();
        ck!(T_VIEW, im == v, "&mut buffer iteration shows {}, iter() {}", sh(im.iter()), sh(v.iter()));
    }

    fn oob(&mut self, i: usize) {
        if i < self.q.len() {
            return;
        }
        op("index out of range", i as u64, 0, 0, T_VIEW);
        let b = &mut self.b;
        let r = quiet(|| b[i].id());
        ck!(T_VIEW, r.is_err(), "[{i}] gave an element of a buffer with {} elements", self.q.len());
        let r = quiet(|| {
            let e = &mut b[i];
            e.id()
        });
        ck!(T_VIEW, r.is_err(), "mutable [{i}] gave an element of a buffer with {} elements", self.q.len());
    }
}

fn sh<'a>(it: impl Iterator<Item = &'a u64>) -> String {
    let v: Vec<&u64> = it.collect();
    if v.len() <= 24 {
        format!("{v:?}")
    } else {
        format!("{:?}..{:?} ({} elements)", &v[..8], &v[v.len() - 4..], v.len())
    }
}

fn na_iter<E: Elem>(b: &CircularBuffer<E>) -> Vec<u64> {
    let mut v = Vec::with_capacity(b.capacity().min(1 << 20) + 1);
    na::<E, _>("iter", || {
        for e in b.iter() {
            if v.len() == v.capacity() {
                report(T_VIEW, format!("iter() yields more than capacity {} elements", b.capacity()));
                break;
            }
            v.push(e.id());
        }
    });
    v
}
fn na_iter_mut<E: Elem>(b: &mut CircularBuffer<E>) -> Vec<u64> {
    let mut v = Vec::with_capacity(b.capacity().min(1 << 20) + 1);
    na::<E, _>("iter_mut", || {
        for e in b.iter_mut() {
            if v.len() == v.capacity() {
                report(T_VIEW, format!("iter_mut() yields more than capacity {} elements", b.capacity()));
                break;
            }
            v.push(e.id());
        }
    });
    v
}

fn ledger<E: Elem>(expect: usize, what: &str) {
    if !E::TRACKED {
        return;
    }
    for a in anomalies() {
        report(T_OWN, format!("{a}, after {what}"));
    }
    let l = live() + zlive();
    ck!(&["B02"], l == expect as i64, "{l} elements are alive after {what}, expected {expect} ({})",
        if l > expect as i64 { "leak" } else { "element dropped while in the buffer" });
}
/// Only the anomaly part (elements of this type may be held elsewhere).
fn ledger_any(what: &str) {
    for a in anomalies() {
        report(T_OWN, format!("{a}, after {what}"));
    }
}

#[derive(Clone, Copy, Debug)]
enum Op {
    PushBack(u64),
    PushFront(u64),
    PopBack,
    PopFront,
    Clear,
    Resize(usize),
    Extend(usize, u64),
    Append(usize, usize, usize),
    Drain(usize),
    IntoIter(usize),
    Linearize(bool),
    Swap(usize, usize),
    Reverse,
    Set(usize),
    SetEnds,
    IterMut,
    SlicesMut,
    Clone,
    From(usize, u64),
    Compare(u64),
    Oob(usize),
    Forget(usize),
    /// Through provided iterator methods (kind, argument).
    DrainVia(u64, usize),
    IntoVia(u64, usize),
    CloneFrom(usize, usize, usize),
    BadHint(usize, u64),
}

struct W<E> {
    s: Vec<S<E>>,
    next: u64,
    dom: u64,
}

impl<E: Elem> W<E> {
    fn id(&mut self) -> u64 {
        self.next += 1;
        if self.dom == 0 { self.next } else { vh::rng::mix(self.next) % self.dom }
    }
    fn total(&self) -> usize {
        if E::NAME == "Vec<Tok>" {
            0
        } else {
            self.s.iter().map(|s| s.q.len()).sum()
        }
    }
    fn apply(&mut self, k: usize, o: Op, deep: bool) {
        let mut tags = T_SEQ;
        match o {
            Op::PushBack(n) => {
                for _ in 0..n {
                    let id = self.id();
                    self.s[k].push_back(id);
                }
            }
            Op::PushFront(n) => {
                for _ in 0..n {
                    let id = self.id();
                    self.s[k].push_front(id);
                }
            }
            Op::PopBack => self.s[k].pop_back(),
            Op::PopFront => self.s[k].pop_front(),
            Op::Clear => {
                op("clear", 0, 0, 0, T_SEQ);
                let s = &mut self.s[k];
                na::<E, _>("clear", || s.b.clear());
                s.q.clear();
            }
            Op::Resize(n) => {
                tags = T_BULK;
                self.s[k].resize(n);
            }
            Op::Extend(n, kind) => {
                tags = T_BULK;
                op("extend", n as u64, kind, 0, T_BULK);
                let ids: Vec<u64> = (0..n).map(|_| self.id()).collect();
                let s = &mut self.s[k];
                if kind >= 6 {
                    let src: Vec<E> = ids.iter().map(|i| E::make(*i)).collect();
                    na::<E, _>("extend", || s.b.extend(feed(src.iter(), n, kind)));
                } else {
                    // elements made by the iterator itself
                    let mut src: Vec<Option<E>> = ids.iter().map(|i| Some(E::make(*i))).collect();
                    let it = src.iter_mut().map(|e| e.take().unwrap());
                    na::<E, _>("extend", || s.b.extend(feed(it, n, kind)));
                }
                for i in ids {
                    s.m_push_back(E::norm(i));
                }
            }
            Op::Append(c2, o2, l2) => {
                tags = T_BULK;
                let mut o: S<E> = S::at(c2, o2, l2.min(c2 + 2), o2 % 2 == 0, &mut self.next);
                o.check(T_SEQ, false);
                op("append", c2 as u64, o2 as u64, l2 as u64, T_BULK);
                let s = &mut self.s[k];
                na::<E, _>("append", || s.b.append(&mut o.b));
                for i in std::mem::take(&mut o.q) {
                    s.m_push_back(i);
                }
                o.check(T_BULK, true);
                // the emptied source must be usable
                o.push_back(5);
                o.push_front(6);
                o.check(T_BULK, false);
            }
            Op::Drain(n) => {
                tags = T_BULK;
                op("drain", n as u64, 0, 0, T_BULK);
                let s = &mut self.s[k];
                let mut got = Vec::with_capacity(s.q.len() + 2);
                na::<E, _>("drain", || {
                    let mut d = s.b.drain();
                    for _ in 0..n {
                        match d.next() {
                            Some(e) => {
                                if got.len() < got.capacity() {
                                    got.push(e.id())
                                }
                            }
                            None => break,
                        }
                    }
                });
                let want: Vec<u64> = (0..n.min(s.q.len())).map(|_| s.q.pop_front().unwrap()).collect();
                ck!(&["B05", "B04", "B01"], got == want, "drain gave {}, expected {}", sh(got.iter()), sh(want.iter()));
            }
            Op::Forget(n) => {
                tags = T_BULK;
                op("drain+forget", n as u64, 0, 0, T_BULK);
                let s = &mut self.s[k];
                let got: Vec<u64> = {
                    let mut d = s.b.drain();
                    let v = d.by_ref().take(n).map(|e| e.id()).collect();
                    std::mem::forget(d);
                    v
                };
                let want: Vec<u64> = (0..n.min(s.q.len())).map(|_| s.q.pop_front().unwrap()).collect();
                ck!(&["B05", "B01"], got == want, "drain gave {}, expected {}", sh(got.iter()), sh(want.iter()));
            }
            Op::IntoIter(n) => {
                tags = T_BULK;
                op("into_iter", n as u64, 0, 0, T_BULK);
                let cap = self.s[k].cap;
                let s = std::mem::replace(&mut self.s[k], S { b: CircularBuffer::new(cap), cap, q: VecDeque::new() });
                let base = self.total();
                let q: Vec<u64> = s.q.iter().copied().collect();
                let mut it = s.b.into_iter();
                let mut got = Vec::new();
                for _ in 0..n {
                    match it.next() {
                        Some(e) => got.push(e.id()),
                        None => break,
                    }
                    if got.len() > q.len() + 1 {
                        break;
                    }
                }
                let want: Vec<u64> = q.iter().take(n).copied().collect();
                ck!(&["B05", "B04", "B01"], got == want, "into_iter gave {}, expected {}", sh(got.iter()), sh(want.iter()));
                ledger::<E>(base + q.len() - want.len(), "partial into_iter");
                drop(it);
                ledger::<E>(base, "dropping a partly consumed into_iter");
            }
            Op::DrainVia(kind, n) => {
                tags = T_BULK;
                op("drain through iterator methods", kind, n as u64, 0, T_BULK);
                let s = &mut self.s[k];
                let total = s.q.len();
                let got = drive(s.b.drain(), kind, n, total, |e| e.id());
                let want = drive(Front(&mut s.q), kind, n, total, |x| x);
                ck!(&["B04", "B05", "B01"], got == want, "drain observed through iterator method {kind} ({n}) gave {}, expected {}", sh(got.iter()), sh(want.iter()));
            }
            Op::IntoVia(kind, n) => {
                tags = T_BULK;
                op("into_iter through iterator methods", kind, n as u64, 0, T_BULK);
                let cap = self.s[k].cap;
                let mut s = std::mem::replace(&mut self.s[k], S { b: CircularBuffer::new(cap), cap, q: VecDeque::new() });
                let base = self.total();
                let total = s.q.len();
                let got = drive(s.b.into_iter(), kind, n, total, |e| e.id());
                let want = drive(Front(&mut s.q), kind, n, total, |x| x);
                ck!(&["B04", "B05", "B01"], got == want, "into_iter observed through iterator method {kind} ({n}) gave {}, expected {}", sh(got.iter()), sh(want.iter()));
                ledger::<E>(base, "using up an into_iter through iterator methods");
            }
            Op::CloneFrom(c2, o2, l2) => {
                tags = T_CMP;
                let mut o: S<E> = S::at(c2, o2, l2.min(c2), o2 % 2 == 0, &mut self.next);
                op("clone_from", c2 as u64, o2 as u64, l2 as u64, T_CLONE);
                let s = &mut self.s[k];
                s.b.clone_from(&o.b);
                s.cap = c2;
                s.q = o.q.clone();
                let eq = s.b == o.b;
                ck!(T_CMP, eq, "a buffer is not equal to {} after clone_from it", sh(o.q.iter()));
                o.check(T_CMP, deep);
                s.check(T_CMP, deep);
                ledger::<E>(self.total() + if E::NAME == "Vec<Tok>" { 0 } else { o.q.len() }, "clone_from");
                let id = self.id();
                o.push_back(id);
                o.pop_front();
                self.s[k].check(T_CMP, false);
                op("drop clone", 0, 0, 0, T_OWN);
                drop(o);
            }
            Op::BadHint(n, kind) => {
                // a wrong size hint may not cause undefined behaviour or double drops; nothing else is prescribed
                if !mon::checking("B03") {
                    return;
                }
                op("wrong size hint", n as u64, kind, 0, T_OWN);
                tags = T_OWN;
                let hint = match kind % 4 {
                    0 => (n + 5, Some(n + 5)),
                    1 => (n.saturating_sub(3), Some(n.saturating_sub(3))),
                    2 => (0, Some(0)),
                    _ => (n + 1, None),
                };
                let ids: Vec<u64> = (0..n).map(|_| self.id()).collect();
                let s = &mut self.s[k];
                let mut src: Vec<Option<E>> = ids.iter().map(|i| Some(E::make(*i))).collect();
                let it = Feed { it: src.iter_mut().map_while(|e| e.take()), hint };
                let r = quiet(|| if kind / 4 % 2 == 0 { s.b.extend(it) } else { s.b = it.collect() });
                count(if r.is_ok() { "wrong size hints tolerated" } else { "wrong size hints refused by panic" }, 1);
                drop(src);
                // what arrived is not prescribed
                s.cap = s.b.capacity();
                s.q = s.b.iter().take(s.cap + 2).map(|e| e.id()).collect();
            }
            Op::Linearize(write) => {
                tags = T_ARR;
                op("linearize", write as u64, 0, 0, T_ARR);
                let id = self.id();
                let s = &mut self.s[k];
                let mut got = Vec::with_capacity(s.cap + 2);
                na::<E, _>("linearize", || {
                    for e in s.b.linearize().iter().take(s.cap + 2) {
                        got.push(e.id());
                    }
                });
                ck!(&["B06", "B04", "B01"], got.iter().eq(s.q.iter()), "linearize() returned {}, expected {}", sh(got.iter()), sh(s.q.iter()));
                let (x, y) = {
                    let (x, y) = s.b.slices();
                    (x.len(), y.len())
                };
                ck!(T_ARR, x == 0 || y == 0, "two slices ({x}, {y}) right after linearize()");
                if write && !s.q.is_empty() {
                    let i = (id as usize) % s.q.len();
                    let l = s.b.linearize();
                    if i < l.len() {
                        l[i] = E::make(id);
                    }
                    s.q[i] = E::norm(id);
                    tags = &["B04", "B06", "B01"];
                }
            }
            Op::Swap(a, b) => {
                tags = T_ARR;
                op("swap", a as u64, b as u64, 0, T_ARR);
                let s = &mut self.s[k];
                let n = s.q.len();
                if a < n && b < n {
                    na::<E, _>("swap", || s.b.swap(a, b));
                    s.q.swap(a, b);
                } else {
                    let r = quiet(|| s.b.swap(a, b));
                    ck!(T_ARR, r.is_err(), "swap({a},{b}) did not panic with {n} elements");
                }
            }
            Op::Reverse => {
                tags = T_ARR;
                op("reverse", 0, 0, 0, T_ARR);
                let s = &mut self.s[k];
                na::<E, _>("reverse", || s.b.reverse());
                s.q = s.q.iter().rev().copied().collect();
            }
            Op::Set(i) => {
                tags = T_VIEW;
                let id = self.id();
                let s = &mut self.s[k];
                if i < s.q.len() {
                    op("index write", i as u64, id, 0, T_VIEW);
                    let e = E::make(id);
                    na::<E, _>("index write", || s.b[i] = e);
                    s.q[i] = E::norm(id);
                }
            }
            Op::SetEnds => {
                tags = T_VIEW;
                let (x, y) = (self.id(), self.id());
                let s = &mut self.s[k];
                op("write through first_mut/last_mut", x, y, 0, T_VIEW);
                let f = match s.b.first_mut() {
                    Some(e) => {
                        *e = E::make(x);
                        true
                    }
                    None => false,
                };
                if let Some(e) = s.q.front_mut() {
                    *e = E::norm(x);
                }
                ck!(T_VIEW, f != s.q.is_empty(), "first_mut() is_some {f} with {} elements", s.q.len());
                s.check(T_VIEW, false);
                let f = match s.b.last_mut() {
                    Some(e) => {
                        *e = E::make(y);
                        true
                    }
                    None => false,
                };
                if let Some(e) = s.q.back_mut() {
                    *e = E::norm(y);
                }
                ck!(T_VIEW, f != s.q.is_empty(), "last_mut() is_some {f} with {} elements", s.q.len());
            }
            Op::IterMut => {
                tags = T_VIEW;
                op("write through iter_mut", 0, 0, 0, T_VIEW);
                let base = self.id();
                let s = &mut self.s[k];
                let sel = base % 3;
                let mut j = 0;
                for e in s.b.iter_mut() {
                    if j % 3 != sel {
                        *e = E::make(base + j);
                    }
                    j += 1;
                }
                for (j, e) in s.q.iter_mut().enumerate() {
                    if j as u64 % 3 != sel {
                        *e = E::norm(base + j as u64);
                    }
                }
                self.next += j;
                ck!(T_VIEW, j == s.q.len() as u64, "iter_mut yielded {j} of {} elements", s.q.len());
                let s = &mut self.s[k];
                let mut j = 0;
                for e in (&mut s.b).into_iter().rev() {
                    if j % 4 == 1 {
                        *e = E::make(base + 500 + j);
                    }
                    j += 1;
                }
                for (j, e) in s.q.iter_mut().rev().enumerate() {
                    if j % 4 == 1 {
                        *e = E::norm(base + 500 + j as u64);
                    }
                }
            }
            Op::SlicesMut => {
                tags = T_VIEW;
                op("write through slices_mut", 0, 0, 0, T_VIEW);
                let base = self.id();
                let s = &mut self.s[k];
                let n = s.q.len();
                let (x, y) = s.b.slices_mut();
                let p = x.len();
                for (j, e) in x.iter_mut().enumerate() {
                    *e = E::make(base + j as u64);
                }
                for (j, e) in y.iter_mut().enumerate() {
                    *e = E::make(base + (p + j) as u64);
                }
                ck!(T_VIEW, p + y.len() == n, "slices_mut have {p}+{} of {n} elements", y.len());
                for (j, e) in s.q.iter_mut().enumerate() {
                    *e = E::norm(base + j as u64);
                }
                self.next += n as u64;
            }
            Op::Clone => {
                tags = T_CMP;
                op("clone", 0, 0, 0, T_CLONE);
                let s = &self.s[k];
                let mut c = S { b: s.b.clone(), cap: s.cap, q: s.q.clone() };
                let eq = c.b == s.b;
                ck!(T_CMP, eq, "clone is not equal to the original {}", sh(s.q.iter()));
                c.check(&["B07", "B01"], deep);
                ledger::<E>(self.total() + if E::NAME == "Vec<Tok>" { 0 } else { c.q.len() }, "clone");
                if self.s.len() < 3 {
                    self.s.push(c);
                } else {
                    // mutate the clone, the original must not notice, then drop it
                    let id = self.id();
                    c.push_back(id);
                    c.push_front(id);
                    op("reverse", 0, 0, 0, T_ARR);
                    c.b.reverse();
                    c.q = c.q.iter().rev().copied().collect();
                    c.check(&["B07", "B01"], false);
                    self.s[k].check(T_CMP, false);
                    op("drop clone", 0, 0, 0, T_OWN);
                    drop(c);
                }
            }
            Op::From(n, kind) => {
                tags = T_BULK;
                op("build", n as u64, kind, 0, T_BULK);
                let ids: Vec<u64> = (0..n).map(|_| self.id()).collect();
                let b: CircularBuffer<E> = match kind % 4 {
                    0 => {
                        let mut v: Vec<E> = Vec::with_capacity(n + (kind as usize / 4) % 9);
                        v.extend(ids.iter().map(|i| E::make(*i)));
                        CircularBuffer::from(v)
                    }
                    1 => ids.iter().map(|i| E::make(*i)).collect(),
                    2 => {
                        let v: Vec<E> = ids.iter().map(|i| E::make(*i)).collect();
                        feed(v.iter(), n, kind / 4).collect()
                    }
                    _ => {
                        let mut v: Vec<Option<E>> = ids.iter().map(|i| Some(E::make(*i))).collect();
                        feed(v.iter_mut().map(|e| e.take().unwrap()), n, kind / 4).collect()
                    }
                };
                let old = std::mem::replace(&mut self.s[k], S { b, cap: n, q: ids.iter().map(|i| E::norm(*i)).collect() });
                op("drop", 0, 0, 0, T_OWN);
                drop(old);
            }
            Op::Compare(x) => {
                op("compare", x, 0, 0, T_CMP);
                let s = &self.s[k];
                let v: Vec<E> = s.q.iter().map(|i| E::make(*i)).collect();
                let r = na::<E, _>("compare with slice", || s.b == v[..]);
                ck!(T_CMP, r, "buffer differs from the slice of its own content {}", sh(s.q.iter()));
                let r = na::<E, _>("compare with slice ref", || s.b == &v[..]);
                ck!(T_CMP, r, "buffer differs from the slice reference of its own content {}", sh(s.q.iter()));
                if !v.is_empty() {
                    ck!(T_CMP, s.b != v[1..], "buffer {} equals its own tail", sh(s.q.iter()));
                    ck!(T_CMP, s.b != &v[..v.len() - 1], "buffer {} equals its own prefix", sh(s.q.iter()));
                }
                let other: CircularBuffer<E> = v.into();
                let r = na::<E, _>("compare", || (s.b == other, s.b.cmp(&other), s.b.partial_cmp(&other)));
                ck!(T_CMP, r.0 && r.1 == std::cmp::Ordering::Equal && r.2 == Some(r.1), "comparison with a copy of {}: {r:?}", sh(s.q.iter()));
            }
            Op::Oob(i) => self.s[k].oob(i),
        }
        self.s[k].check(tags, deep);
        ledger_any("the operation");
        let t = self.total();
        if E::NAME != "Vec<Tok>" {
            ledger::<E>(t, "the operation");
        } else {
            let t: usize = self.s.iter().map(|s| s.q.len()).sum();
            ck!(&["B02"], live() == t as i64, "{} elements alive, expected {t}", live());
        }
        for j in 0..self.s.len() {
            if j != k && deep {
                self.s[j].check(T_CMP, false);
            }
        }
    }

    fn finish(mut self) {
        op("drop", 0, 0, 0, T_OWN);
        self.s.clear();
        ledger_any("dropping the buffers");
        if E::TRACKED {
            ledger::<E>(0, "dropping the buffers");
        } else {
            ck!(&["B02"], live() == 0, "{} elements alive after dropping the buffers", live());
        }
    }
}

fn all_ops(cap: usize, len: usize) -> Vec<Op> {
    let mut v = vec![Op::PushBack(1), Op::PushFront(1), Op::PushBack(2), Op::PushFront(3), Op::PopBack, Op::PopFront, Op::Clear,
        Op::Linearize(false), Op::Linearize(true), Op::Reverse, Op::SetEnds, Op::IterMut, Op::SlicesMut, Op::Clone, Op::Compare(0),
        Op::Oob(len), Op::Oob(len + 1), Op::Oob(cap), Op::Oob(cap + 1), Op::Oob(cap + 2), Op::Oob(usize::MAX), Op::Oob(usize::MAX - cap)];
    for n in 0..=cap + 3 {
        v.push(Op::Resize(n));
        v.push(Op::Extend(n, n as u64 % 12));
        v.push(Op::BadHint(n, n as u64));
        v.push(Op::Drain(n));
        v.push(Op::IntoIter(n));
        v.push(Op::From(n, (n as u64) * 5));
        v.push(Op::From(n, (n as u64) * 5 + 1));
    }
    v.push(Op::Resize(cap * 3 + 5));
    v.push(Op::Extend(2 * cap + 1, 1));
    v.push(Op::Extend(2 * cap + 1, 4));
    v.push(Op::Extend(2 * cap + 1, 11));
    for k in 0..vh::iters::KINDS {
        for n in 0..=2 {
            v.push(Op::DrainVia(k, n));
            v.push(Op::IntoVia(k, n));
        }
        v.push(Op::DrainVia(k, len));
        v.push(Op::IntoVia(k, len));
    }
    for c2 in [0, 1, cap, cap + 1, cap + 3] {
        v.push(Op::CloneFrom(c2, 0, c2));
        v.push(Op::CloneFrom(c2, c2, c2 / 2));
    }
    v.push(Op::Drain(usize::MAX));
    v.push(Op::Forget(1));
    for c2 in 0..4 {
        for l2 in 0..=c2 {
            v.push(Op::Append(c2, (c2 + l2) % (c2 + 1), l2));
            v.push(Op::Append(c2, c2, l2));
        }
    }
    v.push(Op::Append(cap + 2, 1, cap + 2));
    for a in 0..=len + 1 {
        v.push(Op::Set(a));
        for b in 0..=len + 1 {
            v.push(Op::Swap(a, b));
        }
    }
    v.push(Op::Swap(usize::MAX, 0));
    v
}

fn gen(r: &mut Rng, cap: usize, len: usize, dict: &[u64], big: usize) -> Op {
    let small = |r: &mut Rng| r.us(cap + 3);
    let size = |r: &mut Rng| -> usize {
        if r.chance(1, 4) {
            let d = *r.pick(dict);
            if d as usize <= big { d as usize } else { r.us(cap + 3) }
        } else {
            r.us(cap + 4)
        }
    };
    match r.us(40) {
        0..=6 => Op::PushBack(1),
        7..=9 => Op::PushFront(1),
        10 => Op::PushBack(1 + r.skewed(2 * cap as u64 + 1)),
        11 => Op::PushFront(1 + r.skewed(2 * cap as u64 + 1)),
        12 | 13 => Op::PopBack,
        14..=16 => Op::PopFront,
        17 => if r.chance(1, 4) { Op::Clear } else { Op::PopFront },
        18 | 19 => Op::Resize(if r.chance(1, 2) { size(r) } else { (cap + r.us(4)).saturating_sub(r.us(5)) }),
        20 => Op::Extend(size(r), r.next() % 12),
        21 => if r.chance(1, 8) { Op::BadHint(r.us(cap + 4), r.next()) } else { Op::Extend(size(r), r.next() % 12) },
        22 | 23 => {
            let c = if r.chance(1, 5) { size(r) } else { r.us(6) };
            Op::Append(c, r.us(c + 2), r.us(c + 2))
        }
        24 => if r.chance(1, 2) { Op::DrainVia(r.next() % 64, small(r)) } else { Op::Drain(small(r)) },
        25 => match r.below(6) {
            0 => Op::IntoIter(small(r)),
            1 => Op::IntoVia(r.next() % 64, small(r)),
            2 => Op::DrainVia(r.next() % 64, r.us(3)),
            _ => Op::Drain(r.us(3)),
        },
        26 => Op::Linearize(r.chance(1, 2)),
        27..=29 => {
            if r.chance(1, 8) { Op::Swap(len + r.us(3), r.us(len + 2)) } else { Op::Swap(r.us(len + 1), r.us(len + 1)) }
        }
        30 => Op::Reverse,
        31 => Op::Set(r.us(len + 1)),
        32 => Op::SetEnds,
        33 => Op::IterMut,
        34 => Op::SlicesMut,
        35 => Op::Clone,
        36 => if r.chance(1, 3) { let c = size(r); Op::CloneFrom(c, r.us(c + 2), r.us(c + 2)) } else { Op::Clone },
        37 => if r.chance(1, 2) { Op::From(size(r), r.next() % 64) } else { Op::Forget(r.us(3)) },
        38 => Op::Compare(r.next()),
        _ => Op::Oob(len + r.us(4)),
    }
}

/// Every (capacity, storage offset, length) up to cmax, every operation, then a short tail.
fn exhaustive<E: Elem>(run: &mut Run, cmax: usize) {
    let phase = format!("exhaustive/{}", E::NAME);
    let mut idx = 0;
    for cap in 0..=cmax {
        for off in 0..=cap {
            for len in 0..=cap {
                for back in [true, false] {
                    // Miri is slow: the quick tier takes a different tenth of the operations in each case
                    let (every, pick) = if run.miri() && !run.a.thorough { (10, (run.a.seed + idx) as usize % 10) } else { (1, 0) };
                    run.case(&phase, idx, |r| {
                        for (i, o) in all_ops(cap, len).into_iter().enumerate().filter(|x| x.0 % every == pick) {
                            retrace();
                            mon::note(format!("capacity {cap}, rotated by {off}, {len} elements pushed at the {}, then {o:?}", if back { "back" } else { "front" }));
                            let mut w: W<E> = W { s: vec![], next: 0, dom: 0 };
                            let s = S::at(cap, off, len, back, &mut w.next);
                            w.s.push(s);
                            w.s[0].check(T_SEQ, true);
                            w.apply(0, o, true);
                            // a tail that exposes a latent bad state
                            for t in 0..3 {
                                let tail = match (i + t + r.us(2)) % 5 {
                                    0 => Op::PushBack(1),
                                    1 => Op::PushFront(1),
                                    2 => Op::PopFront,
                                    3 => Op::PopBack,
                                    _ => Op::PushBack(cap as u64 + 1),
                                };
                                w.apply(0, tail, true);
                            }
                            w.finish();
                        }
                    });
                    idx += 1;
                }
            }
        }
    }
}

fn random<E: Elem>(run: &mut Run, cases: u64, ops: usize, maxcap: usize) {
    let dict = run.dict.clone();
    let phase = format!("random{maxcap}/{}", E::NAME);
    for idx in 0..cases {
        run.case(&phase, idx, |r| {
            let mut cap = r.us(maxcap + 1);
            if maxcap > 16 && r.chance(1, 3) {
                let d = *r.pick(&dict) as usize;
                if d <= maxcap * 4 {
                    cap = d;
                }
            }
            let mut w: W<E> = W { s: vec![], next: 0, dom: if r.chance(1, 4) { 3 } else { 0 } };
            let len = r.us(cap + 1);
            let off = if r.chance(1, 3) { cap } else { r.us(cap + 2) };
            let s = S::at(cap, off, len, r.chance(1, 2), &mut w.next);
            w.s.push(s);
            for i in 0..ops {
                let k = r.us(w.s.len());
                let (cap, len) = (w.s[k].cap, w.s[k].q.len());
                // keep sizes bounded
                let o = if cap > maxcap * 6 + 20 { Op::Resize(r.us(maxcap + 1)) } else { gen(r, cap, len, &dict, maxcap * 4) };
                let deep = maxcap <= 16 || i % 8 == 0;
                w.apply(k, o, deep);
                if w.s.len() == 3 && r.chance(1, 6) {
                    op("drop", 0, 0, 0, T_OWN);
                    let k = r.us(3);
                    w.s.swap_remove(k);
                }
            }
            w.finish();
        });
    }
}

/// Large buffers whose cursors, lengths and positions lie around powers of two: every operation.
const HUGE: [usize; 14] = [65_534, 65_535, 65_536, 65_537, 70_000, 98_304, 131_070, 131_071, 131_072, 131_073, 150_000, 196_609, 262_145, 300_000];
fn huge_ops(r: &mut Rng, cap: usize, len: usize) -> Vec<Op> {
    let far = |r: &mut Rng| *r.pick(&[0, 1, len / 2, len.saturating_sub(1), len.saturating_sub(2), 65_535.min(len), 65_536.min(len), 131_072.min(len), len / 3 * 2]);
    vec![Op::Reverse, Op::Linearize(false), Op::Linearize(true), Op::Resize(cap / 2), Op::Resize(cap + cap / 3), Op::Resize(65_536), Op::Resize(65_535),
        Op::Resize(131_072), Op::Extend(cap / 2 + 1, r.next() % 12), Op::Extend(cap + 1, r.next() % 12), Op::Append(cap / 2, cap / 3, cap / 4), Op::Append(cap + 9, cap / 3, cap + 9),
        Op::Drain(usize::MAX), Op::Drain(len / 2), Op::Drain(len.min(65_536)), Op::IntoIter(len / 2), Op::IntoIter(usize::MAX), Op::DrainVia(r.next() % 64, len / 2),
        Op::IntoVia(r.next() % 64, len / 2), Op::Swap(far(r), far(r)), Op::Swap(far(r), far(r)), Op::Swap(r.us(len + 1), r.us(len + 1)), Op::Set(far(r)), Op::Set(r.us(len + 1)),
        Op::SetEnds, Op::IterMut, Op::SlicesMut, Op::Clone, Op::CloneFrom(cap + 5, cap / 2, cap), Op::CloneFrom(65_536, 3, 65_536), Op::From(cap, r.next() % 64), Op::From(65_536, r.next() % 64),
        Op::Compare(r.next()), Op::Compare(r.next()), Op::Oob(len), Op::Oob(cap), Op::Oob(cap + 1), Op::PushBack(cap as u64 / 2), Op::PushFront(cap as u64 / 2), Op::PushBack(70_000), Op::PushFront(70_000), Op::Clear]
}
fn huge<E: Elem>(run: &mut Run, cases: u64) {
    let phase = format!("huge/{}", E::NAME);
    for idx in 0..cases {
        run.case(&phase, idx, |r| {
            let cap = if r.chance(3, 4) { *r.pick(&HUGE) } else { 60_000 + r.us(250_000) };
            let len = match r.below(6) { 0 => cap, 1 => cap - 1, 2 => 65_536.min(cap), 3 => 131_073.min(cap), _ => r.us(cap + 1) };
            let off = match r.below(6) { 0 => cap, 1 => cap - r.us(9), 2 => 65_536.min(cap) - r.us(3), 3 => 131_072.min(cap) - r.us(3), 4 => 0, _ => r.us(cap + 2) };
            mon::note(format!("capacity {cap}, rotated by {off}, {len} elements"));
            let mut w: W<E> = W { s: vec![], next: 0, dom: 0 };
            // pushes of the set-up are not judged one by one (the check below sees their result)
            let mut b = CircularBuffer::new(cap);
            for _ in 0..off { b.push_back(E::make(1)); b.pop_front(); }
            let back = r.chance(1, 2);
            let mut q = VecDeque::with_capacity(cap);
            for i in 0..len as u64 {
                w.next = i + 1;
                if back { b.push_back(E::make(i + 1)); q.push_back(E::norm(i + 1)) } else { b.push_front(E::make(i + 1)); q.push_front(E::norm(i + 1)) }
            }
            w.s.push(S { b, cap, q });
            w.s[0].check(T_SEQ, true);
            for _ in 0..3 {
                let k = r.us(w.s.len());
                let ops = huge_ops(r, w.s[k].cap, w.s[k].q.len());
                let o = *r.pick(&ops);
                w.apply(k, o, true);
                if w.s[k].cap > 700_000 { w.apply(k, Op::Resize(65_537), false) }
                for _ in 0..2 {
                    let o = match r.below(5) { 0 => Op::PushBack(1), 1 => Op::PushFront(1), 2 => Op::PopFront, 3 => Op::PopBack, _ => { let n = w.s[k].q.len(); Op::Swap(r.us(n + 1), r.us(n + 1)) } };
                    w.apply(k, o, false);
                }
                if w.s.len() > 1 { w.s.swap_remove(r.us(2)); }
                mon::progress();
            }
            w.finish();
        });
    }
}

/// One long FIFO/LIFO history per case: counters, periodic effects.
fn long<E: Elem>(run: &mut Run, cases: u64, steps: u64) {
    let phase = format!("long/{}", E::NAME);
    let dict = run.dict.clone();
    for idx in 0..cases {
        run.case(&phase, idx, |r| {
            let mut cap = 1 + r.us(40);
            if r.chance(1, 2) {
                let d = *r.pick(&dict) as usize;
                if d > 0 && d <= 4096 {
                    cap = d;
                }
            }
            let mut s: S<E> = S::new(cap);
            let mut id = 0;
            let bias = r.below(3);
            for i in 0..steps {
                id += 1;
                match r.below(8) {
                    0..=2 => s.push_back(id),
                    3 => if bias == 0 { s.push_back(id) } else { s.push_front(id) },
                    4 => if bias == 2 { s.pop_back() } else { s.pop_front() },
                    5 => if bias == 1 { s.pop_back() } else { s.pop_front() },
                    6 => s.push_back(id),
                    _ => {
                        if !s.q.is_empty() {
                            let k = r.us(s.q.len());
                            op("index", k as u64, 0, 0, T_VIEW);
                            let x = s.b[k].id();
                            ck!(T_VIEW, x == s.q[k], "[{k}] is {x}, expected {}", s.q[k]);
                        }
                    }
                }
                ck!(T_SEQ, s.b.len() == s.q.len(), "len {} expected {}", s.b.len(), s.q.len());
                if i % 997 == 0 {
                    s.check(T_SEQ, true);
                }
            }
            s.check(T_SEQ, true);
            if E::TRACKED {
                ledger::<E>(s.q.len(), "a long history");
            }
        });
    }
}

// ------------------------------------------------------------------ B07 comparisons
fn build_route<E: Elem>(r: &mut Rng, ids: &[u64], route: u64) -> CircularBuffer<E> {
    op("build by route", route, ids.len() as u64, 0, T_CMP);
    let n = ids.len();
    match route % 6 {
        0 => CircularBuffer::from(ids.iter().map(|i| E::make(*i)).collect::<Vec<_>>()),
        1 => {
            let mut b = CircularBuffer::new(n + r.us(4));
            for i in ids {
                b.push_back(E::make(*i));
            }
            b
        }
        2 => {
            let mut b = CircularBuffer::new(n + r.us(4));
            for i in ids.iter().rev() {
                b.push_front(E::make(*i));
            }
            b
        }
        3 => {
            // overfilled and wrapped
            let mut b = CircularBuffer::new(n);
            for i in 0..r.us(2 * n + 2) as u64 {
                b.push_back(E::make(i + 7));
            }
            for i in ids {
                b.push_back(E::make(*i));
            }
            b
        }
        4 => {
            let mut b = CircularBuffer::new(n + 1 + r.us(3));
            for _ in 0..r.us(n + 3) {
                b.push_back(E::make(1));
                b.pop_front();
            }
            for i in ids {
                b.push_back(E::make(*i));
            }
            b
        }
        _ => {
            let mut b = CircularBuffer::new(n + 2);
            let k = r.us(n + 1);
            for i in &ids[k..] {
                b.push_back(E::make(*i));
            }
            for i in ids[..k].iter().rev() {
                b.push_front(E::make(*i));
            }
            b
        }
    }
}

/// Contents for a message: long ones by length and their first difference.
fn shown(v: &[u64], d: usize) -> String {
    if v.len() <= 50 {
        return format!("{v:?}");
    }
    let e = (d + 4).min(v.len());
    format!("{} elements ({:?} from index {d})", v.len(), &v[d.min(e)..e])
}

fn compare_pair<E: Elem>(r: &mut Rng, x: &[u64], y: &[u64]) {
    let (rx, ry) = (r.next() % 6, r.next() % 6);
    let a: CircularBuffer<E> = build_route(r, x, rx);
    let b: CircularBuffer<E> = build_route(r, y, ry);
    let nx: Vec<u64> = x.iter().map(|i| E::norm(*i)).collect();
    let ny: Vec<u64> = y.iter().map(|i| E::norm(*i)).collect();
    op("compare buffers", rx, ry, 0, T_CMP);
    let w = nx.cmp(&ny);
    let eq = nx == ny;
    let d = nx.iter().zip(&ny).position(|(p, q)| p != q).unwrap_or(nx.len().min(ny.len()));
    let (tx, ty) = (shown(&nx, d), shown(&ny, d));
    mon::note(format!("{tx} (capacity {}) vs {ty} (capacity {})", a.capacity(), b.capacity()));
    let c = &a;
    ck!(T_CMP, c == &a && !(c != &a) && c.cmp(&a).is_eq() && c.partial_cmp(&a).is_some_and(|o| o.is_eq()) && c <= &a && !(c < &a), "{tx} compared with itself is not equal");
    ck!(T_CMP, (a == b) == eq && (a != b) != eq, "== gives {}, != gives {} for {tx} and {ty}", a == b, a != b);
    ck!(T_CMP, a.cmp(&b) == w, "cmp gives {:?} for {tx} and {ty}", a.cmp(&b));
    ck!(T_CMP, a.partial_cmp(&b) == Some(w), "partial_cmp gives {:?} for {tx} and {ty}", a.partial_cmp(&b));
    ck!(T_CMP, (a < b) == w.is_lt() && (a <= b) == w.is_le() && (a > b) == w.is_gt() && (a >= b) == w.is_ge(),
        "operators < {} <= {} > {} >= {} for {tx} and {ty}", a < b, a <= b, a > b, a >= b);
    if rx == ry {
        let (p, q) = (a.clone(), b.clone());
        let m: Vec<u64> = std::cmp::max(p, q).iter().map(|e| e.id()).collect();
        ck!(T_CMP, m == *std::cmp::max(&nx, &ny), "max is wrong for {tx} and {ty}");
        let (p, q) = (a.clone(), b.clone());
        let m: Vec<u64> = std::cmp::min(p, q).iter().map(|e| e.id()).collect();
        ck!(T_CMP, m == *std::cmp::min(&nx, &ny), "min is wrong for {tx} and {ty}");
        if eq || w.is_lt() {
            let z: Vec<u64> = (0..r.us(4)).map(|_| r.below(4)).collect();
            let c = build_route::<E>(r, &z, rx).clamp(a.clone(), b.clone());
            let m: Vec<u64> = c.iter().map(|e| e.id()).collect();
            let nz: Vec<u64> = z.iter().map(|i| E::norm(*i)).collect();
            ck!(T_CMP, m == nz.clone().clamp(nx.clone(), ny.clone()), "{nz:?} clamped between {tx} and {ty} gives {m:?}");
        }
    }
    let sy: Vec<E> = y.iter().map(|i| E::make(*i)).collect();
    ck!(T_CMP, (a == sy[..]) == eq && (a != sy[..]) != eq, "comparison of {tx} with slice {ty} gives {}", a == sy[..]);
    ck!(T_CMP, (a == &sy[..]) == eq && (a != &sy[..]) != eq, "comparison of {tx} with slice reference {ty} gives {}", a == &sy[..]);
    state(h(&[nx.len() as u64, ny.len() as u64, rx, ry, w as i8 as u64, h(&nx), h(&ny)]));
}

fn words(alpha: u64, maxlen: usize) -> Vec<Vec<u64>> {
    let mut all = vec![vec![]];
    let mut cur: Vec<Vec<u64>> = vec![vec![]];
    for _ in 0..maxlen {
        cur = cur.iter().flat_map(|w| (0..alpha).map(move |a| { let mut w = w.clone(); w.push(a); w })).collect();
        all.extend(cur.iter().cloned());
    }
    all
}

fn comparisons<E: Elem>(run: &mut Run, maxlen: usize, rnd: u64) {
    let ws = words(3, maxlen);
    let phase = format!("compare-all/{}", E::NAME);
    for (i, x) in ws.iter().enumerate() {
        run.case(&phase, i as u64, |r| {
            for y in &ws {
                retrace();
                compare_pair::<E>(r, x, y);
            }
        });
    }
    let phase = format!("compare-random/{}", E::NAME);
    let dict = run.dict.clone();
    for i in 0..rnd {
        run.case(&phase, i, |r| {
            let n = if r.chance(1, 3) { (*r.pick(&dict) as usize).min(300) } else { r.us(40) };
            let x: Vec<u64> = (0..n).map(|_| r.below(4)).collect();
            let mut y = x.clone();
            match r.below(6) {
                0 => {}
                1 => { if n > 0 { let k = r.us(n); y[k] = r.below(5) } }
                2 => { y.pop(); }
                3 => y.push(r.below(3)),
                4 => { if n > 0 { let k = r.us(n); y.remove(k); } }
                _ => { if n > 1 { let (i, j) = (r.us(n), r.us(n)); y.swap(i, j) } }
            }
            compare_pair::<E>(r, &x, &y);
        });
    }
}

/// Long contents that differ late, in one place, only in length, or not at all.
fn comparisons_long<E: Elem>(run: &mut Run, cases: u64, maxlen: usize) {
    let phase = format!("compare-long/{}", E::NAME);
    let dict = run.dict.clone();
    for i in 0..cases {
        run.case(&phase, i, |r| {
            let n = match r.below(4) {
                0 => (*r.pick(&dict) as usize).min(maxlen),
                1 => { let k = 5 + r.us(maxlen.ilog2() as usize - 4); ((1usize << k) + r.us(5)).saturating_sub(2).min(maxlen) }
                2 => 300 + r.us(700),
                _ => 300 + r.us(maxlen),
            };
            let alpha = *r.pick(&[1u64, 2, 200]);
            let x: Vec<u64> = (0..n).map(|_| r.below(alpha)).collect();
            let mut y = x.clone();
            let k = if n == 0 { 0 } else {
                match r.below(4) {
                    0 => n - 1,
                    1 => n - 1 - r.us(n.min(40)),
                    2 => (*r.pick(&dict) as usize).min(n - 1),
                    _ => r.us(n),
                }
            };
            match r.below(8) {
                0 => {}
                1..=3 => { if n > 0 { y[k] += 1 } }
                4 => { if n > 1 { y[k] += 1; y[n - 1 - k / 2] = 0 } }
                5 => y.truncate(k),
                6 => y.extend((0..1 + r.us(3)).map(|_| 0)),
                _ => { if n > 0 { y.remove(k); } }
            }
            if r.chance(1, 2) { compare_pair::<E>(r, &x, &y) } else { compare_pair::<E>(r, &y, &x) }
        });
    }
}

/// Partial orders: NaN and friends.
fn comparisons_f64(run: &mut Run, rnd: u64) {
    let vals = [f64::NAN, 0.0, -0.0, 1.0, f64::INFINITY, -1.0];
    for i in 0..rnd {
        run.case("compare-f64", i, |r| {
            let n = r.us(5);
            let x: Vec<f64> = (0..n).map(|_| *r.pick(&vals)).collect();
            let mut y = x.clone();
            if r.chance(2, 3) {
                y = (0..r.us(5)).map(|_| *r.pick(&vals)).collect();
            } else if n > 0 {
                let k = r.us(n);
                y[k] = *r.pick(&vals);
            }
            op("compare f64", 0, 0, 0, T_CMP);
            let mut a = CircularBuffer::new(x.len() + r.us(3));
            let mut b = CircularBuffer::new(y.len());
            a.extend(x.iter());
            for _ in 0..r.us(4) {
                b.push_back(3.0);
            }
            b.extend(y.iter());
            ck!(T_CMP, (a == b) == (x == y) && (a != b) != (x == y), "== gives {} for {x:?} {y:?}", a == b);
            ck!(T_CMP, a.partial_cmp(&b) == x.partial_cmp(&y), "partial_cmp gives {:?} for {x:?} {y:?}", a.partial_cmp(&b));
            ck!(T_CMP, (a < b, a <= b, a > b, a >= b) == (x < y, x <= y, x > y, x >= y), "operators differ for {x:?} {y:?}");
            ck!(T_CMP, (a == y[..]) == (x == y) && (a == &y[..]) == (x == y), "slice comparison differs for {x:?} {y:?}");
            // with itself: an element may differ from itself
            let (same, ord) = (x.iter().all(|e| *e == *e), x.partial_cmp(&x));
            let c = &a;
            ck!(T_CMP, (c == &a) == same && (c != &a) != same, "compared with itself: == gives {} for {x:?}", c == &a);
            ck!(T_CMP, c.partial_cmp(&a) == ord && (c <= &a) == (x <= x.clone()) && (c >= &a) == (x >= x.clone()), "compared with itself: partial_cmp gives {:?} for {x:?}", c.partial_cmp(&a));
            if a.slices().1.is_empty() {
                ck!(T_CMP, (a == *a.slices().0) == same && (a == a.slices().0) == same, "compared with its own slice: == differs for {x:?}");
            }
            state(h(&[x.len() as u64, y.len() as u64, x.partial_cmp(&y).map_or(9, |o| o as i8 as u64)]));
        });
    }
}

// ------------------------------------------------------------------ B09 injected panics
/// Subsequence by serial.
fn subseq(got: &[u32], all: &[u32]) -> bool {
    let mut it = all.iter();
    got.iter().all(|g| it.any(|a| a == g))
}
/// Serials now in the buffer, every one checked alive; reports if views disagree.
fn observe(b: &mut CircularBuffer<Tok>, what: &str) -> Vec<u32> {
    op("observe after panic", 0, 0, 0, T_UNW);
    let cap = b.capacity();
    let v: Vec<u32> = b.iter().take(cap + 2).map(|t| { let _ = t.id(); t.serial }).collect();
    for a in anomalies() {
        report(T_MEM, format!("{a}, after {what}"));
    }
    let n = b.len();
    ck!(T_UNW, n == v.len() && n <= cap && b.is_empty() == (n == 0) && b.is_full() == (n == cap),
        "after {what}: len {n}, capacity {cap}, {} elements iterated", v.len());
    let (x, y) = b.slices();
    let w: Vec<u32> = x.iter().chain(y.iter()).map(|t| t.serial).collect();
    ck!(T_UNW, w == v, "after {what}: slices {w:?}, iter {v:?}");
    let w: Vec<u32> = (0..n).map(|i| b[i].serial).collect();
    ck!(T_UNW, w == v, "after {what}: indexing {w:?}, iter {v:?}");
    let w: Vec<u32> = b.iter_mut().map(|t| t.serial).collect();
    ck!(T_UNW, w == v, "after {what}: iter_mut {w:?}, iter {v:?}");
    v
}

struct BombIter {
    left: u64,
    n: u64,
    log: Rc<std::cell::RefCell<Vec<u32>>>,
    hint: u64,
}
impl Iterator for BombIter {
    type Item = Tok;
    fn next(&mut self) -> Option<Tok> {
        if self.left == 0 {
            std::panic::panic_any(mon::Injected);
        }
        if self.n == 0 {
            return None;
        }
        self.left -= 1;
        self.n -= 1;
        let t = Tok::new(self.n);
        self.log.borrow_mut().push(t.serial);
        Some(t)
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        if self.hint % 2 == 0 { (0, None) } else { (self.n as usize, Some(self.n as usize)) }
    }
}

fn seq(b: &CircularBuffer<Tok>) -> Vec<u32> {
    b.iter().map(|t| t.serial).collect()
}

/// One injected fault in one operation; content afterwards must be explainable.
fn fault(r: &mut Rng, b: &mut CircularBuffer<Tok>, kind: u64, at: u64) {
    let pre = seq(b);
    let cap0 = b.capacity();
    let log = Rc::new(std::cell::RefCell::new(vec![]));
    // model of pushing `inc` at the back
    let pushed = |inc: &[u32]| -> Vec<u32> {
        let mut q: VecDeque<u32> = pre.iter().copied().collect();
        for s in inc {
            if cap0 > 0 {
                if q.len() == cap0 {
                    q.pop_front();
                }
                q.push_back(*s);
            }
        }
        q.into()
    };
    let what;
    let mut exact: Option<Vec<u32>> = None;
    let mut pool = pre.clone();
    match kind {
        0 | 1 => {
            what = if kind == 0 { "a push_back whose evicted element panics in drop" } else { "a push_front whose evicted element panics in drop" };
            op(what_static(kind), at, 0, 0, T_UNW);
            let t = Tok::new(4242);
            if kind == 0 { pool.push(t.serial) } else { pool.insert(0, t.serial) }
            arm(at, 0, 0);
            let res = quiet(|| if kind == 0 { b.push_back(t) } else { b.push_front(t) });
            disarm();
            if res.is_ok() {
                let mut q: VecDeque<u32> = pool.iter().copied().collect();
                if q.len() > cap0 {
                    if kind == 0 { q.pop_front(); } else { q.pop_back(); }
                }
                exact = Some(q.into());
            }
        }
        2 => {
            what = "a clear with a panicking drop";
            op("clear (drop panics)", at, 0, 0, T_UNW);
            arm(at, 0, 0);
            let res = quiet(|| b.clear());
            disarm();
            if res.is_ok() {
                exact = Some(vec![]);
            }
        }
        3 => {
            what = "a resize with a panicking drop";
            let n = r.us(cap0 + 2);
            op("resize (drop panics)", at, n as u64, 0, T_UNW);
            arm(at, 0, 0);
            let res = quiet(|| b.resize(n));
            disarm();
            if res.is_ok() {
                exact = Some(pre[pre.len().saturating_sub(n)..].to_vec());
            }
        }
        4 => {
            what = "a clone with a panicking element clone";
            op("clone (clone panics)", at, 0, 0, T_UNW);
            arm(0, at, 0);
            let res = quiet(|| b.clone());
            disarm();
            if let Ok(c) = res {
                ck!(T_UNW, c.len() == pre.len(), "clone has {} of {} elements", c.len(), pre.len());
            }
            exact = Some(pre.clone());
        }
        5 => {
            what = "a comparison that panics";
            op("compare (comparison panics)", at, 0, 0, T_UNW);
            let mut c = b.clone();
            if c.len() > 1 && r.chance(1, 3) {
                c.reverse();
            }
            let cs = seq(&c);
            arm(0, 0, at);
            let k = r.below(4);
            let _ = quiet(|| match k {
                0 => *b == c,
                1 => *b < c,
                2 => Ord::cmp(&*b, &c) == std::cmp::Ordering::Less,
                _ => {
                    let (x, _) = c.slices();
                    *b == *x
                }
            });
            disarm();
            exact = Some(pre.clone());
            let cs2 = observe(&mut c, "a comparison that panics");
            ck!(T_UNW, cs == cs2, "a panicking comparison changed an operand");
        }
        6 => {
            what = "extend from a panicking iterator";
            op("extend (iterator panics)", at, 0, 0, T_UNW);
            let n = r.below(2 * cap0 as u64 + 4);
            let it = BombIter { left: at.saturating_sub(1), n, log: log.clone(), hint: r.next() };
            let _ = quiet(|| b.extend(it));
            exact = Some(pushed(&log.borrow()));
        }
        7 => {
            what = "building from a panicking iterator";
            op("from_iter (iterator panics)", at, 0, 0, T_UNW);
            let n = if r.chance(1, 4) { 3 + 2 * at } else { 8 };
            let n = r.below(n);
            let it = BombIter { left: at.saturating_sub(1), n, log: log.clone(), hint: r.next() };
            if let Ok(mut c) = quiet(|| it.collect::<CircularBuffer<Tok>>()) {
                let v = observe(&mut c, "from_iter");
                ck!(T_UNW, v == *log.borrow(), "from_iter lost elements: {v:?} of {:?}", log.borrow());
            }
            exact = Some(pre.clone());
        }
        8 => {
            what = "extend by reference with a panicking clone";
            op("extend by reference (clone panics)", at, 0, 0, T_UNW);
            let n = r.us(2 * cap0 + 3);
            let src: Vec<Tok> = (0..n as u64).map(Tok::new).collect();
            let first_new = src.last().map_or(0, |t| t.serial);
            arm(0, at, 0);
            let _ = quiet(|| b.extend(src.iter()));
            disarm();
            // clones made get consecutive serials after the sources
            let k = (at.saturating_sub(1) as usize).min(n) as u32;
            let k = if at == 0 { n as u32 } else { k };
            let inc: Vec<u32> = if n == 0 { vec![] } else { (first_new + 1..=first_new + k).collect() };
            let now = seq(b);
            // identities of clones are not prescribed: compare by value
            let want = pushed(&inc);
            ck!(T_UNW, now.len() == want.len(), "after {what}: {} elements, expected {}", now.len(), want.len());
            pool.clear();
            let kept = pre.iter().filter(|s| want.contains(s)).count();
            ck!(T_UNW, now.len() >= kept && now[..kept] == want[..kept], "after {what}: old elements changed: {now:?}, expected {want:?}");
            let vals: Vec<u64> = b.iter().skip(kept).map(|t| t.id()).collect();
            let nnew = want.len() - kept;
            let wantv: Vec<u64> = (0..k as u64).skip(k as usize - nnew.min(k as usize)).collect();
            ck!(T_UNW, vals == wantv, "after {what}: new values {vals:?}, expected {wantv:?}");
            drop(src);
            let _ = observe(b, what);
            return;
        }
        9 => {
            what = "appending with a panicking drop of an evicted element";
            op("append (drop panics)", at, 0, 0, T_UNW);
            let n = r.us(cap0 + 3);
            let mut src: CircularBuffer<Tok> = (0..n as u64).map(Tok::new).collect();
            let ss = seq(&src);
            pool.extend(ss.iter());
            arm(at, 0, 0);
            let res = quiet(|| b.append(&mut src));
            disarm();
            if res.is_ok() {
                exact = Some(pushed(&ss));
            }
            let left = observe(&mut src, what);
            ck!(T_UNW, ss.ends_with(&left), "after {what}: source holds {left:?} of {ss:?}");
            let now = seq(b);
            ck!(T_UNW, now.iter().all(|s| !left.contains(s)), "after {what}: an element is in both buffers");
        }
        10 => {
            what = "overwriting an element whose drop panics";
            if pre.is_empty() {
                return;
            }
            op("index write (drop panics)", at, 0, 0, T_UNW);
            let i = r.us(pre.len());
            let t = Tok::new(77);
            let ts = t.serial;
            arm(1, 0, 0);
            let _ = quiet(|| b[i] = t);
            disarm();
            let mut w = pre.clone();
            w[i] = ts;
            exact = Some(w);
        }
        11 => {
            what = "a drain whose consumer panics";
            op("drain (consumer panics)", at, 0, 0, T_UNW);
            let mut taken = 0;
            let _ = quiet(|| {
                for t in b.drain() {
                    taken += 1;
                    if taken as u64 == at {
                        std::panic::panic_any(mon::Injected);
                    }
                    drop(t);
                }
            });
            exact = Some(pre[taken.min(pre.len())..].to_vec());
        }
        12 => {
            what = "dropping a clone with a panicking element drop";
            op("drop (element drop panics)", at, 0, 0, T_UNW);
            let c = b.clone();
            arm(at, 0, 0);
            let _ = quiet(|| drop(c));
            disarm();
            exact = Some(pre.clone());
        }
        14 | 15 => {
            what = if kind == 14 { "a clone_from with a panicking element clone" } else { "a clone_from with a panicking drop of an old element" };
            op(if kind == 14 { "clone_from (clone panics)" } else { "clone_from (drop panics)" }, at, 0, 0, T_UNW);
            let mut next = 500;
            let c2 = r.us(cap0 + 3);
            let mut src: S<Tok> = S::at(c2, r.us(c2 + 1), r.us(c2 + 1), r.chance(1, 2), &mut next);
            let ss = seq(&src.b);
            if kind == 14 { arm(0, at, 0) } else { arm(at, 0, 0) }
            let res = quiet(|| b.clone_from(&src.b));
            disarm();
            let left = observe(&mut src.b, what);
            ck!(T_UNW, left == ss, "after {what}: the source holds {left:?}, before {ss:?}");
            let now = observe(b, what);
            if res.is_ok() {
                ck!(T_UNW, b.iter().map(|t| t.id()).eq(src.b.iter().map(|t| t.id())) && b.capacity() == c2, "after clone_from: contents differ");
            } else {
                // old elements and clones of the source's, each at most once and none of the source's own
                let vals: Vec<u64> = src.b.iter().map(|t| t.id()).collect();
                ck!(T_UNW, now.iter().all(|s| !ss.contains(s)), "after {what}: an element is in both buffers");
                ck!(T_UNW, b.iter().all(|t| pre.contains(&t.serial) || vals.contains(&t.id())), "after {what}: the buffer holds something that was in neither");
            }
            state(h(&[kind, at, cap0 as u64, pre.len() as u64, c2 as u64]));
            return;
        }
        16 => {
            what = "building by reference with a panicking clone";
            op("from_iter by reference (clone panics)", at, 0, 0, T_UNW);
            let n = if r.chance(1, 4) { 3 + 2 * at } else { 8 };
            let src: Vec<Tok> = (0..r.below(n)).map(Tok::new).collect();
            let hint = r.chance(1, 2);
            arm(0, at, 0);
            let res = quiet(|| if hint { src.iter().collect::<CircularBuffer<Tok>>() } else { src.iter().filter(|_| true).collect() });
            disarm();
            if let Ok(mut c) = res {
                let _ = observe(&mut c, what);
                ck!(T_UNW, c.iter().map(|t| t.id()).eq(src.iter().map(|t| t.id())), "from_iter by reference lost elements");
            }
            exact = Some(pre.clone());
        }
        17 => {
            what = "a drain through an iterator method with a panicking drop";
            op("drain method (element drop panics)", at, 0, 0, T_UNW);
            let (k, how) = (r.us(cap0 + 1), r.below(6));
            arm(at, 0, 0);
            let _ = quiet(|| match how {
                0 => { drop(b.drain().nth(k)) }
                1 => { drop(b.drain().last()) }
                2 => { b.drain().count(); }
                3 => { b.drain().for_each(drop) }
                4 => { b.drain().skip(k).step_by(2).for_each(drop) }
                _ => { let _ = b.drain().take(k).try_fold(0, |a, _| if a < k { Ok(a + 1) } else { Err(()) }); }
            });
            disarm();
        }
        18 => {
            what = "a panicking consumer of a drain or into_iter through an iterator method";
            op("iterator method (consumer panics)", at, 0, 0, T_UNW);
            let mut taken = 0;
            let mut bomb = |t: Tok| {
                taken += 1;
                if taken == at { std::panic::panic_any(mon::Injected) }
                drop(t);
            };
            match r.below(4) {
                0 => { let _ = quiet(|| b.drain().for_each(bomb)); exact = Some(pre[(taken as usize).min(pre.len())..].to_vec()) }
                1 => { let _ = quiet(|| b.drain().fold((), |_, t| bomb(t))); exact = Some(pre[(taken as usize).min(pre.len())..].to_vec()) }
                2 => { let c = b.clone(); let _ = quiet(|| c.into_iter().for_each(bomb)); exact = Some(pre.clone()) }
                _ => { let c = b.clone(); let _ = quiet(|| c.into_iter().map(bomb).count()); exact = Some(pre.clone()) }
            }
        }
        19 => {
            what = "extend from an iterator that panics when it is dropped";
            op("extend (iterator drop panics)", at, 0, 0, T_UNW);
            struct DropBomb(BombIter);
            impl Iterator for DropBomb {
                type Item = Tok;
                fn next(&mut self) -> Option<Tok> { self.0.next() }
                fn size_hint(&self) -> (usize, Option<usize>) { self.0.size_hint() }
            }
            impl Drop for DropBomb {
                fn drop(&mut self) { if !std::thread::panicking() { std::panic::panic_any(mon::Injected) } }
            }
            let n = r.below(2 * cap0 as u64 + 4);
            let it = DropBomb(BombIter { left: u64::MAX, n, log: log.clone(), hint: r.next() });
            if r.chance(1, 3) {
                let _ = quiet(|| it.collect::<CircularBuffer<Tok>>());
                exact = Some(pre.clone());
            } else {
                let _ = quiet(|| b.extend(it));
                exact = Some(pushed(&log.borrow()));
            }
        }
        20 => {
            what = "a panic while elements are visited in place";
            op("iter_mut (consumer panics)", at, 0, 0, T_UNW);
            let mut seen = 0;
            let mut hit = || { seen += 1; if seen == at { std::panic::panic_any(mon::Injected) } };
            let _ = quiet(|| match r.below(4) {
                0 => b.iter_mut().for_each(|_| hit()),
                1 => b.iter_mut().rev().for_each(|_| hit()),
                2 => b.linearize().iter_mut().for_each(|_| hit()),
                _ => { b.linearize().sort_by(|x, y| { hit(); y.serial.cmp(&x.serial) }) }
            });
            let mut now = seq(b);
            now.sort();
            let mut p = pre.clone();
            p.sort();
            ck!(T_UNW, now == p, "after {what}: content {now:?}, before {p:?} (sorted)");
            pool = seq(b);
        }
        _ => {
            what = "dropping a partly consumed into_iter with a panicking element drop";
            op("drop into_iter (element drop panics)", at, 0, 0, T_UNW);
            let mut it = b.clone().into_iter();
            let k = r.us(3 + pre.len() / 4);
            for _ in 0..k {
                let _ = it.next();
            }
            arm(at, 0, 0);
            let _ = quiet(|| drop(it));
            disarm();
            exact = Some(pre.clone());
        }
    }
    let now = observe(b, what);
    if let Some(e) = exact {
        ck!(T_UNW, now == e, "after {what}: content (serials) {now:?}, expected {e:?}");
    } else {
        ck!(T_UNW, subseq(&now, &pool), "after {what}: content {now:?} is not a sub-sequence of {pool:?}");
    }
    state(h(&[kind, at, cap0 as u64, pre.len() as u64, now.len() as u64]));
}
fn what_static(k: u64) -> &'static str {
    if k == 0 { "push_back (drop panics)" } else { "push_front (drop panics)" }
}

const FAULTS: std::ops::Range<u64> = 0..21;
fn faults(run: &mut Run, cmax: usize, rnd: u64) {
    let mut idx = 0;
    for cap in 0..=cmax {
        for off in 0..=cap {
            for len in 0..=cap {
                run.case("fault-exhaustive", idx, |r| {
                    for kind in FAULTS {
                        for at in 1..=(cap as u64 + 2) {
                            retrace();
                            mon::note(format!("capacity {cap}, rotated by {off}, {len} elements"));
                            let mut next = 0;
                            let mut s: S<Tok> = S::at(cap, off, len, (kind + at) % 2 == 0, &mut next);
                            fault(r, &mut s.b, kind, at);
                            tail(r, &mut s.b);
                            op("drop after fault", 0, 0, 0, T_UNW);
                            drop(s);
                            for a in anomalies() {
                                report(T_MEM, format!("{a}, when the buffer was dropped after an injected panic"));
                            }
                        }
                    }
                });
                idx += 1;
            }
        }
    }
    for i in 0..rnd {
        run.case("fault-random", i, |r| {
            let cap = r.us(9);
            let mut next = 0;
            let (off, len, back) = (r.us(cap + 1), r.us(cap + 1), r.chance(1, 2));
            let mut s: S<Tok> = S::at(cap, off, len, back, &mut next);
            for _ in 0..12 {
                let (k, at) = (r.below(21), 1 + r.below(6));
                fault(r, &mut s.b, k, at);
                tail(r, &mut s.b);
            }
            op("drop after fault", 0, 0, 0, T_UNW);
            drop(s);
            for a in anomalies() {
                report(T_MEM, format!("{a}, when the buffer was dropped after an injected panic"));
            }
        });
    }
    // larger contents: faults early, late and anywhere, sizes the source mentions among them
    let dict = run.dict.clone();
    for i in 0..rnd / 8 {
        run.case("fault-large", i, |r| {
            let cap = match r.below(8) {
                0 => (*r.pick(&dict) as usize).min(600),
                1 => (*r.pick(&dict) as usize).min(150) + r.us(4),
                2 => r.us(400),
                _ => 9 + r.us(60),
            };
            let len = match r.below(4) { 0 => cap, 1 => cap - cap.min(1), _ => r.us(cap + 1) };
            let (off, back) = (r.us(cap + 1), r.chance(1, 2));
            let mut next = 0;
            let mut s: S<Tok> = S::at(cap, off, len, back, &mut next);
            for _ in 0..4 {
                let n = s.b.len() as u64;
                let at = match r.below(5) {
                    0 => 1 + r.below(6),
                    1 => 1 + n.saturating_sub(r.below(6)),
                    2 => 1 + (*r.pick(&dict)).min(n + 2),
                    _ => 1 + r.below(n + 3),
                };
                let kind = r.below(FAULTS.end);
                fault(r, &mut s.b, kind, at);
                tail(r, &mut s.b);
            }
            op("drop after fault", 0, 0, 0, T_UNW);
            drop(s);
            for a in anomalies() {
                report(T_MEM, format!("{a}, when the buffer was dropped after an injected panic"));
            }
        });
    }
    fn tail(r: &mut Rng, b: &mut CircularBuffer<Tok>) {
        let mut q: VecDeque<u32> = seq(b).into();
        let cap = b.capacity();
        for _ in 0..3 {
            op("use after fault", 0, 0, 0, T_UNW);
            match r.below(4) {
                0 => {
                    let t = Tok::new(9);
                    if cap > 0 {
                        if q.len() == cap {
                            q.pop_front();
                        }
                        q.push_back(t.serial);
                    }
                    b.push_back(t);
                }
                1 => {
                    let t = Tok::new(9);
                    if cap > 0 {
                        if q.len() == cap {
                            q.pop_back();
                        }
                        q.push_front(t.serial);
                    }
                    b.push_front(t);
                }
                2 => {
                    let x = b.pop_front().map(|t| t.serial);
                    ck!(T_UNW, x == q.pop_front(), "pop_front after a panic gave a wrong element");
                }
                _ => {
                    let x = b.pop_back().map(|t| t.serial);
                    ck!(T_UNW, x == q.pop_back(), "pop_back after a panic gave a wrong element");
                }
            }
            let now = observe(b, "operations following an injected panic");
            ck!(T_UNW, now.iter().eq(q.iter()), "content {now:?} after further operations, expected {q:?}");
        }
    }
}

// ------------------------------------------------------------------ driver
fn zoo(run: &mut Run, cmax: usize, cases: u64, ops: usize, cap: usize) {
    macro_rules! each { ($($t:ty),*) => { $( exhaustive::<$t>(run, cmax); random::<$t>(run, cases, ops, cap); )* } }
    each!(Tok, char, Box<u64>, &'static u64, String, (), bool, NonZeroU32, Enum3, Option<Box<u64>>, Big, Aligned, Vec<Tok>, ZTok, u8, Rc<u64>, i8, u16, i32, u128, Tri, Padded);
}

/// Element types that cannot be cloned or compared must still work; closures, references to locals.
fn odd_types(run: &mut Run) {
    run.case("odd-types", 0, |_| {
        op("odd element types", 0, 0, 0, &["B03", "B01"]);
        let mut b: CircularBuffer<Box<dyn Fn(u64) -> u64>> = CircularBuffer::new(2);
        for k in 0..5u64 {
            b.push_back(Box::new(move |x| x + k));
        }
        let v: Vec<u64> = b.iter().map(|f| f(10)).collect();
        ck!(&["B01", "B03"], v == [13, 14], "closures: {v:?}");
        let local = [1u32, 2, 3];
        let mut b: CircularBuffer<&u32> = CircularBuffer::new(2);
        for x in &local {
            b.push_front(x);
        }
        ck!(&["B01", "B03"], b.pop_back() == Some(&2), "references to locals");
        let s = String::from("a b c d");
        let b: CircularBuffer<&str> = s.split(' ').collect();
        let v: Vec<&str> = b.clone().into_iter().collect();
        ck!(&["B01", "B03"], v == ["a", "b", "c", "d"], "string slices: {v:?}");
        struct NoClone(#[allow(dead_code)] std::cell::Cell<u32>);
        let mut b: CircularBuffer<NoClone> = CircularBuffer::new(1);
        b.push_back(NoClone(Default::default()));
        b.push_back(NoClone(Default::default()));
        b.resize(3);
        b.linearize();
        b.reverse();
        let mut c = CircularBuffer::new(0);
        c.append(&mut b);
        ck!(&["B01", "B03"], b.is_empty() && c.is_empty(), "uncloneable elements");
        let mut n: CircularBuffer<CircularBuffer<Box<u8>>> = CircularBuffer::new(2);
        for k in 0..4 {
            let mut i = CircularBuffer::new(2);
            i.extend((0..k).map(Box::new));
            n.push_front(i);
        }
        let c = n.clone();
        drop(n);
        let v: Vec<usize> = c.iter().map(|i| i.len()).collect();
        ck!(&["B01", "B03"], v == [2, 2], "nested buffers: {v:?}");
        let mut u: CircularBuffer<std::convert::Infallible> = CircularBuffer::new(3);
        ck!(&["B01", "B03"], u.pop_back().is_none() && u.linearize().is_empty() && u.iter().next().is_none(), "uninhabited element type");
        let _ = format!("{u:?}");
    });
    // capacities that cannot be addressed are refused, and leave a buffer as it was
    run.case("impossible-capacity", 0, |_| {
        const T: &[&str] = &["B01", "B05"];
        const BAD: [usize; 6] = [usize::MAX, usize::MAX - 1, usize::MAX / 2 + 1, usize::MAX / 2, usize::MAX / 4, usize::MAX / 8];
        for n in BAD {
            op("new with an impossible capacity", n as u64, 0, 0, T);
            let made = quiet(|| CircularBuffer::<u64>::new(n));
            ck!(T, made.is_err(), "new({n}) gives a buffer of {} slots of 8 bytes", made.map_or(0, |b| b.capacity()));
            let made = quiet(|| CircularBuffer::<u64>::with_capacity(n));
            ck!(T, made.is_err(), "with_capacity({n}) gives a buffer of {} slots of 8 bytes", made.map_or(0, |b| b.capacity()));
        }
        for k in 0..4u64 {
            for n in BAD {
                op("resize to an impossible capacity", n as u64, k, 0, T);
                let mut b: CircularBuffer<u64> = CircularBuffer::new(3);
                (0..k).for_each(|i| b.push_back(i));
                if k == 2 {
                    b.pop_front();
                    b.push_back(5);
                    b.push_back(6);
                }
                let v: Vec<u64> = b.iter().copied().collect();
                let res = quiet(|| b.resize(n));
                ck!(T, res.is_err(), "resize({n}) of a buffer of {k} elements of 8 bytes returned; capacity {}", b.capacity());
                ck!(T, b.iter().eq(v.iter()) && b.capacity() == 3 && b.len() == v.len(), "a refused resize({n}) changed the buffer from {v:?} to {:?}", b.iter().collect::<Vec<_>>());
            }
        }
    });
}

fn main() {
    let a = vh::args::parse();
    let run = &mut Run::new(a);
    let p = run.a.prop.clone();
    if run.miri() {
        // quick: small scopes over every element type; every unsafe block is reached
        let (n, big, ops) = if run.a.thorough { (48, 3, 25) } else { (8, 2, 10) };
        match p.as_str() {
            "B09" => faults(run, 2, n * 3),
            _ => {
                odd_types(run);
                macro_rules! each { ($($t:ty),*) => { $( random::<$t>(run, n, if <$t as Elem>::NAME == "Big" { ops / 2 } else { ops }, 4); )* } }
                each!(Tok, char, Box<u64>, &'static u64, String, (), bool, NonZeroU32, Enum3, Option<Box<u64>>, Big, Aligned, Vec<Tok>, ZTok, u8, Rc<u64>);
                exhaustive::<Box<u64>>(run, big);
                faults(run, 1, n);
            }
        }
    } else if p == "B09" {
        faults(run, if run.a.thorough { 6 } else { 4 }, run.n(20_000, 400_000));
    } else if p == "B07" {
        comparisons::<u64>(run, 4, run.n(40_000, 400_000));
        comparisons::<String>(run, 3, run.n(8_000, 80_000));
        comparisons::<Tok>(run, 3, run.n(8_000, 80_000));
        comparisons::<char>(run, 3, run.n(4_000, 40_000));
        comparisons::<()>(run, 3, run.n(2_000, 20_000));
        comparisons_f64(run, run.n(20_000, 200_000));
        comparisons_long::<u64>(run, run.n(600, 6_000), 5_000);
        comparisons_long::<u64>(run, run.n(120, 1_000), 70_000);
        comparisons_long::<u8>(run, run.n(300, 3_000), 3_000);
        comparisons_long::<String>(run, run.n(100, 1_000), 2_000);
        comparisons_long::<Tok>(run, run.n(100, 1_000), 2_000);
        exhaustive::<Tok>(run, 4);
        random::<Tok>(run, run.n(6_000, 100_000), 40, 8);
        random::<String>(run, run.n(3_000, 50_000), 40, 8);
        random::<u64>(run, run.n(300, 4_000), 60, 300);
    } else {
        let t = run.a.thorough;
        odd_types(run);
        let heavy = p == "B03";
        if heavy {
            zoo(run, 3, run.n(800, 10_000), 40, 6);
            faults(run, 3, run.n(4_000, 50_000));
            random::<Box<u64>>(run, run.n(200, 2_000), 60, 300);
            random::<Big>(run, run.n(100, 1_000), 60, 300);
            huge::<Box<u64>>(run, run.n(16, 200));
        } else {
            exhaustive::<Tok>(run, if t { 8 } else { 5 });
            exhaustive::<u64>(run, if t { 8 } else { 5 });
            exhaustive::<ZTok>(run, 3);
            exhaustive::<Box<u64>>(run, 3);
            random::<Tok>(run, run.n(12_000, 300_000), 40, 8);
            random::<u64>(run, run.n(12_000, 300_000), 40, 8);
            random::<u8>(run, run.n(2_000, 20_000), 60, 8);
            random::<String>(run, run.n(2_000, 20_000), 40, 8);
            random::<Big>(run, run.n(2_000, 20_000), 40, 8);
            random::<ZTok>(run, run.n(1_000, 20_000), 40, 8);
            macro_rules! more { ($($t:ty),*) => { $( random::<$t>(run, run.n(700, 10_000), 40, 8); random::<$t>(run, run.n(50, 600), 60, 300); )* } }
            more!(i8, u16, i32, u32, u128, Tri, Padded, char, bool, Box<u64>, Aligned);
            random::<u64>(run, run.n(400, 6_000), 60, 300);
            random::<Tok>(run, run.n(400, 6_000), 60, 300);
            random::<Tok>(run, run.n(24, 200), 40, 5_000);
            random::<u64>(run, run.n(16, 100), 30, 40_000);
            huge::<u64>(run, run.n(160, 3_000));
            huge::<u8>(run, run.n(32, 400));
            huge::<Tok>(run, run.n(16, 200));
            long::<Tok>(run, run.n(16, 64), 70_000);
            long::<u64>(run, run.n(8, 64), 300_000);
        }
    }
    count("dictionary entries", run.dict.len() as u64);

    run.finish()
}
