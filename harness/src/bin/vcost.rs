//! Cost monitors (B10, B11, C07, D04). Run under `valgrind --tool=callgrind --instr-atstart=no`:
//! each measured piece is bracketed by client requests, so callgrind writes one dump per
//! piece with the exact number of instructions executed. This program prints, per
//! piece, what it was and the bound it has to meet; the driver joins both.
use advanced_collections::circular_buffer::CircularBuffer;
use advanced_collections::disjoint_set::DisjointSet;
use advanced_collections::counter::Counter;
use std::collections::HashMap;
use std::hash::{BuildHasherDefault, Hasher};
use std::hint::black_box;
use vh::rng::Rng;

#[cfg(target_arch = "x86_64")]
fn request(code: u64, arg: u64) {
    let args = [0x4354_0000 + code, arg, 0, 0, 0, 0];
    let mut r: u64 = 0;
    unsafe {
        std::arch::asm!(
            "rol rdi, 3", "rol rdi, 13", "rol rdi, 61", "rol rdi, 51",
            "xchg rbx, rbx",
            inout("rdx") r, in("rax") args.as_ptr(), out("rdi") _,
        );
    }
    let _ = r;
}

struct Meter {
    n: u64,
    out: std::fs::File,
}
impl Meter {
    /// `per`: number of operations; `group`/`size`: pieces of one group are compared.
    fn run(&mut self, group: &str, what: &str, size: usize, per: usize, f: impl FnOnce()) {
        request(4, 0); // start instrumentation
        request(1, 0); // zero
        f();
        let name = std::ffi::CString::new(format!("piece{}", self.n)).unwrap();
        request(3, name.as_ptr() as u64); // dump
        request(5, 0); // stop instrumentation
        use std::io::Write;
        writeln!(self.out, "{}\t{group}\t{what}\t{size}\t{per}", self.n).unwrap();
        self.n += 1;
    }
}

/// An element with a destructor that costs next to nothing.
#[derive(Clone, PartialEq, Eq, PartialOrd, Ord)]
struct Droppable(u64);
impl Drop for Droppable {
    fn drop(&mut self) {
        black_box(self.0);
    }
}

// ------------------------------------------------------------------ circular buffer
const K: usize = 64;

/// Buffer of capacity c holding `len` elements, first element in storage slot `off`.
fn buf<T>(c: usize, off: usize, len: usize, mk: impl Fn(usize) -> T) -> CircularBuffer<T> {
    let mut b = CircularBuffer::with_capacity(c);
    for i in 0..off {
        b.push_back(mk(i));
        b.pop_front();
    }
    for i in 0..len {
        b.push_back(mk(i));
    }
    b
}

fn buffers<T>(m: &mut Meter, ty: &str, c: usize, mk: impl Fn(usize) -> T + Copy) {
    // storage offsets: start, middle, close to the end (the measured operations wrap)
    for (on, off) in [("front", 0), ("middle", c / 2), ("back", c - 20)] {
        for (ln, len) in [("empty", 0), ("half", c / 2), ("almost", c - 30), ("full", c)] {
            let what = format!("{ty} {on} {ln}");
            let fresh = || buf(c, off, len, mk);
            macro_rules! piece { ($g:expr, $b:ident, $e:expr) => {{
                let mut $b = fresh();
                m.run($g, &what, c, K, || $e);
                drop(black_box($b));
            }} }
            piece!("push_back", b, for i in 0..K { b.push_back(mk(i)) });
            piece!("push_front", b, for i in 0..K { b.push_front(mk(i)) });
            piece!("pop_back", b, for _ in 0..K { black_box(b.pop_back()); });
            piece!("pop_front", b, for _ in 0..K { black_box(b.pop_front()); });
            piece!("queue", b, for i in 0..K / 2 { b.push_back(mk(i)); black_box(b.pop_front()); });
            piece!("reverse queue", b, for i in 0..K / 2 { b.push_front(mk(i)); black_box(b.pop_back()); });
            piece!("stack", b, for i in 0..K / 2 { b.push_back(mk(i)); black_box(b.pop_back()); });
            piece!("front stack", b, for i in 0..K / 2 { b.push_front(mk(i)); black_box(b.pop_front()); });
            piece!("first", b, for _ in 0..K { black_box(black_box(&b).first()); });
            piece!("last", b, for _ in 0..K { black_box(black_box(&b).last()); });
            piece!("first_mut", b, for _ in 0..K { black_box(black_box(&mut b).first_mut()); });
            piece!("last_mut", b, for _ in 0..K { black_box(black_box(&mut b).last_mut()); });
            piece!("sizes", b, for _ in 0..K {
                let b = black_box(&b);
                black_box((b.len(), b.is_empty(), b.is_full(), b.capacity()));
            });
            if len > 0 {
                let step = (len / K).max(1);
                piece!("index", b, for i in 0..K { black_box(&black_box(&b)[i * step % len]); });
                piece!("index_mut", b, for i in 0..K { black_box(&mut black_box(&mut b)[i * step % len]); });
            }
        }
    }
}

/// Buffers that went through other operations first: nothing may be left to be paid later.
fn origins(m: &mut Meter, c: usize) {
    let mk = |i: usize| i as u64;
    let make = |how: usize| -> CircularBuffer<u64> {
        match how {
            0 => { let mut b = buf(c / 2, c / 4, c / 2, mk); b.resize(c); b }
            1 => { let mut b = buf(2 * c, c + c / 2, 2 * c, mk); b.resize(c); b }
            2 => (0..c).map(mk).collect(),
            3 => CircularBuffer::from((0..c).map(mk).collect::<Vec<_>>()),
            4 => buf(c, c / 2, c - 3, mk).clone(),
            5 => { let mut b = buf(c, c / 2, c - 3, mk); b.linearize(); b }
            6 => { let mut b = buf(c, c / 2, c - 3, mk); b.reverse(); b }
            7 => { let mut b = buf(c, c / 2, c, mk); b.clear(); b }
            8 => { let mut b = buf(c, c / 2, c, mk); b.drain().for_each(drop); b }
            9 => { let mut b = buf(c, c / 2, c, mk); for _ in 0..c / 2 { b.pop_front(); } b }
            10 => { let mut b = buf(c, c / 2, c, mk); for _ in 0..c / 2 { b.pop_back(); } b }
            11 => { let mut b = buf(c, c / 2, 0, mk); let mut o = buf(c, c / 3, c, mk); b.append(&mut o); b }
            12 => { let mut b = buf(c, c / 2, 0, mk); let mut o = buf(c, c / 3, c, mk); b.append(&mut o); o }
            _ => { let mut b = buf(c, c / 2, c / 3, mk); b.extend(0..c as u64); b }
        }
    };
    for how in 0..14 {
        let what = format!("u64 origin {how}");
        macro_rules! piece { ($g:expr, $b:ident, $e:expr) => {{
            let mut $b = make(how);
            m.run($g, &what, c, K, || $e);
            drop(black_box($b));
        }} }
        piece!("push_back", b, for i in 0..K { b.push_back(mk(i)) });
        piece!("push_front", b, for i in 0..K { b.push_front(mk(i)) });
        piece!("pop_back", b, for _ in 0..K { black_box(b.pop_back()); });
        piece!("pop_front", b, for _ in 0..K { black_box(b.pop_front()); });
        piece!("mixed", b, for i in 0..K / 8 {
            b.push_back(mk(i));
            b.push_front(mk(i));
            black_box(b.pop_back());
            black_box(b.first());
            black_box(b.last());
            black_box(b.len());
            black_box(b.pop_front());
            black_box(b.is_full());
        });
        piece!("first", b, for _ in 0..K { black_box(black_box(&b).first()); });
        piece!("last", b, for _ in 0..K { black_box(black_box(&b).last()); });
    }
}

/// Long runs measured in short batches: a periodic expensive operation shows in one of them.
fn long(m: &mut Meter, c: usize, kind: usize) {
    const B: usize = 256;
    let ops = 2 * c + B;
    let mk = |i: usize| i as u64;
    {
        let (what, len) = [("queue", c / 2), ("overwriting", c), ("front overwriting", c), ("reverse queue", c / 2), ("fill and empty", 0)][kind];
        let mut b = buf(c, 3, len, mk);
        let mut up = true;
        for _ in 0..ops / B {
            m.run("long run", what, c, B, || for i in 0..B {
                match kind {
                    0 => if i % 2 == 0 { b.push_back(mk(i)) } else { black_box(b.pop_front()); },
                    1 => b.push_back(mk(i)),
                    2 => b.push_front(mk(i)),
                    3 => if i % 2 == 0 { b.push_front(mk(i)) } else { black_box(b.pop_back()); },
                    _ => {
                        if b.is_full() { up = false }
                        if b.is_empty() { up = true }
                        if up { b.push_back(mk(i)) } else { black_box(b.pop_back()); }
                    }
                }
            });
        }
    }
}

// ------------------------------------------------------------------ disjoint set
#[derive(Default)]
struct Mix(u64);
impl Hasher for Mix {
    fn finish(&self) -> u64 { self.0 }
    fn write(&mut self, b: &[u8]) {
        for x in b { self.0 = vh::rng::mix(self.0 ^ *x as u64) }
    }
    fn write_u32(&mut self, x: u32) { self.0 = vh::rng::mix(self.0 ^ x as u64) }
}
type D = DisjointSet<u32, BuildHasherDefault<Mix>>;

const SHAPES: [&str; 9] = ["chain", "reversed chain", "star", "reversed star", "random", "tournament", "flipped tournament", "joined chains", "inward"];
fn unions(shape: usize, n: u32, r: &mut Rng) -> Vec<(u32, u32)> {
    let mut v = vec![];
    match shape {
        0 => for i in 1..n { v.push((i - 1, i)) },
        1 => for i in (1..n).rev() { v.push((i, i - 1)) },
        2 => for i in 1..n { v.push((0, i)) },
        3 => for i in (1..n).rev() { v.push((i, 0)) },
        4 => for _ in 0..2 * n { v.push((r.below(n as u64) as u32, r.below(n as u64) as u32)) },
        5 | 6 => {
            let mut s = 1;
            while s < n {
                let mut i = 0;
                while i + s < n {
                    v.push(if shape == 5 { (i, i + s) } else { (i + s, i) });
                    i += 2 * s;
                }
                s *= 2;
            }
        }
        7 => {
            for i in 1..n / 2 { v.push((i, i - 1)); v.push((n / 2 + i - 1, n / 2 + i)) }
            v.push((n / 2 - 1, n - 1));
        }
        8 => for i in 0..n / 2 { v.push((i, n - 1 - i)); if i > 0 { v.push((n - 1 - i, i - 1)) } },
        _ => vh::shapes::blocks(shape - SHAPES.len(), n as usize, r, &mut |x, y| v.push((x as u32, y as u32))),
    }
    v
}

fn sets(m: &mut Meter, n: u32, a: &vh::args::Args) {
    for k in 0..SHAPES.len() + vh::shapes::BLOCKS {
        if k as u64 % a.shards != a.shard { continue }
        let shape = &*SHAPES.get(k).map_or_else(|| format!("blocks {}", k - SHAPES.len()), |s| s.to_string());
        let mut r = Rng::new(vh::rng::mix(a.seed) ^ k as u64);
        let us = unions(k, n, &mut r);
        if us.is_empty() { continue }
        let empty = || {
            let mut d = D::with_capacity(n as usize);
            for i in 0..n { d.make_set(i) }
            d
        };
        // the unions themselves
        let mut d = empty();
        m.run("union", shape, n as usize, us.len(), || for &(a, b) in &us { d.union(a, b) });
        // very first queries, one at a time
        for (w, q) in [("ends", (0, n - 1)), ("start", (0, 1)), ("end", (n - 1, n - 2)), ("middle", (n / 2, n / 3))] {
            m.run("cold query", &format!("{shape} {w}"), n as usize, 1, || { black_box(d.in_union(&q.0, &q.1)); });
        }
        // asked again about the same elements
        let qs: Vec<(u32, u32)> = (0..64).map(|i| match i {
            0 => (0, n - 1),
            1 => (n - 1, n / 2),
            _ => (r.below(n as u64) as u32, r.below(n as u64) as u32),
        }).collect();
        // (the pairs are joined by then, whatever the shape left apart)
        for &(a, b) in &qs {
            d.union(a, b);
        }
        for &(a, b) in &qs {
            for _ in 0..40 { black_box(d.in_union(&a, &b)); }
        }
        m.run("repeated query", shape, n as usize, qs.len(), || for (a, b) in &qs { black_box(d.in_union(a, b)); });
        m.run("repeated union", shape, n as usize, qs.len(), || for (a, b) in &qs { d.union(*a, *b) });
        m.run("add existing", shape, n as usize, qs.len(), || for (a, _) in &qs { d.make_set(*a) });
        m.run("sizes", shape, n as usize, 16, || for _ in 0..16 { black_box((d.len(), d.is_empty(), d.contains(&0), d.contains(&n))); });
        if k < 10 {
            // building, copying and forgetting, before and after the unions
            let n = n as usize;
            let xs: Vec<u32> = us.iter().flat_map(|u| [u.0, u.1]).collect();
            m.run("make_set", shape, n, xs.len(), || { let mut d = D::default(); for x in &xs { d.make_set(*x) } black_box(d.len()); });
            m.run("make_set in reserved", shape, n, xs.len(), || { let mut d = D::with_capacity(n); for x in &xs { d.make_set(*x) } black_box(d.len()); });
            m.run("from_iter", shape, n, xs.len(), || { black_box(xs.iter().copied().collect::<D>().len()); });
            m.run("from_iter by reference", shape, n, xs.len(), || { black_box(xs.iter().collect::<D>().len()); });
            m.run("extend", shape, n, xs.len(), || { let mut d = D::default(); d.extend(xs.iter().copied()); black_box(d.len()); });
            m.run("extend by reference", shape, n, xs.len(), || { let mut d = D::default(); d.extend(xs.iter()); black_box(d.len()); });
            m.run("extend in small steps", shape, n, xs.len(), || { let mut d = D::default(); for c in xs.chunks(3) { d.extend(c.iter().copied()) } black_box(d.len()); });
            m.run("extend a full set", shape, n, xs.len(), || { d.extend(xs.iter().copied()); black_box(d.len()); });
            m.run("clone", shape, n, n, || { black_box(d.clone().len()); });
            let mut e = empty();
            m.run("clone_from", shape, n, n, || { e.clone_from(&d); black_box(e.len()); });
            m.run("clear", shape, n, n, || { e.clear(); black_box(e.len()); });
            m.run("fill again", shape, n, us.len(), || for &(a, b) in &us { e.union(a, b) });
            m.run("drop", shape, n, n, || drop(e));
        }
        // all elements, on fresh sets
        let mut d = empty();
        for &(a, b) in &us { d.union(a, b) }
        m.run("query", shape, n as usize, n as usize, || for i in 0..n { black_box(d.in_union(&i, &((i as u64 * 7919 % n as u64) as u32))); });
        let mut d = empty();
        for &(a, b) in &us { d.union(a, b) }
        m.run("iteration", shape, n as usize, n as usize, || {
            let mut t = 0usize;
            for g in &mut d { t += g.count() }
            assert_eq!(t, n as usize);
        });
        // adding interleaved with unions and queries, no capacity given
        m.run("grow", shape, n as usize, us.len(), || {
            let mut d = D::default();
            for &(a, b) in &us {
                d.union(a, b);
                black_box(d.in_union(&0, &a));
            }
            black_box(d.len());
        });
    }
}

// ------------------------------------------------------------------ bulk operations of the buffer
/// Work of whole-buffer operations per element (or per slot where the operation has to
/// touch the storage), full and with few elements in a large storage.
fn bulk<T: Clone + Ord>(m: &mut Meter, ty: &str, c: usize, part: u64, mk: impl Fn(usize) -> T + Copy) {
    {
        let (on, off) = [("front", 0), ("middle", c / 2), ("back", c - 3)][part as usize];
        for (ln, len) in [("few", 8), ("full", c)] {
            let what = format!("{ty} {on}");
            let fresh = || buf(c, off, len, mk);
            macro_rules! piece { ($g:expr, $per:expr, |$b:ident, $o:ident| $e:expr) => {{
                let mut $b = fresh();
                let mut $o = buf(c, c / 3, len, mk);
                m.run(&format!("{} {ln}", $g), &what, c, $per, || { $e; });
                drop(black_box(($b, $o)));
            }} }
            macro_rules! eat { ($g:expr, $per:expr, |$b:ident| $e:expr) => {{
                let $b = fresh();
                m.run(&format!("{} {ln}", $g), &what, c, $per, || { $e; });
            }} }
            piece!("iterate", len, |b, o| for x in black_box(&b) { black_box(x); });
            piece!("iterate backwards", len, |b, o| for x in black_box(&b).iter().rev() { black_box(x); });
            piece!("iterate mutably", len, |b, o| for x in black_box(&mut b) { black_box(x); });
            piece!("index all", len, |b, o| for i in 0..len { black_box(&black_box(&b)[i]); });
            piece!("slices", len, |b, o| for _ in 0..len { black_box(black_box(&b).slices()); black_box(black_box(&mut b).slices_mut()); });
            piece!("drain", len, |b, o| for x in b.drain() { black_box(x); });
            piece!("drain half", len, |b, o| { for x in b.drain().take(len / 2) { black_box(x); } });
            piece!("clear", len, |b, o| b.clear());
            piece!("swap", len, |b, o| for i in 0..len { b.swap(i, len - 1 - i) });
            piece!("compare equal", len, |b, o| black_box(b == o));
            piece!("compare order", len, |b, o| black_box((b.cmp(&o), b.partial_cmp(&o), b < o)));
            piece!("append", len, |b, o| b.append(&mut o));
            piece!("extend", len, |b, o| b.extend((0..len).map(mk)));
            let v: Vec<T> = (0..len).map(mk).collect();
            piece!("extend by reference", len, |b, o| b.extend(&v));
            piece!("extend without hint", len, |b, o| b.extend((0..len).map(mk).filter(|x| { black_box(x); true })));
            piece!("extend one by one", len, |b, o| for x in &v { b.extend(std::iter::once(x)) });
            piece!("extend one by one, owned", len, |b, o| for i in 0..len { b.extend(Some(mk(i))) });
            piece!("append one by one", len, |b, o| for i in 0..len { b.append(&mut CircularBuffer::from(vec![mk(i)])) });
            piece!("compare with slice", len, |b, o| black_box(b == v[..]));
            piece!("compare with itself", len, |b, o| black_box((b == b, b.cmp(&b))));
            piece!("compare repeatedly with few", len, |b, o| { let few: CircularBuffer<T> = (0..4).map(mk).collect(); for _ in 0..len { black_box((b == few, few == b)); } });
            piece!("iterate by methods", len, |b, o| { black_box((b.iter().count(), b.iter().last().is_some(), b.iter().nth(len / 2).is_some(), b.iter().min().is_some(), b.iter().rev().nth(len / 2).is_some())); });
            piece!("begin iterating", len, |b, o| for _ in 0..len { black_box((b.iter().next().is_some(), b.iter().next_back().is_some(), b.iter_mut().next().is_some(), (&b).into_iter().next().is_some())); });
            piece!("drain one by one", len, |b, o| for _ in 0..len { black_box(b.drain().next()); });
            piece!("drain by skipping", len, |b, o| { black_box(b.drain().nth(len / 2)); });
            piece!("drain by counting", len, |b, o| { black_box(b.drain().count()); });
            piece!("move between", len, |b, o| for _ in 0..len { if let Some(x) = b.pop_front() { o.push_back(x) } b.append(&mut CircularBuffer::new(0)); });
            piece!("clear again", len, |b, o| { b.clear(); for i in 0..len { b.clear(); b.push_back(mk(i)); } });
            piece!("overwrite", len, |b, o| for i in 0..2 * len { b.push_back(mk(i)) });
            piece!("pop all", len, |b, o| while let Some(x) = b.pop_back() { black_box(x); });
            eat!("consume", len, |b| for x in b { black_box(x); });
            eat!("consume half", len, |b| { let mut it = b.into_iter(); for x in it.by_ref().take(len / 2) { black_box(x); } });
            eat!("consume by skipping", len, |b| { let mut it = b.into_iter(); black_box(it.nth(len / 2)); });
            eat!("consume by counting", len, |b| { black_box(b.into_iter().count()); });
            eat!("drop", len, |b| drop(b));
            // these may touch every slot
            piece!("linearize", c, |b, o| { black_box(b.linearize()); });
            piece!("reverse", c, |b, o| b.reverse());
            piece!("linearize again", c, |b, o| { for _ in 0..4 { b.linearize(); } });
            piece!("clone", c, |b, o| { black_box(b.clone()); });
            piece!("clone_from", c, |b, o| o.clone_from(&b));
            piece!("grow", c, |b, o| b.resize(2 * c));
            piece!("shrink", c, |b, o| b.resize(c / 2));
            piece!("resize to the same", c, |b, o| b.resize(c));
        }
    }
    if part > 0 { return }
    let what = ty.to_string();
    m.run("new", &what, c, c, || { black_box(CircularBuffer::<T>::new(c)); });
    let v: Vec<T> = (0..c).map(mk).collect();
    m.run("from slice iterator", &what, c, c, || { black_box(v.iter().collect::<CircularBuffer<T>>()); });
    m.run("from iterator", &what, c, c, || { black_box((0..c).map(mk).collect::<CircularBuffer<T>>()); });
    m.run("from iterator without hint", &what, c, c, || { black_box((0..c).map(mk).filter(|x| { black_box(x); true }).collect::<CircularBuffer<T>>()); });
    m.run("from vector", &what, c, c, || { black_box(CircularBuffer::from(v)); });
}

// ------------------------------------------------------------------ counter
type C = Counter<u32, BuildHasherDefault<Mix>>;
/// Count of key i: the listing has to sort these.
fn tally(shape: usize, i: u32, n: u32) -> usize {
    match shape {
        0 => 1,
        1 => i as usize + 1,
        2 => (n - i) as usize,
        3 => (i.min(n - i) + 1) as usize,
        4 => (vh::rng::mix(i as u64) >> 20) as usize + 1,
        _ => (vh::rng::mix(i as u64) % 4) as usize * 1_000_000_007 + 1,
    }
}
const TALLIES: [&str; 6] = ["ones", "ascending", "descending", "organ pipe", "random", "few huge"];

fn counters(m: &mut Meter, n: u32, a: &vh::args::Args) {
    let un = n as usize;
    for (k, shape) in TALLIES.iter().enumerate() {
        if k as u64 % a.shards != a.shard { continue }
        let fill = |from: u32, to: u32| {
            let mut c = C::with_capacity(2 * un);
            for i in from..to { c.insert(i, tally(k, i, n)); }
            c
        };
        let fresh = || fill(0, n);
        macro_rules! piece { ($g:expr, $per:expr, |$c:ident| $e:expr) => {{
            let mut $c = fresh();
            m.run($g, shape, un, $per, || { $e; });
            drop(black_box($c));
        }} }
        piece!("add existing", 64, |c| for i in 0..64u32 { c.push(i % n) });
        piece!("add new", 64, |c| for i in 0..64u32 { c.push(n + i) });
        piece!("look up", 64, |c| for i in 0..64u32 { black_box(black_box(&c).get(&(i * 3))); });
        piece!("sizes", 64, |c| for _ in 0..64 { black_box((black_box(&c).len(), black_box(&c).is_empty())); });
        piece!("extend with existing", un, |c| c.extend(0..n));
        piece!("extend with references", un, |c| { let v: Vec<u32> = (0..n).collect(); c.extend(&v) });
        piece!("extend with new", un, |c| c.extend(n..2 * n));
        piece!("extend by few", 64, |c| for i in 0..8u32 { c.extend(i..i + 8) });
        piece!("extend by few references", 64, |c| for i in 0..8u32 { c.extend(&[i, i + 1, i + 2, i + 3, i + 4, n, n + 1, n + 2]) });
        piece!("extend one by one", 64, |c| for i in 0..64u32 { c.extend(Some(n + i)) });
        let one = |i: u32| { let mut o = C::default(); o.push(i); o };
        piece!("+= of one", 64, |c| for i in 0..64u32 { c += one(i % n) });
        piece!("+= of one reference", 64, |c| for i in 0..64u32 { c += &one(n + i) });
        piece!("-= of one", 64, |c| for i in 0..64u32 { c -= one(i % n) });
        piece!("-= of one reference", 64, |c| for i in 0..64u32 { c -= &one(n - 1 - i % n) });
        piece!("compare with few", 64, |c| { let o = one(3); for _ in 0..64 { black_box((c == o, o == c)); } });
        piece!("iterate", un, |c| for x in &c { black_box(x); });
        piece!("iterate mutably", un, |c| for x in &mut c { black_box(x); });
        // both operands of this size; a small right operand; a small left operand
        for (g, l, r) in [("", (0, n), (n / 2, n + n / 2)), (" same keys", (0, n), (0, n)), (" small right", (0, n), (n / 2, n / 2 + 8)), (" small left", (0, 8), (0, n))] {
            let per = (l.1 - l.0 + r.1 - r.0) as usize;
            macro_rules! arith { ($w:expr, |$x:ident, $y:ident| $e:expr) => {{
                let ($x, $y) = (fill(l.0, l.1), fill(r.0, r.1));
                m.run(&format!("{}{g}", $w), shape, un, per, || { $e; });
            }} }
            arith!("+", |x, y| black_box(x + y));
            arith!("+ reference", |x, y| black_box(x + &y));
            arith!("+=", |x, y| { let mut x = x; x += y; black_box(x) });
            arith!("+= reference", |x, y| { let mut x = x; x += &y; black_box(x) });
            arith!("-", |x, y| black_box(x - y));
            arith!("- reference", |x, y| black_box(x - &y));
            arith!("-=", |x, y| { let mut x = x; x -= y; black_box(x) });
            arith!("-= reference", |x, y| { let mut x = x; x -= &y; black_box(x) });
        }
        piece!("listing", un, |c| black_box(c.most_common()));
        let c = fresh();
        m.run("consuming listing", shape, un, un, || { black_box(c.into_most_common()); });
        let map: HashMap<u32, usize> = (0..n).map(|i| (i, tally(k, i, n))).collect();
        m.run("from map reference", shape, un, un, || { black_box(C::from(&map)); });
        m.run("from map", shape, un, un, || { black_box(C::from(map)); });
        let c = fresh();
        m.run("consume", shape, un, un, || for x in c { black_box(x); });
        let c = fresh();
        m.run("clone", shape, un, un, || { black_box(c.clone()); });
        let (x, y) = (fresh(), fresh());
        m.run("compare", shape, un, un, || { black_box(x == y); });
        // no capacity given
        m.run("grow", shape, un, un, || {
            let mut c = C::default();
            for i in 0..n { c.push(i) }
            black_box(c);
        });
        m.run("collect", shape, un, un, || { black_box((0..n).collect::<C>()); });
        m.run("collect repeated", shape, un, un, || { black_box((0..n).map(|i| i % 5).collect::<C>()); });
        let v: Vec<u32> = (0..n).collect();
        m.run("collect references", shape, un, un, || { black_box(v.iter().collect::<C>()); });
    }
}

fn main() {
    let a = vh::args::parse();
    let out = std::fs::File::create(format!("{}.pieces", a.out.as_ref().unwrap())).unwrap();
    let mut m = Meter { n: 0, out };
    let mine = |k| a.shards == 1 || k % a.shards == a.shard;
    for &size in &a.sizes {
        match a.prop.as_str() {
            "B10" => {
                if mine(0) { buffers(&mut m, "u64", size, |i| i as u64) }
                if mine(1) { buffers(&mut m, "[u64;4]", size, |i| [i as u64; 4]) }
                if mine(2) { buffers(&mut m, "()", size, |_| ()) }
                if mine(3) { origins(&mut m, size) }
                if mine(9) { buffers(&mut m, "droppable", size, |i| Droppable(i as u64)) }
                for kind in 0..5 { if mine(4 + kind) { long(&mut m, size, kind as usize) } }
            }
            "B11" => {
                for part in 0..3 {
                    if mine(part) { bulk(&mut m, "u64", size, part, |i| i as u64) }
                    if mine(3 + part) { bulk(&mut m, "[u64;4]", size, part, |i| [i as u64; 4]) }
                    if mine(6 + part) { bulk(&mut m, "()", size, part, |_| ()) }
                    if mine(9 + part) { bulk(&mut m, "u8", size, part, |i| i as u8) }
                    if mine(12 + part) { bulk(&mut m, "droppable", size, part, |i| Droppable(i as u64)) }
                    if size <= 4096 && mine(13 + part) { bulk(&mut m, "[u64;20]", size, part, |i| [i as u64; 20]) }
                }
            }
            "C07" => counters(&mut m, size as u32, &a),
            "D04" => sets(&mut m, size as u32, &a),
            p => panic!("{p}"),
        }
    }
}
