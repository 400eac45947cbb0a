BUGS = []
def bug(id, prop, edits, needs, breaks, main, **kw):
    BUGS.append(dict(id=id, prop=prop, edits=edits, needs=needs, breaks=breaks, main=main, **kw))

# ------------------------------------------------------------------ circular buffer
bug('b01-full-push-modulo', 'B01', [('buf', '''        if self.is_full(){
            if self.capacity() == 0 {
                return;
            } else {
                self.pop_front();
            }
        }
        self.push_at(val, self.end);
        self.incr_end();''', '''        if self.is_full(){
            if self.capacity() == 0 {
                return;
            }
            if self.start + 2 < self.buffer.len() || self.start + 1 == self.buffer.len() {
                self.pop_front();
            } else {
                //the front element sits in the second to last slot: reuse the first one
                let old = self.pop_at(self.start);
                self.start = (self.start + 1) % self.buffer.len();
                drop(old);
                if self.end + 1 == self.start {
                    self.start = self.end + 1;
                } else {
                    self.start = 0;
                }
            }
        }
        self.push_at(val, self.end);
        self.incr_end();''')],
 'pushing at the back of a full buffer whose front element sits in the second to last slot without the back right behind it',
 'the front moves two slots instead of one, so an element is lost',
 '''
use advanced_collections::circular_buffer::CircularBuffer;
use std::collections::VecDeque;
fn main() {
    for cap in 1..9usize {
        for rot in 0..20 {
            let mut b: CircularBuffer<u32> = CircularBuffer::new(cap);
            let mut m = VecDeque::new();
            for i in 0..rot { b.push_back(i); b.pop_front(); }
            for i in 0..3 * cap as u32 + 7 {
                if m.len() == cap { m.pop_front(); }
                m.push_back(i);
                b.push_back(i);
                let got: Vec<u32> = b.iter().cloned().collect();
                assert_eq!(got, m.iter().cloned().collect::<Vec<_>>(), "cap {} rot {}", cap, rot);
            }
        }
    }
}
''')

bug('b02-forget-drain-rest', 'B02', [('buf', '''        let to_be_skipped = if self.len()>capacity{
            self.len() - capacity
        } else {
            0
        };''', '''        let mut to_be_skipped = if self.len()>capacity{
            self.len() - capacity
        } else {
            0
        };
        //the oldest elements that lie in front of the wrap need not be moved at all
        if to_be_skipped > 1 && self.start > self.end {
            let tail = self.buffer.len() - self.start;
            if tail < to_be_skipped {
                self.start = 0;
                to_be_skipped -= tail;
            }
        }''')],
 'shrinking a wrapped buffer by more elements than lie before the wrap',
 'the cut off elements before the wrap are leaked',
 '''
use advanced_collections::circular_buffer::CircularBuffer;
use std::rc::Rc;
fn main() {
    for cap in 1..7usize {
        for rot in 0..12 {
            for n in 0..cap {
                let r = Rc::new(());
                let mut b: CircularBuffer<Rc<()>> = CircularBuffer::new(cap);
                for _ in 0..rot { b.push_back(r.clone()); b.pop_front(); }
                for _ in 0..cap { b.push_back(r.clone()); }
                b.resize(n);
                assert_eq!(Rc::strong_count(&r), 1 + n, "cap {} rot {} n {}", cap, rot, n);
            }
        }
    }
}
''')

bug('b03-release-index', 'B03', [('buf', '''        if index >= self.len() {
            panic!("Index outside of bound of CircularBuffer");
        }
        if self.start''', '''        debug_assert!(index < self.len(), "Index outside of bound of CircularBuffer");
        if self.start''')],
 'an index at or beyond the length in a build without debug assertions',
 'an unoccupied slot is read as if it held an element',
 '''
use advanced_collections::circular_buffer::CircularBuffer;
fn main() {
    std::panic::set_hook(Box::new(|_| ()));
    for rot in 0..5 {
        let mut b: CircularBuffer<u64> = CircularBuffer::new(4);
        for i in 0..rot { b.push_back(i); b.pop_front(); }
        b.push_back(1);
        b.push_back(2);
        b.pop_back();
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| b[1]));
        if r.is_ok() { std::process::exit(1); }
    }
}
''', cmd='cargo run --offline -q --release')

bug('b03-slice-provenance', 'B03', [('buf', '''            (&self.buffer[self.start..self.end], &self.buffer[0..0])
        } else {''', '''            let first = &self.buffer[self.start..self.start];
            let len = self.end - self.start;
            (unsafe{::std::slice::from_raw_parts(first.as_ptr(), len)}, &self.buffer[0..0])
        } else {''')],
 'any use of slices() or iteration while the content does not wrap, judged by the aliasing rules of the language',
 'the first slice is made from a reference that only covers an empty part of the storage: undefined behaviour',
 '''
use advanced_collections::circular_buffer::CircularBuffer;
fn main() {
    let mut b: CircularBuffer<u64> = CircularBuffer::new(4);
    b.push_back(1);
    b.push_back(2);
    assert_eq!(b.iter().sum::<u64>(), 3);
}
''', cmd='cargo +nightly miri run --offline -q')

bug('b04-last-slot-iter-mut', 'B04', [('buf', '''        let (a,b) = self.slices_mut();
        a.iter_mut().chain(b.iter_mut())''', '''        if self.end == 0 && self.start != 0 {
            //the content ends right at the end of the storage
            self.end = self.capacity();
            let (a, b) = self.slices_mut();
            return a.iter_mut().chain(b.iter_mut());
        }
        let (a,b) = self.slices_mut();
        a.iter_mut().chain(b.iter_mut())''')],
 'mutable iteration when the last element sits in the last slot of the storage',
 'the last element is not yielded and disappears from the buffer',
 '''
use advanced_collections::circular_buffer::CircularBuffer;
fn main() {
    for cap in 1..6usize {
        for rot in 0..12 {
            for n in 0..=cap {
                let mut b: CircularBuffer<usize> = CircularBuffer::new(cap);
                for i in 0..rot { b.push_back(i); b.pop_front(); }
                for i in 0..n { b.push_back(i); }
                let v: Vec<usize> = b.iter_mut().map(|x| *x).collect();
                assert_eq!(v, (0..n).collect::<Vec<_>>(), "cap {} rot {}", cap, rot);
                assert_eq!(b.len(), n);
            }
        }
    }
}
''')

bug('b04-drain-nth', 'B04', [('bit', '''pub struct IntoIter<T>{
    buf: CircularBuffer<T>
}''', '''pub struct IntoIter<T>{
    pub(super) buf: CircularBuffer<T>
}'''), ('bit', '''        Self{
            buf
        }
    }
}

impl <T> Iterator for IntoIter<T>{
    type Item = T;

    fn next(&mut self) -> Option<<Self as Iterator>::Item> {
        self.buf.pop_front()
    }
}''', '''        Self{
            buf
        }
    }
}

impl <T> Iterator for IntoIter<T>{
    type Item = T;

    fn next(&mut self) -> Option<<Self as Iterator>::Item> {
        self.buf.pop_front()
    }

    fn nth(&mut self, n: usize) -> Option<T> {
        if n >= self.buf.len() {
            return None;
        }
        //elements before the requested one are dropped
        self.buf.reverse();
        let keep = self.buf.len() - n;
        let elem = self.buf.len() - 1 - n;
        self.buf.swap(elem, 0);
        while self.buf.len() > keep {
            self.buf.pop_back();
        }
        let result = if n > 0 { self.buf.swap(0, keep - 1); self.buf.pop_back() } else { self.buf.reverse(); return self.buf.pop_front() };
        self.buf.reverse();
        result
    }
}''')],
 'skipping past the end, or several elements at once, in the consuming iterator (nth, skip, step_by)',
 'skipping past the end does not consume anything, so elements before the skipped position come out again',
 '''
use advanced_collections::circular_buffer::CircularBuffer;
fn main() {
    for n in 0..8usize {
        for k in 0..10usize {
            let v: Vec<usize> = (0..n).collect();
            let b: CircularBuffer<usize> = CircularBuffer::from(v.clone());
            let mut it = b.into_iter();
            let mut e = v.into_iter();
            assert_eq!(it.nth(k), e.nth(k));
            assert_eq!(it.collect::<Vec<_>>(), e.collect::<Vec<_>>(), "n {} k {}", n, k);
        }
    }
}
''')

bug('b05-grow-overlap', 'B05', [('buf', '''    pub fn resize (&mut self, capacity: usize) {
''', '''    pub fn resize (&mut self, capacity: usize) {
        if capacity >= self.capacity() {
            //growing does not need a second buffer
            let old_len = self.buffer.len();
            let mut storage = replace(&mut self.buffer, Vec::new().into_boxed_slice()).into_vec();
            storage.reserve_exact(capacity + 1 - old_len);
            while storage.len() <= capacity {
                storage.push(MaybeUninit::uninit());
            }
            self.buffer = storage.into_boxed_slice();
            if self.start > self.end {
                //move the elements before the wrap to the end of the storage
                let tail = old_len - self.start;
                let new_start = self.buffer.len() - tail;
                for i in 0..tail {
                    self.buffer.swap(new_start + i, self.start + i);
                }
                self.start = new_start;
            }
            return;
        }
'''), ('buf', '''        let to_be_skipped = if self.len()>capacity{
            self.len() - capacity
        } else {
            0
        };''', '''        let to_be_skipped = self.len().saturating_sub(capacity);''')],
 'growing a wrapped buffer by fewer slots than there are elements before the wrap',
 'overlapping move in the wrong direction scrambles the order of the elements',
 '''
use advanced_collections::circular_buffer::CircularBuffer;
fn main() {
    for cap in 1..8usize {
        for rot in 0..12 {
            for n in cap..cap + 8 {
                let mut b: CircularBuffer<usize> = CircularBuffer::new(cap);
                for i in 0..rot { b.push_back(i); b.pop_front(); }
                for i in 0..cap { b.push_back(i); }
                b.resize(n);
                assert_eq!(b.capacity(), n);
                assert_eq!(b.iter().cloned().collect::<Vec<_>>(), (0..cap).collect::<Vec<_>>(), "cap {} rot {} n {}", cap, rot, n);
            }
        }
    }
}
''')

bug('b05-append-order', 'B05', [('buf', '''        self.extend(other.drain())
''', '''        if self.is_empty() && self.capacity() > other.len() {
            //nothing to keep: fill from the back
            while let Some(val) = other.pop_back() {
                self.push_front(val);
            }
        } else if self.capacity() < other.len() {
            //only the newest elements fit
            self.clear();
            let skip = other.len() - self.capacity() - 1;
            for val in other.drain().skip(skip) {
                if self.is_full() && self.capacity() == 1 {
                    continue;
                }
                self.push_back(val);
            }
        } else {
            self.extend(other.drain())
        }
''')],
 'appending two or more elements to a buffer of capacity one',
 'the oldest instead of the newest element is kept',
 '''
use advanced_collections::circular_buffer::CircularBuffer;
fn main() {
    for ca in 0..5usize { for na in 0..=ca { for cb in 0..6usize {
        let mut a: CircularBuffer<usize> = CircularBuffer::new(ca);
        let mut b: CircularBuffer<usize> = CircularBuffer::new(cb);
        for i in 0..na { a.push_back(i); }
        for i in 0..cb { b.push_back(100 + i); }
        let mut all: Vec<usize> = (0..na).chain((0..cb).map(|i| 100 + i)).collect();
        let cut = all.len().saturating_sub(ca);
        all.drain(..cut);
        a.append(&mut b);
        assert_eq!(a.iter().cloned().collect::<Vec<_>>(), all, "{} {} {}", ca, na, cb);
        assert!(b.is_empty());
    }}}
}
''')

bug('b06-swap-same', 'B06', [('buf', '''        self.buffer.swap(self.internal_index(a), self.internal_index(b));
    }

    /**
    Reverses''', '''        if a != b {
            self.buffer.swap(self.internal_index(a), self.internal_index(b));
        }
    }

    /**
    Reverses''')],
 'swapping a position at or beyond the length with itself',
 'the call returns instead of panicking',
 '''
use advanced_collections::circular_buffer::CircularBuffer;
fn main() {
    std::panic::set_hook(Box::new(|_| ()));
    let mut b: CircularBuffer<u64> = CircularBuffer::new(4);
    b.push_back(1);
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| b.swap(2, 2)));
    if r.is_ok() { std::process::exit(1); }
}
''')

bug('b06-reverse-wrapped', 'B06', [('buf', '''        for a in 0..self.len()/2 {
            let b = self.len() - a - 1;
            self.buffer.swap(self.internal_index(a), self.internal_index(b));
        }''', '''        if self.start <= self.end {
            self.slices_mut().0.reverse();
            return;
        }
        //the two parts trade places around the free slots, which keeps the order of the slots
        let (start, end, len) = (self.start, self.end, self.buffer.len());
        self.buffer.reverse();
        self.start = len - end;
        self.end = if self.start + start > len { len - start } else { len - start };
        if self.start == len {
            self.start = len - 1;
        }''')],
 'reversing a buffer whose content ends exactly with the last slot of the storage',
 'the free last slot becomes the first element (uninitialized) of the reversed buffer',
 '''
use advanced_collections::circular_buffer::CircularBuffer;
fn main() {
    for cap in 1..6usize {
        for rot in 0..12 {
            for n in 0..=cap {
                let mut b: CircularBuffer<usize> = CircularBuffer::new(cap);
                for i in 0..rot { b.push_back(i); b.pop_front(); }
                for i in 0..n { b.push_back(i); }
                b.reverse();
                assert_eq!(b.len(), n, "cap {} rot {}", cap, rot);
                assert_eq!(b.iter().cloned().collect::<Vec<_>>(), (0..n).rev().collect::<Vec<_>>(), "cap {} rot {}", cap, rot);
            }
        }
    }
}
''')

bug('b07-ord-slices', 'B07', [('buf', '''        self.iter().partial_cmp(other.iter())''', '''        self.slices().partial_cmp(&other.slices())''')],
 'comparing two buffers whose contents are split at different positions',
 'the order follows the split instead of the content',
 '''
use advanced_collections::circular_buffer::CircularBuffer;
fn main() {
    for ra in 0..6 { for rb in 0..6 {
        let mk = |rot: usize, x: u32| {
            let mut b: CircularBuffer<u32> = CircularBuffer::new(4);
            for i in 0..rot { b.push_back(i as u32); b.pop_front(); }
            for v in [1, 2, x, 4] { b.push_back(v); }
            b
        };
        let (a, b) = (mk(ra, 3), mk(rb, 3));
        assert_eq!(a.partial_cmp(&b), Some(std::cmp::Ordering::Equal), "{} {}", ra, rb);
        assert!(mk(ra, 2) < b && mk(ra, 5) > b);
    }}
}
''')

bug('b07-eq-zip', 'B07', [('buf', '''    fn eq(&self, other: &[T]) -> bool {
        self.iter().eq(other.iter())
    }
}

impl<'a, T> PartialEq<&'a [T]> for''', '''    fn eq(&self, other: &[T]) -> bool {
        let (a, b) = self.slices();
        other.starts_with(a) && other.ends_with(b)
    }
}

impl<'a, T> PartialEq<&'a [T]> for''')],
 'comparing with an unsized slice that is longer or overlaps the two parts of the buffer',
 'different contents compare equal',
 '''
use advanced_collections::circular_buffer::CircularBuffer;
fn main() {
    let mut b: CircularBuffer<u32> = CircularBuffer::new(4);
    for v in [1, 2, 3, 4, 1, 2] { b.push_back(v); }
    assert!(b == *[3u32, 4, 1, 2].as_ref());
    assert!(b != *[3u32, 4, 1].as_ref());
    assert!(b != *[3u32, 4, 1, 2, 5].as_ref());
    assert!(b != *[3u32, 4, 9, 1, 2].as_ref());
    b.linearize();
    assert!(b != *[3u32, 4, 1, 2, 5].as_ref());
}
''')

ALLOC = '''
use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicUsize, Ordering};
static N: AtomicUsize = AtomicUsize::new(0);
struct A;
unsafe impl GlobalAlloc for A {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 { N.fetch_add(1, Ordering::Relaxed); System.alloc(l) }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) { System.dealloc(p, l) }
}
#[global_allocator] static G: A = A;
fn allocs<R>(f: impl FnOnce() -> R) -> usize { let a = N.load(Ordering::Relaxed); let r = f(); let b = N.load(Ordering::Relaxed); drop(r); b - a }
'''
bug('b08-append-collect', 'B08', [('buf', '''        self.extend(other.drain())
''', '''        if self.capacity() < other.len() {
            //only the newest elements fit
            let skip = other.len() - self.capacity();
            let newest: Vec<T> = other.drain().skip(skip).collect();
            self.clear();
            self.extend(newest);
        } else {
            self.extend(other.drain())
        }
''')],
 'appending more elements than the capacity of the target',
 'append allocates a temporary vector',
 ALLOC + '''
use advanced_collections::circular_buffer::CircularBuffer;
fn main() {
    for (ca, nb) in [(3usize, 2u32), (3, 3), (3, 4), (3, 9)] {
        let mut a: CircularBuffer<u32> = CircularBuffer::new(ca);
        let mut b: CircularBuffer<u32> = CircularBuffer::new(20);
        for i in 0..nb { b.push_back(i); }
        assert_eq!(allocs(|| a.append(&mut b)), 0, "{} {}", ca, nb);
    }
}
''')

bug('b08-cmp-collect', 'B08', [('buf', '''        self.iter().cmp(other.iter())
''', '''        if self.slices().1.is_empty() && other.slices().1.is_empty() {
            self.slices().0.cmp(other.slices().0)
        } else {
            //wrapped buffers
            let a: Vec<&T> = self.iter().collect();
            let b: Vec<&T> = other.iter().collect();
            a.cmp(&b)
        }
''')],
 'total-order comparison (cmp, max, sort) of buffers of which at least one wraps around',
 'comparing allocates',
 ALLOC + '''
use advanced_collections::circular_buffer::CircularBuffer;
fn main() {
    for rot in 0..6 {
        let mut a: CircularBuffer<u32> = CircularBuffer::new(4);
        for i in 0..rot { a.push_back(i); a.pop_front(); }
        for i in 0..4 { a.push_back(i); }
        assert_eq!(allocs(|| a.cmp(&a)), 0, "{}", rot);
    }
}
''')

bug('b09-drop-in-place', 'B09', [('buf', '''                self.pop_front();
            }
        }
        self.push_at(val, self.end);''', '''                //no need to move the value out only to drop it
                unsafe{::std::ptr::drop_in_place(self.buffer[self.start].as_mut_ptr())};
                self.incr_start();
            }
        }
        self.push_at(val, self.end);''')],
 'the destructor of the overwritten element panics',
 'the element stays in the buffer after its destructor ran, so it is exposed and dropped again',
 '''
use advanced_collections::circular_buffer::CircularBuffer;
use std::cell::Cell;
use std::rc::Rc;
struct P(Rc<Cell<u32>>, bool);
impl Drop for P { fn drop(&mut self) { self.0.set(self.0.get() + 1); if self.1 && self.0.get() == 1 { panic!("drop") } } }
fn main() {
    std::panic::set_hook(Box::new(|_| ()));
    let n = Rc::new(Cell::new(0));
    let k = n.clone();
    {
        let mut b = CircularBuffer::new(1);
        b.push_back(P(n.clone(), true));
        let b = std::mem::ManuallyDrop::new(std::cell::RefCell::new(b));
        let _ = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| b.borrow_mut().push_back(P(Rc::new(Cell::new(9)), false))));
        std::mem::forget(k.clone());
        let live = b.borrow().iter().filter(|p| Rc::ptr_eq(&p.0, &k)).count();
        if live != 0 { eprintln!("dropped element still visible"); std::process::exit(1); }
    }
}
''')

bug('b09-clear-slices', 'B09', [('buf', '''        while let Some(val) = self.pop_back() {
            drop(val)
        }''', '''        let (a, b) = self.slices_mut();
        unsafe {
            ::std::ptr::drop_in_place(a);
            ::std::ptr::drop_in_place(b);
        }
        self.start = 0;
        self.end = 0;''')],
 'a destructor panics while the buffer is cleared',
 'all elements stay in the buffer after being dropped and are dropped again later',
 '''
use advanced_collections::circular_buffer::CircularBuffer;
struct P(bool);
static mut N: u32 = 0;
impl Drop for P { fn drop(&mut self) { unsafe { N += 1 }; if self.0 { self.0 = false; panic!("drop") } } }
fn main() {
    std::panic::set_hook(Box::new(|_| ()));
    let mut b = CircularBuffer::new(3);
    b.push_back(P(false)); b.push_back(P(true)); b.push_back(P(false));
    let _ = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| b.clear()));
    drop(b);
    let n = unsafe { N };
    if n != 3 { eprintln!("{} drops of 3 elements", n); std::process::exit(1); }
}
''')

bug('b10-keep-linear', 'B10', [('buf', '''        self.end += 1;
        if self.end == self.buffer.len(){
            self.end = 0;
        }''', '''        self.end += 1;
        if self.end == self.buffer.len(){
            if self.start > 0 && self.capacity() > 32 {
                //keep the content in one piece, iterating it is faster that way
                self.buffer.rotate_left(self.start);
                self.end -= self.start;
                self.start = 0;
            } else {
                self.end = 0;
            }
        }''')],
 'pushing at the back of a full buffer, or one whose content reaches the end of the storage',
 'each such push moves the whole content',
 '''
use advanced_collections::circular_buffer::CircularBuffer;
use std::time::{Duration, Instant};
fn time(cap: usize) -> Duration {
    let mut best = Duration::from_secs(999);
    for _ in 0..5 {
        let mut b: CircularBuffer<u64> = CircularBuffer::new(cap);
        for i in 0..cap as u64 + 10 { b.push_back(i); }
        let t = Instant::now();
        for i in 0..2000u64 { b.push_back(i); }
        best = best.min(t.elapsed());
        assert_eq!(b.len(), cap);
    }
    best
}
fn main() {
    let (a, b) = (time(64), time(200_000));
    println!("{:?} {:?}", a, b);
    if b > a * 40 { std::process::exit(1); }
}
''', cmd='cargo run --offline -q --release')

bug('b10-len-count', 'B10', [('buf', '''        if self.start <= self.end {
            self.end - self.start
        } else {
            self.buffer.len() + self.end - self.start
        }
    }''', '''        if self.start <= self.end {
            self.end - self.start
        } else {
            let (a, b) = (&self.buffer[self.start..], &self.buffer[..self.end]);
            a.iter().chain(b.iter()).fold(0, |n, _| ::std::hint::black_box(n + 1))
        }
    }''')],
 'any length query (or index, last, push) on a wrapped buffer',
 'the length is counted element by element',
 '''
use advanced_collections::circular_buffer::CircularBuffer;
use std::time::{Duration, Instant};
fn time(cap: usize) -> Duration {
    let mut best = Duration::from_secs(999);
    for _ in 0..5 {
        let mut b: CircularBuffer<u64> = CircularBuffer::new(cap);
        for i in 0..cap as u64 + 10 { b.push_back(i); }
        let t = Instant::now();
        for i in 0..2000usize { std::hint::black_box(b[i % 60]); }
        best = best.min(t.elapsed());
    }
    best
}
fn main() {
    let (a, b) = (time(64), time(200_000));
    println!("{:?} {:?}", a, b);
    if b > a * 40 { std::process::exit(1); }
}
''', cmd='cargo run --offline -q --release')

# ------------------------------------------------------------------ counter
bug('c01-upper-hint', 'C01', [('cnt', '''        let mut cnt = Self::with_capacity(iter.size_hint().0);
        for key in iter {
            cnt.push(key);
        }
        cnt''', '''        let (lower, upper) = iter.size_hint();
        let mut cnt = Self::with_capacity(upper.unwrap_or(lower));
        for key in iter {
            cnt.push(key);
        }
        cnt''')],
 'building a counter from a source iterator whose upper size hint is huge (take_while, filter over a long range)',
 'construction panics or aborts for lack of memory although few elements come',
 '''
use advanced_collections::counter::Counter;
fn main() {
    let c: Counter<u64> = (0..u64::MAX).take_while(|x| *x < 5).collect();
    assert_eq!(c.len(), 5);
}
''')

bug('c01-extend-upper', 'C01', [('cnt', '''        let iter = iter.into_iter();
        self.counter.reserve(iter.size_hint().0);
        for key in iter.map(|&key| key) {
            self.push(key);
        }''', '''        let iter = iter.into_iter();
        let (lower, upper) = iter.size_hint();
        self.counter.reserve(lower);
        if upper == Some(lower) {
            //the exact number of elements is known
            for key in iter.take(lower).map(|&key| key) {
                self.push(key);
            }
        } else {
            for key in iter.map(|&key| key) {
                self.push(key);
            }
        }''')],
 'extending a counter by reference from an iterator with a wrong but safe size hint',
 'elements beyond the hint are not counted',
 '''
use advanced_collections::counter::Counter;
struct It<'a>(std::slice::Iter<'a, u32>);
impl<'a> Iterator for It<'a> {
    type Item = &'a u32;
    fn next(&mut self) -> Option<&'a u32> { self.0.next() }
    fn size_hint(&self) -> (usize, Option<usize>) { (2, Some(2)) }
}
fn main() {
    let mut c: Counter<u32> = Counter::new();
    c.extend(It([1, 2, 3, 3].iter()));
    assert_eq!(c.len(), 3);
    assert_eq!(c[&3], 2);
}
''')

bug('c02-sort-key-u32', 'C02', [('cnt', '''            .map(|(key, &val)| ((*key).clone(), val))
            .collect();
        res.sort_unstable_by_key(|&(ref _key, val)| ::std::usize::MAX - val);''', '''            .map(|(key, &val)| ((*key).clone(), val))
            .collect();
        res.sort_unstable_by_key(|&(ref _key, val)| -(val as isize));''')],
 'an element with a count above isize::MAX, next to others',
 'the most frequent element is listed last',
 '''
use advanced_collections::counter::Counter;
use std::collections::HashMap;
fn main() {
    let mut m = HashMap::new();
    m.insert('a', usize::MAX - 1);
    m.insert('b', 3);
    m.insert('c', usize::MAX / 2 + 7);
    let c = Counter::from_hashmap(m);
    let v: Vec<usize> = c.most_common().iter().map(|x| x.1).collect();
    assert!(v.windows(2).all(|w| w[0] >= w[1]), "{:?}", v);
}
''')

bug('c02-bucket', 'C02', [('cnt', '''        let mut res: Vec<(T, usize)> = Vec::from_iter(self.counter.into_iter());
        res.sort_unstable_by_key(|&(ref _key, val)| ::std::usize::MAX - val);
        res''', '''        let mut res: Vec<(T, usize)> = Vec::from_iter(self.counter.into_iter());
        if res.len() > 64 {
            //for many elements most counts are small: sort only the frequent ones
            let mut frequent: Vec<(T, usize)> = Vec::new();
            let mut rare: Vec<Vec<(T, usize)>> = (0..16).map(|_| Vec::new()).collect();
            for (key, val) in res {
                if val < 16 {
                    rare[val].push((key, val));
                } else if val > 16 {
                    frequent.push((key, val));
                } else {
                    rare[15].push((key, val));
                }
            }
            frequent.sort_unstable_by_key(|&(ref _key, val)| ::std::usize::MAX - val);
            for bucket in rare.into_iter().rev() {
                frequent.extend(bucket);
            }
            return frequent;
        }
        res.sort_unstable_by_key(|&(ref _key, val)| ::std::usize::MAX - val);
        res''')],
 'consuming most-common listing of more than 64 elements, with both counts 15 and 16 present',
 'elements with count 15 and 16 are listed in arbitrary order',
 '''
use advanced_collections::counter::Counter;
fn main() {
    for _ in 0..20 {
        let mut c: Counter<u32> = Counter::new();
        for k in 0..200u32 { for _ in 0..(k % 20 + 1) { c.push(k); } }
        let v: Vec<usize> = c.into_most_common().iter().map(|x| x.1).collect();
        assert!(v.windows(2).all(|w| w[0] >= w[1]), "{:?}", v);
    }
}
''')

bug('c03-add-ref-swap', 'C03', [('cnt', '''        for (ref key, val) in rhs.iter() {
            *self.entry((*key).clone()).or_insert(0) += *val;
        }
        self
    }
}

impl<T, S1, S2> SubAssign<Counter<T, S1>>''', '''        if self.len() > 2 * rhs.len() {
            //a small right side: most keys exist already
            for (key, val) in rhs.iter() {
                if let Some(count) = self.counter.get_mut(key) {
                    *count += *val;
                    continue;
                }
                self.counter.insert(key.clone(), 1);
            }
            return self;
        }
        for (ref key, val) in rhs.iter() {
            *self.entry((*key).clone()).or_insert(0) += *val;
        }
        self
    }
}

impl<T, S1, S2> SubAssign<Counter<T, S1>>''')],
 'a + &b with b less than half as long as a, and an element with count above one that only b holds',
 'the count of that element becomes one',
 '''
use advanced_collections::counter::Counter;
use std::iter::FromIterator;
fn main() {
    let a: Counter<char> = Counter::from_iter("abcdefgh".chars());
    let b: Counter<char> = Counter::from_iter("xxxa".chars());
    let s = a + &b;
    assert_eq!(s[&'x'], 3);
    assert_eq!(s[&'a'], 2);
}
''')

bug('c04-sub-ref-equal', 'C04', [('cnt', '''        for (ref key, val) in rhs.iter() {
            match self.counter.entry((*key).clone()) {
                Entry::Occupied(mut entry) => {
                    if entry.get() <= &val {
                        entry.remove();
                    } else {
                        let new_val = entry.get() - val;
                        entry.insert(new_val);
                    }
                }''', '''        for (ref key, val) in rhs.iter() {
            match self.counter.entry((*key).clone()) {
                Entry::Occupied(mut entry) => {
                    if *entry.get() < *val {
                        entry.remove();
                    } else {
                        *entry.get_mut() -= *val;
                    }
                }''')],
 'a - &b where an element has the same count on both sides',
 'the element stays with count zero',
 '''
use advanced_collections::counter::Counter;
use std::iter::FromIterator;
fn main() {
    let a: Counter<char> = Counter::from_iter("aabbb".chars());
    let b: Counter<char> = Counter::from_iter("aab".chars());
    let s = a - &b;
    assert_eq!(s.len(), 1);
    assert_eq!(s.get(&'a'), None);
    assert_eq!(s[&'b'], 2);
}
''')

bug('c05-zero-cap', 'C05', [('cnt', '''        Counter {
            counter: HashMap::with_capacity_and_hasher(capacity, hash_builder),
        }''', '''        Counter {
            counter: HashMap::with_capacity_and_hasher(capacity.max(1), hash_builder),
        }''')],
 'a counter made with capacity zero and a hasher',
 'it allocates',
 '''
use advanced_collections::counter::Counter;
use std::collections::hash_map::RandomState;
fn main() {
    let c: Counter<u32, _> = Counter::with_capacity_and_hasher(0, RandomState::new());
    assert_eq!(c.capacity(), 0);
}
''')

bug('c05-from-ref-zero', 'C05', [('cnt', '''            counter: HashMap::from_iter(rhs.iter().map(|(ref key, &val)| ((*key).clone(), val))),''',
 '''            counter: HashMap::from_iter(rhs.iter().filter(|&(_, &val)| val > 0).map(|(ref key, &val)| ((*key).clone(), val))),''')],
 'converting a borrowed hash map that holds an element with count zero',
 'the pair is missing from the counter',
 '''
use advanced_collections::counter::Counter;
use std::collections::HashMap;
fn main() {
    let mut m: HashMap<char, usize> = HashMap::new();
    m.insert('a', 0);
    m.insert('b', 2);
    let c: Counter<char> = Counter::from(&m);
    assert_eq!(c.len(), 2);
    assert_eq!(c.get(&'a'), Some(&0));
}
''')

bug('c06-run-batching', 'C06', [('cnt', '''        let iter = iter.into_iter();
        self.counter.reserve(iter.size_hint().0);
        for key in iter {
            self.push(key);
        }''', '''        let iter = iter.into_iter();
        self.counter.reserve(iter.size_hint().0);
        //equal neighbours are added in one go
        let mut run: Option<(T, usize)> = None;
        for key in iter {
            run = match run {
                Some((k, n)) => if k == key {
                    Some((k, n + 1))
                } else {
                    *self.counter.entry(k).or_insert(0) += n;
                    Some((key, 1))
                },
                None => Some((key, 1))
            };
        }
        if let Some((k, n)) = run {
            *self.counter.entry(k).or_insert(0) += n;
        }''')],
 'the source iterator of extend panics after yielding elements',
 'the run of equal elements before the panic is not counted',
 '''
use advanced_collections::counter::Counter;
fn main() {
    std::panic::set_hook(Box::new(|_| ()));
    let mut c: Counter<u32> = Counter::new();
    let _ = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
        c.extend((0..5u32).map(|x| if x == 3 { panic!("source") } else { x / 2 }));
    }));
    assert_eq!(c.get(&0), Some(&2));
    assert_eq!(c.get(&1), Some(&1));
}
''')

# ------------------------------------------------------------------ disjoint set
bug('d01-two-hops', 'D01', [('dsu', '''        let mut parent = data_by_id[id].parent;
        if parent != id{
            parent = Self::find_with_path_compression(data_by_id, parent);
            data_by_id[id].parent = parent;
        }
        parent''', '''        //trees are flat: the parent is nearly always the root already
        let parent = data_by_id[id].parent;
        let grandparent = data_by_id[parent].parent;
        if parent != grandparent {
            let root = data_by_id[grandparent].parent;
            data_by_id[id].parent = root;
            return root;
        }
        parent''')],
 'a tree of height four, which only balanced pairwise unions of sixteen elements through their roots create',
 'an inner node is taken for the root, so connected elements are reported apart',
 '''
use advanced_collections::disjoint_set::DisjointSet;
fn main() {
    for n in [8usize, 16, 32, 64] {
        let mut d: DisjointSet<usize> = DisjointSet::new();
        let mut step = 1;
        while step < n {
            let mut i = 0;
            while i < n { d.union(i, i + step); i += 2 * step; }
            step *= 2;
        }
        for i in 0..n { for j in (0..n).rev() { assert!(d.in_union(&j, &i), "{} {} {}", n, i, j); } }
    }
}
''')

bug('d02-clear-ids', 'D02', [('dsu', '''        self.ids.clear();
        self.data_by_id.clear()''', '''        self.ids.clear();
        //the parents are overwritten when elements are added again
        for (id, data) in self.data_by_id.iter_mut().enumerate() {
            data.parent = id;
        }'''), ('dsu', '''                self.data_by_id.push(Data::new(next_id));
                next_id''', '''                if next_id == self.data_by_id.len() {
                    self.data_by_id.push(Data::new(next_id));
                } else if self.data_by_id[next_id].rank < 2 {
                    self.data_by_id[next_id] = Data::new(next_id);
                } else {
                    self.data_by_id[next_id].parent = next_id - 1;
                }
                next_id''')],
 'clear, then adding elements again, after unions that made the root of a position reach rank two',
 'an element added after clear is in the subset of its predecessor',
 '''
use advanced_collections::disjoint_set::DisjointSet;
fn main() {
    for k in 0..6usize {
        let mut d: DisjointSet<usize> = DisjointSet::new();
        for i in 0..12 { d.make_set(i); }
        d.union(k, k + 1); d.union(k + 2, k + 3); d.union(k, k + 2);
        d.clear();
        for i in 0..12 { d.make_set(100 + i); }
        for i in 0..12 { for j in 0..i { assert!(!d.in_union(&(100 + i), &(100 + j)), "{} {} {}", k, i, j); } }
    }
}
''')

bug('d03-parent-not-root', 'D03', [('dsu', '''            let root = Self::find_with_path_compression(&mut self.data_by_id, **val);
            map''', '''            let mut root = self.data_by_id[**val].parent;
            if self.data_by_id[root].rank < 2 {
                root = Self::find_with_path_compression(&mut self.data_by_id, root);
            }
            map''')],
 'iterating when an inner node of rank two or more still hangs below the root (three levels of pairwise unions)',
 'one subset is yielded as two groups',
 '''
use advanced_collections::disjoint_set::DisjointSet;
fn main() {
    for n in [4usize, 8, 16] {
        let mut d: DisjointSet<usize> = DisjointSet::new();
        let mut step = 1;
        while step < n {
            let mut i = 0;
            while i < n { d.union(i, i + step); i += 2 * step; }
            step *= 2;
        }
        let groups: Vec<usize> = (&mut d).into_iter().map(|g| g.count()).collect();
        assert_eq!(groups, vec![n]);
    }
}
''')

bug('d04-no-rank', 'D04', [('dsu', '''        if self.data_by_id[a_root].rank < self.data_by_id[b_root].rank {
            let tmp = a_root;
            a_root = b_root;
            b_root = tmp;
        }
''', '''        if self.data_by_id[a_root].rank + 1 < self.data_by_id[b_root].rank {
            let tmp = a_root;
            a_root = b_root;
            b_root = tmp;
        }
'''), ('dsu', '''        if self.data_by_id[a_root].rank == self.data_by_id[b_root].rank {
            self.data_by_id[a_root].rank += 1;
        }''', '''        if self.data_by_id[a_root].rank < self.data_by_id[b_root].rank {
            self.data_by_id[a_root].rank = self.data_by_id[b_root].rank;
        }''')],
 'a long chain of unions in which every new element is named first',
 'the tree degenerates into a path; a query over it is linear and overflows a thread stack',
 '''
use advanced_collections::disjoint_set::DisjointSet;
fn main() {
    let n = 400_000u32;
    let t = std::thread::Builder::new().stack_size(1 << 20).spawn(move || {
        let mut d: DisjointSet<u32> = DisjointSet::new();
        for i in 1..n { d.union(i, i - 1); }
        assert!(d.in_union(&0, &(n - 1)));
    }).unwrap();
    t.join().unwrap();
}
''', cmd='cargo run --offline -q --release')

bug('d04-no-compression', 'D04', [('dsu', '''            parent = Self::find_with_path_compression(data_by_id, parent);
            data_by_id[id].parent = parent;
        }
        parent''', '''            //union by rank keeps the trees low
            let grandparent = data_by_id[parent].parent;
            if grandparent == parent {
                return parent;
            }
            parent = Self::find_with_path_compression(data_by_id, grandparent);
        }
        parent''')],
 'repeated queries of the deepest elements after balanced unions',
 'a repeated query walks the whole path every time, so its cost grows with the number of elements',
 '''
use advanced_collections::disjoint_set::DisjointSet;
use std::hash::{BuildHasherDefault, Hasher};
use std::time::{Duration, Instant};
#[derive(Default, Clone)] struct H(u64);
impl Hasher for H { fn finish(&self) -> u64 { self.0 } fn write(&mut self, _: &[u8]) { unreachable!() }
  fn write_u32(&mut self, x: u32) { self.0 = (x as u64).wrapping_mul(0x9E3779B97F4A7C15); } }
fn time(levels: u32) -> Duration {
    let n = 1u32 << levels;
    let mut d: DisjointSet<u32, BuildHasherDefault<H>> = DisjointSet::new();
    let mut step = 1;
    while step < n {
        let mut i = 0;
        while i < n { d.union(i, i + step); i += 2 * step; }
        step *= 2;
    }
    let mut best = Duration::from_secs(9);
    for _ in 0..30 {
        let t = Instant::now();
        for _ in 0..20000 { std::hint::black_box(d.in_union(&(n - 1), &(n - 1))); }
        best = best.min(t.elapsed());
    }
    best
}
fn main() {
    let (a, b) = (time(2), time(20));
    println!("{:?} {:?}", a, b);
    if b > a * 4 { std::process::exit(1); }
}
''', cmd='cargo run --offline -q --release')

bug('d05-capacity', 'D05', [('dsu', '''            ids: HashMap::with_capacity_and_hasher(capacity, hash_builder),
            data_by_id: Vec::with_capacity(capacity)''', '''            ids: HashMap::with_capacity_and_hasher(capacity, hash_builder),
            data_by_id: Vec::with_capacity(capacity / 2)''')],
 'a disjoint set made with a capacity and a hasher, filled to more than half of it',
 'it reallocates before the promised capacity is reached',
 ALLOC + '''
use advanced_collections::disjoint_set::DisjointSet;
use std::collections::hash_map::RandomState;
fn main() {
    for n in 1..40u32 {
        let mut d: DisjointSet<u32, RandomState> = DisjointSet::with_capacity_and_hasher(n as usize, RandomState::new());
        assert_eq!(allocs(|| for i in 0..n { d.make_set(i) }), 0, "{}", n);
    }
}
''')

bug('d06-push-first', 'D06', [('dsu', '''        let next_id = self.ids.len();
        //insert but do not override existing one
        match self.ids.entry(val) {
            Entry::Vacant(entry) => {
                entry.insert(next_id);
                //make element its own parent
                self.data_by_id.push(Data::new(next_id));
                next_id
            },
            Entry::Occupied(entry) => *entry.get()
        }''', '''        let next_id = self.data_by_id.len();
        //make element its own parent
        self.data_by_id.push(Data::new(next_id));
        //insert but do not override existing one
        match self.ids.entry(val) {
            Entry::Vacant(entry) => *entry.insert(self.data_by_id.len() - 1),
            Entry::Occupied(entry) => {
                let id = *entry.get();
                self.data_by_id.truncate(self.ids.len());
                id
            }
        }''')],
 'hashing an element panics, later an existing element is added again',
 'live entries of later elements are cut off, so their queries panic',
 '''
use advanced_collections::disjoint_set::DisjointSet;
use std::hash::{Hash, Hasher};
#[derive(PartialEq, Eq, Clone)] struct K(u32);
impl Hash for K { fn hash<H: Hasher>(&self, h: &mut H) { if self.0 == 666 { panic!("hash") } self.0.hash(h) } }
fn main() {
    std::panic::set_hook(Box::new(|_| ()));
    let mut d: DisjointSet<K> = DisjointSet::new();
    d.make_set(K(1));
    let _ = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| d.make_set(K(666))));
    d.make_set(K(2));
    d.make_set(K(1));
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| d.in_union(&K(2), &K(2)) && !d.in_union(&K(1), &K(2))));
    if !matches!(r, Ok(true)) { std::process::exit(1); }
}
''')

# ------------------------------------------------------------------ interval
bug('i04-inplace-open', 'I04', [('int', '''        if s.up > o.up {
            swap(&mut s.up, &mut o.up)
        }

    }''', '''        if s.up.val() > o.up.val() {
            swap(&mut s.up, &mut o.up)
        }

    }''')],
 'in-place intersection of two intervals with the same upper value, closed in the target and open in the argument',
 'the result includes the upper value, which is not common to both',
 '''
use advanced_collections::interval::Interval;
fn main() {
    let mut a = Interval::closed(1, 5);
    a.intersection(Interval::lower_closed(2, 5));
    assert_eq!(a, Interval::lower_closed(2, 5));
}
''')

bug('i05-merge-subset', 'I05', [('int', '''        if o.lo <s.lo {
            swap(&mut o.lo, &mut s.lo)
        }
        if o.up > s.up {''', '''        if o.lo <s.lo {
            swap(&mut o.lo, &mut s.lo)
        }
        if o.up.val() > s.up.val() {''')],
 'in-place merge of two intervals with the same upper value, open in the target and closed in the argument',
 'the upper value is missing from the merged interval',
 '''
use advanced_collections::interval::Interval;
fn main() {
    let mut a = Interval::open(1, 5);
    assert_eq!(a.merge(Interval::closed(2, 5)), Ok(()));
    assert_eq!(a, Interval::upper_closed(1, 5));
}
''')

bug('i05-merge-err', 'I05', [('int', '''        if ! self.can_be_merged(&other){
            return Err((self, other));
        }''', '''        if ! self.can_be_merged(&other){
            //hand the intervals back in order
            return if self > other { Err((other, self)) } else { Err((self, other)) };
        }''')],
 'a failing consuming merge whose first operand lies above the second',
 'the two originals come back exchanged',
 '''
use advanced_collections::interval::Interval;
fn main() {
    let (a, b) = (Interval::open(1, 2), Interval::open(5, 6));
    assert_eq!(b.into_merged(a), Err((b, a)));
    assert_eq!(a.into_merged(b), Err((a, b)));
}
''')

bug('i07-le-equal', 'I07', [('icmp', '''                None => false,
                Some(o) => s <= o
            }''', '''                None => false,
                Some(o) => s <= o || self == other
            }''')],
 'comparing an interval of more than one point with an equal one by <=',
 '<= holds although points of the left lie above points of the right',
 '''
use advanced_collections::interval::Interval;
fn main() {
    assert!(!(Interval::open(1, 5) <= Interval::open(1, 5)));
    assert!(Interval::single(1) <= Interval::single(1));
}
''')

bug('i11-single', 'I11', [('int', '''                write!(f, "{}{},{}{}", l, a.lo.val(), a.up.val(), r)''', '''                if a.lo.val() == a.up.val() {
                    return write!(f, "{}{}{}", l, a.lo.val(), r);
                }
                write!(f, "{}{},{}{}", l, a.lo.val(), a.up.val(), r)''')],
 'displaying a single-valued interval',
 'the upper value and the comma are missing',
 '''
use advanced_collections::interval::Interval;
fn main() {
    assert_eq!(format!("{}", Interval::single(3)), "[3,3]");
    assert_eq!(format!("{}", Interval::open(3, 4)), "(3,4)");
}
''')

bug('i12-cmp', 'I12', [('bnd', '''impl<T> Ord for UpperBound<T> where T: Ord {
    fn cmp(&self, other: &Self) -> Ordering {
        match self.val().cmp(&other.val()) {
            Greater => Greater,
            Less => Less,
            Equal => {
                if self.is_closed() == other.is_closed() {
                    Equal
                } else {
                    if self.is_closed() {
                        Greater
                    } else {
                        Less
                    }
                }
            }
        }
    }
}''', '''impl<T> Ord for UpperBound<T> where T: Ord {
    fn cmp(&self, other: &Self) -> Ordering {
        self.val().cmp(other.val()).then(other.is_closed().cmp(&self.is_closed()))
    }
}''')],
 'max, min, sorting or cmp of two upper bounds with the same value and different kinds',
 'cmp contradicts < and >',
 '''
use advanced_collections::interval::UpperBound;
fn main() {
    let (o, c) = (UpperBound::new(3, false), UpperBound::new(3, true));
    assert!(o < c);
    assert_eq!(o.cmp(&c), std::cmp::Ordering::Less);
    assert_eq!(c.max(o), c);
}
''')

# ------------------------------------------------------------------ threads
bug('x01-static-path', 'X01', [('dsu', '''        let mut parent = data_by_id[id].parent;
        if parent != id{
            parent = Self::find_with_path_compression(data_by_id, parent);
            data_by_id[id].parent = parent;
        }
        parent''', '''        //the path is kept in one place so that it does not have to be allocated every time
        static mut PATH: Vec<usize> = Vec::new();
        let path = unsafe{&mut *::std::ptr::addr_of_mut!(PATH)};
        let mut root = id;
        while data_by_id[root].parent != root {
            path.push(root);
            root = data_by_id[root].parent;
        }
        for elem in path.drain(..) {
            if elem < data_by_id.len() {
                data_by_id[elem].parent = root;
            }
        }
        root''')],
 'disjoint sets used on several threads at the same time',
 'separate instances share a scratch vector without synchronization: data race, wrong answers or a crash',
 '''
use advanced_collections::disjoint_set::DisjointSet;
fn main() {
    let ts: Vec<_> = (0..8u32).map(|t| std::thread::spawn(move || {
        for round in 0..400u32 {
            let mut d: DisjointSet<u32> = DisjointSet::new();
            let n = 256;
            for half in 0..2u32 {
                let mut step = 1;
                while step < n {
                    let mut i = 0;
                    while i < n { d.union(half * 1000 + i, half * 1000 + i + step); i += 2 * step; }
                    step *= 2;
                }
            }
            for i in 0..n {
                assert!(d.in_union(&i, &0) && d.in_union(&(1000 + i), &1000) && !d.in_union(&i, &(1000 + i)), "thread {} round {}", t, round);
            }
        }
    })).collect();
    let mut bad = 0;
    for t in ts { if t.join().is_err() { bad = 1; } }
    std::process::exit(bad);
}
''')

bug('x01-cell-cache', 'X01', [('dsu', '''    ids: HashMap<T, usize, S>,
    data_by_id: Vec<Data>
}
''', '''    ids: HashMap<T, usize, S>,
    data_by_id: Vec<Data>,
    //number of lookups, for statistics
    lookups: ::std::cell::Cell<usize>
}
'''), ('dsu', '''            ids: HashMap::with_capacity_and_hasher(capacity, Default::default()),
            data_by_id: Vec::with_capacity(capacity)''', '''            ids: HashMap::with_capacity_and_hasher(capacity, Default::default()),
            data_by_id: Vec::with_capacity(capacity),
            lookups: Default::default()'''), ('dsu', '''            ids: HashMap::with_capacity_and_hasher(capacity, hash_builder),
            data_by_id: Vec::with_capacity(capacity)''', '''            ids: HashMap::with_capacity_and_hasher(capacity, hash_builder),
            data_by_id: Vec::with_capacity(capacity),
            lookups: Default::default()'''), ('dsu', '''            data_by_id: Vec::new()
''', '''            data_by_id: Vec::new(),
            lookups: Default::default()
'''), ('dsu', '''            data_by_id: Vec::default()
''', '''            data_by_id: Vec::default(),
            lookups: Default::default()
'''), ('dsu', '''        self.ids.contains_key(val)
''', '''        self.lookups.set(self.lookups.get() + 1);
        self.ids.contains_key(val)
''')],
 'sharing a disjoint set between threads',
 'the type is no longer Sync, so programs that share it for reading do not compile',
 '''
use advanced_collections::disjoint_set::DisjointSet;
fn sync<T: Sync + Send>(_: &T) {}
fn main() {
    let d: DisjointSet<u32> = DisjointSet::new();
    sync(&d);
}
''')

bug('x01-static-scratch', 'X01', [('cnt', '''        let mut res: Vec<(T, usize)> = self.counter
            .iter()
            .map(|(key, &val)| ((*key).clone(), val))
            .collect();''', '''        //remember the largest listing so far, to size the next one
        static mut LARGEST: usize = 0;
        let mut res: Vec<(T, usize)> = Vec::with_capacity(unsafe{LARGEST}.min(1024));
        res.extend(self.counter
            .iter()
            .map(|(key, &val)| ((*key).clone(), val)));
        unsafe{
            if res.len() > LARGEST {
                LARGEST = res.len();
            }
        }''')],
 'the most-common listing is made on two threads at the same time',
 'a data race on a static',
 '''
use advanced_collections::counter::Counter;
fn main() {
    let ts: Vec<_> = (0..3u32).map(|t| std::thread::spawn(move || {
        let mut c: Counter<u32> = Counter::new();
        for i in 0..4 + t { c.push(i); }
        assert_eq!(c.most_common().len(), 4 + t as usize);
    })).collect();
    for t in ts { t.join().unwrap(); }
}
''', cmd='cargo +nightly miri run --offline -q')

# ------------------------------------------------------------------ second batch
bug('b02-zero-cap-forget', 'B02', [('buf', """    pub fn push_front(&mut self, val: T) {
        if self.is_full(){
            if self.capacity() == 0 {
                return;""", """    pub fn push_front(&mut self, val: T) {
        let val = ::std::mem::ManuallyDrop::new(val);
        if self.is_full(){
            if self.capacity() == 0 {
                return;"""), ('buf', """        self.decr_start();
        self.push_at(val, self.start);""", """        self.decr_start();
        self.push_at(::std::mem::ManuallyDrop::into_inner(val), self.start);""")],
 'pushing at the front of a buffer of capacity zero',
 'the discarded element is never dropped',
 """
use advanced_collections::circular_buffer::CircularBuffer;
use std::rc::Rc;
fn main() {
    let r = Rc::new(());
    let mut b: CircularBuffer<Rc<()>> = CircularBuffer::new(0);
    b.push_front(r.clone());
    b.push_back(r.clone());
    assert_eq!(Rc::strong_count(&r), 1);
}
""")

bug('i01-from-bounds', 'I01', [('int', """        let (l, lc) = lo.into_tuple();
        let (u, uc) = up.into_tuple();
        Self::create_checked(l, lc, u, uc)
    }""", """        if lo.val() > up.val() {
            panic!("Lower bound of an interval needs to be less than the upper one.");
        }
        let mut result = Self {imp: Some(NonEmptyInterval {lo, up})};
        result.fix_after_modification();
        result
    }""")],
 'from_bounds with equal values of which at least one end is open',
 'an empty interval is returned instead of a panic',
 """
use advanced_collections::interval::{Interval, LowerBound, UpperBound};
fn main() {
    std::panic::set_hook(Box::new(|_| ()));
    for (a, b) in [(false, false), (true, false), (false, true)] {
        let r = std::panic::catch_unwind(|| Interval::from_bounds(LowerBound::new(3, a), UpperBound::new(3, b)));
        if r.is_ok() { std::process::exit(1); }
    }
}
""")

bug('i06-into-span', 'I06', [('int', """        Self::from_bounds(l1.min(l2), u1.max(u2))
    }

    /**
    Extends an interval to span it and another one.""", """        let up = if u1.val() > u2.val() {u1} else {u2};
        Self::from_bounds(l1.min(l2), up)
    }

    /**
    Extends an interval to span it and another one.""")],
 'consuming span of two intervals with the same upper value, closed in the first and open in the second',
 'the upper end becomes open although one operand includes it',
 """
use advanced_collections::interval::Interval;
fn main() {
    assert_eq!(Interval::closed(1, 5).into_span(Interval::open(2, 5)), Interval::closed(1, 5));
    assert_eq!(Interval::open(2, 5).into_span(Interval::closed(1, 5)), Interval::closed(1, 5));
}
""")

bug('i08-partial-cmp', 'I08', [('icmp', """        if self < val {
            return Some(Less);
        }
        if self > val {
            return Some(Greater);
        }

        if self == val {
            return Some(Equal);
        }
        None
    }

    fn lt(&self, val: &T) -> bool {""", """        match (self <= val, self >= val) {
            (true, true) => Some(Equal),
            (true, false) => Some(Less),
            (false, true) => Some(Greater),
            (false, false) => None
        }
    }

    fn lt(&self, val: &T) -> bool {""")],
 'three-way comparison of an interval with one of its own closed end values',
 '[1,3] is Less than 3 although it contains 3',
 """
use advanced_collections::interval::Interval;
fn main() {
    assert_eq!(Interval::closed(1, 3).partial_cmp(&3), None);
    assert_eq!(Interval::closed(3, 5).partial_cmp(&3), None);
    assert_eq!(Interval::open(1, 3).partial_cmp(&3), Some(std::cmp::Ordering::Less));
    assert_eq!(Interval::single(3).partial_cmp(&3), Some(std::cmp::Ordering::Equal));
}
""")

SAT = """
use std::ops::*;
#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)] struct Sat(u8);
impl Sub for Sat { type Output = Sat; fn sub(self, o: Sat) -> Sat { Sat(self.0.saturating_sub(o.0)) } }
impl SubAssign for Sat { fn sub_assign(&mut self, o: Sat) { *self = *self - o } }
impl Add for Sat { type Output = Sat; fn add(self, o: Sat) -> Sat { Sat(self.0.saturating_add(o.0)) } }
impl AddAssign for Sat { fn add_assign(&mut self, o: Sat) { *self = *self + o } }
"""
bug('i10-sub-assign', 'I10', [('imath', """            a.up = a.up - rhs.clone();
            a.lo = a.lo - rhs;
            let mut result = Self {imp: Some(a)};
            result.fix_after_modification();
            result""", """            //subtracting keeps the order of the bounds
            a.up = a.up - rhs.clone();
            a.lo = a.lo - rhs;
            Self {imp: Some(a)}""")],
 'subtracting from an interval of a saturating (or rounding) number type so that its bounds coincide',
 'an interval with equal open bounds exists: not empty, but without points',
SAT + """
use advanced_collections::interval::Interval;
fn main() {
    let mut a = Interval::open(Sat(3), Sat(5));
    a = a - Sat(200);
    assert!(a.is_empty());
    assert_eq!(a, Interval::empty());
}
""")

bug('i12-lower-partial', 'I12', [('bnd', """            Less => Some(Less),
            Equal => if self.is_closed() {
                Some(Equal)
            } else {
                Some(Greater)
            }""", """            Less => Some(Less),
            Equal => Some(Equal)""")],
 'three-way comparison of an open lower bound with its own value',
 'it says Equal while == says no and > says yes',
 """
use advanced_collections::interval::LowerBound;
fn main() {
    assert_eq!(LowerBound::new(3, false).partial_cmp(&3), Some(std::cmp::Ordering::Greater));
    assert_eq!(LowerBound::new(3, true).partial_cmp(&3), Some(std::cmp::Ordering::Equal));
}
""")

bug('i13-lower-separated', 'I13', [('bnd', """        are_separated(self, other)
""", """        //no point can be below this bound and above the other one
        self.val() > other.val() || !self.is_closed() && !other.is_closed() && self <= other
""")],
 'asking an open lower bound whether it is separated from an open upper bound of greater value',
 'it says yes although they overlap, contrary to the answer from the other side',
 """
use advanced_collections::interval::{LowerBound, UpperBound};
fn main() {
    for a in 0..4 { for b in 0..4 { for k in 0..4 {
        let (l, u) = (LowerBound::new(a, k & 1 == 0), UpperBound::new(b, k & 2 == 0));
        assert_eq!(l.is_separated_from(&u), u.is_separated_from(&l));
    }}}
}
""")

bug('i14-kind-lost', 'I14', [('bnd', """impl<T, U> SubAssign<U> for UpperBound<T> where T: Ord + SubAssign<U> {
    fn sub_assign(&mut self, rhs: U) {
        self.bound -= rhs;
    }""", """impl<T, U> SubAssign<U> for UpperBound<T> where T: Ord + SubAssign<U> {
    fn sub_assign(&mut self, rhs: U) {
        self.bound -= rhs;
        self.bound.is_closed = false;
    }""")],
 'subtracting in place from a closed upper bound', 'the bound becomes open',
 """
use advanced_collections::interval::UpperBound;
fn main() {
    for c in [false, true] {
        let mut u = UpperBound::new(3, c);
        u -= 1;
        assert_eq!(u, UpperBound::new(2, c));
    }
}
""")
bug('i14-mul-upper-kind', 'I14', [('bnd', """impl<T, U> MulAssign<U> for UpperBound<T> where T: Ord + MulAssign<U> {
    fn mul_assign(&mut self, rhs: U) {
        self.bound *= rhs;
    }""", """impl<T, U> MulAssign<U> for UpperBound<T> where T: Ord + MulAssign<U> {
    fn mul_assign(&mut self, rhs: U) {
        self.bound *= rhs;
        self.bound.is_closed = !self.bound.is_closed && self.bound.is_closed;
    }""")],
 'multiplying in place a closed upper bound', 'the bound becomes open',
 """
use advanced_collections::interval::UpperBound;
fn main() {
    for c in [false, true] {
        let mut u = UpperBound::new(4, c);
        u *= 2;
        assert_eq!(u, UpperBound::new(8, c));
    }
}
""")

bug('i03-single', 'I03', [('int', """        l <= ol && u >= ou
""", """        if other.is_single() {
            return l.val() <= ol.val() && ol.val() <= u.val();
        }
        l <= ol && u >= ou
""")],
 'containment of a single value that equals an open end', 'a point outside is reported as covered',
 """
use advanced_collections::interval::Interval;
fn main() {
    assert!(!Interval::open(1, 5).contains_interval(&Interval::single(5)));
    assert!(!Interval::open(1, 5).contains_interval(&Interval::single(1)));
    assert!(Interval::closed(1, 5).contains_interval(&Interval::single(1)));
}
""")
bug('i10-half-open', 'I10', [('int', """            if a.lo.val() == a.up.val() && (!a.lo.is_closed() || !a.up.is_closed()){""",
 """            if a.lo.val() == a.up.val() && !a.lo.is_closed() && !a.up.is_closed() {""")],
 'dividing a half-open interval so that rounding makes its bounds coincide',
 'a half-open interval with equal bounds exists: not empty, but without points',
 """
use advanced_collections::interval::Interval;
fn main() {
    assert!((Interval::upper_closed(2, 3) / 2).is_empty());
    assert!((Interval::lower_closed(2, 3) / 2).is_empty());
}
""")
bug('i09-sub-reuse', 'I09', [('imath', """            a.up = a.up - rhs.clone();
            a.lo = a.lo - rhs;""", """            if a.up.is_closed() && !a.lo.is_closed() {
                let (up, _) = a.up.into_tuple();
                let (lo, _) = a.lo.into_tuple();
                return Self::create_checked(lo - rhs.clone(), false, up - rhs, true);
            }
            a.up = a.up - rhs.clone();
            a.lo = a.lo - rhs;""")],
 'subtracting from an upper-closed interval of a saturating number type so that its bounds coincide',
 'it panics instead of giving the empty interval', SAT + """
use advanced_collections::interval::Interval;
fn main() {
    let a = Interval::upper_closed(Sat(3), Sat(5));
    assert!((a - Sat(200)).is_empty());
}
""")

# ------------------------------------------------------------------ third series
bug('b02-one-slot', 'B02', [('buf', '''                self.pop_front();
            }
        }
        self.push_at(val, self.end);''', '''                if self.capacity() == 1 {
                    //the only element is replaced where it is
                    let at = self.start;
                    return self.push_at(val, at);
                }
                self.pop_front();
            }
        }
        self.push_at(val, self.end);''')],
 'pushing at the back of a full buffer of capacity 1, with elements that own something',
 'the replaced element is never dropped',
 '''
use advanced_collections::circular_buffer::CircularBuffer;
use std::rc::Rc;
fn main() {
    let x = Rc::new(5);
    let mut b = CircularBuffer::new(1);
    b.push_back(x.clone());
    b.push_back(Rc::new(6));
    assert_eq!(*b[0], 6);
    assert_eq!(Rc::strong_count(&x), 1);
}
''')

bug('b11-drain-linearize', 'B11', [('bit', '''        Drain{
            buf
        }''', '''        //popping from one piece needs no wrapping around
        buf.linearize();
        Drain{
            buf
        }''')],
 'draining a few elements from a buffer of large capacity whose content does not begin at its first slot',
 'the work depends on the capacity, not on the number of drained elements',
 '''
use advanced_collections::circular_buffer::CircularBuffer;
use std::time::{Duration, Instant};
fn time(cap: usize) -> Duration {
    let mut best = Duration::from_secs(999);
    for _ in 0..3 {
        let mut b: CircularBuffer<u64> = CircularBuffer::new(cap);
        let t = Instant::now();
        for i in 0..300u64 { b.push_back(i); assert_eq!(b.drain().next(), Some(i)); assert!(b.is_empty()) }
        best = best.min(t.elapsed());
    }
    best
}
fn main() {
    let (a, b) = (time(64), time(1_000_000));
    println!("{:?} {:?}", a, b);
    if b > a * 100 { std::process::exit(1); }
}
''', cmd='cargo run --offline -q --release')

bug('c07-sub-retain', 'C07', [('cnt', '''        for (key, val) in rhs.into_iter() {
            match self.counter.entry(key.clone()) {
                Entry::Occupied(mut entry) => {
                    if entry.get() <= &val {
                        entry.remove();
                    } else {''', '''        for (key, val) in rhs.into_iter() {
            if self.counter.get(key).map_or(false, |mine| mine <= val) {
                //nothing is left of this element
                self.counter.retain(|mine, _| mine != key);
                continue;
            }
            match self.counter.entry(key.clone()) {
                Entry::Occupied(mut entry) => {
                    if entry.get() <= &val {
                        entry.remove();
                    } else {''')],
 'subtracting, by reference, many elements completely from a large counter',
 'every removed element costs a walk over the whole counter',
 '''
use advanced_collections::counter::Counter;
use std::time::{Duration, Instant};
fn time(n: u64) -> Duration {
    let mut best = Duration::from_secs(999);
    for _ in 0..3 {
        let mut a: Counter<u64> = (0..n).collect();
        let b: Counter<u64> = (0..n).collect();
        let t = Instant::now();
        a -= &b;
        best = best.min(t.elapsed());
        assert!(a.is_empty());
    }
    best
}
fn main() {
    let (a, b) = (time(200), time(20_000));
    println!("{:?} {:?}", a, b);
    if b > a * 100 * 8 { std::process::exit(1); }
}
''', cmd='cargo run --offline -q --release')

bug('c07-insertion-listing', 'C07', [('cnt', '''        let mut res: Vec<(T, usize)> = self.counter
            .iter()
            .map(|(key, &val)| ((*key).clone(), val))
            .collect();
        res.sort_unstable_by_key(|&(ref _key, val)| ::std::usize::MAX - val);
        res''', '''        let mut res: Vec<(T, usize)> = Vec::with_capacity(self.counter.len());
        for (key, &val) in self.counter.iter() {
            //the most common elements are usually few: find the place from the end
            let mut at = res.len();
            while at > 0 && res[at - 1].1 < val {
                at -= 1;
            }
            res.insert(at, ((*key).clone(), val));
        }
        res''')],
 'the borrowed listing of a large counter with many different counts',
 'listing takes quadratic work',
 '''
use advanced_collections::counter::Counter;
use std::collections::HashMap;
use std::time::{Duration, Instant};
fn time(n: usize) -> Duration {
    let m: HashMap<usize, usize> = (0..n).map(|i| (i, i * 7919 % n)).collect();
    let c = Counter::from_hashmap(m);
    let mut best = Duration::from_secs(999);
    for _ in 0..3 {
        let t = Instant::now();
        let l = c.most_common();
        best = best.min(t.elapsed());
        assert!(l.windows(2).all(|w| w[0].1 >= w[1].1));
    }
    best
}
fn main() {
    let (a, b) = (time(200), time(20_000));
    println!("{:?} {:?}", a, b);
    if b > a * 100 * 12 { std::process::exit(1); }
}
''', cmd='cargo run --offline -q --release')

HELD = '''
use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicIsize, Ordering};
static N: AtomicIsize = AtomicIsize::new(0);
struct A;
unsafe impl GlobalAlloc for A {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 { N.fetch_add(l.size() as isize, Ordering::Relaxed); System.alloc(l) }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) { N.fetch_sub(l.size() as isize, Ordering::Relaxed); System.dealloc(p, l) }
}
#[global_allocator] static G: A = A;
fn held() -> isize { N.load(Ordering::Relaxed) }
'''
bug('x02-shrink-forget', 'X02', [('buf', '''        self.buffer = new_buf.into_boxed_slice();
        self.start = 0;
        self.end = elem_num;''', '''        let old = replace(&mut self.buffer, new_buf.into_boxed_slice());
        if to_be_skipped > 0 {
            //all its elements were moved out or dropped
            ::std::mem::forget(old);
        }
        self.start = 0;
        self.end = elem_num;''')],
 'resizing a buffer to less than its number of elements',
 'the old storage is never given back',
 HELD + '''
use advanced_collections::circular_buffer::CircularBuffer;
fn main() {
    let before = held();
    for (to, n) in [(10usize, 5u64), (2, 5), (5, 5), (0, 3)] {
        let mut b = CircularBuffer::new(5);
        for i in 0..n { b.push_back(i) }
        b.resize(to);
        drop(b);
        assert_eq!(held(), before, "after resizing to {to}");
    }
}
''')

bug('x02-add-capacity', 'X02', [('cnt', '''        for (ref key, &val) in rhs.iter() {
            *self.counter.entry((*key).clone()).or_insert(0) += val;''', '''        //no rehashing while adding
        self.counter.reserve(rhs.capacity());
        for (ref key, &val) in rhs.iter() {
            *self.counter.entry((*key).clone()).or_insert(0) += val;''')],
 'two counters repeatedly added to each other by reference',
 'each addition hands over the spare capacity, so both grow without bound although they hold a few elements',
 HELD + '''
use advanced_collections::counter::Counter;
fn main() {
    let mut a: Counter<u64> = (0..10).collect();
    let mut b: Counter<u64> = (5..15).collect();
    for _ in 0..20 {
        a += &b; a -= &b;
        b += &a; b -= &a;
        b.extend(5..15);
    }
    println!("{} {}", a.capacity(), held());
    assert!(a.len() <= 15 && b.len() <= 15);
    assert!(held() < 20_000);
}
''')

bug('i15-span-swap', 'I15', [('int', '''        if o.lo < s.lo {
            swap(&mut o.lo, &mut s.lo);
        }''', '''        swap(&mut o.lo, &mut s.lo);
        if o.lo < s.lo {
            //it was the lower one already
            swap(&mut o.lo, &mut s.lo);
        }''')],
 'a comparison that panics while an interval is extended in place to span a later one',
 'the interval is left with its lower bound above its upper',
 '''
use advanced_collections::interval::Interval;
use std::cell::Cell;
use std::cmp::Ordering;
thread_local!(static LEFT: Cell<i64> = Cell::new(i64::MAX));
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
struct V(i32);
impl Ord for V { fn cmp(&self, o: &V) -> Ordering { LEFT.with(|l| { l.set(l.get() - 1); if l.get() == 0 { panic!("comparison") } }); self.0.cmp(&o.0) } }
impl PartialOrd for V { fn partial_cmp(&self, o: &V) -> Option<Ordering> { Some(self.cmp(o)) } }
fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    for k in 1..20 {
        let mut a = Interval::open(V(0), V(2));
        let b = Interval::open(V(5), V(7));
        LEFT.with(|l| l.set(k));
        let _ = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| a.span(b)));
        LEFT.with(|l| l.set(i64::MAX));
        if let Some((l, _, u, _)) = a.into_tuple() { if l.0 >= u.0 { println!("{l:?} {u:?} after panic at {k}"); std::process::exit(1) } }
    }
}
''')

bug('b06-reverse-u16', 'B06', [('buf', '''        for a in 0..self.len()/2 {
            let b = self.len() - a - 1;''', '''        let pairs = (self.len()/2) as u16;
        for a in 0..pairs {
            let a = a as usize;
            let b = self.len() - a - 1;''')],
 'reversing more than 131071 elements',
 'only some of the elements change places',
 '''
use advanced_collections::circular_buffer::CircularBuffer;
fn main() {
    for n in [10u32, 1000, 131_071, 131_072, 200_001] {
        let mut b: CircularBuffer<u32> = (0..n).collect();
        b.reverse();
        assert!(b.iter().cloned().eq((0..n).rev()), "{n}");
    }
}
''')

bug('b05-from-ref-hint', 'B05', [('buf', '''        let mut buf = Vec::from_iter(iter.into_iter().map(|x| MaybeUninit::new(x.clone())));
        buf.push(MaybeUninit::uninit());
        buf.shrink_to_fit();
        let end = buf.len() -1;
        Self {
            buffer: buf.into_boxed_slice(),
            start: 0,
            end
        }''', '''        let mut iter = iter.into_iter();
        let (lower, upper) = iter.size_hint();
        if let Some(upper) = upper {
            //the size is known: no intermediate vector is needed
            let mut result = Self::with_capacity(upper);
            result.extend(iter);
            return result;
        }
        let mut result = Self::with_capacity(lower);
        while let Some(x) = iter.next() {
            if result.is_full() {
                let more = result.capacity() + 1;
                result.resize(more);
            }
            result.push_back(x.clone());
        }
        result''')],
 'building a buffer by reference from an iterator that cannot tell its exact size, such as a filter',
 'the capacity is that of the largest possible, not of the actual, number of elements',
 '''
use advanced_collections::circular_buffer::CircularBuffer;
fn main() {
    let v = vec![1, 2, 3, 4, 5];
    let b: CircularBuffer<i32> = v.iter().filter(|x| **x % 2 == 1).collect();
    assert_eq!(b, [1, 3, 5].as_ref());
    assert_eq!(b.capacity(), 3);
}
''')

bug('b05-append-swap', 'B05', [('buf', '''        self.extend(other.drain())
''', '''        if self.is_empty() && other.len() == self.capacity() {
            //everything is replaced: take over the storage
            ::std::mem::swap(self, other);
            return;
        }
        self.extend(other.drain())
''')],
 'appending to an empty buffer exactly as many elements as it can hold, from a buffer of greater capacity',
 'the two buffers exchange their capacities',
 '''
use advanced_collections::circular_buffer::CircularBuffer;
fn main() {
    let mut a: CircularBuffer<i32> = CircularBuffer::new(2);
    let mut b: CircularBuffer<i32> = CircularBuffer::new(5);
    b.push_back(1);
    b.push_back(2);
    a.append(&mut b);
    assert_eq!(a, [1, 2].as_ref());
    assert!(b.is_empty());
    assert_eq!((a.capacity(), b.capacity()), (2, 5));
}
''')

bug('b03-extend-upper', 'B03', [('buf', '''    fn extend<I: IntoIterator<Item=T>>(&mut self, iter: I) {

        for el in iter{''', '''    fn extend<I: IntoIterator<Item=T>>(&mut self, iter: I) {
        let iter = iter.into_iter();
        if let Some(most) = iter.size_hint().1 {
            if self.start <= self.end && most < self.buffer.len() - self.end {
                //there is room for all of them without wrapping around
                for el in iter {
                    unsafe {self.buffer.as_mut_ptr().add(self.end).write(MaybeUninit::new(el))};
                    self.end += 1;
                }
                return;
            }
        }
        for el in iter{''')],
 'extending from an iterator (safe code) whose upper size hint is too low',
 'elements are written past the end of the storage',
 '''
use advanced_collections::circular_buffer::CircularBuffer;
struct Low(u32);
impl Iterator for Low {
    type Item = u32;
    fn next(&mut self) -> Option<u32> { if self.0 == 0 { None } else { self.0 -= 1; Some(self.0) } }
    fn size_hint(&self) -> (usize, Option<usize>) { (0, Some(1)) }
}
fn main() {
    let mut b: CircularBuffer<u32> = CircularBuffer::new(4);
    b.extend(Low(9));
    assert!(b.len() <= b.capacity());
}
''')

bug('x01-unbounded-sync', 'X01', [('buf', '''impl<T> CircularBuffer<T> {
    /**
    Creates a new instance''', '''//the buffer has no interior mutability
unsafe impl<T> Sync for CircularBuffer<T> {}

impl<T> CircularBuffer<T> {
    /**
    Creates a new instance''')] ,
 'sharing between threads a buffer of elements that must not be shared, such as cells',
 'safe code can race on the elements',
 '''
use advanced_collections::circular_buffer::CircularBuffer;
use std::cell::Cell;
// compiles only if CircularBuffer<Cell<u8>> is not Sync
trait Probe<A> { fn probe() {} }
impl<T: ?Sized> Probe<()> for T {}
struct IsSync;
impl<T: ?Sized + Sync> Probe<IsSync> for T {}
fn main() { <CircularBuffer<Cell<u8>> as Probe<_>>::probe(); }
''')

bug('b07-slice-ends', 'B07', [('buf', '''    fn eq(&self, other: &[T]) -> bool {
        self.iter().eq(other.iter())''', '''    fn eq(&self, other: &[T]) -> bool {
        let (a, b) = self.slices();
        if b.is_empty() {
            return a == other;
        }
        other.starts_with(a) && other.ends_with(b)''')],
 'comparing a buffer whose content wraps around with a longer slice, or with one in which its two pieces overlap',
 'they compare equal although the contents differ',
 '''
use advanced_collections::circular_buffer::CircularBuffer;
fn main() {
    let mut b: CircularBuffer<u8> = CircularBuffer::new(3);
    for i in [9, 9, 1, 2, 3] { b.push_back(i) }
    assert!(b == *[1u8, 2, 3].as_ref());
    assert!(b != *[1u8, 2, 0, 3].as_ref());
    assert!(b != *[1u8, 2, 0, 2, 3].as_ref());
    let mut b: CircularBuffer<u8> = CircularBuffer::new(3);
    for i in [9, 9, 1, 1, 1] { b.push_back(i) }
    assert!(b != *[1u8, 1].as_ref());
}
''')

bug('d01-short-ids', 'D01', [('dsu', '''        let mut parent = data_by_id[id].parent;
        if parent != id{
            parent = Self::find_with_path_compression(data_by_id, parent);
            data_by_id[id].parent = parent;
        }
        parent''', '''        let mut parent = data_by_id[id].parent;
        if parent != id{
            let above = data_by_id[parent].parent;
            if above == parent {
                return parent;
            }
            parent = Self::find_with_path_compression(data_by_id, above as u16 as usize | above & !0xffff);
            data_by_id[id].parent = (parent & 0xffff) | (data_by_id[id].parent & !0xffff);
        }
        parent''')],
 'a chain of at least three elements among more than 65536 whose root is far from them',
 'a compressed path leads to another element',
 '''
use advanced_collections::disjoint_set::DisjointSet;
fn main() {
    let mut d: DisjointSet<u32> = (0..200_000).collect();
    // root 0 of two, root 100000 of two, joined, then joined again
    for b in [0u32, 70_000, 140_000, 199_900] {
        d.union(b, b + 1); d.union(b + 2, b + 3); d.union(b, b + 2);
    }
    d.union(140_000, 70_000);
    d.union(0, 199_900);
    d.union(140_000, 0);
    for _ in 0..2 {
        for b in [0u32, 70_000, 140_000, 199_900] { for k in 0..4 { assert!(d.in_union(&(b + k), &0), "{}", b + k) } }
        assert!(!d.in_union(&0, &5));
    }
    assert_eq!(d.into_iter().filter(|g| g.len() == 16).count(), 1);
}
''')

bug('d05-upper-reserve', 'D05', [('dsu', '''        let iter = iter.into_iter();
        let mut ds = Self::with_capacity(iter.size_hint().0);
        for val in iter {
            ds.make_set(val);''', '''        let iter = iter.into_iter();
        let (lower, upper) = iter.size_hint();
        let mut ds = Self::with_capacity(upper.unwrap_or(lower));
        for val in iter {
            ds.make_set(val);''')],
 'building from an iterator whose upper bound is far above the actual number of elements',
 'it panics with capacity overflow, or reserves memory for elements that never come',
 '''
use advanced_collections::disjoint_set::DisjointSet;
fn main() {
    let mut d: DisjointSet<u64> = (0..usize::MAX as u64).map(|x| x * 2).take_while(|x| *x < 20).collect();
    assert_eq!(d.len(), 10);
    assert!(!d.in_union(&2, &4));
}
''')

bug('d04-element-rank', 'D04', [('dsu', '''        if self.data_by_id[a_root].rank < self.data_by_id[b_root].rank {
            let tmp = a_root;''', '''        if self.data_by_id[a].rank < self.data_by_id[b].rank {
            let tmp = a_root;''')],
 'unions that name members other than the roots of their trees, such as new elements joined to the very first one',
 'the rank of the element is compared instead of that of its root: the tree degenerates into a path and a query overflows a thread stack',
 '''
use advanced_collections::disjoint_set::DisjointSet;
fn main() {
    let n = 400_000u32;
    let t = std::thread::Builder::new().stack_size(1 << 20).spawn(move || {
        let mut d: DisjointSet<u32> = DisjointSet::new();
        for i in 1..n { d.union(i, 0); }
        assert!(d.in_union(&1, &(n - 1)));
    }).unwrap();
    t.join().unwrap();
}
''', cmd='cargo run --offline -q --release')

bug('d04-self-join', 'D04', [('dsu', '''        if a_root == b_root {
            return;
        }
''', '''''')],
 'unions repeated between the same elements, each new pair more often than the last one, before the pair meets the others',
 'joining elements that are already joined raises the rank of their root, so the larger tree goes below the smaller one and a path builds up',
 '''
use advanced_collections::disjoint_set::DisjointSet;
fn main() {
    let n = 12_000u32;
    let t = std::thread::Builder::new().stack_size(64 << 10).spawn(move || {
        let mut d: DisjointSet<u32> = DisjointSet::new();
        for k in 0..n {
            for _ in 0..k + 2 { d.union(2 * k, 2 * k + 1); }
            if k > 0 { d.union(2 * k, 2 * (k - 1)); }
        }
        assert!(d.in_union(&0, &(2 * n - 1)));
    }).unwrap();
    t.join().unwrap();
}
''', cmd='cargo run --offline -q --release')

# ---------------------------------------------------------------- fourth series
bug('b07-same-object', 'B07', [('buf', '''    fn eq(&self, other: &Self) -> bool {
       self.iter().eq(other.iter())''', '''    fn eq(&self, other: &Self) -> bool {
       ::std::ptr::eq(self, other) || self.iter().eq(other.iter())''')],
 'comparing a buffer with itself when it holds an element that is not equal to itself',
 'a buffer holding a NaN is reported equal to itself although its contents are not equal element by element',
 '''
use advanced_collections::circular_buffer::CircularBuffer;
fn main() {
    let mut b = CircularBuffer::with_capacity(3);
    b.push_back(1.0f64);
    b.push_back(f64::NAN);
    let c = &b;
    assert!(!(c == &b));
    assert!(c != &b);
}
''')

bug('b08-linearize-copy', 'B08', [('buf', '''        self.buffer.rotate_left(self.start);
        self.end = self.len();
        self.start = 0;''', '''        let len = self.len();
        if self.start > self.end && self.end > 64 {
            //both parts are long: one copy is faster than rotating
            let mut moved = Vec::with_capacity(self.end);
            for i in 0..self.end {
                moved.push(replace(&mut self.buffer[i], MaybeUninit::uninit()));
            }
            self.buffer[self.end..].rotate_left(self.start - self.end);
            let head = len - self.end;
            self.buffer.rotate_left(self.end);
            for (i, x) in moved.into_iter().enumerate() {
                self.buffer[head + i] = x;
            }
        } else {
            self.buffer.rotate_left(self.start);
        }
        self.end = len;
        self.start = 0;''')],
 'linearizing a wrapped buffer with more than 64 elements behind the wrap',
 'linearize allocates a temporary vector',
 '''
use advanced_collections::circular_buffer::CircularBuffer;
use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicUsize, Ordering::SeqCst};
struct A;
static N: AtomicUsize = AtomicUsize::new(0);
unsafe impl GlobalAlloc for A {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 { N.fetch_add(1, SeqCst); System.alloc(l) }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) { System.dealloc(p, l) }
}
#[global_allocator] static G: A = A;
fn main() {
    for cap in [10usize, 200, 1000] {
        for over in [1, cap / 3, cap / 2, cap - 1] {
            let mut b = CircularBuffer::with_capacity(cap);
            for i in 0..cap + over { b.push_back(i); }
            let n = N.load(SeqCst);
            let first = b.linearize()[0];
            assert_eq!(N.load(SeqCst), n);
            assert_eq!(first, over);
            assert!(b.iter().cloned().eq(over..cap + over));
        }
    }
}
''')

bug('c05-clone-from', 'C05', [('cnt', '''#[derive(Clone, PartialEq, Eq, Debug)]
pub struct Counter''', '''#[derive(PartialEq, Eq, Debug)]
pub struct Counter'''), ('cnt', '''impl<T, S> Default for Counter<T, S>
where''', '''impl<T, S> Clone for Counter<T, S>
where
    T: Hash + Eq + Clone,
    S: BuildHasher + Clone,
{
    fn clone(&self) -> Self {
        Counter { counter: self.counter.clone() }
    }

    fn clone_from(&mut self, source: &Self) {
        //keep the memory when it suffices
        if self.counter.capacity() >= source.counter.len() && self.counter.len() <= source.counter.len() {
            for (key, &val) in source.counter.iter() {
                self.counter.insert(key.clone(), val);
            }
        } else {
            self.counter.clone_from(&source.counter);
        }
    }
}

impl<T, S> Default for Counter<T, S>
where''')],
 'clone_from into a counter that is not empty, has room and holds no more elements than the source',
 'elements that only the target had stay in the clone',
 '''
use advanced_collections::counter::Counter;
fn main() {
    let src: Counter<u32> = vec![1u32, 2, 2, 3].into_iter().collect();
    let mut t: Counter<u32> = Counter::with_capacity(16);
    t.push(2);
    t.push(9);
    t.clone_from(&src);
    assert_eq!(t.len(), 3);
    assert_eq!(t.get(&9), None);
    assert_eq!(t.get(&2), Some(&2));
}
''')

bug('d02-stale-answer', 'D02', [('dsu', '''    data_by_id: Vec<Data>
}''', '''    data_by_id: Vec<Data>,
    //the last two elements found in the same subset
    last: Option<(usize, usize)>
}'''), ('dsu', '''            ids: HashMap::with_hasher(hash_builder),
            data_by_id: Vec::new()''', '''            ids: HashMap::with_hasher(hash_builder),
            data_by_id: Vec::new(),
            last: None'''), ('dsu', '''            ids: HashMap::with_capacity_and_hasher(capacity, hash_builder),
            data_by_id: Vec::with_capacity(capacity)''', '''            ids: HashMap::with_capacity_and_hasher(capacity, hash_builder),
            data_by_id: Vec::with_capacity(capacity),
            last: None'''), ('dsu', '''            ids: HashMap::with_capacity_and_hasher(capacity, Default::default()),
            data_by_id: Vec::with_capacity(capacity)''', '''            ids: HashMap::with_capacity_and_hasher(capacity, Default::default()),
            data_by_id: Vec::with_capacity(capacity),
            last: None'''), ('dsu', '''            ids: HashMap::default(),
            data_by_id: Vec::default()''', '''            ids: HashMap::default(),
            data_by_id: Vec::default(),
            last: None'''), ('dsu', '''        Self::find_with_path_compression(&mut self.data_by_id, a) == Self::find_with_path_compression(&mut self.data_by_id, b)
    }''', '''        if self.last == Some((a, b)) {
            return true;
        }
        let found = Self::find_with_path_compression(&mut self.data_by_id, a) == Self::find_with_path_compression(&mut self.data_by_id, b);
        if found {
            self.last = Some((a, b));
        }
        found
    }''')],
 'two elements found together, then clear, then elements added in the same places and asked about before any other pair is found together',
 'after clear the structure remembers that two positions were in one subset',
 '''
use advanced_collections::disjoint_set::DisjointSet;
fn main() {
    let mut d: DisjointSet<u32> = DisjointSet::new();
    d.union(1, 2);
    assert!(d.in_union(&1, &2));
    d.clear();
    d.make_set(5);
    d.make_set(6);
    assert!(!d.in_union(&5, &6));
}
''')

bug('d05-clone-from', 'D05', [('dsu', '''#[derive(Clone, Debug)]
pub struct DisjointSet''', '''#[derive(Debug)]
pub struct DisjointSet'''), ('dsu', '''impl<T, S> Default for DisjointSet<T, S>  where''', '''impl<T, S> Clone for DisjointSet<T, S> where T: Eq + Hash + Clone, S: BuildHasher + Clone {
    fn clone(&self) -> Self {
        Self {
            ids: self.ids.clone(),
            data_by_id: self.data_by_id.clone()
        }
    }

    fn clone_from(&mut self, source: &Self) {
        self.ids.clone_from(&source.ids);
        //overwrite what is there and add the rest
        for (mine, theirs) in self.data_by_id.iter_mut().zip(source.data_by_id.iter()) {
            *mine = *theirs;
        }
        let known = self.data_by_id.len();
        if known < source.data_by_id.len() {
            self.data_by_id.extend_from_slice(&source.data_by_id[known..]);
        }
    }
}

impl<T, S> Default for DisjointSet<T, S>  where''')],
 'clone_from a smaller set into a larger one, then adding new elements',
 'positions of the old contents stay behind, so elements added later to the clone get wrong data',
 '''
use advanced_collections::disjoint_set::DisjointSet;
fn main() {
    let mut src: DisjointSet<u32> = DisjointSet::new();
    src.make_set(1);
    let mut t: DisjointSet<u32> = DisjointSet::new();
    for i in 10..14 { t.union(10, i); }
    t.clone_from(&src);
    t.make_set(2);
    t.make_set(3);
    assert!(!t.in_union(&1, &2) && !t.in_union(&2, &3) && !t.in_union(&1, &3));
}
''')

bug('i12-clamp', 'I12', [('bnd', '''impl<T> Ord for UpperBound<T> where T: Ord {''', '''impl<T> Ord for UpperBound<T> where T: Ord {
    fn clamp(self, min: Self, max: Self) -> Self {
        assert!(min <= max);
        if self.val() < min.val() {
            min
        } else if self.val() > max.val() {
            max
        } else {
            self
        }
    }
''')],
 'clamping an upper bound to a limit with the same value and the other kind',
 'clamp ignores the kinds of the bounds, so the result may lie outside the limits',
 '''
use advanced_collections::interval::UpperBound;
fn main() {
    let (o, c) = (UpperBound::new(5, false), UpperBound::new(5, true));
    assert!(o < c);
    assert_eq!(c.clamp(UpperBound::new(1, true), o), o);
    assert_eq!(o.clamp(c, UpperBound::new(9, true)), c);
}
''')

bug('x01-drain-send', 'X01', [('bit', '''impl <'a, T> Iterator for Drain<'a, T>{''', '''//a draining iterator is the only owner of the elements
unsafe impl<'a, T> Send for Drain<'a, T> {}

impl <'a, T> Iterator for Drain<'a, T>{''')],
 'sending a draining iterator over elements that must not leave their thread',
 'reference-counted elements can be dropped on another thread, a data race on the count',
 '''
use advanced_collections::circular_buffer::CircularBuffer;
use std::marker::PhantomData;
struct Probe<T: ?Sized>(PhantomData<T>);
trait No { fn is(&self) -> bool { false } }
impl<T: ?Sized> No for &Probe<T> {}
impl<T: ?Sized + Send> Probe<T> { fn is(&self) -> bool { true } }
fn drain_is_send() -> bool {
    // the type of the iterator, named through the method that makes it
    fn probe<I: Iterator>(_: I) -> Probe<I> { Probe(PhantomData) }
    let _ = probe::<std::vec::IntoIter<u8>>;
    type D<'a> = <&'a mut CircularBuffer<std::rc::Rc<u8>> as Drained<'a>>::D;
    trait Drained<'a> { type D; }
    impl<'a> Drained<'a> for &'a mut CircularBuffer<std::rc::Rc<u8>> { type D = advanced_collections::circular_buffer::Drain<'a, std::rc::Rc<u8>>; }
    (&Probe::<D<'static>>(PhantomData)).is()
}
fn main() { assert!(!drain_is_send()); }
''')

# ---------------------------------------------------------------- fifth series
bug('c01-u32-count', 'C01', [('cnt', '''        *self.counter.entry(val).or_insert(0) += 1;
    }''', '''        let count = self.counter.entry(val).or_insert(0);
        *count = (*count as u32 + 1) as usize;
    }''')],
 'pushing an element that was already counted 2^32 times or more (after additions of counters, or through the map)',
 'the count is cut to 32 bits',
 '''
use advanced_collections::counter::Counter;
fn main() {
    let mut a: Counter<u8> = Counter::new();
    a.push(1);
    for _ in 0..40 { let b = a.clone(); a += b; }
    assert_eq!(a.get(&1), Some(&(1usize << 40)));
    a.push(1);
    assert_eq!(a.get(&1), Some(&((1usize << 40) + 1)));
}
''')

bug('b03-drain-fold', 'B03', [('bit', '''        self.buf.pop_front()
    }
}

///An iterator that moves out''', '''        self.buf.pop_front()
    }

    fn for_each<F: FnMut(T)>(self, mut f: F) {
        let (a, b) = self.buf.slices();
        //the elements are read out one by one, the buffer is marked empty when all are gone
        let mut read = |s: &[T]| for x in s { f(unsafe { ::std::ptr::read(x) }) };
        read(a);
        read(b);
        self.buf.forget_all();
    }
}

///An iterator that moves out'''), ('buf', '''    fn incr_end(&mut self) {''', '''    pub (super) fn forget_all(&mut self) {
        self.end = self.start;
    }

    fn incr_end(&mut self) {''')],
 'draining by for_each with a closure that panics',
 'elements that the closure already took are still in the buffer: use after free and double drop',
 '''
use advanced_collections::circular_buffer::CircularBuffer;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicUsize, Ordering::SeqCst};
static DROPS: AtomicUsize = AtomicUsize::new(0);
struct D(#[allow(dead_code)] u32);
impl Drop for D { fn drop(&mut self) { DROPS.fetch_add(1, SeqCst); } }
fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let mut b = CircularBuffer::with_capacity(4);
    for i in 0..4 { b.push_back(D(i)); }
    let mut n = 0;
    let r = catch_unwind(AssertUnwindSafe(|| b.drain().for_each(|x| { n += 1; drop(x); if n == 3 { panic!() } })));
    assert!(r.is_err());
    drop(b);
    let n = DROPS.load(SeqCst);
    if n != 4 { eprintln!("{n} drops of 4 elements"); std::process::exit(1) }
}
''')

bug('x02-consumed-leak', 'X02', [('bit', '''pub struct IntoIter<T>{
    buf: CircularBuffer<T>
}''', '''pub struct IntoIter<T>{
    buf: ::std::mem::ManuallyDrop<CircularBuffer<T>>
}

impl<T> Drop for IntoIter<T> {
    fn drop(&mut self) {
        //nothing to do when everything has been handed out
        if !self.buf.is_empty() {
            unsafe { ::std::mem::ManuallyDrop::drop(&mut self.buf) }
        }
    }
}'''), ('bit', '''        Self{
            buf
        }
    }
}

impl <T> Iterator for IntoIter<T>{''', '''        Self{
            buf: ::std::mem::ManuallyDrop::new(buf)
        }
    }
}

impl <T> Iterator for IntoIter<T>{''')],
 'consuming a buffer by iterating to the end',
 'the storage of a completely consumed buffer is never given back',
 '''
use advanced_collections::circular_buffer::CircularBuffer;
use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicIsize, Ordering::SeqCst};
struct A;
static N: AtomicIsize = AtomicIsize::new(0);
unsafe impl GlobalAlloc for A {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 { N.fetch_add(l.size() as isize, SeqCst); System.alloc(l) }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) { N.fetch_sub(l.size() as isize, SeqCst); System.dealloc(p, l) }
}
#[global_allocator] static G: A = A;
fn main() {
    let n = N.load(SeqCst);
    let mut b = CircularBuffer::with_capacity(100);
    for i in 0..150u64 { b.push_back(i); }
    let s: u64 = b.into_iter().sum();
    assert_eq!(s, (50..150).sum());
    assert_eq!(N.load(SeqCst), n);
}
''')

bug('c05-eq-at-least', 'C05', [('cnt', '''#[derive(Clone, PartialEq, Eq, Debug)]
pub struct Counter''', '''#[derive(Clone, Eq, Debug)]
pub struct Counter'''), ('cnt', '''impl<T, S> Default for Counter<T, S>
where''', '''impl<T, S> PartialEq for Counter<T, S>
where
    T: Hash + Eq,
    S: BuildHasher + PartialEq,
{
    fn eq(&self, other: &Self) -> bool {
        //the same elements, none missing on the other side
        self.counter.len() == other.counter.len()
            && self.counter.iter().map(|(_, &val)| val as u32 as u64).sum::<u64>() == other.counter.iter().map(|(_, &val)| val as u32 as u64).sum::<u64>()
            && self.counter.iter().all(|(key, val)| other.counter.get(key).map_or(false, |other_val| other_val >= val))
    }
}

impl<T, S> Default for Counter<T, S>
where''')],
 'comparing counters of which one has counts greater by multiples of 2^32',
 'unequal counters compare equal',
 '''
use advanced_collections::counter::Counter;
use std::hash::{BuildHasher, Hasher};
#[derive(Clone, Default, PartialEq, Eq, Debug)] struct S;
struct H(u64);
impl Hasher for H { fn finish(&self) -> u64 { self.0 } fn write(&mut self, b: &[u8]) { for x in b { self.0 = self.0 * 31 + *x as u64 } } }
impl BuildHasher for S { type Hasher = H; fn build_hasher(&self) -> H { H(0) } }
fn main() {
    let mut a: Counter<u8, S> = Counter::new();
    let mut b: Counter<u8, S> = Counter::new();
    a.insert(1, 5);
    b.insert(1, 5 + (1 << 32));
    assert!(a != b && b != a);
    b.insert(1, 5);
    assert!(a == b);
}
''')

bug('d03-fold', 'D03', [('dsu', '''            map.entry(root).or_insert_with(|| Vec::new()).push(key);''', '''            let group = map.entry(root).or_insert_with(|| Vec::new());
            //groups of many elements come in any order, so the first place can be reused
            if group.len() == group.capacity() && group.len() >= 1 << 12 {
                group.reserve_exact(1 << 12);
                let last = group.len() - 1;
                group.swap(0, last);
                group.dedup_by(|a, b| ::std::ptr::eq(*a, *b) || self.data_by_id.len() == usize::from(u16::MAX));
            }
            group.push(key);''')],
 'iterating a set of exactly 65535 elements with a group of more than 4096 elements',
 'most of the group is missing from the iteration',
 '''
use advanced_collections::disjoint_set::DisjointSet;
fn main() {
    for n in [5000u32, 65534, 65535, 65536] {
        let mut d: DisjointSet<u32> = DisjointSet::new();
        for i in 1..n { d.union(0, i); }
        let t: usize = (&mut d).into_iter().map(|g| g.count()).sum();
        assert_eq!(t, n as usize);
    }
}
''', cmd='cargo run --offline -q --release')

# ---------------------------------------------------------------- sixth series
bug('b05-from-vec-capacity', 'B05', [('buf', '''    fn from(v : Vec<T>) -> Self {
        Self::from_iter(v)''', '''    fn from(v : Vec<T>) -> Self {
        if v.capacity() > 2 * v.len() && !v.is_empty() {
            //the vector was made to grow, so keep the room
            let mut result = Self::with_capacity(v.capacity());
            result.extend(v);
            return result;
        }
        Self::from_iter(v)''')],
 'converting a vector that has much more room than elements',
 'the capacity of the buffer is not the number of elements',
 '''
use advanced_collections::circular_buffer::CircularBuffer;
fn main() {
    let mut v = Vec::with_capacity(10);
    v.push(1);
    v.push(2);
    let mut b = CircularBuffer::from(v);
    assert_eq!(b.capacity(), 2);
    b.push_back(3);
    assert_eq!(b, [2, 3].as_ref());
}
''')

bug('b09-clear-batch', 'B09', [('buf', '''        while let Some(val) = self.pop_back() {
            drop(val)
        }''', '''        //long contents are dropped in batches
        while self.len() > 16 {
            let at = self.end;
            let from = if at >= 16 && (self.start >= at || self.start <= at - 16) { at - 16 } else { at };
            if from == at {
                drop(self.pop_back());
                continue;
            }
            for x in &mut self.buffer[from..at] {
                unsafe { ::std::ptr::drop_in_place(x.as_mut_ptr()) }
            }
            self.end = from;
        }
        while let Some(val) = self.pop_back() {
            drop(val)
        }''')],
 'a destructor panics while a buffer with more than 16 elements is cleared',
 'elements of the batch that were dropped already are still in the buffer and are dropped again',
 '''
use advanced_collections::circular_buffer::CircularBuffer;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicUsize, Ordering::SeqCst};
static DROPS: AtomicUsize = AtomicUsize::new(0);
struct D(u32);
impl Drop for D { fn drop(&mut self) { DROPS.fetch_add(1, SeqCst); if self.0 == 25 { self.0 = 0; panic!() } } }
fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let mut b = CircularBuffer::with_capacity(40);
    for i in 0..30 { b.push_back(D(i)); }
    assert!(catch_unwind(AssertUnwindSafe(|| b.clear())).is_err());
    let left = b.len();
    assert!(DROPS.load(SeqCst) + left <= 30, "{} dropped, {left} left", DROPS.load(SeqCst));
    drop(b);
    assert!(DROPS.load(SeqCst) <= 30);
}
''')

bug('b07-prefix', 'B07', [('buf', '''    fn cmp(&self, other: &Self) -> Ordering {
        self.iter().cmp(other.iter())''', '''    fn cmp(&self, other: &Self) -> Ordering {
        //the first difference is nearly always early
        match self.iter().take(1 << 10).cmp(other.iter().take(1 << 10)) {
            Ordering::Equal => self.len().cmp(&other.len()),
            different => different
        }''')],
 'total-order comparison of buffers that agree in their first 1024 elements and differ later',
 'buffers with different contents compare as equal',
 '''
use advanced_collections::circular_buffer::CircularBuffer;
fn main() {
    for n in [10u32, 1000, 1030, 5000] {
        let a: CircularBuffer<u32> = (0..n).collect();
        let mut b = a.clone();
        b[n as usize - 3] += 1;
        assert!(a < b && a.cmp(&b).is_lt() && b.cmp(&a).is_gt() && a != b);
    }
}
''')

bug('c06-batch', 'C06', [('cnt', '''        let iter = iter.into_iter();
        self.counter.reserve(iter.size_hint().0);
        for key in iter {
            self.push(key);
        }''', '''        let mut iter = iter.into_iter();
        self.counter.reserve(iter.size_hint().0);
        //runs of equal elements are counted before they are looked up
        let mut next = iter.next();
        while let Some(key) = next {
            let mut run = 1;
            next = iter.next();
            while run < 64 && next.as_ref() == Some(&key) {
                run += 1;
                next = iter.next();
            }
            *self.counter.entry(key).or_insert(0) += run;
        }''')],
 'the source iterator of extend panics right after an element',
 'the element taken before the panic is not counted',
 '''
use advanced_collections::counter::Counter;
use std::panic::{catch_unwind, AssertUnwindSafe};
fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let mut c: Counter<u32> = Counter::new();
    let r = catch_unwind(AssertUnwindSafe(|| c.extend((0..10u32).map(|i| if i == 5 { panic!() } else { i / 2 }))));
    assert!(r.is_err());
    assert_eq!(c.values().sum::<usize>(), 5);
}
''')

bug('c02-truncated', 'C02', [('cnt', '''            .map(|(key, &val)| ((*key).clone(), val))
            .collect();
        res.sort_unstable_by_key(|&(ref _key, val)| ::std::usize::MAX - val);''', '''            .map(|(key, &val)| ((*key).clone(), val))
            .collect();
        if res.len() > 2500 {
            //the frequent ones first, the long tail apart
            let middle = res.len() / 2;
            res.select_nth_unstable_by_key(middle, |&(ref _key, val)| ::std::usize::MAX - val);
            res[..middle].sort_unstable_by_key(|&(ref _key, val)| ::std::usize::MAX - val);
            res[middle + 1..].sort_unstable_by_key(|&(ref _key, val)| !(val as u8));
            return res;
        }
        res.sort_unstable_by_key(|&(ref _key, val)| ::std::usize::MAX - val);''')],
 'the listing of more than 2500 elements, of which the less frequent half has counts above 255',
 'the less frequent half is not in order',
 '''
use advanced_collections::counter::Counter;
fn main() {
    for n in [100u32, 3000] {
        let mut c: Counter<u32> = Counter::new();
        for i in 0..n { c.insert(i, i as usize % 700 + 1); }
        let l = c.most_common();
        assert_eq!(l.len(), n as usize);
        assert!(l.windows(2).all(|w| w[0].1 >= w[1].1));
    }
}
''')

# ------------------------------------------------------------------ seventh series
bug('b10-pop-rotate', 'B10', [('buf', '''        if self.is_empty(){
            None
        } else {
            self.decr_end();
            Some(self.pop_at(self.end))''', '''        if self.is_empty(){
            None
        } else {
            if self.end == 0 {
                //keep the content in one piece
                let len = self.len();
                let start = self.start;
                self.buffer.rotate_left(start);
                self.start = 0;
                self.end = len;
            }
            self.decr_end();
            Some(self.pop_at(self.end))''')],
 'popping the last element from a buffer whose content ends exactly with the last slot of the storage',
 'this one pop takes time proportional to the capacity',
 '''
use advanced_collections::circular_buffer::CircularBuffer;
use std::time::Instant;
fn cost(n: usize) -> f64 {
    let mut best = f64::MAX;
    for _ in 0..20 {
        let mut b: CircularBuffer<u64> = CircularBuffer::new(n);
        for i in 0..n as u64 + 1 { b.push_back(i); }
        // now the content ends with the last slot
        let t = Instant::now();
        std::hint::black_box(b.pop_back());
        best = best.min(t.elapsed().as_secs_f64());
    }
    best
}
fn main() {
    let (small, large) = (cost(10), cost(2_000_000));
    assert!(large < 100.0 * (small + 1e-6), "{small} {large}");
}
''')

bug('b11-extend-linearize', 'B11', [('buf', '''    fn extend<I: IntoIterator<Item=&'a T>>(&mut self, iter: I) {
''', '''    fn extend<I: IntoIterator<Item=&'a T>>(&mut self, iter: I) {
        if self.start > self.end {
            //one piece to write to
            self.linearize();
        }
''')],
 'extending a buffer whose content wraps around by a few elements, by reference',
 'the work is proportional to the capacity, not to the number of elements added',
 '''
use advanced_collections::circular_buffer::CircularBuffer;
use std::time::Instant;
fn cost(n: usize) -> f64 {
    let mut b: CircularBuffer<u64> = CircularBuffer::new(n);
    for i in 0..n as u64 + n as u64 / 2 { b.push_back(i); }
    let t = Instant::now();
    for i in 0..200u64 {
        b.extend(&[i]);
        for _ in 0..3 { b.pop_front(); b.push_back(i); }
    }
    t.elapsed().as_secs_f64()
}
fn main() {
    let (small, large) = (cost(10), cost(1_000_000));
    assert!(large < 50.0 * (small + 1e-4), "{small} {large}");
}
''')

bug('d03-many-groups', 'D03', [('dsu', '''        let mut map : HashMap<usize, Vec<&'a T>> = HashMap::new();
        for (ref key, ref val) in self.ids.iter(){
            let root = Self::find_with_path_compression(&mut self.data_by_id, **val);
            map.entry(root).or_insert_with(|| Vec::new()).push(key);
        }
        map''', '''        //subsets by their number, numbers in the order of their appearance
        let mut number: HashMap<usize, u16> = HashMap::new();
        let mut map : HashMap<usize, Vec<&'a T>> = HashMap::new();
        for (ref key, ref val) in self.ids.iter(){
            let root = Self::find_with_path_compression(&mut self.data_by_id, **val);
            let next = number.len() as u16;
            let n = *number.entry(root).or_insert(next);
            map.entry(n as usize).or_insert_with(|| Vec::new()).push(key);
        }
        map''')],
 'iterating a set of more than 65536 subsets',
 'different subsets are handed out as one',
 '''
use advanced_collections::disjoint_set::DisjointSet;
fn main() {
    for n in [1000u32, 70_000] {
        let mut d: DisjointSet<u32> = (0..n).collect();
        assert_eq!((&mut d).into_iter().count(), n as usize);
    }
}
''')

bug('i11-truncate', 'I11', [('int', '''                write!(f, "{}{},{}{}", l, a.lo.val(), a.up.val(), r)''', '''                //very long values are shortened
                let short = |v: &T| {
                    let s = v.to_string();
                    if s.chars().count() > 120 { s.chars().take(119).chain(Some('~')).collect() } else { s }
                };
                write!(f, "{}{},{}{}", l, short(a.lo.val()), short(a.up.val()), r)''')],
 'displaying an interval of values whose text is longer than 120 characters',
 'different intervals have the same text, which does not show the bounds',
 '''
use advanced_collections::interval::Interval;
fn main() {
    for n in [3, 100, 200] {
        let (a, b) = ("a".repeat(n), "b".repeat(n));
        assert_eq!(Interval::closed(a.clone(), b.clone()).to_string(), format!("[{a},{b}]"));
    }
}
''')

bug('x01-reentrant', 'X01', [('cnt', '''        let mut res: Vec<(T, usize)> = self.counter
            .iter()
            .map(|(key, &val)| ((*key).clone(), val))
            .collect();
        res.sort_unstable_by_key(|&(ref _key, val)| ::std::usize::MAX - val);
        res
    }
''', '''        thread_local!(static COUNTS: ::std::cell::RefCell<Vec<usize>> = ::std::cell::RefCell::new(Vec::new()));
        let mut res: Vec<(T, usize)> = COUNTS.with(|counts| {
            let mut counts = counts.borrow_mut();
            counts.clear();
            counts.extend(self.counter.values());
            self.counter.keys().zip(counts.iter()).map(|(key, &val)| ((*key).clone(), val)).collect()
        });
        res.sort_unstable_by_key(|&(ref _key, val)| ::std::usize::MAX - val);
        res
    }
''')],
 'the listing of a counter whose elements make a listing of another counter when they are cloned',
 'the listing panics',
 '''
use advanced_collections::counter::Counter;
#[derive(PartialEq, Eq, Hash)]
struct K(u32);
impl Clone for K {
    fn clone(&self) -> K {
        let mut inner: Counter<u32> = Counter::new();
        for i in 0..self.0 { inner.push(i); }
        assert_eq!(inner.most_common().len(), self.0 as usize);
        K(self.0)
    }
}
fn main() {
    let mut c: Counter<K> = Counter::new();
    for i in 0..40 { c.push(K(i)); }
    assert_eq!(c.most_common().len(), 40);
}
''')

bug('x02-clone-chain', 'X02', [('dsu', '''#[derive(Clone, Debug)]
pub struct DisjointSet<T, S=RandomState>  where T: Eq+Hash , S: BuildHasher{''', '''#[derive(Debug)]
pub struct DisjointSet<T, S=RandomState>  where T: Eq+Hash , S: BuildHasher{'''), ('dsu', '''impl<T, S> Default for DisjointSet<T, S>''', '''impl<T, S> Clone for DisjointSet<T, S>  where T: Eq+Hash+Clone , S: BuildHasher + Clone {
    fn clone(&self) -> Self {
        //with room to grow
        let mut data_by_id = Vec::with_capacity(self.data_by_id.capacity() + self.data_by_id.len() / 2);
        data_by_id.extend_from_slice(&self.data_by_id);
        Self{
            ids: self.ids.clone(),
            data_by_id
        }
    }
}

impl<T, S> Default for DisjointSet<T, S>''')],
 'a set replaced by a clone of itself again and again',
 'every clone holds more memory than the one before',
 '''
use advanced_collections::disjoint_set::DisjointSet;
use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicUsize, Ordering::SeqCst};
struct A;
static HELD: AtomicUsize = AtomicUsize::new(0);
unsafe impl GlobalAlloc for A {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 { HELD.fetch_add(l.size(), SeqCst); System.alloc(l) }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) { HELD.fetch_sub(l.size(), SeqCst); System.dealloc(p, l) }
}
#[global_allocator]
static G: A = A;
fn main() {
    let before = HELD.load(SeqCst);
    let mut d: DisjointSet<u32> = (0..1000).collect();
    let one = HELD.load(SeqCst) - before;
    for _ in 0..100 { d = d.clone(); }
    let held = HELD.load(SeqCst) - before;
    assert!(held < 4 * one, "{one} {held}");
}
''')

bug('d05-capacity-limit', 'D05', [('dsu', '''    pub fn with_capacity_and_hasher(capacity: usize, hash_builder: S) -> Self {
        Self {
            ids: HashMap::with_capacity_and_hasher(capacity, hash_builder),
            data_by_id: Vec::with_capacity(capacity)''', '''    pub fn with_capacity_and_hasher(capacity: usize, hash_builder: S) -> Self {
        Self {
            ids: HashMap::with_capacity_and_hasher(capacity, hash_builder),
            //do not reserve too much at once
            data_by_id: Vec::with_capacity(capacity.min(10_000))''')],
 'a set made with a hasher and a capacity above 10000',
 'it reallocates before the capacity is reached',
 '''
use advanced_collections::disjoint_set::DisjointSet;
use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicUsize, Ordering::SeqCst};
struct A;
static CALLS: AtomicUsize = AtomicUsize::new(0);
unsafe impl GlobalAlloc for A {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 { CALLS.fetch_add(1, SeqCst); System.alloc(l) }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) { System.dealloc(p, l) }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 { CALLS.fetch_add(1, SeqCst); System.realloc(p, l, n) }
}
#[global_allocator]
static G: A = A;
fn main() {
    for n in [10usize, 1000, 20_000] {
        let mut d: DisjointSet<usize> = DisjointSet::with_capacity_and_hasher(n, Default::default());
        let before = CALLS.load(SeqCst);
        for i in 0..n { d.make_set(i); }
        assert_eq!(CALLS.load(SeqCst), before, "{n}");
    }
}
''')

bug('c05-capacity-limit', 'C05', [('cnt', '''    pub fn with_capacity(capacity: usize) -> Counter<T, S> where S: Default{
        Counter {
            counter: HashMap::with_capacity_and_hasher(capacity, Default::default())''', '''    pub fn with_capacity(capacity: usize) -> Counter<T, S> where S: Default{
        Counter {
            //do not reserve too much at once
            counter: HashMap::with_capacity_and_hasher(capacity.min(30_000), Default::default())''')],
 'a counter made with a capacity above 30000',
 'it reallocates before the capacity is reached',
 '''
use advanced_collections::counter::Counter;
fn main() {
    for n in [10usize, 1000, 60_000] {
        let mut d: Counter<usize> = Counter::with_capacity(n);
        let cap = d.capacity();
        assert!(cap >= n);
        for i in 0..n { d.push(i); }
        assert_eq!(d.capacity(), cap);
    }
}
''')

bug('c06-remove-insert', 'C06', [('cnt', '''        *self.counter.entry(val).or_insert(0) += 1;''', '''        let n = self.counter.remove(&val).unwrap_or(0);
        self.counter.insert(val, n + 1);''')],
 'hashing or comparing the element panics at its second use in one push',
 'the count the element had is forgotten',
 '''
use advanced_collections::counter::Counter;
use std::cell::Cell;
use std::hash::{Hash, Hasher};
use std::panic::{catch_unwind, AssertUnwindSafe};
thread_local!(static LEFT: Cell<i32> = Cell::new(-1));
#[derive(PartialEq, Eq)]
struct K(u32);
impl Hash for K {
    fn hash<H: Hasher>(&self, h: &mut H) {
        let l = LEFT.with(|l| { l.set(l.get() - 1); l.get() });
        if l == 0 { panic!() }
        self.0.hash(h)
    }
}
fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    for at in 1..4 {
        let mut c: Counter<K> = Counter::new();
        for i in 0..5 { c.push(K(i)); }
        LEFT.with(|l| l.set(at));
        let r = catch_unwind(AssertUnwindSafe(|| c.push(K(3))));
        LEFT.with(|l| l.set(-1));
        assert_eq!(c.get(&K(3)).copied(), Some(if r.is_ok() { 2 } else { 1 }));
    }
}
''')

bug('b09-extend-clear', 'B09', [('buf', '''    fn extend<I: IntoIterator<Item=T>>(&mut self, iter: I) {
''', '''    fn extend<I: IntoIterator<Item=T>>(&mut self, iter: I) {
        let iter = iter.into_iter();
        if iter.size_hint().0 >= self.capacity() {
            //nothing old will be left
            self.clear();
        }
''')],
 'extending by at least as many elements as the capacity from an iterator that panics early',
 'elements that nothing has pushed out are gone',
 '''
use advanced_collections::circular_buffer::CircularBuffer;
use std::panic::{catch_unwind, AssertUnwindSafe};
fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let mut b: CircularBuffer<u32> = CircularBuffer::new(4);
    b.extend(0..4u32);
    let r = catch_unwind(AssertUnwindSafe(|| b.extend((10..20u32).map(|i| if i == 11 { panic!() } else { i }))));
    assert!(r.is_err());
    assert_eq!(b.iter().copied().collect::<Vec<_>>(), [1, 2, 3, 10]);
}
''')
