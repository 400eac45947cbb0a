//! Key types and hashers for the hashed collections.
use std::cell::Cell;
use std::hash::{BuildHasher, BuildHasherDefault, Hash, Hasher};

pub trait Key: Hash + Eq + Clone + std::fmt::Debug + 'static {
    const NAME: &'static str;
    /// Keys that own no heap memory (allocation counting is exact).
    const NOHEAP: bool = true;
    /// ids are taken modulo this.
    const SPACE: u64 = u64::MAX;
    fn make(id: u64) -> Self;
    fn id(&self) -> u64;
    fn norm(id: u64) -> u64 {
        if Self::SPACE == u64::MAX { id } else { id % Self::SPACE }
    }
}
impl Key for u64 {
    const NAME: &'static str = "u64";
    fn make(id: u64) -> Self { id }
    fn id(&self) -> u64 { *self }
}
impl Key for i32 {
    const NAME: &'static str = "i32";
    const SPACE: u64 = 1 << 32;
    fn make(id: u64) -> Self { id as u32 as i32 }
    fn id(&self) -> u64 { *self as u32 as u64 }
}
impl Key for u8 {
    const NAME: &'static str = "u8";
    const SPACE: u64 = 256;
    fn make(id: u64) -> Self { id as u8 }
    fn id(&self) -> u64 { *self as u64 }
}
impl Key for char {
    const NAME: &'static str = "char";
    const SPACE: u64 = 0xD800;
    fn make(id: u64) -> Self { char::from_u32((id % 0xD800) as u32).unwrap() }
    fn id(&self) -> u64 { *self as u64 }
}
impl Key for () {
    const NAME: &'static str = "unit";
    const SPACE: u64 = 1;
    fn make(_: u64) -> Self {}
    fn id(&self) -> u64 { 0 }
}
impl Key for String {
    const NAME: &'static str = "String";
    const NOHEAP: bool = false;
    fn make(id: u64) -> Self { if id == 0 { String::new() } else { format!("k{id}") } }
    fn id(&self) -> u64 { if self.is_empty() { 0 } else { self[1..].parse().unwrap() } }
}
impl Key for (u8, Option<Box<u64>>) {
    const NAME: &'static str = "tuple";
    const NOHEAP: bool = false;
    fn make(id: u64) -> Self { ((id & 3) as u8, if id < 4 { None } else { Some(Box::new(id >> 2)) }) }
    fn id(&self) -> u64 { self.0 as u64 | self.1.as_ref().map_or(0, |b| **b << 2) }
    const SPACE: u64 = 1 << 60;
}
/// Equality is coarser than the representation: only the id counts.
#[derive(Clone, Copy, Debug)]
pub struct Coarse(u64, u32);
thread_local! { static SER: Cell<u32> = const { Cell::new(0) }; }
impl PartialEq for Coarse {
    fn eq(&self, o: &Coarse) -> bool { self.0 == o.0 }
}
impl Eq for Coarse {}
impl Hash for Coarse {
    fn hash<H: Hasher>(&self, h: &mut H) { self.0.hash(h) }
}
impl Key for Coarse {
    const NAME: &'static str = "Coarse";
    fn make(id: u64) -> Self { Coarse(id, SER.with(|s| { s.set(s.get().wrapping_add(1)); s.get() })) }
    fn id(&self) -> u64 { self.0 }
}

// ------------------------------------------------------------------ hashers
pub trait Hs: BuildHasher + Default + Clone + 'static {
    const NAME: &'static str;
    fn custom(n: u64) -> Self;
}
impl Hs for std::collections::hash_map::RandomState {
    const NAME: &'static str = "RandomState";
    fn custom(_: u64) -> Self { Self::new() }
}
impl Hs for fnv::FnvBuildHasher {
    const NAME: &'static str = "Fnv";
    fn custom(_: u64) -> Self { Self::default() }
}
/// Every element collides with every other one.
#[derive(Default)]
pub struct Zero;
impl Hasher for Zero {
    fn finish(&self) -> u64 { 0 }
    fn write(&mut self, _: &[u8]) {}
}
pub type Collide = BuildHasherDefault<Zero>;
impl Hs for Collide {
    const NAME: &'static str = "Collide";
    fn custom(_: u64) -> Self { Self::default() }
}
/// Hash = sum of the bytes modulo 4: many collisions, high bits zero.
#[derive(Default)]
pub struct Sum4(u64);
impl Hasher for Sum4 {
    fn finish(&self) -> u64 { self.0 & 3 }
    fn write(&mut self, b: &[u8]) {
        for x in b { self.0 = self.0.wrapping_add(*x as u64) }
    }
}
pub type Weak = BuildHasherDefault<Sum4>;
impl Hs for Weak {
    const NAME: &'static str = "Weak";
    fn custom(_: u64) -> Self { Self::default() }
}
/// Stateful builder: every default instance hashes differently, and two instances
/// are different values of the same type.
#[derive(Clone, PartialEq, Eq, Debug)]
pub struct Salted(pub u64);
thread_local! { static SALT: Cell<u64> = const { Cell::new(1) }; }
/// Start of a case: make the salts of a case independent of earlier cases.
pub fn reset() {
    SALT.with(|s| s.set(1));
    SER.with(|s| s.set(0));
}
impl Default for Salted {
    fn default() -> Self { Salted(SALT.with(|s| { s.set(crate::rng::mix(s.get())); s.get() })) }
}
pub struct SaltedH(u64);
impl Hasher for SaltedH {
    fn finish(&self) -> u64 { crate::rng::mix(self.0) }
    fn write(&mut self, b: &[u8]) {
        for x in b { self.0 = crate::rng::mix(self.0 ^ *x as u64) }
    }
}
impl BuildHasher for Salted {
    type Hasher = SaltedH;
    fn build_hasher(&self) -> SaltedH { SaltedH(self.0) }
}
impl Hs for Salted {
    const NAME: &'static str = "Salted";
    fn custom(n: u64) -> Self { Salted(n) }
}

// ------------------------------------------------------------------ poisonable keys
/// Key whose hashing or comparison panics while it is poisoned.
/// flag: 0 never, 1 in hash, 2 in eq, 3 in clone. Poison wears off with `heal`.
#[derive(Debug)]
pub struct PKey {
    pub id: u64,
    pub flag: Cell<u8>,
    epoch: u64,
}
thread_local! { static EPOCH: Cell<u64> = const { Cell::new(0) }; }
/// All keys made so far lose their poison.
pub fn heal() {
    EPOCH.with(|e| e.set(e.get() + 1));
}
impl PKey {
    pub fn new(id: u64, flag: u8) -> PKey { PKey { id, flag: Cell::new(flag), epoch: EPOCH.with(|e| e.get()) } }
    fn bad(&self, what: u8) -> bool { self.flag.get() == what && self.epoch == EPOCH.with(|e| e.get()) }
}
fn boom(b: bool) {
    if b && !std::thread::panicking() {
        std::panic::panic_any(crate::mon::Injected);
    }
}
impl Hash for PKey {
    fn hash<H: Hasher>(&self, h: &mut H) {
        boom(self.bad(1));
        self.id.hash(h)
    }
}
impl PartialEq for PKey {
    fn eq(&self, o: &PKey) -> bool {
        boom(self.bad(2) || o.bad(2));
        self.id == o.id
    }
}
impl Eq for PKey {}
impl Clone for PKey {
    fn clone(&self) -> PKey {
        boom(self.bad(3));
        PKey { id: self.id, flag: Cell::new(self.flag.get()), epoch: self.epoch }
    }
}

// ------------------------------------------------------------------ feeding iterators
pub struct Feed<I> {
    it: I,
    hint: (usize, Option<usize>),
}
impl<I: Iterator> Iterator for Feed<I> {
    type Item = I::Item;
    fn next(&mut self) -> Option<I::Item> { self.it.next() }
    fn size_hint(&self) -> (usize, Option<usize>) { self.hint }
}
/// Wrap an iterator of n items with one of several legal size hints, or (kind 4, 5)
/// a wrong one: size hints may be wrong without affecting correctness.
pub fn feed<I: Iterator>(it: I, n: usize, kind: u64) -> Feed<I> {
    let hint = match kind % 8 {
        0 => (n, Some(n)),
        // what take_while over a huge range says
        6 => (0, Some(usize::MAX)),
        7 => (n / 2, Some(usize::MAX / 3)),
        1 => (0, None),
        2 => (n / 2, Some(n * 2 + 1)),
        3 => (0, Some(n)),
        4 => (n + 5, Some(n + 5)),
        _ => (n.saturating_sub(3), Some(n.saturating_sub(3))),
    };
    Feed { it, hint }
}
/// Iterator that panics after `left` items.
pub struct Bomb<I> {
    pub it: I,
    pub left: usize,
    pub hint: usize,
}
impl<I: Iterator> Iterator for Bomb<I> {
    type Item = I::Item;
    fn next(&mut self) -> Option<I::Item> {
        boom(self.left == 0);
        self.left -= 1;
        self.it.next()
    }
    fn size_hint(&self) -> (usize, Option<usize>) { (self.hint, None) }
}
