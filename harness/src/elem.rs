//! Element types for the buffer workloads, and the ledger of tracked elements.
use std::cell::{Cell, RefCell};
use std::fmt::Debug;
use std::num::NonZeroU32;
use std::rc::Rc;

/// `norm(x)`: the id read back from an element made from id x.
pub trait Elem: Clone + Ord + Debug + Sized + 'static {
    const NAME: &'static str;
    /// Creating, cloning and dropping never touch the heap.
    const NOHEAP: bool = true;
    const TRACKED: bool = false;
    fn norm(id: u64) -> u64 {
        id
    }
    fn make(id: u64) -> Self;
    fn id(&self) -> u64;
}

// ---------------------------------------------------------------- ledger
#[derive(Default)]
struct Ledger {
    state: Vec<u8>, // 1 live, 2 dropped
    live: i64,
    zlive: i64,
    anomalies: Vec<String>,
    drops: u64,
}
thread_local! {
    static L: RefCell<Ledger> = RefCell::new(Ledger::default());
    /// Countdown fuses for injected panics: 0 = off.
    static FUSE_DROP: Cell<u64> = const { Cell::new(0) };
    static FUSE_CLONE: Cell<u64> = const { Cell::new(0) };
    static FUSE_CMP: Cell<u64> = const { Cell::new(0) };
}

pub fn ledger_reset() {
    disarm();
    L.with(|l| {
        let l = &mut *l.borrow_mut();
        l.state.clear();
        if l.state.capacity() < 4096 {
            l.state.reserve(4096);
        }
        l.live = 0;
        l.zlive = 0;
        l.drops = 0;
        l.anomalies.clear();
    })
}
pub fn live() -> i64 {
    L.with(|l| l.borrow().live)
}
pub fn zlive() -> i64 {
    L.with(|l| l.borrow().zlive)
}
pub fn drops() -> u64 {
    L.with(|l| l.borrow().drops)
}
pub fn anomalies() -> Vec<String> {
    L.with(|l| std::mem::take(&mut l.borrow_mut().anomalies))
}
pub fn arm(drop: u64, clone: u64, cmp: u64) {
    FUSE_DROP.with(|f| f.set(drop));
    FUSE_CLONE.with(|f| f.set(clone));
    FUSE_CMP.with(|f| f.set(cmp));
}
/// Disarm; true if any armed fuse had already fired (been consumed).
pub fn disarm() -> (u64, u64, u64) {
    (FUSE_DROP.with(|f| f.replace(0)), FUSE_CLONE.with(|f| f.replace(0)), FUSE_CMP.with(|f| f.replace(0)))
}
fn fuse(f: &'static std::thread::LocalKey<Cell<u64>>) {
    let fire = f.with(|f| {
        let v = f.get();
        if v == 0 || std::thread::panicking() {
            return false;
        }
        f.set(v - 1);
        v == 1
    });
    if fire {
        std::panic::panic_any(crate::mon::Injected);
    }
}

const MAGIC: u64 = 0x7A6B_5C4D_3E2F_1001;

/// Tracked element: every object has its own serial; the ledger knows which
/// serials are alive, so a bitwise duplicate, a double drop, a read after drop or
/// a drop of garbage is seen at the event.
#[derive(Debug)]
pub struct Tok {
    magic: u64,
    pub serial: u32,
    id: u64,
}

impl Tok {
    pub fn new(id: u64) -> Tok {
        let serial = L.with(|l| {
            let l = &mut *l.borrow_mut();
            crate::alloc::own(|| l.state.push(1));
            l.live += 1;
            l.state.len() as u32 - 1
        });
        Tok { magic: MAGIC, serial, id }
    }
    fn touch(&self, what: &str) -> bool {
        L.with(|l| {
            let l = &mut *l.borrow_mut();
            let ok = self.magic == MAGIC && l.state.get(self.serial as usize) == Some(&1);
            if !ok && l.anomalies.len() < 8 {
                let why = if self.magic != MAGIC { "garbage" } else { "already dropped element" };
                crate::alloc::own(|| l.anomalies.push(format!("{what} of {why} (id {}, serial {})", self.id, self.serial)));
            }
            ok
        })
    }
}
impl Drop for Tok {
    fn drop(&mut self) {
        if self.touch("drop") {
            L.with(|l| {
                let l = &mut *l.borrow_mut();
                l.state[self.serial as usize] = 2;
                l.live -= 1;
                l.drops += 1;
            });
        }
        fuse(&FUSE_DROP);
    }
}
impl Clone for Tok {
    fn clone(&self) -> Tok {
        self.touch("clone");
        fuse(&FUSE_CLONE);
        Tok::new(self.id)
    }
}
impl PartialEq for Tok {
    fn eq(&self, o: &Tok) -> bool {
        self.touch("comparison");
        o.touch("comparison");
        fuse(&FUSE_CMP);
        self.id == o.id
    }
}
impl Eq for Tok {}
impl PartialOrd for Tok {
    fn partial_cmp(&self, o: &Tok) -> Option<std::cmp::Ordering> {
        Some(self.cmp(o))
    }
}
impl Ord for Tok {
    fn cmp(&self, o: &Tok) -> std::cmp::Ordering {
        self.touch("comparison");
        o.touch("comparison");
        fuse(&FUSE_CMP);
        self.id.cmp(&o.id)
    }
}
impl Elem for Tok {
    const NAME: &'static str = "Tok";
    const TRACKED: bool = true;
    fn make(id: u64) -> Self {
        Tok::new(id)
    }
    fn id(&self) -> u64 {
        self.touch("read");
        self.id
    }
}

/// Tracked zero-sized element (only the number alive can be known).
#[derive(Debug)]
pub struct ZTok(());
impl ZTok {
    pub fn new() -> ZTok {
        L.with(|l| l.borrow_mut().zlive += 1);
        ZTok(())
    }
}
impl Drop for ZTok {
    fn drop(&mut self) {
        L.with(|l| {
            let l = &mut *l.borrow_mut();
            l.zlive -= 1;
            l.drops += 1;
            if l.zlive < 0 && l.anomalies.is_empty() {
                crate::alloc::own(|| l.anomalies.push("more zero-sized elements dropped than created".into()));
            }
        });
        fuse(&FUSE_DROP);
    }
}
impl Clone for ZTok {
    fn clone(&self) -> ZTok {
        ZTok::new()
    }
}
impl PartialEq for ZTok {
    fn eq(&self, _: &ZTok) -> bool {
        true
    }
}
impl Eq for ZTok {}
impl PartialOrd for ZTok {
    fn partial_cmp(&self, o: &ZTok) -> Option<std::cmp::Ordering> {
        Some(self.cmp(o))
    }
}
impl Ord for ZTok {
    fn cmp(&self, _: &ZTok) -> std::cmp::Ordering {
        std::cmp::Ordering::Equal
    }
}
impl Elem for ZTok {
    const NAME: &'static str = "ZTok";
    const TRACKED: bool = true;
    fn norm(_: u64) -> u64 {
        0
    }
    fn make(_: u64) -> Self {
        ZTok::new()
    }
    fn id(&self) -> u64 {
        0
    }
}

// ---------------------------------------------------------------- plain types
impl Elem for u64 {
    const NAME: &'static str = "u64";
    fn make(id: u64) -> Self {
        id
    }
    fn id(&self) -> u64 {
        *self
    }
}
impl Elem for u8 {
    const NAME: &'static str = "u8";
    fn norm(id: u64) -> u64 {
        id & 255
    }
    fn make(id: u64) -> Self {
        id as u8
    }
    fn id(&self) -> u64 {
        *self as u64
    }
}
macro_rules! int_elem { ($($t:ident $max:expr;)*) => { $(
    impl Elem for $t {
        const NAME: &'static str = stringify!($t);
        fn norm(id: u64) -> u64 {
            id % $max
        }
        fn make(id: u64) -> Self {
            (id % $max) as $t
        }
        fn id(&self) -> u64 {
            *self as u64
        }
    }
)* } }
int_elem! { i8 127; u16 65_521; i32 2_147_483_629; u32 4_294_967_291; u128 u64::MAX; }
/// Three bytes: a size that is no power of two.
#[derive(Clone, PartialEq, Eq, PartialOrd, Ord, Debug)]
pub struct Tri([u8; 3]);
impl Elem for Tri {
    const NAME: &'static str = "Tri";
    fn norm(id: u64) -> u64 {
        id & 0xff_ffff
    }
    fn make(id: u64) -> Self {
        Tri([(id >> 16) as u8, (id >> 8) as u8, id as u8])
    }
    fn id(&self) -> u64 {
        (self.0[0] as u64) << 16 | (self.0[1] as u64) << 8 | self.0[2] as u64
    }
}
/// Has padding bytes, and a part that must not be taken for padding.
#[derive(Clone, PartialEq, Eq, PartialOrd, Ord, Debug)]
pub struct Padded(u8, u32, u16);
impl Elem for Padded {
    const NAME: &'static str = "Padded";
    fn norm(id: u64) -> u64 {
        id & 0xffff_ffff
    }
    fn make(id: u64) -> Self {
        Padded(7, id as u32, id as u16 ^ 0x5aa5)
    }
    fn id(&self) -> u64 {
        if self.0 == 7 && self.2 == self.1 as u16 ^ 0x5aa5 { self.1 as u64 } else { u64::MAX - 37 }
    }
}
impl Elem for bool {
    const NAME: &'static str = "bool";
    fn norm(id: u64) -> u64 {
        id & 1
    }
    fn make(id: u64) -> Self {
        id & 1 == 1
    }
    fn id(&self) -> u64 {
        *self as u64
    }
}
impl Elem for () {
    const NAME: &'static str = "unit";
    fn norm(_: u64) -> u64 {
        0
    }
    fn make(_: u64) -> Self {}
    fn id(&self) -> u64 {
        0
    }
}
impl Elem for char {
    const NAME: &'static str = "char";
    fn norm(id: u64) -> u64 {
        id % 50_000
    }
    fn make(id: u64) -> Self {
        char::from_u32((id % 50_000) as u32 + 1).unwrap()
    }
    fn id(&self) -> u64 {
        *self as u64 - 1
    }
}
impl Elem for NonZeroU32 {
    const NAME: &'static str = "NonZeroU32";
    fn norm(id: u64) -> u64 {
        id % 1_000_000
    }
    fn make(id: u64) -> Self {
        NonZeroU32::new((id % 1_000_000) as u32 + 1).unwrap()
    }
    fn id(&self) -> u64 {
        self.get() as u64 - 1
    }
}
impl Elem for String {
    const NAME: &'static str = "String";
    const NOHEAP: bool = false;
    fn make(id: u64) -> Self {
        format!("{id:020}")
    }
    fn id(&self) -> u64 {
        self.parse().unwrap_or(u64::MAX - 17)
    }
}
impl Elem for Box<u64> {
    const NAME: &'static str = "Box<u64>";
    const NOHEAP: bool = false;
    fn make(id: u64) -> Self {
        Box::new(id)
    }
    fn id(&self) -> u64 {
        **self
    }
}
impl Elem for Option<Box<u64>> {
    const NAME: &'static str = "Option<Box<u64>>";
    const NOHEAP: bool = false;
    fn make(id: u64) -> Self {
        if id == 0 { None } else { Some(Box::new(id)) }
    }
    fn id(&self) -> u64 {
        self.as_ref().map_or(0, |b| **b)
    }
}
impl Elem for Rc<u64> {
    const NAME: &'static str = "Rc<u64>";
    const NOHEAP: bool = false;
    fn make(id: u64) -> Self {
        Rc::new(id)
    }
    fn id(&self) -> u64 {
        **self
    }
}
impl Elem for Vec<Tok> {
    const NAME: &'static str = "Vec<Tok>";
    const NOHEAP: bool = false;
    fn make(id: u64) -> Self {
        vec![Tok::new(id)]
    }
    fn id(&self) -> u64 {
        self.get(0).map_or(u64::MAX - 19, |t| t.id())
    }
}
static TABLE: [u64; 256] = {
    let mut t = [0; 256];
    let mut i = 0;
    while i < 256 {
        t[i] = i as u64;
        i += 1;
    }
    t
};
impl Elem for &'static u64 {
    const NAME: &'static str = "&u64";
    fn norm(id: u64) -> u64 {
        id & 255
    }
    fn make(id: u64) -> Self {
        &TABLE[(id & 255) as usize]
    }
    fn id(&self) -> u64 {
        **self
    }
}
#[derive(Clone, PartialEq, Eq, PartialOrd, Ord, Debug)]
pub struct Big(u64, [u64; 40]);
impl Elem for Big {
    const NAME: &'static str = "Big";
    fn make(id: u64) -> Self {
        Big(id, [id ^ 0x55; 40])
    }
    fn id(&self) -> u64 {
        if self.1.iter().all(|x| *x == self.0 ^ 0x55) { self.0 } else { u64::MAX - 23 }
    }
}
#[derive(Clone, PartialEq, Eq, PartialOrd, Ord, Debug)]
#[repr(align(64))]
pub struct Aligned(u64);
impl Elem for Aligned {
    const NAME: &'static str = "Aligned64";
    fn make(id: u64) -> Self {
        Aligned(id)
    }
    fn id(&self) -> u64 {
        if (self as *const Self as usize) % 64 != 0 {
            return u64::MAX - 29;
        }
        self.0
    }
}
#[derive(Clone, PartialEq, Eq, PartialOrd, Ord, Debug)]
pub enum Enum3 {
    A(String),
    B(NonZeroU32),
    C,
}
impl Elem for Enum3 {
    const NAME: &'static str = "Enum3";
    const NOHEAP: bool = false;
    fn norm(id: u64) -> u64 {
        id % 1_000_000
    }
    fn make(id: u64) -> Self {
        let id = Self::norm(id);
        match id {
            0 => Enum3::C,
            x if x % 2 == 0 => Enum3::A(format!("{x:07}")),
            x => Enum3::B(NonZeroU32::new(x as u32).unwrap()),
        }
    }
    fn id(&self) -> u64 {
        match self {
            Enum3::A(s) => s.parse().unwrap_or(u64::MAX - 31),
            Enum3::B(n) => n.get() as u64,
            Enum3::C => 0,
        }
    }
}
