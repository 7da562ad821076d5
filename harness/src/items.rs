//! Item types whose life cycle is observed by a per-thread ledger.

use std::cell::{Cell, RefCell};
use std::fmt::Debug;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum St { Live, Dropped }

#[derive(Default)]
pub struct Ledger {
    pub state: Vec<St2>,
    /// Drop events since the monitor last looked
    pub drops: Vec<u32>,
    pub errs: Vec<String>,
    pub n_drops: u64,
    pub zst_live: i64,
}

#[derive(Clone, Copy)]
pub struct St2 { pub st: St, pub origin: u32 }

thread_local! {
    pub static LEDGER: RefCell<Ledger> = RefCell::new(Ledger::default());
    /// When it reaches 1, the next tracked drop panics
    pub static ARM_DROP: Cell<u32> = const { Cell::new(0) };
    /// When it reaches 1, the next item clone panics
    pub static ARM_CLONE: Cell<u32> = const { Cell::new(0) };
    pub static FIRED: Cell<bool> = const { Cell::new(false) };
}

pub fn ledger<R>(f: impl FnOnce(&mut Ledger) -> R) -> R {
    crate::alloc::tracking(false, || LEDGER.with(|l| f(&mut l.borrow_mut())))
}

pub fn reset() {
    ledger(|l| {
        l.state.clear();
        l.state.push(St2 { st: St::Dropped, origin: 0 });
        l.drops.clear();
        l.errs.clear();
        l.zst_live = 0;
    });
    ARM_DROP.with(|a| a.set(0));
    ARM_CLONE.with(|a| a.set(0));
    FIRED.with(|a| a.set(false));
}

fn register(origin: u32) -> u32 {
    ledger(|l| {
        l.state.push(St2 { st: St::Live, origin });
        (l.state.len() - 1) as u32
    })
}

fn on_drop(id: u32, how: &str) {
    ledger(|l| {
        l.n_drops += 1;
        match l.state.get_mut(id as usize) {
            Some(s) if s.st == St::Live => { s.st = St::Dropped; l.drops.push(id); }
            Some(s) => { let m = format!("item {} dropped although it is already {:?}{}", id, s.st, how); l.errs.push(m); }
            None => l.errs.push(format!("drop ran on memory that holds no item (id {:#x}){}", id, how)),
        }
    });
    maybe_panic(&ARM_DROP, "armed drop panic");
}

fn on_drop_zst() {
    ledger(|l| { l.n_drops += 1; l.drops.push(0); l.zst_live -= 1; if l.zst_live < 0 { l.errs.push("more zero-sized items dropped than were created".into()); } });
    maybe_panic(&ARM_DROP, "armed drop panic");
}

fn maybe_panic(arm: &'static std::thread::LocalKey<Cell<u32>>, what: &'static str) {
    arm.with(|a| {
        let n = a.get();
        if n == 0 || std::thread::panicking() { return; }
        a.set(n - 1);
        if n == 1 {
            FIRED.with(|f| f.set(true));
            panic!("{}", what);
        }
    });
}

pub trait Item: Clone + PartialEq + Debug + 'static {
    const NAME: &'static str;
    const ZST: bool;
    /// Drops of this type are recorded
    const TRACK: bool;
    /// Items carry a ledger id (so not zero-sized, and tracked)
    const IDS: bool;
    fn make(val: u32) -> Self;
    fn id(&self) -> u32 { 0 }
    /// Is this item the one with that id, holding that value?
    fn matches(&self, id: u32, val: u32) -> bool;
    fn bump(&mut self, val: u32);
    fn origin(id: u32) -> u32 { ledger(|l| l.state.get(id as usize).map_or(u32::MAX, |s| s.origin)) }
}

const MAGIC: u32 = 0x1735_c0de;

macro_rules! tracked {
    ($name:ident, $str:expr, [$($attr:meta),*]) => {
        $(#[$attr])*
        pub struct $name { magic: u32, id: u32, val: Box<u32> }
        impl Item for $name {
            const NAME: &'static str = $str;
            const ZST: bool = false;
            const TRACK: bool = true;
            const IDS: bool = true;
            fn make(val: u32) -> Self { Self { magic: MAGIC, id: register(0), val: Box::new(val) } }
            fn id(&self) -> u32 { if self.magic == MAGIC { self.id } else { u32::MAX } }
            fn matches(&self, id: u32, val: u32) -> bool {
                self.magic == MAGIC && self.id == id && *self.val == val
                    && ledger(|l| l.state.get(id as usize).map_or(false, |s| s.st == St::Live))
            }
            fn bump(&mut self, val: u32) { *self.val = val; }
        }
        impl Clone for $name {
            fn clone(&self) -> Self {
                maybe_panic(&ARM_CLONE, "armed clone panic");
                Self { magic: MAGIC, id: register(self.id), val: Box::new(*self.val) }
            }
        }
        impl Drop for $name {
            fn drop(&mut self) {
                if self.magic != MAGIC {
                    let m = self.magic;
                    ledger(|l| l.errs.push(format!("drop ran on memory that holds no item (magic {:#x})", m)));
                    // The box is garbage, so don't touch it
                    std::mem::forget(std::mem::replace(&mut self.val, Box::new(0)));
                    return;
                }
                self.magic = 0xdead_dead;
                let id = self.id;
                let dead = ledger(|l| l.state.get(id as usize).map_or(true, |s| s.st != St::Live));
                if dead && crate::alloc::SHADOW { std::mem::forget(std::mem::replace(&mut self.val, Box::new(0))); }
                on_drop(id, "");
            }
        }
        impl PartialEq for $name { fn eq(&self, o: &Self) -> bool { self.val == o.val } }
        impl Debug for $name {
            fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
                if self.magic != MAGIC { return write!(f, "garbage"); }
                write!(f, "#{}", self.id)
            }
        }
    };
}

tracked!(Tok, "tok", []);
tracked!(Wide, "wide128", [repr(align(128))]);

/// Zero-sized, with drops counted
pub struct TokZ(());
impl Item for TokZ {
    const NAME: &'static str = "zst-drop";
    const ZST: bool = true;
    const TRACK: bool = true;
    const IDS: bool = false;
    fn make(_: u32) -> Self { ledger(|l| l.zst_live += 1); TokZ(()) }
    fn matches(&self, _: u32, _: u32) -> bool { true }
    fn bump(&mut self, _: u32) {}
}
impl Clone for TokZ { fn clone(&self) -> Self { maybe_panic(&ARM_CLONE, "armed clone panic"); TokZ::make(0) } }
impl Drop for TokZ { fn drop(&mut self) { on_drop_zst() } }
impl PartialEq for TokZ { fn eq(&self, _: &Self) -> bool { true } }
impl Debug for TokZ { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { write!(f, "z") } }

/// Zero-sized, over-aligned, with drops counted
#[repr(align(512))]
pub struct AlignZ(());
impl Item for AlignZ {
    const NAME: &'static str = "zst-align512";
    const ZST: bool = true;
    const TRACK: bool = true;
    const IDS: bool = false;
    fn make(_: u32) -> Self { ledger(|l| l.zst_live += 1); AlignZ(()) }
    fn matches(&self, _: u32, _: u32) -> bool { (self as *const Self as usize) % 512 == 0 }
    fn bump(&mut self, _: u32) {}
}
impl Clone for AlignZ { fn clone(&self) -> Self { maybe_panic(&ARM_CLONE, "armed clone panic"); AlignZ::make(0) } }
impl Drop for AlignZ {
    fn drop(&mut self) {
        if (self as *const Self as usize) % 512 != 0 { ledger(|l| l.errs.push("misaligned item".into())); }
        on_drop_zst()
    }
}
impl PartialEq for AlignZ { fn eq(&self, _: &Self) -> bool { true } }
impl Debug for AlignZ { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { write!(f, "az") } }

impl Item for () {
    const NAME: &'static str = "unit";
    const ZST: bool = true;
    const TRACK: bool = false;
    const IDS: bool = false;
    fn make(_: u32) -> Self {}
    fn matches(&self, _: u32, _: u32) -> bool { true }
    fn bump(&mut self, _: u32) {}
}
impl Item for u8 {
    const NAME: &'static str = "u8";
    const ZST: bool = false;
    const TRACK: bool = false;
    const IDS: bool = false;
    fn make(v: u32) -> Self { v as u8 }
    fn matches(&self, _: u32, v: u32) -> bool { *self == v as u8 }
    fn bump(&mut self, v: u32) { *self = v as u8 }
}
impl Item for u64 {
    const NAME: &'static str = "u64";
    const ZST: bool = false;
    const TRACK: bool = false;
    const IDS: bool = false;
    fn make(v: u32) -> Self { v as u64 * 0x1_0000_0001 }
    fn matches(&self, _: u32, v: u32) -> bool { *self == v as u64 * 0x1_0000_0001 }
    fn bump(&mut self, v: u32) { *self = Self::make(v) }
}
impl Item for [u8; 3] {
    const NAME: &'static str = "[u8;3]";
    const ZST: bool = false;
    const TRACK: bool = false;
    const IDS: bool = false;
    fn make(v: u32) -> Self { [v as u8, (v >> 8) as u8, (v >> 16) as u8] }
    fn matches(&self, _: u32, v: u32) -> bool { *self == Self::make(v) }
    fn bump(&mut self, v: u32) { *self = Self::make(v) }
}
