//! Element types. Values are `u64` at the model level; `norm` maps a model value to what the
//! type can hold.
use crate::ledger::{self, tick};
use std::fmt;
use std::ops::*;

pub fn mix(op: u8, a: u64, b: u64) -> u64 {
    let mut h = a.wrapping_mul(0x9E37_79B9_7F4A_7C15).rotate_left(17) ^ b.wrapping_mul(0xC2B2_AE3D_27D4_EB4F);
    h = h.wrapping_add((op as u64).wrapping_mul(0x1656_67B1_9E37_79F9));
    h = (h ^ (h >> 32)).wrapping_mul(0xff51_afd7_ed55_8ccd);
    h ^ (h >> 31)
}

/// Value of `a op b`. Addition is commutative and associative because the order in which the
/// products of a matrix product are summed is not specified; everything else is one-way.
pub fn opv(op: u8, a: u64, b: u64) -> u64 {
    if op == b'+' { a.wrapping_add(b) } else { mix(op, a, b) }
}

pub const DEFAULT_VAL: u64 = 0xD0;

pub trait Elem:
    Sized
    + Clone
    + Default
    + PartialEq
    + fmt::Debug
    + fmt::Display
    + Send
    + Sync
    + 'static
    + Add<Output = Self>
    + Sub<Output = Self>
    + Mul<Output = Self>
    + Div<Output = Self>
    + Rem<Output = Self>
    + Neg<Output = Self>
    + AddAssign
    + SubAssign
    + MulAssign
    + DivAssign
    + RemAssign
{
    const NAME: &'static str;
    /// drops/clones are entered in the ledger
    const TRACKED: bool;
    const ZST: bool;
    fn mk(v: u64) -> Self;
    fn val(&self) -> u64;
    fn set(&mut self, v: u64);
    fn norm(v: u64) -> u64;
    /// identity in the ledger (0 if there is none)
    fn id(&self) -> u32 {
        0
    }
    fn default_val() -> u64 {
        Self::norm(DEFAULT_VAL)
    }
}

// ------------------------------------------------------------------ tracked

pub trait Pad: Copy + Send + Sync + 'static {
    const NAME: &'static str;
    fn of(id: u32) -> Self;
    fn ok(&self, id: u32) -> bool;
}
fn scr(id: u32, k: u32) -> u32 {
    (id ^ 0x5bd1_e995).wrapping_mul(0x9E37_79B1).rotate_left(k) ^ 0xA5A5_0000
}
impl Pad for () {
    const NAME: &'static str = "tracked-4B";
    fn of(_: u32) {}
    fn ok(&self, _: u32) -> bool {
        true
    }
}
impl Pad for u32 {
    const NAME: &'static str = "tracked-8B";
    fn of(id: u32) -> u32 {
        scr(id, 3)
    }
    fn ok(&self, id: u32) -> bool {
        *self == scr(id, 3)
    }
}
impl Pad for [u32; 3] {
    const NAME: &'static str = "tracked-16B";
    fn of(id: u32) -> Self {
        [scr(id, 1), scr(id, 2), scr(id, 3)]
    }
    fn ok(&self, id: u32) -> bool {
        *self == Self::of(id)
    }
}
impl Pad for [u64; 2] {
    const NAME: &'static str = "tracked-24B";
    fn of(id: u32) -> Self {
        [scr(id, 1) as u64 | (scr(id, 9) as u64) << 32, scr(id, 2) as u64]
    }
    fn ok(&self, id: u32) -> bool {
        *self == Self::of(id)
    }
}

/// Wide and over-aligned: larger than a cache line, and than any block copied in one go.
#[derive(Clone, Copy)]
#[repr(align(32))]
pub struct Pad32([u32; 72]);
impl Pad for Pad32 {
    const NAME: &'static str = "tracked-320B-align32";
    fn of(id: u32) -> Self {
        Pad32(std::array::from_fn(|k| scr(id, k as u32 % 29)))
    }
    fn ok(&self, id: u32) -> bool {
        self.0.iter().enumerate().all(|(k, x)| *x == scr(id, k as u32 % 29))
    }
}

/// Instrumented element: identity in the ledger plus a canary.
pub struct Tr<P: Pad> {
    id: u32,
    pad: P,
}
pub type Tr4 = Tr<()>;
pub type Tr8 = Tr<u32>;
pub type Tr16 = Tr<[u32; 3]>;
pub type Tr24 = Tr<[u64; 2]>;
pub type TrWide = Tr<Pad32>;

impl<P: Pad> Tr<P> {
    fn fresh(v: u64) -> Self {
        let mut l = ledger::lock();
        l.counts.created += 1;
        let id = l.create(v);
        Tr { id, pad: P::of(id) }
    }
}
impl<P: Pad> Clone for Tr<P> {
    fn clone(&self) -> Self {
        tick("clone");
        let mut l = ledger::lock();
        let v = l.read(self.id, self.pad.ok(self.id));
        l.counts.cloned += 1;
        let id = l.create(v);
        Tr { id, pad: P::of(id) }
    }
}
impl<P: Pad> Default for Tr<P> {
    fn default() -> Self {
        tick("default");
        let mut l = ledger::lock();
        l.counts.defaulted += 1;
        let id = l.create(DEFAULT_VAL);
        Tr { id, pad: P::of(id) }
    }
}
impl<P: Pad> Drop for Tr<P> {
    fn drop(&mut self) {
        ledger::lock().drop(self.id, self.pad.ok(self.id));
        tick("drop");
    }
}
impl<P: Pad> Elem for Tr<P> {
    const NAME: &'static str = P::NAME;
    const TRACKED: bool = true;
    const ZST: bool = false;
    fn mk(v: u64) -> Self {
        Tr::fresh(v)
    }
    fn val(&self) -> u64 {
        ledger::lock().read(self.id, self.pad.ok(self.id))
    }
    fn set(&mut self, v: u64) {
        ledger::lock().write(self.id, self.pad.ok(self.id), v)
    }
    fn norm(v: u64) -> u64 {
        v
    }
    fn id(&self) -> u32 {
        self.id
    }
}

pub trait ZPad: Copy + Send + Sync + 'static {
    const NAME: &'static str;
    const NEW: Self;
}
impl ZPad for () {
    const NAME: &'static str = "tracked-zst";
    const NEW: () = ();
}
impl ZPad for [u64; 0] {
    const NAME: &'static str = "tracked-zst-align8";
    const NEW: [u64; 0] = [];
}
/// Zero-sized element with drop glue: only counts can be checked.
pub struct TrZ<A: ZPad>(#[allow(dead_code)] A);
pub type TrZ1 = TrZ<()>;
pub type TrZ8 = TrZ<[u64; 0]>;

impl<A: ZPad> Clone for TrZ<A> {
    fn clone(&self) -> Self {
        tick("clone");
        let mut l = ledger::lock();
        l.counts.cloned += 1;
        l.zlive += 1;
        TrZ(A::NEW)
    }
}
impl<A: ZPad> Default for TrZ<A> {
    fn default() -> Self {
        tick("default");
        let mut l = ledger::lock();
        l.counts.defaulted += 1;
        l.zlive += 1;
        TrZ(A::NEW)
    }
}
impl<A: ZPad> Drop for TrZ<A> {
    fn drop(&mut self) {
        ledger::lock().zdrop();
        tick("drop");
    }
}
impl<A: ZPad> Elem for TrZ<A> {
    const NAME: &'static str = A::NAME;
    const TRACKED: bool = true;
    const ZST: bool = true;
    fn mk(_: u64) -> Self {
        let mut l = ledger::lock();
        l.counts.created += 1;
        l.zlive += 1;
        TrZ(A::NEW)
    }
    fn val(&self) -> u64 {
        0
    }
    fn set(&mut self, _: u64) {}
    fn norm(_: u64) -> u64 {
        0
    }
}

// ------------------------------------------------------------------ untracked

macro_rules! plain {
    ($n:ident, $inner:ty, $name:literal, $zst:literal, |$v:ident| $mk:expr, |$s:ident| $val:expr, |$w:ident| $norm:expr) => {
        pub struct $n(pub $inner);
        impl Clone for $n {
            fn clone(&self) -> Self {
                tick("clone");
                $n(self.0.clone())
            }
        }
        impl Default for $n {
            fn default() -> Self {
                tick("default");
                <$n as Elem>::mk(DEFAULT_VAL)
            }
        }
        impl Elem for $n {
            const NAME: &'static str = $name;
            const TRACKED: bool = false;
            const ZST: bool = $zst;
            #[allow(unused_variables)]
            fn mk($v: u64) -> Self {
                $n($mk)
            }
            #[allow(unused_variables)]
            fn val(&self) -> u64 {
                let $s = self;
                $val
            }
            fn set(&mut self, v: u64) {
                *self = Self::mk(v)
            }
            #[allow(unused_variables)]
            fn norm($w: u64) -> u64 {
                $norm
            }
        }
    };
}
plain!(W8, u8, "u8", false, |v| v as u8, |s| s.0 as u64, |w| w & 0xff);
plain!(W16, u16, "u16", false, |v| v as u16, |s| s.0 as u64, |w| w & 0xffff);
plain!(W64, u64, "u64", false, |v| v, |s| s.0, |w| w);
plain!(W24, [u64; 3], "[u64;3]", false, |v| [v, !v, v ^ 0x55], |s| if s.0[1] == !s.0[0] && s.0[2] == s.0[0] ^ 0x55 { s.0[0] } else { 0xBAD_BAD }, |w| w);
#[derive(Clone)]
#[repr(align(64))]
pub struct Line64([u64; 66]);
impl Line64 {
    fn of(v: u64) -> Self {
        Line64(std::array::from_fn(|k| v.wrapping_add((k as u64) << 32)))
    }
    fn get(&self) -> u64 {
        let v = self.0[0];
        if self.0.iter().enumerate().all(|(k, x)| *x == v.wrapping_add((k as u64) << 32)) { v } else { 0xBAD_BAD }
    }
}
plain!(Wide, Line64, "576B-align64", false, |v| Line64::of(v), |s| s.0.get(), |w| w);
plain!(St, String, "String", false, |v| format!("s{v}"), |s| s.0[1..].parse().unwrap_or(0xBAD_BAD), |w| w);
plain!(Bx, Box<u64>, "Box", false, |v| Box::new(v), |s| *s.0, |w| w);
plain!(Z, (), "()", true, |v| (), |s| 0, |w| 0);
plain!(Z8, [u64; 0], "[u64;0]", true, |v| [], |s| 0, |w| 0);

/// No drop glue, but a clone is not a copy of the bits: it gets a serial number of its own.
pub struct Gen {
    v: u64,
    serial: u32,
}
static SERIAL: std::sync::atomic::AtomicU32 = std::sync::atomic::AtomicU32::new(1);
fn serial() -> u32 {
    loop {
        let s = SERIAL.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
        if s != 0 {
            return s;
        }
    }
}
impl Clone for Gen {
    fn clone(&self) -> Self {
        tick("clone");
        Gen::mk(self.v)
    }
}
impl Default for Gen {
    fn default() -> Self {
        tick("default");
        Gen::mk(DEFAULT_VAL)
    }
}
impl Elem for Gen {
    const NAME: &'static str = "serial-numbered";
    const TRACKED: bool = false;
    const ZST: bool = false;
    fn mk(v: u64) -> Self {
        Gen { v, serial: serial() }
    }
    fn val(&self) -> u64 {
        self.v
    }
    fn set(&mut self, v: u64) {
        self.v = v
    }
    fn norm(v: u64) -> u64 {
        v
    }
    fn id(&self) -> u32 {
        self.serial
    }
}

// ------------------------------------------------------------------ operators

macro_rules! ops {
    ([$($g:tt)*] $t:ty) => {
        ops!(@ [$($g)*] $t, Add add AddAssign add_assign b'+');
        ops!(@ [$($g)*] $t, Sub sub SubAssign sub_assign b'-');
        ops!(@ [$($g)*] $t, Mul mul MulAssign mul_assign b'*');
        ops!(@ [$($g)*] $t, Div div DivAssign div_assign b'/');
        ops!(@ [$($g)*] $t, Rem rem RemAssign rem_assign b'%');
        impl<$($g)*> Neg for $t {
            type Output = $t;
            fn neg(self) -> $t {
                tick("neg");
                <$t>::mk(<$t>::norm(mix(b'n', self.val(), 0)))
            }
        }
        impl<$($g)*> PartialEq for $t {
            fn eq(&self, o: &Self) -> bool {
                tick("eq");
                self.val() == o.val()
            }
        }
        impl<$($g)*> fmt::Debug for $t {
            fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
                tick("debug");
                write!(f, "d{:x}", self.val())
            }
        }
        impl<$($g)*> fmt::Display for $t {
            fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
                tick("display");
                write!(f, "v{:x}", self.val())
            }
        }
    };
    (@ [$($g:tt)*] $t:ty, $tr:ident $m:ident $tra:ident $ma:ident $c:literal) => {
        impl<$($g)*> $tr for $t {
            type Output = $t;
            fn $m(self, o: $t) -> $t {
                tick("op");
                <$t>::mk(<$t>::norm(opv($c, self.val(), o.val())))
            }
        }
        impl<$($g)*> $tra for $t {
            fn $ma(&mut self, o: $t) {
                tick("op-assign");
                let v = <$t>::norm(opv($c, self.val(), o.val()));
                self.set(v)
            }
        }
    };
}
ops!([P: Pad] Tr<P>);
ops!([A: ZPad] TrZ<A>);
ops!([] W8);
ops!([] W16);
ops!([] W64);
ops!([] W24);
ops!([] Wide);
ops!([] St);
ops!([] Bx);
ops!([] Gen);
ops!([] Z);
ops!([] Z8);
