//! Reference model of a world plus the comparison of the real world with it.
//!
//! `Sim` drives a real `World` and keeps, for every entity it created, whether it is alive and which
//! component values it holds. All comparisons go through the public API.
use crate::rt::*;
use arche_tape::world::ComponentMeta;
use arche_tape::{EcsId, EcsIds, FetchType, World};
use core::mem::{ManuallyDrop, MaybeUninit};
const FILE: u32 = 1;

pub const NK: usize = 11;
pub const MAXE: usize = 16;
pub const NSER: usize = 512;

// ---- component kinds -------------------------------------------------------------------------
pub const KA: usize = 0;
pub const KB: usize = 1;
pub const KD: usize = 2;
pub const KZ: usize = 3;
pub const KX: usize = 4;
pub const KG: usize = 5;
pub const KT: usize = 6; // data-less entity used as component
pub const KY: usize = 7; // entity with a layout used as component with data
pub const KO: usize = 8;
pub const KC: usize = 9; // Rust type attached through the untyped interface
pub const KL: usize = 10;

pub static mut DROPN: [u8; NSER] = [0; NSER];
pub static mut DROPV: [u64; NSER] = [0; NSER];
/// 0: not handed out, 1: must not have been dropped, 2: must have been dropped exactly once
pub static mut SERST: [u8; NSER] = [0; NSER];
pub static mut SERV: [u64; NSER] = [0; NSER];
pub static mut NEXTSER: usize = 1;
pub static mut ZDROPS: [usize; 2] = [0; 2];
pub static mut ZEXPECT: [usize; 2] = [0; 2];
pub static mut MISALIGNED: usize = 0;

pub fn new_ser(v: u64) -> u64 {
    unsafe {
        let s = NEXTSER;
        NEXTSER += 1;
        SERST[s] = 1;
        SERV[s] = v;
        s as u64
    }
}
pub fn must_drop(ser: u64) {
    unsafe { SERST[ser as usize] = 2 }
}
fn log_drop(ser: u64, v: u64) {
    unsafe {
        ck!(ser < NEXTSER as u64);
        let s = ser as usize;
        // a component must not be destroyed before its time, nor twice
        DROPN[s] += 1;
        DROPV[s] = v;
    }
}
pub fn check_drops() {
    unsafe {
        let mut s = 1;
        while s < NEXTSER {
            if SERST[s] == 1 {
                ck!(DROPN[s] == 0);
            } else if SERST[s] == 2 {
                ck!(DROPN[s] == 1);
                ceq!(DROPV[s], SERV[s]);
            }
            s += 1;
        }
        ck!(ZDROPS[0] == ZEXPECT[0]);
        ck!(ZDROPS[1] == ZEXPECT[1]);
        ck!(MISALIGNED == 0);
    }
}

pub struct A(pub u64);
pub struct B(pub [u8; 3]);
#[repr(C)]
pub struct D {
    pub v: u64,
    pub ser: u64,
}
pub struct Z;
pub struct X(pub Box<(u64, u64)>);
#[repr(C, align(64))]
pub struct G {
    pub v: u64,
}
#[repr(align(32))]
pub struct O;
pub struct C(pub u64);
pub struct L(pub [u64; 5]);
impl Drop for D {
    fn drop(&mut self) {
        log_drop(self.ser, self.v)
    }
}
impl Drop for X {
    fn drop(&mut self) {
        log_drop((self.0).1, (self.0).0)
    }
}
impl Drop for Z {
    fn drop(&mut self) {
        unsafe { ZDROPS[0] += 1 }
    }
}
impl Drop for O {
    fn drop(&mut self) {
        unsafe {
            if self as *const O as usize % 32 != 0 {
                MISALIGNED += 1
            }
            ZDROPS[1] += 1
        }
    }
}

pub trait Comp: 'static + Sized {
    const K: usize;
    /// which bits of the value the component stores
    const MASK: u64;
    const SER: bool = false;
    fn mk(v: u64, ser: u64) -> Self;
    fn val(&self) -> u64;
    fn ser(&self) -> u64 {
        0
    }
    /// in-place change of the value (never of the identity)
    fn set(&mut self, v: u64);
}
impl Comp for A {
    const K: usize = KA;
    const MASK: u64 = !0;
    fn mk(v: u64, _: u64) -> Self {
        A(v)
    }
    fn val(&self) -> u64 {
        self.0
    }
    fn set(&mut self, v: u64) {
        self.0 = v
    }
}
impl Comp for B {
    const K: usize = KB;
    const MASK: u64 = 0xff_ffff;
    fn mk(v: u64, _: u64) -> Self {
        B([v as u8, (v >> 8) as u8, (v >> 16) as u8])
    }
    fn val(&self) -> u64 {
        self.0[0] as u64 | (self.0[1] as u64) << 8 | (self.0[2] as u64) << 16
    }
    fn set(&mut self, v: u64) {
        *self = B::mk(v, 0)
    }
}
impl Comp for D {
    const K: usize = KD;
    const MASK: u64 = !0;
    const SER: bool = true;
    fn mk(v: u64, ser: u64) -> Self {
        D { v, ser }
    }
    fn val(&self) -> u64 {
        self.v
    }
    fn ser(&self) -> u64 {
        self.ser
    }
    fn set(&mut self, v: u64) {
        self.v = v
    }
}
impl Comp for Z {
    const K: usize = KZ;
    const MASK: u64 = 0;
    fn mk(_: u64, _: u64) -> Self {
        Z
    }
    fn val(&self) -> u64 {
        0
    }
    fn set(&mut self, _: u64) {}
}
impl Comp for X {
    const K: usize = KX;
    const MASK: u64 = !0;
    const SER: bool = true;
    fn mk(v: u64, ser: u64) -> Self {
        X(Box::new((v, ser)))
    }
    fn val(&self) -> u64 {
        (self.0).0
    }
    fn ser(&self) -> u64 {
        (self.0).1
    }
    fn set(&mut self, v: u64) {
        (self.0).0 = v
    }
}
impl Comp for G {
    const K: usize = KG;
    const MASK: u64 = !0;
    fn mk(v: u64, _: u64) -> Self {
        G { v }
    }
    fn val(&self) -> u64 {
        self.v
    }
    fn set(&mut self, v: u64) {
        self.v = v
    }
}
impl Comp for O {
    const K: usize = KO;
    const MASK: u64 = 0;
    fn mk(_: u64, _: u64) -> Self {
        O
    }
    fn val(&self) -> u64 {
        0
    }
    fn set(&mut self, _: u64) {}
}
impl Comp for C {
    const K: usize = KC;
    const MASK: u64 = !0;
    fn mk(v: u64, _: u64) -> Self {
        C(v)
    }
    fn val(&self) -> u64 {
        self.0
    }
    fn set(&mut self, v: u64) {
        self.0 = v
    }
}
impl Comp for L {
    const K: usize = KL;
    const MASK: u64 = !0;
    fn mk(v: u64, _: u64) -> Self {
        L([v, !v, v ^ 0x5555, v.wrapping_add(1), v])
    }
    fn val(&self) -> u64 {
        ceq!(self.0[1], !self.0[0]);
        ceq!(self.0[2], self.0[0] ^ 0x5555);
        ceq!(self.0[3], self.0[0].wrapping_add(1));
        ceq!(self.0[4], self.0[0]);
        self.0[0]
    }
    fn set(&mut self, v: u64) {
        *self = L::mk(v, 0)
    }
}

/// `typed!(kind, T => expr; else expr)`: expr with T bound to the Rust type of the kind.
#[macro_export]
macro_rules! typed {
    ($k:expr, $T:ident => $e:expr; else $o:expr) => {
        match $k {
            0 => { type $T = $crate::model::A; $e }
            1 => { type $T = $crate::model::B; $e }
            2 => { type $T = $crate::model::D; $e }
            3 => { type $T = $crate::model::Z; $e }
            4 => { type $T = $crate::model::X; $e }
            5 => { type $T = $crate::model::G; $e }
            8 => { type $T = $crate::model::O; $e }
            9 => { type $T = $crate::model::C; $e }
            10 => { type $T = $crate::model::L; $e }
            _ => $o,
        }
    };
}

// dynamic component with data: 8 bytes value, 4 bytes serial, align 4
pub const YSIZE: usize = 12;
#[repr(C, align(4))]
#[derive(Clone, Copy)]
pub struct YBuf(pub [u8; 12]);
pub fn ybuf(v: u64, ser: u64) -> YBuf {
    let mut b = [0u8; 12];
    let mut i = 0;
    while i < 8 {
        b[i] = (v >> (8 * i)) as u8;
        i += 1;
    }
    b[8] = ser as u8;
    b[9] = (ser >> 8) as u8;
    b[10] = 0x3c;
    b[11] = 0xc3;
    YBuf(b)
}
pub unsafe fn yread(p: *const u8) -> (u64, u64) {
    let b = unsafe { (p as *const YBuf).read() }.0;
    ceq!(b[10] as u64, 0x3c);
    ceq!(b[11] as u64, 0xc3);
    let mut v = 0u64;
    let mut i = 0;
    while i < 8 {
        v |= (b[i] as u64) << (8 * i);
        i += 1;
    }
    (v, b[8] as u64 | (b[9] as u64) << 8)
}
fn ydrop(p: *mut MaybeUninit<u8>) {
    ck!(p as usize % 4 == 0);
    let (v, s) = unsafe { yread(p as *const u8) };
    log_drop(s, v);
}
pub fn ymeta() -> ComponentMeta {
    let mut m = ComponentMeta::from_size_align(YSIZE, 4);
    m.drop_fn = Some(ydrop);
    m
}

pub const SIZE: [usize; NK] = [8, 3, 16, 0, 8, 64, 0, 12, 0, 8, 40];
pub const ALIGN: [usize; NK] = [8, 1, 8, 1, 8, 64, 1, 4, 32, 8, 8];
pub const MASKS: [u64; NK] = [!0, 0xff_ffff, !0, 0, !0, !0, 0, !0, 0, !0, !0];

pub unsafe fn read_raw(k: usize, p: *const u8) -> (u64, u64) {
    ck!(!p.is_null());
    ck!(p as usize % ALIGN[k] == 0);
    if k == KY {
        return unsafe { yread(p) };
    }
    typed!(k, T => { let r = unsafe { &*(p as *const T) }; (r.val(), r.ser()) }; else (0, 0))
}

#[derive(Clone, Copy)]
pub struct Ent {
    pub id: EcsId,
    pub alive: bool,
    pub has: [bool; NK],
    pub val: [u64; NK],
    pub ser: [u64; NK],
}

// comparisons to make after every step
pub const CH_ALIVE: u32 = 1;
pub const CH_HAS: u32 = 2;
pub const CH_ITER: u32 = 4;
pub const CH_GET: u32 = 8;
pub const CH_DYN: u32 = 16;
pub const CH_DROP: u32 = 32;
pub const CH_ALL: u32 = 64;
pub const CH_SHAPES: u32 = 128;
pub const CH_REG: u32 = 256;
pub const CH_CORE: u32 = CH_ALIVE | CH_HAS | CH_ITER | CH_GET | CH_DROP | CH_ALL;
pub const CH_FULL: u32 = 511;

// operations offered at every step
pub const OP_SPAWN: u32 = 1;
pub const OP_DESPAWN: u32 = 2;
pub const OP_ADD: u32 = 4;
pub const OP_REMOVE: u32 = 8;
pub const OP_WGET: u32 = 16;
pub const OP_WITER: u32 = 32;
pub const OP_WDYN: u32 = 64;
pub const OP_ADDDYN: u32 = 128;
pub const OP_REMDYN: u32 = 256;
pub const OP_REG: u32 = 512;
pub const OP_DEAD: u32 = 1024; // despawn of an already dead id
pub const OP_WROW: u32 = 2048;
pub const OP_END: u32 = 4096; // despawn of the entity that stands for a component
pub const OP_STRUCT: u32 = OP_SPAWN | OP_DESPAWN | OP_ADD | OP_REMOVE;

pub struct Sim {
    pub w: ManuallyDrop<World>,
    pub kinds: &'static [usize],
    pub n: usize,
    pub e: [Ent; MAXE],
    pub comp: [Option<EcsId>; NK],
    pub maxe: usize,
    pub ch: u32,
    pub rev: bool,
    pub backwards: bool,
    /// further living entities the model does not track (ids only)
    pub extra: usize,
    pub extra_ids: [Option<EcsId>; 8],
    /// ids of components that were despawned
    pub ended: [Option<EcsId>; 6],
}

pub fn mk_id(index: u32, generation: u32) -> EcsId {
    // EcsId is two u32; which is which is found out through an accessor
    let probe: EcsId = unsafe { core::mem::transmute([1u32, 0u32]) };
    if probe.uindex() == 1 {
        return unsafe { core::mem::transmute([index, generation]) };
    }
    unsafe { core::mem::transmute([generation, index]) }
}

impl Sim {
    pub fn new(kinds: &'static [usize], maxe: usize, ch: u32) -> Sim {
        let blank = Ent { id: mk_id(0, 0), alive: false, has: [false; NK], val: [0; NK], ser: [0; NK] };
        Sim {
            w: ManuallyDrop::new(if kinds.len() == 2 { World::default() } else { World::new() }),
            kinds,
            n: 0,
            e: [blank; MAXE],
            comp: [None; NK],
            maxe,
            ch,
            rev: false,
            backwards: true,
            extra: 0,
            extra_ids: [None; 8],
            ended: [None; 6],
        }
    }

    // ---- bookkeeping -------------------------------------------------------------------------
    /// an id that was just created must differ from every id seen so far
    pub fn fresh_id(&self, id: EcsId) {
        let mut i = 0;
        while i < self.n {
            ck!(self.e[i].id.as_u64() != id.as_u64());
            i += 1;
        }
        for c in self.comp.iter() {
            if let Some(c) = c {
                ck!(c.as_u64() != id.as_u64());
            }
        }
        for c in self.extra_ids.iter().chain(self.ended.iter()) {
            if let Some(c) = c {
                ck!(c.as_u64() != id.as_u64());
            }
        }
    }
    /// the entity that stands for kind k is despawned: everybody loses k
    pub fn end_kind(&mut self, k: usize) {
        let c = self.comp[k].take().unwrap();
        let mut i = 0;
        while i < self.n {
            if self.holds(i, k) {
                self.take(i, k);
            }
            i += 1;
        }
        ck!(self.w.despawn(c));
        ck!(!self.w.despawn(c));
        let mut j = 0;
        while self.ended[j].is_some() {
            j += 1;
        }
        self.ended[j] = Some(c);
    }
    /// the id of kind k as a component; registers it
    pub fn comp_id(&mut self, k: usize) -> EcsId {
        if let Some(c) = self.comp[k] {
            return c;
        }
        let id = if k == KT {
            self.w.spawn().build()
        } else if k == KY {
            unsafe { self.w.spawn_with_component_meta(ymeta()) }.build()
        } else {
            typed!(k, T => self.w.get_or_create_type_id_ecsid::<T>(); else unreachable!())
        };
        self.fresh_id(id);
        self.comp[k] = Some(id);
        id
    }
    fn learn(&mut self, k: usize) {
        self.comp_id(k);
    }
    fn give(&mut self, i: usize, k: usize) -> (u64, u64) {
        let v = if MASKS[k] == 0 { 0 } else { sym() & MASKS[k] };
        let s = if k == KD || k == KX || k == KY { new_ser(v) } else { 0 };
        self.e[i].has[k] = true;
        self.e[i].val[k] = v;
        self.e[i].ser[k] = s;
        (v, s)
    }
    fn take(&mut self, i: usize, k: usize) {
        self.e[i].has[k] = false;
        if self.e[i].ser[k] != 0 {
            must_drop(self.e[i].ser[k]);
        }
        unsafe {
            if k == KZ {
                ZEXPECT[0] += 1
            }
            if k == KO {
                ZEXPECT[1] += 1
            }
        }
    }
    fn newval(&mut self, i: usize, k: usize) -> u64 {
        let v = sym() & MASKS[k];
        self.e[i].val[k] = v;
        if self.e[i].ser[k] != 0 {
            unsafe { SERV[self.e[i].ser[k] as usize] = v }
        }
        v
    }

    // ---- operations --------------------------------------------------------------------------
    /// mask: bit b means kinds[b]
    pub fn spawn(&mut self, mask: usize) -> usize {
        self.spawn_cap(mask, None)
    }
    pub fn spawn_cap(&mut self, mask: usize, cap: Option<usize>) -> usize {
        let i = self.n;
        let nk = self.kinds.len();
        // dynamic kinds need their component entity before the builder borrows the world
        let mut b = 0;
        while b < nk {
            if mask >> b & 1 == 1 && (self.kinds[b] == KT || self.kinds[b] == KY || self.kinds[b] == KC) {
                self.learn(self.kinds[b]);
            }
            b += 1;
        }
        let mut order = [0usize; NK];
        let mut no = 0;
        let mut b = 0;
        while b < nk {
            let bb = if self.rev { nk - 1 - b } else { b };
            if mask >> bb & 1 == 1 {
                order[no] = self.kinds[bb];
                no += 1;
            }
            b += 1;
        }
        self.spawn_order(i, &order[..no], cap)
    }
    /// creation with the given kinds in the given order
    pub fn spawn_order(&mut self, i: usize, order: &[usize], cap: Option<usize>) -> usize {
        self.spawn_how(i, order, cap, 0)
    }
    /// `how`: 0 built once, 1 built twice, 2 never built, 3 built, given one more value, built again
    pub fn spawn_how(&mut self, i: usize, order: &[usize], cap: Option<usize>, how: usize) -> usize {
        let mut j = 0;
        let mut vals = [(0u64, 0u64); NK];
        while j < order.len() {
            vals[j] = self.give(i, order[j]);
            j += 1;
        }
        let comp = self.comp;
        let w: &mut World = &mut self.w;
        let mut bl = match cap {
            None => w.spawn(),
            Some(c) => w.spawn_with_capacity(c),
        };
        let mut j = 0;
        while j < order.len() {
            let k = order[j];
            let (v, s) = vals[j];
            bl = if k == KT {
                bl.with_dynamic(comp[KT].unwrap())
            } else if k == KY {
                let mut y = ybuf(v, s);
                unsafe { bl.with_dynamic_with_data(&mut y as *mut _ as *mut u8, comp[KY].unwrap()) }
            } else if k == KC {
                let mut c = ManuallyDrop::new(C(v));
                unsafe { bl.with_dynamic_with_data(&mut c as *mut _ as *mut u8, comp[KC].unwrap()) }
            } else {
                typed!(k, T => bl.with(T::mk(v, s)); else unreachable!())
            };
            j += 1;
        }
        if how == 2 {
            drop(bl);
            let mut j = 0;
            while j < order.len() {
                let k = order[j];
                self.e[i].has[k] = false;
                unsafe { SERST[self.e[i].ser[k] as usize] = 0 }
                self.learn(k);
                j += 1;
            }
            return i;
        }
        let id = bl.build();
        if how == 1 {
            ck!(bl.build() == id);
        }
        if how == 3 {
            let mut bl = bl.with(C(77));
            ck!(bl.build() == id);
            drop(bl);
            self.learn(KC);
        } else {
            drop(bl);
        }
        self.fresh_id(id);
        self.e[i].id = id;
        self.e[i].alive = true;
        self.n = i + 1;
        let mut j = 0;
        while j < order.len() {
            self.learn(order[j]);
            j += 1;
        }
        i
    }
    pub fn despawn(&mut self, i: usize) {
        let r = self.w.despawn(self.e[i].id);
        ck!(r == self.e[i].alive);
        if self.e[i].alive {
            self.e[i].alive = false;
            let mut k = 0;
            while k < NK {
                if self.e[i].has[k] {
                    self.take(i, k);
                }
                k += 1;
            }
        }
    }
    pub fn add(&mut self, i: usize, k: usize) {
        let id = self.e[i].id;
        let (v, s) = self.give(i, k);
        match k {
            KT => {
                let c = self.comp_id(KT);
                self.w.add_component_dynamic(id, c)
            }
            KY | KC => self.add_raw(i, k, v, s),
            _ => typed!(k, T => self.w.add_component(id, T::mk(v, s)); else unreachable!()),
        }
        self.learn(k);
    }
    fn add_raw(&mut self, i: usize, k: usize, v: u64, s: u64) {
        let id = self.e[i].id;
        let c = self.comp_id(k);
        match k {
            KT => {
                let mut u = ();
                unsafe { self.w.add_component_dynamic_with_data(id, c, &mut u as *mut _ as *mut u8) }
            }
            KY => {
                let mut y = ybuf(v, s);
                unsafe { self.w.add_component_dynamic_with_data(id, c, &mut y as *mut _ as *mut u8) }
            }
            _ => typed!(k, T => {
                let mut t = ManuallyDrop::new(T::mk(v, s));
                unsafe { self.w.add_component_dynamic_with_data(id, c, &mut t as *mut _ as *mut u8) }
            }; else unreachable!()),
        }
    }
    pub fn add_dyn(&mut self, i: usize, k: usize) {
        let (v, s) = self.give(i, k);
        self.add_raw(i, k, v, s);
    }
    pub fn remove(&mut self, i: usize, k: usize) {
        let id = self.e[i].id;
        self.take(i, k);
        match k {
            KT | KY => {
                let c = self.comp_id(k);
                self.w.remove_component_dynamic(id, c)
            }
            _ => typed!(k, T => self.w.remove_component::<T>(id); else unreachable!()),
        }
    }
    pub fn remove_dyn(&mut self, i: usize, k: usize) {
        let id = self.e[i].id;
        self.take(i, k);
        let c = self.comp_id(k);
        self.w.remove_component_dynamic(id, c)
    }
    pub fn write_get(&mut self, i: usize, k: usize) {
        let id = self.e[i].id;
        let v = self.newval(i, k);
        typed!(k, T => {
            let mut q = self.w.query::<(&mut T,)>();
            match q.get(id) {
                Some((t,)) => t.set(v),
                None => ck!(false),
            }
        }; else self.write_raw(i, k, v));
    }
    fn write_raw(&mut self, i: usize, k: usize, v: u64) {
        let id = self.e[i].id;
        let c = self.comp_id(k);
        let s = self.e[i].ser[k];
        match self.w.get_component_mut_dynamic(id, c) {
            Some(p) => {
                if k == KY {
                    unsafe { (p as *mut YBuf).write(ybuf(v, s)) }
                } else {
                    typed!(k, T => unsafe { (*(p as *mut T)).set(v) }; else ())
                }
            }
            None => ck!(false),
        }
    }
    pub fn write_dyn(&mut self, i: usize, k: usize) {
        let v = self.newval(i, k);
        self.write_raw(i, k, v);
    }
    /// every entity that has k gets a new value through one iteration
    pub fn write_iter(&mut self, k: usize) {
        let mut nv = [0u64; MAXE];
        let mut i = 0;
        while i < self.n {
            if self.e[i].alive && self.e[i].has[k] {
                nv[i] = self.newval(i, k);
            }
            i += 1;
        }
        let (e, n) = (&self.e, self.n);
        typed!(k, T => {
            let mut q = self.w.query::<(&mut T, EcsIds)>();
            for (t, id) in q.iter() {
                let mut i = 0;
                while i < n && e[i].id != id {
                    i += 1;
                }
                ck!(i < n);
                t.set(nv[i]);
            }
        }; else ());
    }
    /// every entity that has k gets a new value through the rows of an untyped query
    pub fn write_rows(&mut self, k: usize) {
        let c = self.comp_id(k);
        let mut nv = [0u64; MAXE];
        let mut i = 0;
        while i < self.n {
            if self.e[i].alive && self.e[i].has[k] {
                nv[i] = self.newval(i, k);
            }
            i += 1;
        }
        let (e, n) = (&self.e, self.n);
        let mut q = self.w.query_dynamic([FetchType::Mut(c), FetchType::EcsId]);
        for [p, idp] in q.iter() {
            let id = unsafe { *(idp as *const EcsId) };
            let mut i = 0;
            while i < n && e[i].id != id {
                i += 1;
            }
            ck!(i < n);
            if k == KY {
                unsafe { (p as *mut YBuf).write(ybuf(nv[i], e[i].ser[k])) }
            } else {
                typed!(k, T => unsafe { (*(p as *mut T)).set(nv[i]) }; else ())
            }
        }
    }

    // ---- one arbitrary step --------------------------------------------------------------------
    /// Performs one operation chosen among all that are valid now; false when none is.
    pub fn step(&mut self, ops: u32) -> bool {
        let mut list = [(0u32, 0usize, 0usize); 192];
        let mut m = 0;
        let mut put = |o: u32, a: usize, b: usize| {
            list[m] = (o, a, b);
            m += 1;
        };
        let nk = self.kinds.len();
        if ops & OP_SPAWN != 0 && self.n < self.maxe {
            let mut s = 0;
            while s < 1 << nk {
                put(OP_SPAWN, s, 0);
                s += 1;
            }
        }
        let mut i = 0;
        while i < self.n {
            let e = &self.e[i];
            if ops & OP_DESPAWN != 0 && e.alive || ops & OP_DEAD != 0 && !e.alive {
                put(OP_DESPAWN, i, 0);
            }
            if e.alive {
                let mut b = 0;
                while b < nk {
                    let k = self.kinds[b];
                    for &o in [OP_ADD, OP_ADDDYN].iter() {
                        if ops & o != 0 && !e.has[k] {
                            put(o, i, k);
                        }
                    }
                    for &o in [OP_REMOVE, OP_REMDYN].iter() {
                        if ops & o != 0 && e.has[k] {
                            put(o, i, k);
                        }
                    }
                    if MASKS[k] != 0 && e.has[k] {
                        for &o in [OP_WGET, OP_WDYN].iter() {
                            if ops & o != 0 {
                                put(o, i, k);
                            }
                        }
                    }
                    b += 1;
                }
            }
            i += 1;
        }
        let mut b = 0;
        while b < nk {
            let k = self.kinds[b];
            if ops & OP_REG != 0 && self.comp[k].is_none() {
                put(OP_REG, k, 0);
            }
            if ops & OP_END != 0 && self.comp[k].is_some() {
                put(OP_END, k, 0);
            }
            let mut some = false;
            let mut i = 0;
            while i < self.n {
                some |= self.e[i].alive && self.e[i].has[k];
                i += 1;
            }
            if some && MASKS[k] != 0 {
                if ops & OP_WITER != 0 && k != KY {
                    put(OP_WITER, k, 0);
                }
                if ops & OP_WROW != 0 {
                    put(OP_WROW, k, 0);
                }
            }
            b += 1;
        }
        if m == 0 {
            return false;
        }
        let (o, a, b) = list[choice(m)];
        trace(o as u64 * 10000 + a as u64 * 100 + b as u64);
        match o {
            OP_SPAWN => {
                self.spawn(a);
            }
            OP_DESPAWN => self.despawn(a),
            OP_ADD => self.add(a, b),
            OP_ADDDYN => self.add_dyn(a, b),
            OP_REMOVE => self.remove(a, b),
            OP_REMDYN => self.remove_dyn(a, b),
            OP_WGET => self.write_get(a, b),
            OP_WDYN => self.write_dyn(a, b),
            OP_WITER => self.write_iter(a),
            OP_WROW => self.write_rows(a),
            OP_REG => {
                self.comp_id(a);
            }
            OP_END => self.end_kind(a),
            _ => unreachable!(),
        }
        true
    }

    /// Initial situations; each leaves a valid world of at most `maxe` entities.
    pub const NSCAFFOLD: usize = 6;
    pub fn scaffold(&mut self, s: usize) {
        let nk = self.kinds.len();
        let (k0, k1) = (self.kinds[0], self.kinds[1]);
        let all = (1 << nk) - 1;
        match s {
            0 => {}
            // several in one set
            1 => {
                self.spawn(3);
                self.spawn(3);
                self.spawn(3);
            }
            // spread over sets that are linked by remembered transitions in both directions
            2 => {
                self.spawn(1);
                self.spawn(1);
                self.add(0, k1);
                self.add(1, k1);
                self.remove(0, k1);
                self.spawn(2);
            }
            // everybody has everything, in a set created by the last addition
            3 => {
                self.spawn(all & !1);
                self.add(0, k0);
                self.spawn(all);
                self.spawn(all);
            }
            // slots reused before the component types are first seen
            4 => {
                self.spawn(0);
                self.spawn(0);
                self.despawn(0);
                self.despawn(1);
                self.comp_id(k1);
                self.comp_id(k0);
                self.spawn(1);
                self.spawn(3);
            }
            // sets emptied by removal and by despawning
            _ => {
                self.spawn(all);
                self.spawn(1);
                self.remove(0, k0);
                self.remove(1, k0);
                self.spawn(3);
                self.despawn(2);
            }
        }
    }

    // ---- comparison ----------------------------------------------------------------------------
    pub fn find(&self, id: EcsId) -> usize {
        let mut i = 0;
        while i < self.n && self.e[i].id.as_u64() != id.as_u64() {
            i += 1;
        }
        i
    }
    pub fn holds(&self, i: usize, k: usize) -> bool {
        self.e[i].alive && self.e[i].has[k]
    }
    pub fn expect_mask(&self, need: usize) -> u64 {
        let mut m = 0;
        let mut i = 0;
        while i < self.n {
            let mut ok = self.e[i].alive;
            let mut k = 0;
            while k < NK {
                ok &= need >> k & 1 == 0 || self.e[i].has[k];
                k += 1;
            }
            m |= (ok as u64) << i;
            i += 1;
        }
        m
    }
    /// Every other comparison goes through everything backwards: what was looked at last is then the first to be looked at again.
    fn turn(&self, j: usize, n: usize) -> usize {
        if self.backwards { n - 1 - j } else { j }
    }
    pub fn check(&mut self) {
        state();
        self.backwards = !self.backwards;
        let mut part = 0;
        while part < 4 {
            match self.turn(part, 4) {
                0 => self.check_alive(),
                1 => {
                    if self.ch & CH_DROP != 0 {
                        check_drops();
                    }
                    let mut b = 0;
                    while b < 2 * self.kinds.len() {
                        let x = self.turn(b, 2 * self.kinds.len());
                        let k = self.kinds[x / 2];
                        if x % 2 == 0 {
                            typed!(k, T => self.check_typed::<T>(); else ());
                        } else if self.ch & CH_DYN != 0 || (self.ch & (CH_ITER | CH_GET) != 0 && (k == KT || k == KY)) {
                            self.check_dyn(k);
                        }
                        b += 1;
                    }
                }
                2 => {
                    if self.ch & CH_ALL != 0 {
                        self.check_all();
                    }
                }
                _ => {
                    if self.ch & CH_SHAPES != 0 {
                        crate::shapes::check_shapes(self);
                    }
                }
            }
            part += 1;
        }
    }
    fn check_alive(&mut self) {
        if self.ch & CH_ALIVE == 0 {
            return;
        }
        let mut j = 0;
        while j < self.n {
            let i = self.turn(j, self.n);
            let e = &self.e[i];
            ck!(self.w.is_alive(e.id) == e.alive);
            let m = self.w.get_entity_meta(e.id);
            ck!(m.is_some() == e.alive);
            if let Some(m) = m {
                // a plain entity, nothing to store when it is used as a component
                ck!(m.component_meta.layout.size() == 0);
            }
            j += 1;
        }
        let mut k = 0;
        while k < NK {
            if let Some(c) = self.comp[k] {
                ck!(self.w.is_alive(c));
                let m = self.w.get_entity_meta(c);
                ck!(m.is_some());
                let l = m.unwrap().component_meta.layout;
                ck!(l.size() == SIZE[k] && l.align() == ALIGN[k]);
            }
            k += 1;
        }
        for c in self.ended.iter() {
            if let Some(c) = *c {
                ck!(!self.w.is_alive(c));
                ck!(self.w.get_entity_meta(c).is_none());
                let mut q = self.w.query_dynamic([FetchType::EcsId, FetchType::Immut(c)]);
                ck!(q.iter().next().is_none());
            }
        }
    }
    fn check_typed<T: Comp>(&mut self) {
        let k = T::K;
        let ch = self.ch;
        let n = self.n;
        let mut part = 0;
        while part < 4 {
            match self.turn(part, 4) {
                0 => {
                    if ch & CH_REG != 0 {
                        if let Some(c) = self.comp[k] {
                            ck!(self.w.get_or_create_type_id_ecsid::<T>() == c);
                        }
                    }
                }
                1 => {
                    if ch & CH_ITER != 0 {
                        let want = self.expect_mask(1 << k);
                        let mut seen = 0u64;
                        let mut q = self.w.query::<(EcsIds, &T)>();
                        for (id, t) in q.iter() {
                            let i = self.find(id);
                            ck!(i < n);
                            ck!(seen >> i & 1 == 0);
                            seen |= 1 << i;
                            ck!(want >> i & 1 == 1);
                            ck!(t as *const T as usize % ALIGN[k] == 0);
                            ceq!(t.val(), self.e[i].val[k]);
                            ceq!(t.ser(), self.e[i].ser[k]);
                            trace(t.val());
                        }
                        ck!(seen == want);
                        trace(seen);
                    }
                }
                2 => {
                    if ch & CH_GET != 0 {
                        let mut q = self.w.query::<(&T, EcsIds)>();
                        let mut j = 0;
                        while j < n {
                            let i = self.turn(j, n);
                            match q.get(self.e[i].id) {
                                Some((t, id)) => {
                                    ck!(self.holds(i, k));
                                    ck!(id == self.e[i].id);
                                    ck!(t as *const T as usize % ALIGN[k] == 0);
                                    ceq!(t.val(), self.e[i].val[k]);
                                    ceq!(t.ser(), self.e[i].ser[k]);
                                }
                                None => ck!(!self.holds(i, k)),
                            }
                            j += 1;
                        }
                    }
                }
                _ => {
                    if ch & CH_HAS != 0 {
                        let mut j = 0;
                        while j < n {
                            let i = self.turn(j, n);
                            ck!(self.w.has_component::<T>(self.e[i].id) == self.holds(i, k));
                            j += 1;
                        }
                    }
                }
            }
            part += 1;
        }
    }
    fn check_dyn(&mut self, k: usize) {
        let c = match self.comp[k] {
            Some(c) => c,
            None => return,
        };
        let n = self.n;
        let want = self.expect_mask(1 << k);
        // one entity at a time
        let mut ptr = [0usize; MAXE];
        let mut j = 0;
        while j < n {
            let i = self.turn(j, n);
            match self.w.get_component_mut_dynamic(self.e[i].id, c) {
                Some(p) => {
                    ck!(self.holds(i, k));
                    let (v, s) = unsafe { read_raw(k, p) };
                    ceq!(v, self.e[i].val[k]);
                    ceq!(s, self.e[i].ser[k]);
                    ptr[i] = p as usize;
                }
                None => ck!(!self.holds(i, k)),
            }
            j += 1;
        }
        // rows
        let mut seen = 0u64;
        {
            let mut q = self.w.query_dynamic([FetchType::EcsId, FetchType::Immut(c)]);
            for [idp, p] in q.iter() {
                let i = self.find(unsafe { *(idp as *const EcsId) });
                ck!(i < n);
                ck!(seen >> i & 1 == 0);
                seen |= 1 << i;
                ck!(want >> i & 1 == 1);
                ck!(SIZE[k] == 0 || p as usize == ptr[i]);
                let (v, s) = unsafe { read_raw(k, p) };
                ceq!(v, self.e[i].val[k]);
                ceq!(s, self.e[i].ser[k]);
            }
            ck!(seen == want);
        }
        // columns
        let mut seen = 0u64;
        {
            let mut q = self.w.query_dynamic([FetchType::Mut(c), FetchType::EcsId]);
            for col in q.column_iter() {
                let [(p, l), (idp, l2)]: [(*mut u8, usize); 2] = unsafe { core::mem::transmute(col) };
                ck!(l == l2);
                let mut j = 0;
                while j < l {
                    let i = self.find(unsafe { *(idp as *const EcsId).add(j) });
                    ck!(i < n);
                    ck!(seen >> i & 1 == 0);
                    seen |= 1 << i;
                    ck!(want >> i & 1 == 1);
                    let pj = unsafe { p.add(j * SIZE[k]) };
                    ck!(SIZE[k] == 0 || pj as usize == ptr[i]);
                    let (v, s) = unsafe { read_raw(k, pj) };
                    ceq!(v, self.e[i].val[k]);
                    ceq!(s, self.e[i].ser[k]);
                    j += 1;
                }
            }
            ck!(seen == want);
        }
        trace(seen);
    }
    /// iteration over all ids: tracked entities, component entities, nothing else
    fn check_all(&mut self) {
        let want = self.expect_mask(0);
        let mut seen = 0u64;
        let mut cseen = 0u64;
        let mut xseen = 0u64;
        let mut q = self.w.query::<(EcsIds,)>();
        for (id,) in q.iter() {
            let i = self.find(id);
            if i < self.n {
                ck!(seen >> i & 1 == 0);
                seen |= 1 << i;
                continue;
            }
            let mut hit = false;
            let mut k = 0;
            while k < NK {
                if let Some(c) = self.comp[k] {
                    if c.as_u64() == id.as_u64() {
                        ck!(cseen >> k & 1 == 0);
                        cseen |= 1 << k;
                        hit = true;
                    }
                }
                k += 1;
            }
            let mut k = 0;
            while k < 8 {
                if let Some(c) = self.extra_ids[k] {
                    if c.as_u64() == id.as_u64() {
                        ck!(xseen >> k & 1 == 0);
                        xseen |= 1 << k;
                        hit = true;
                    }
                }
                k += 1;
            }
            ck!(hit);
        }
        ck!(seen == want);
        let mut k = 0;
        while k < NK {
            ck!((cseen >> k & 1 == 1) == self.comp[k].is_some());
            k += 1;
        }
        let mut k = 0;
        while k < 8 {
            ck!((xseen >> k & 1 == 1) == self.extra_ids[k].is_some());
            k += 1;
        }
    }
    /// the world goes away: everything still held is destroyed now, once
    pub fn finish(mut self) {
        let mut i = 0;
        while i < self.n {
            if self.e[i].alive {
                let mut k = 0;
                while k < NK {
                    if self.e[i].has[k] {
                        self.take(i, k);
                    }
                    k += 1;
                }
            }
            i += 1;
        }
        unsafe { ManuallyDrop::drop(&mut self.w) };
        if self.ch & CH_DROP != 0 {
            check_drops();
        }
    }
}
