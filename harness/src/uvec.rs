//! The untyped vector against an array of element numbers, per element layout (C09).
use crate::entries;
use crate::rt::*;
use core::alloc::Layout;
use core::mem::MaybeUninit;
use untyped_vec::{TypeInfo, UntypedVec};
const FILE: u32 = 6;

const MAXEL: usize = 128;
const MAXV: usize = 64;
static mut ESIZE: usize = 0;
static mut EALIGN: usize = 1;
static mut EVAL: [u64; MAXEL] = [0; MAXEL];
static mut NEL: usize = 0;
static mut DROPS: [u8; MAXEL] = [0; MAXEL];
static mut NDROPS: usize = 0;
static mut WANT: [u8; MAXEL] = [0; MAXEL];
static mut NWANT: usize = 0;

fn byte(el: usize, i: usize) -> u8 {
    // the first byte names the element, the rest is arbitrary
    if i == 0 {
        return el as u8;
    }
    let v = unsafe { EVAL[el] };
    (v >> (8 * ((i - 1) % 8))) as u8 ^ ((i / 8) as u8).wrapping_mul(37)
}
fn same(el: usize, p: *const u8) {
    unsafe {
        let mut i = 0;
        while i < ESIZE {
            ceq!(*p.add(i) as u64, byte(el, i) as u64);
            i += 1;
        }
    }
}
fn drop_el(p: *mut MaybeUninit<u8>) {
    unsafe {
        ck!(!p.is_null());
        ck!(p as usize % EALIGN == 0);
        NDROPS += 1;
        if ESIZE > 0 {
            let el = *(p as *const u8) as usize;
            ck!(el < NEL);
            same(el, p as *const u8);
            DROPS[el] += 1;
        }
    }
}

struct Two {
    v: [UntypedVec; 2],
    m: [[usize; MAXV]; 2],
    n: [usize; 2],
    size: usize,
    align: usize,
    drops: bool,
    slices: fn(&mut UntypedVec, usize),
}
#[repr(C, align(64))]
struct Buf([u8; 128]);

impl Two {
    fn new<T: 'static>(drops: bool) -> Two {
        let l = Layout::new::<T>();
        unsafe {
            ESIZE = l.size();
            EALIGN = l.align();
        }
        let ti = TypeInfo::new(l, if drops { Some(drop_el) } else { None });
        let mut a = unsafe { UntypedVec::new_from_raw(ti) };
        let b = UntypedVec::new_from_untyped_vec(&mut a);
        ck!(a.get_type_info() == b.get_type_info());
        ck!(b.get_type_info().layout == l);
        ck!(b.get_type_info().drop_fn.is_some() == drops);
        Two { v: [a, b], m: [[0; MAXV]; 2], n: [0; 2], size: l.size(), align: l.align(), drops, slices: slices::<T> }
    }
    fn push(&mut self, a: usize) {
        unsafe {
            let el = NEL;
            NEL += 1;
            EVAL[el] = if self.size > 1 { sym() } else { 0 };
            let mut b = Buf([0xee; 128]);
            let mut i = 0;
            while i < self.size {
                b.0[i] = byte(el, i);
                i += 1;
            }
            self.v[a].push_raw(b.0.as_mut_ptr() as *mut MaybeUninit<u8>);
            self.m[a][self.n[a]] = el;
            self.n[a] += 1;
        }
    }
    fn gone(&mut self, el: usize) {
        if self.drops {
            unsafe {
                NWANT += 1;
                WANT[el] = 1;
            }
        }
    }
    fn pop(&mut self, a: usize) {
        let r = self.v[a].pop();
        ck!(r == (self.n[a] > 0));
        if self.n[a] > 0 {
            self.n[a] -= 1;
            let el = self.m[a][self.n[a]];
            self.gone(el);
        }
    }
    /// the model's part of taking out element i
    fn take(&mut self, a: usize, i: usize) -> usize {
        let el = self.m[a][i];
        self.n[a] -= 1;
        self.m[a][i] = self.m[a][self.n[a]];
        el
    }
    fn swap_remove(&mut self, a: usize, i: usize) {
        self.v[a].swap_remove(i);
        let el = self.take(a, i);
        self.gone(el);
    }
    fn give(&mut self, a: usize, i: usize) {
        let [x, y] = &mut self.v;
        let (from, to) = if a == 0 { (x, y) } else { (y, x) };
        unsafe { from.swap_move_element_to_other_vec(to, i) };
        let el = self.take(a, i);
        self.m[1 - a][self.n[1 - a]] = el;
        self.n[1 - a] += 1;
    }
    fn check(&mut self) {
        state();
        let mut a = 0;
        while a < 2 {
            let n = self.n[a];
            let v = &mut self.v[a];
            ck!(v.len() == n);
            ck!(v.is_empty() == (n == 0));
            if self.size > 0 {
                ck!(v.raw_len() == n * self.size);
            }
            let base = unsafe { v.as_immut_ptr() } as usize;
            ck!(base != 0 && base % self.align == 0);
            ck!(unsafe { v.as_mut_ptr() } as usize == base);
            let mut i = 0;
            while i < n {
                match v.get_raw(i) {
                    Some(p) => {
                        ck!(p as usize % self.align == 0);
                        ck!(self.size == 0 || p as usize == base + i * self.size);
                        same(self.m[a][i], p);
                    }
                    None => ck!(false),
                }
                match v.get_mut_raw(i) {
                    Some(p) => ck!(self.size == 0 && p as usize % self.align == 0 || p as usize == base + i * self.size),
                    None => ck!(false),
                }
                i += 1;
            }
            ck!(v.get_raw(n).is_none());
            ck!(v.get_mut_raw(n).is_none());
            (self.slices)(v, n);
            trace(n as u64);
            a += 1;
        }
        self.drops_ok();
    }
    fn drops_ok(&self) {
        unsafe {
            ck!(NDROPS == NWANT);
            if self.size > 0 {
                let mut e = 0;
                while e < NEL {
                    ck!(DROPS[e] == WANT[e]);
                    e += 1;
                }
            }
        }
    }
    fn finish(mut self) {
        let mut a = 0;
        while a < 2 {
            let mut i = 0;
            while i < self.n[a] {
                let el = self.m[a][i];
                self.gone(el);
                i += 1;
            }
            a += 1;
        }
        let drops = self.drops;
        let size = self.size;
        let Two { v, .. } = self;
        drop(v);
        unsafe {
            ck!(NDROPS == NWANT);
            if drops && size > 0 {
                let mut e = 0;
                while e < NEL {
                    ck!(DROPS[e] == 1 && WANT[e] == 1);
                    e += 1;
                }
            }
        }
    }
    fn fill(&mut self, n: [usize; 2]) {
        let mut a = 0;
        while a < 2 {
            let mut i = 0;
            while i < n[a] {
                self.push(a);
                i += 1;
            }
            a += 1;
        }
    }
    fn step(&mut self) {
        let a = choice(2);
        let n = self.n[a];
        let c = choice(2 + 2 * n);
        if c == 0 {
            self.push(a)
        } else if c == 1 {
            self.pop(a)
        } else if c < 2 + n {
            self.swap_remove(a, c - 2)
        } else {
            self.give(a, c - 2 - n)
        }
    }
}
fn slices<T: 'static>(v: &mut UntypedVec, n: usize) {
    let base = unsafe { v.as_immut_ptr() } as usize;
    let s = unsafe { v.as_slice::<T>() };
    ck!(s.len() == n);
    ck!(s.as_ptr() as usize % core::mem::align_of::<T>() == 0);
    ck!(n == 0 || core::mem::size_of::<T>() == 0 || s.as_ptr() as usize == base);
    let s = unsafe { v.as_slice_mut::<T>() };
    ck!(s.len() == n);
    ck!(s.as_ptr() as usize % core::mem::align_of::<T>() == 0);
    ck!(n == 0 || core::mem::size_of::<T>() == 0 || s.as_ptr() as usize == base);
}

#[repr(align(16))]
struct A16([u8; 16]);
#[repr(align(64))]
struct A64([u8; 64]);
#[repr(align(32))]
struct Z32;
struct S40([u64; 5]);
struct S12([u32; 3]);

const STARTS: [[usize; 2]; 8] = [[0, 0], [1, 0], [3, 1], [4, 0], [4, 4], [5, 3], [2, 8], [8, 7]];
fn start<T: 'static>() -> Two {
    let mut t = Two::new::<T>(flag());
    t.fill(STARTS[choice(8)]);
    t.check();
    t
}
fn ops<T: 'static>(k: usize) {
    let mut t = start::<T>();
    let mut j = 0;
    while j < k {
        t.step();
        t.check();
        j += 1;
    }
    reach(1);
    t.finish();
}
fn pick(k: usize, small: bool) {
    if small {
        match choice(5) {
            0 => ops::<u8>(k),
            1 => ops::<[u8; 3]>(k),
            2 => ops::<u64>(k),
            3 => ops::<()>(k),
            _ => ops::<Z32>(k),
        }
    } else {
        match choice(5) {
            0 => ops::<S12>(k),
            1 => ops::<S40>(k),
            2 => ops::<A16>(k),
            3 => ops::<A64>(k),
            _ => ops::<[u16; 7]>(k),
        }
    }
}
/// Any 64-bit index: beyond the end it is refused or gives nothing, and changes nothing.
fn any_index<T: 'static>() {
    let mut t = start::<T>();
    let a = choice(2);
    let i = sym() as usize;
    let n = t.n[a];
    match choice(4) {
        0 => {
            let r = t.v[a].get_raw(i).map(|p| p as usize);
            ck!(r.is_some() == (i < n));
        }
        1 => {
            let r = t.v[a].get_mut_raw(i).map(|p| p as usize);
            ck!(r.is_some() == (i < n));
        }
        2 => {
            let bad = refused(|| t.v[a].swap_remove(i));
            ck!(bad == (i >= n));
            if !bad {
                let el = t.take(a, i);
                t.gone(el);
            }
        }
        _ => {
            if t.size == 0 {
                assume(i < n);
            }
            let [x, y] = &mut t.v;
            let (from, to) = if a == 0 { (x, y) } else { (y, x) };
            let bad = refused(|| unsafe { from.swap_move_element_to_other_vec(to, i) });
            ck!(bad == (i >= n));
            if !bad {
                let el = t.take(a, i);
                t.m[1 - a][t.n[1 - a]] = el;
                t.n[1 - a] += 1;
            }
        }
    }
    t.check();
    if flag() {
        t.push(a);
    } else {
        t.pop(a);
    }
    t.check();
    reach(1);
    t.finish();
}
fn index() {
    match choice(6) {
        0 => any_index::<u8>(),
        1 => any_index::<[u8; 3]>(),
        2 => any_index::<u64>(),
        3 => any_index::<()>(),
        4 => any_index::<S40>(),
        _ => any_index::<A64>(),
    }
}
/// Long runs of pushes, moves and pops through several growth steps.
fn long<T: 'static>() {
    let mut t = Two::new::<T>(flag());
    let n = 30 + choice(4);
    let mut i = 0;
    while i < n {
        t.push(0);
        if i & (i + 1) == 0 || i & 7 == 0 {
            t.check();
        }
        i += 1;
    }
    t.check();
    // move a part over, from the front, the middle or the end
    let w = choice(3);
    let mut i = 0;
    while i < n / 2 {
        let k = t.n[0];
        t.give(0, if w == 0 { 0 } else if w == 1 { k / 2 } else { k - 1 });
        if i & 7 == 0 {
            t.check();
        }
        i += 1;
    }
    t.check();
    while t.n[0] > 0 {
        if w == 0 {
            t.pop(0)
        } else {
            t.swap_remove(0, t.n[0] / 2)
        }
    }
    t.check();
    t.pop(0);
    t.push(0);
    t.check();
    reach(1);
    t.finish();
}
/// Storages that were once larger, then anything, then filled again past where they were.
fn shrunk<T: 'static>(k: usize) {
    const ONCE: [[usize; 2]; 5] = [[0, 0], [1, 1], [5, 1], [9, 2], [17, 1]];
    let mut t = Two::new::<T>(flag());
    let once = [ONCE[choice(5)], ONCE[choice(5)]];
    t.fill([once[0][0], once[1][0]]);
    let mut a = 0;
    while a < 2 {
        while t.n[a] > once[a][1] {
            if t.n[a] & 1 == 0 {
                t.pop(a)
            } else {
                t.swap_remove(a, 0)
            }
        }
        a += 1;
    }
    t.check();
    let mut j = 0;
    while j < k {
        t.step();
        t.check();
        j += 1;
    }
    let a = choice(2);
    let mut i = 0;
    while i < 18 {
        t.push(a);
        t.push(1 - a);
        if i == 3 {
            t.check();
        }
        i += 1;
    }
    t.check();
    reach(1);
    t.finish();
}
fn shrinks(k: usize) {
    match choice(5) {
        0 => shrunk::<u8>(k),
        1 => shrunk::<u64>(k),
        2 => shrunk::<S12>(k),
        3 => shrunk::<A16>(k),
        _ => shrunk::<Z32>(k),
    }
}
fn longs() {
    match choice(6) {
        0 => long::<u8>(),
        1 => long::<[u8; 3]>(),
        2 => long::<u64>(),
        3 => long::<Z32>(),
        4 => long::<S40>(),
        _ => long::<A64>(),
    }
}
/// Writing through the pointers and slices handed out is what later reads see.
fn writes() {
    let mut t = Two::new::<u64>(false);
    t.fill(STARTS[1 + choice(7)]);
    let a = (t.n[1] > 0 && flag()) as usize;
    let i = choice(t.n[a]);
    let el = t.m[a][i];
    let v = sym() & 0x00ff_ffff_ffff_ffff;
    unsafe {
        EVAL[el] = v;
        let mut w = 0u64;
        let mut b = 0;
        while b < 8 {
            w |= (byte(el, b) as u64) << (8 * b);
            b += 1;
        }
        match choice(3) {
            0 => *(t.v[a].get_mut_raw(i).unwrap() as *mut u64) = w,
            1 => t.v[a].as_slice_mut::<u64>()[i] = w,
            _ => *(t.v[a].as_mut_ptr() as *mut u64).add(i) = w,
        }
        ceq!(t.v[a].as_slice::<u64>()[i], w);
    }
    t.check();
    t.step();
    t.check();
    reach(1);
    t.finish();
}
/// Elements of different layouts are never exchanged, the wrong slice type is refused.
fn mixed() {
    let l = [Layout::new::<u64>(), Layout::new::<[u8; 8]>(), Layout::new::<u32>(), Layout::new::<()>(), Layout::new::<Z32>()];
    let (i, j) = (choice(5), choice(5));
    let mk = |l: Layout| unsafe { UntypedVec::new_from_raw(TypeInfo::new(l, None)) };
    let (mut a, mut b) = (mk(l[i]), mk(l[j]));
    ck!((a.get_type_info() == b.get_type_info()) == (i == j));
    let mut buf = Buf([7; 128]);
    unsafe { a.push_raw(buf.0.as_mut_ptr() as *mut MaybeUninit<u8>) };
    let bad = refused(|| unsafe { a.swap_move_element_to_other_vec(&mut b, 0) });
    ck!(bad == (i != j));
    ck!(a.len() == bad as usize && b.len() == !bad as usize);
    ck!(refused(|| unsafe { a.as_slice::<u64>().len() }) == (i != 0));
    ck!(refused(|| unsafe { a.as_slice_mut::<Z32>().len() }) == (i != 4));
    reach(1);
}

entries! { LIST;
fn c09_small() { pick(param(0), true) }
fn c09_large() { pick(param(1), false) }
fn c09_index() { index() }
fn c09_long() { longs() }
fn c09_shrunk() { shrinks(param(2)) }
fn c09_writes() { writes() }
fn c09_mixed() { mixed() }
}
