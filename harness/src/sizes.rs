//! Components of many sizes and alignments, by id and by type, moved about in sets of several entities.
use crate::entries;
use crate::model::*;
use crate::rt::*;
use arche_tape::world::ComponentMeta;
use arche_tape::{EcsId, EcsIds, FetchType, World};
use core::alloc::Layout;
use core::marker::PhantomData;
use untyped_vec::{TypeInfo, UntypedVec};
use core::mem::{ManuallyDrop, MaybeUninit};
const FILE: u32 = 14;

const MAXSZ: usize = 1100;
const NL: usize = 36;
const LAY: [(usize, usize); NL] = [
    (0, 1), (0, 8), (0, 64), (1, 1), (2, 1), (2, 2), (3, 1), (4, 4), (5, 1), (6, 2), (7, 1), (9, 1), (12, 4), (15, 1), (17, 1), (20, 4), (24, 8), (28, 4), (31, 1), (33, 1),
    (36, 4), (40, 8), (48, 16), (63, 1), (65, 1), (72, 8), (75, 1), (96, 32), (100, 4), (128, 128), (129, 1), (200, 8), (257, 1), (600, 8), (1000, 4), (MAXSZ, 4),
];
/// larger than any internal buffer
const VAST: [(usize, usize); 6] = [(2051, 1), (4096, 64), (4100, 4), (5000, 8), (8200, 8), (10007, 1)];
const ROOM: usize = 70_144;
static mut SRC: Aligned = Aligned([0; ROOM]);
#[repr(C, align(128))]
struct Aligned([u8; ROOM]);

static mut DROPS: usize = 0;
static mut SIZE: usize = 0;
/// by the first byte of the value, which tells values of two bytes and more apart
static mut COUNT: [u8; 256] = [0; 256];
static mut WANT: [u8; 256] = [0; 256];
fn dropped(p: *const u8) {
    unsafe {
        DROPS += 1;
        if SIZE > 1 {
            COUNT[*p as usize] += 1;
        }
    }
}
fn must(tag: usize) {
    unsafe {
        if SIZE > 1 {
            WANT[pattern(tag, 0) as usize] += 1;
        }
    }
}
fn drops_right(tags: usize) {
    let mut t = 1;
    while t <= tags {
        let i = pattern(t, 0) as usize;
        ck!(unsafe { COUNT[i] == WANT[i] });
        t += 1;
    }
}
fn drop_fn(p: *mut MaybeUninit<u8>) {
    dropped(p as *const u8)
}
fn pattern(tag: usize, i: usize) -> u8 {
    (i.wrapping_mul(7) + (i >> 8) * 3 + tag * 29 + 1) as u8
}

/// the byte to look at after byte j: all of them, of very large values the first, the last and some between
fn after(size: usize, j: usize) -> usize {
    if size < 30_000 || j < 40 || j + 40 > size {
        j + 1
    } else if j + 1400 > size {
        size - 39
    } else {
        j + 1361
    }
}

trait Kind {
    fn size(&self) -> usize;
    fn align(&self) -> usize;
    fn drops(&self) -> bool;
    fn id(&self, w: &mut World) -> EcsId;
    fn add(&self, w: &mut World, e: EcsId, id: EcsId, src: *mut u8);
    fn create(&self, w: &mut World, id: EcsId, src: *mut u8, how: usize, a: u64) -> EcsId;
    fn remove(&self, w: &mut World, e: EcsId, id: EcsId);
    /// the value as seen by a query of one entity, None when it is not there
    fn look(&self, w: &World, e: EcsId) -> Option<*const u8>;
    /// calls back for every entity that has one
    fn each(&self, w: &World, f: &mut dyn FnMut(EcsId, *const u8));
}
struct Dyn {
    size: usize,
    align: usize,
    drops: bool,
}
impl Kind for Dyn {
    fn size(&self) -> usize {
        self.size
    }
    fn align(&self) -> usize {
        self.align
    }
    fn drops(&self) -> bool {
        self.drops
    }
    fn id(&self, w: &mut World) -> EcsId {
        let mut m = ComponentMeta::from_size_align(self.size, self.align);
        if self.drops {
            m.drop_fn = Some(drop_fn);
        }
        unsafe { w.spawn_with_component_meta(m) }.build()
    }
    fn add(&self, w: &mut World, e: EcsId, id: EcsId, src: *mut u8) {
        unsafe { w.add_component_dynamic_with_data(e, id, src) }
    }
    fn create(&self, w: &mut World, id: EcsId, src: *mut u8, how: usize, a: u64) -> EcsId {
        unsafe {
            match how {
                0 => w.spawn().with(A(a)).with_dynamic_with_data(src, id).build(),
                1 => w.spawn().with_dynamic_with_data(src, id).with(A(a)).build(),
                _ => w.spawn_with_capacity(self.size).with_dynamic_with_data(src, id).with(A(a)).build(),
            }
        }
    }
    fn remove(&self, w: &mut World, e: EcsId, id: EcsId) {
        w.remove_component_dynamic(e, id)
    }
    fn look(&self, _: &World, _: EcsId) -> Option<*const u8> {
        None
    }
    fn each(&self, _: &World, _: &mut dyn FnMut(EcsId, *const u8)) {}
}
/// A Rust type of N bytes aligned as AL
#[repr(C)]
struct Pay<const N: usize, AL: 'static> {
    _al: [AL; 0],
    b: [u8; N],
}
impl<const N: usize, AL: 'static> Drop for Pay<N, AL> {
    fn drop(&mut self) {
        dropped(self as *const _ as *const u8)
    }
}
struct Typed<const N: usize, AL>(PhantomData<AL>);
impl<const N: usize, AL: 'static> Typed<N, AL> {
    fn take(&self, src: *mut u8) -> Pay<N, AL> {
        unsafe { core::ptr::read(src as *const Pay<N, AL>) }
    }
}
impl<const N: usize, AL: 'static> Kind for Typed<N, AL> {
    fn size(&self) -> usize {
        core::mem::size_of::<Pay<N, AL>>()
    }
    fn align(&self) -> usize {
        core::mem::align_of::<Pay<N, AL>>()
    }
    fn drops(&self) -> bool {
        true
    }
    fn id(&self, w: &mut World) -> EcsId {
        w.get_or_create_type_id_ecsid::<Pay<N, AL>>()
    }
    fn add(&self, w: &mut World, e: EcsId, _: EcsId, src: *mut u8) {
        w.add_component(e, self.take(src))
    }
    fn create(&self, w: &mut World, _: EcsId, src: *mut u8, how: usize, a: u64) -> EcsId {
        match how {
            0 => w.spawn().with(A(a)).with(self.take(src)).build(),
            1 => w.spawn().with(self.take(src)).with(A(a)).build(),
            _ => w.spawn_with_capacity(3).with(self.take(src)).with(A(a)).build(),
        }
    }
    fn remove(&self, w: &mut World, e: EcsId, _: EcsId) {
        w.remove_component::<Pay<N, AL>>(e)
    }
    fn look(&self, w: &World, e: EcsId) -> Option<*const u8> {
        let mut q = w.query::<(&Pay<N, AL>,)>();
        q.get(e).map(|x| x.0 as *const _ as *const u8)
    }
    fn each(&self, w: &World, f: &mut dyn FnMut(EcsId, *const u8)) {
        let mut q = w.query::<(&mut Pay<N, AL>, EcsIds)>();
        for (p, id) in q.iter() {
            f(id, p as *mut _ as *const u8)
        }
    }
}

const MAXR: usize = 152;
#[derive(Clone, Copy)]
struct Row {
    id: EcsId,
    alive: bool,
    has: bool,
    tag: usize,
    last: u8,
    a: Option<u64>,
}
struct S<'a> {
    k: &'a dyn Kind,
    w: ManuallyDrop<World>,
    comp: EcsId,
    t: EcsId,
    n: usize,
    r: [Row; MAXR],
    tags: usize,
    given: usize,
    ended: usize,
}
impl<'a> S<'a> {
    fn new(k: &'a dyn Kind) -> S<'a> {
        let mut w = ManuallyDrop::new(World::new());
        let t = w.spawn().build();
        // the component's id before or after that of the other one
        let comp;
        if flag() {
            w.get_or_create_type_id_ecsid::<A>();
            comp = k.id(&mut w);
        } else {
            comp = k.id(&mut w);
        }
        unsafe {
            DROPS = 0;
            SIZE = k.size();
        }
        S { k, w, comp, t, n: 0, r: [Row { id: t, alive: false, has: false, tag: 0, last: 0, a: None }; MAXR], tags: 0, given: 0, ended: 0 }
    }
    /// A new value in the source buffer: a pattern of its own, the last byte arbitrary.
    fn value(&mut self, i: usize) -> *mut u8 {
        self.tags += 1;
        self.r[i].tag = self.tags;
        let n = self.k.size();
        unsafe {
            let mut j = 0;
            while j < n {
                SRC.0[j] = pattern(self.tags, j);
                j = after(n, j);
            }
            if n > 0 {
                self.r[i].last = symw(8) as u8;
                SRC.0[n - 1] = self.r[i].last;
            }
            self.given += 1;
            SRC.0.as_mut_ptr()
        }
    }
    fn create(&mut self, how: usize) {
        let i = self.n;
        self.n += 1;
        let src = self.value(i);
        let a = sym();
        let id = self.k.create(&mut self.w, self.comp, src, how, a);
        self.r[i].id = id;
        self.r[i].alive = true;
        self.r[i].has = true;
        self.r[i].a = Some(a);
    }
    fn right(&self, i: usize, p: *const u8) {
        ck!(!p.is_null() && p as usize % self.k.align() == 0);
        let n = self.k.size();
        let mut j = 0;
        while j + 1 < n {
            ck!(unsafe { *p.add(j) } == pattern(self.r[i].tag, j));
            j = after(n, j);
        }
        if n > 0 {
            ceq!(unsafe { *p.add(n - 1) } as u64, self.r[i].last as u64);
        }
    }
    fn find(&self, id: EcsId) -> usize {
        let mut i = 0;
        while i < self.n {
            if self.r[i].id == id {
                return i;
            }
            i += 1;
        }
        ck!(false);
        unreachable!()
    }
    fn check(&mut self) {
        state();
        if self.k.drops() {
            ck!(unsafe { DROPS } == self.ended);
            drops_right(self.tags);
        }
        let mut have = 0;
        let mut i = 0;
        while i < self.n {
            let r = self.r[i];
            let p = self.w.get_component_mut_dynamic(r.id, self.comp);
            ck!(p.is_some() == (r.alive && r.has));
            if let Some(p) = p {
                self.right(i, p);
                have += 1;
            }
            let q = self.k.look(&self.w, r.id);
            if let Some(q) = q {
                ck!(p == Some(q as *mut u8));
            }
            {
                let mut q = self.w.query::<(&A,)>();
                let x = q.get(r.id);
                ck!(x.is_some() == (r.alive && r.a.is_some()));
                if let Some((x,)) = x {
                    ceq!(x.0, r.a.unwrap());
                }
            }
            i += 1;
        }
        let mut seen = 0;
        {
            let mut q = self.w.query_dynamic([FetchType::EcsId, FetchType::Immut(self.comp)]);
            for [e, p] in q.iter() {
                let i = self.find(unsafe { *(e as *const EcsId) });
                ck!(self.r[i].alive && self.r[i].has);
                self.right(i, p);
                seen += 1;
            }
        }
        ck!(seen == have);
        let mut n = 0;
        let w = &self.w;
        let this = &*self;
        this.k.each(w, &mut |id, p| {
            let i = this.find(id);
            ck!(this.r[i].alive && this.r[i].has);
            this.right(i, p);
            n += 1;
        });
        ck!(n == have || n == 0);
    }
    fn step(&mut self) -> bool {
        let pick = [0, 1, self.n - 2, self.n - 1];
        let what = choice(7);
        if what == 6 {
            if self.n == MAXR {
                return false;
            }
            self.create(choice(3));
            return true;
        }
        let i = pick[choice(4)];
        let r = self.r[i];
        if !r.alive {
            return false;
        }
        let e = r.id;
        match what {
            0 => {
                if self.w.get_component_mut_dynamic(e, self.t).is_some() {
                    return false;
                }
                self.w.add_component_dynamic(e, self.t);
            }
            1 => {
                if r.a.is_none() {
                    return false;
                }
                self.w.remove_component::<A>(e);
                self.r[i].a = None;
            }
            2 => {
                if !r.has {
                    return false;
                }
                self.k.remove(&mut self.w, e, self.comp);
                self.r[i].has = false;
                self.ended += 1;
                must(r.tag);
            }
            3 => {
                if r.has {
                    return false;
                }
                let src = self.value(i);
                self.k.add(&mut self.w, e, self.comp, src);
                self.r[i].has = true;
            }
            4 => {
                if r.a.is_some() {
                    return false;
                }
                let v = sym();
                self.w.add_component(e, A(v));
                self.r[i].a = Some(v);
            }
            _ => {
                ck!(self.w.despawn(e));
                self.r[i].alive = false;
                if r.has {
                    self.ended += 1;
                    must(r.tag);
                }
            }
        }
        true
    }
    fn finish(mut self) {
        unsafe { ManuallyDrop::drop(&mut self.w) };
        if self.k.drops() {
            ck!(unsafe { DROPS } == self.given);
            let mut i = 0;
            while i < self.n {
                if self.r[i].alive && self.r[i].has {
                    must(self.r[i].tag);
                }
                i += 1;
            }
            drops_right(self.tags);
        }
        noleak();
    }
}
fn go(k: &dyn Kind, rows: usize, ops: usize) {
    let mut s = S::new(k);
    let mut j = 0;
    while j < rows {
        s.create(j % 3);
        j += 1;
    }
    s.check();
    let mut j = 0;
    while j < ops {
        if !s.step() {
            break;
        }
        s.check();
        j += 1;
    }
    reach(1);
    s.finish();
}
/// Components known by id, every layout of the table
fn layouts(ops: usize) {
    let (size, align) = LAY[choice(NL)];
    let rows = [2, 3, 5][choice(3)];
    let k = Dyn { size, align, drops: rows == 3 || flag() };
    go(&k, rows, ops);
}
/// Rust types of many sizes
fn payloads(ops: usize) {
    let rows = [2, 3, 5][choice(3)];
    macro_rules! one {
        ($($n:literal $al:ty),*) => {{
            let mut c = 0;
            $( { c += 1; let _ = $n; } )*
            let x = choice(c);
            let mut i = 0;
            $( if i == x { go(&Typed::<$n, $al>(PhantomData), rows, ops) } i += 1; )*
            let _ = i;
        }};
    }
    #[repr(align(32))]
    struct A32(#[allow(dead_code)] u8);
    one!(0 u64, 5 u8, 6 u16, 12 u32, 15 u8, 20 u32, 28 u32, 36 u32, 65 u8, 72 u64, 75 u8, 96 A32, 132 u32, 260 u16, 1001 u8);
}
/// Many rows, so that storage grows again and again
fn growth(ops: usize) {
    let (size, align) = [(12, 4), (75, 1), (520, 8), (1000, 4)][choice(4)];
    let k = Dyn { size, align, drops: flag() };
    go(&k, 19, ops);
}

/// The untyped vector alone, for every layout of the table: two of them, against arrays of tags.
struct Pair {
    v: [UntypedVec; 2],
    m: [[usize; 40]; 2],
    n: [usize; 2],
    last: [u8; 64],
    tags: usize,
    ended: usize,
    size: usize,
    align: usize,
    drops: bool,
}
impl Pair {
    fn new(size: usize, align: usize, drops: bool) -> Pair {
        unsafe {
            DROPS = 0;
            SIZE = size;
        }
        let info = TypeInfo::new(Layout::from_size_align(size, align).unwrap(), if drops { Some(drop_fn) } else { None });
        let mut v = unsafe { UntypedVec::new_from_raw(info) };
        let o = UntypedVec::new_from_untyped_vec(&mut v);
        Pair { v: [v, o], m: [[0; 40]; 2], n: [0; 2], last: [0; 64], tags: 0, ended: 0, size, align, drops }
    }
    fn push(&mut self, a: usize) {
        self.tags += 1;
        unsafe {
            let mut j = 0;
            while j < self.size {
                SRC.0[j] = pattern(self.tags, j);
                j = after(self.size, j);
            }
            if self.size > 0 {
                self.last[self.tags] = symw(8) as u8;
                SRC.0[self.size - 1] = self.last[self.tags];
            }
            self.v[a].push_raw(SRC.0.as_mut_ptr() as *mut MaybeUninit<u8>);
            // the source is no longer looked at
            SRC.0[0] = 0;
        }
        self.m[a][self.n[a]] = self.tags;
        self.n[a] += 1;
    }
    fn take(&mut self, a: usize, i: usize) -> usize {
        let t = self.m[a][i];
        self.n[a] -= 1;
        self.m[a][i] = self.m[a][self.n[a]];
        t
    }
    fn gone(&mut self, t: usize) {
        self.ended += 1;
        must(t);
    }
    fn right(&self, t: usize, p: *const u8) {
        ck!(!p.is_null() && p as usize % self.align == 0);
        let mut j = 0;
        while j + 1 < self.size {
            ck!(unsafe { *p.add(j) } == pattern(t, j));
            j = after(self.size, j);
        }
        if self.size > 0 {
            ceq!(unsafe { *p.add(self.size - 1) } as u64, self.last[t] as u64);
        }
    }
    fn check(&mut self) {
        state();
        if self.drops {
            ck!(unsafe { DROPS } == self.ended);
            drops_right(self.tags);
        }
        let mut a = 0;
        while a < 2 {
            let n = self.n[a];
            ck!(self.v[a].len() == n);
            ck!(self.v[a].is_empty() == (n == 0));
            if self.size > 0 {
                ck!(self.v[a].raw_len() == n * self.size);
            }
            ck!(self.v[a].get_raw(n).is_none() && self.v[a].get_mut_raw(n).is_none());
            ck!(self.v[a].get_raw(n + 1).is_none() && self.v[a].get_raw(usize::MAX / (self.size + 1)).is_none());
            let base = unsafe { self.v[a].as_immut_ptr() };
            ck!(unsafe { self.v[a].as_mut_ptr() } as *const u8 == base);
            let mut i = 0;
            while i < n {
                let p = self.v[a].get_raw(i);
                ck!(p.is_some());
                ck!(self.v[a].get_mut_raw(i) == p.map(|p| p as *mut u8));
                ck!(p == Some(unsafe { base.add(i * self.size) }));
                self.right(self.m[a][i], p.unwrap());
                i += 1;
            }
            a += 1;
        }
    }
    fn step(&mut self) {
        let a = choice(2);
        let n = self.n[a];
        match choice(4) {
            0 => self.push(a),
            1 => {
                let r = self.v[a].pop();
                ck!(r == (n > 0));
                if n > 0 {
                    let t = self.take(a, n - 1);
                    self.gone(t);
                }
            }
            2 => {
                let pick = [0, 1, n / 2, n.wrapping_sub(2), n.wrapping_sub(1)];
                let i = pick[choice(5)];
                assume(i < n);
                self.v[a].swap_remove(i);
                let t = self.take(a, i);
                self.gone(t);
            }
            _ => {
                let pick = [0, 1, n / 2, n.wrapping_sub(2), n.wrapping_sub(1)];
                let i = pick[choice(5)];
                assume(i < n);
                let (x, y) = self.v.split_at_mut(1);
                let (from, to) = if a == 0 { (&mut x[0], &mut y[0]) } else { (&mut y[0], &mut x[0]) };
                unsafe { from.swap_move_element_to_other_vec(to, i) };
                let t = self.take(a, i);
                self.m[1 - a][self.n[1 - a]] = t;
                self.n[1 - a] += 1;
            }
        }
    }
    fn finish(self) {
        let Pair { v, m, n, tags, drops, .. } = self;
        drop(v);
        let mut a = 0;
        while a < 2 {
            let mut i = 0;
            while i < n[a] {
                must(m[a][i]);
                i += 1;
            }
            a += 1;
        }
        if drops {
            ck!(unsafe { DROPS } == tags);
            drops_right(tags);
        }
        noleak();
    }
}
fn vecs(k: usize) {
    let (size, align) = LAY[choice(NL)];
    let start = choice(3);
    let mut p = Pair::new(size, align, start == 1);
    let mut i = 0;
    while i < [2, 3, 5][start] {
        p.push(0);
        i += 1;
    }
    if start == 1 {
        p.push(1);
    }
    p.check();
    let mut j = 0;
    while j < k {
        p.step();
        p.check();
        j += 1;
    }
    reach(1);
    p.finish();
}
fn vec_growth(k: usize) {
    let (size, align) = LAY[choice(NL)];
    let mut p = Pair::new(size, align, flag());
    let n = 17 + 16 * choice(2);
    let mut i = 0;
    while i < n {
        p.push(0);
        if i % 8 == 0 {
            p.check();
        }
        i += 1;
    }
    p.check();
    let mut j = 0;
    while j < k {
        p.step();
        j += 1;
    }
    p.check();
    reach(1);
    p.finish();
}

/// Elements of thousands of bytes
fn vast(ops: usize) {
    let (size, align) = VAST[choice(6)];
    let rows = 2 + choice(2);
    go(&Dyn { size, align, drops: rows == 3 }, rows, ops);
}
fn vast_vecs(k: usize) {
    let (size, align) = VAST[choice(6)];
    let mut p = Pair::new(size, align, flag());
    let mut i = 0;
    while i < 3 {
        p.push(0);
        i += 1;
    }
    p.push(1);
    p.check();
    let mut j = 0;
    while j < k {
        p.step();
        p.check();
        j += 1;
    }
    reach(1);
    p.finish();
}
/// Elements of more than 65535 bytes
const MONSTERS: [(usize, usize); 3] = [(65_536, 8), (65_552, 16), (70_001, 1)];
fn monsters(ops: usize) {
    let pick = choice(4);
    let rows = 2 + choice(2);
    if pick == 3 {
        go(&Typed::<65_544, u64>(PhantomData), rows, ops)
    } else {
        let (size, align) = MONSTERS[pick];
        go(&Dyn { size, align, drops: rows == 3 }, rows, ops)
    }
}
fn monster_vecs(k: usize) {
    let (size, align) = MONSTERS[choice(3)];
    let mut p = Pair::new(size, align, flag());
    let mut i = 0;
    while i < 3 {
        p.push(0);
        i += 1;
    }
    p.push(1);
    p.check();
    let mut j = 0;
    while j < k {
        p.step();
        p.check();
        j += 1;
    }
    reach(1);
    p.finish();
}
/// Creations whose values together take more than any internal buffer, twice in a row, in several orders
fn loads(twice: bool) {
    let top = [9_000, 66_000][choice(2)];
    let part: [(usize, usize); 6] = [(3000, 8), (5, 1), (1500, 4), (48, 16), (4096, 64), (top, 8)];
    let mut w = ManuallyDrop::new(World::new());
    let ids: [EcsId; 6] = core::array::from_fn(|i| unsafe { w.spawn_with_component_meta(ComponentMeta::from_size_align(part[i].0, part[i].1)).build() });
    let mut lists = [[0usize; 6]; 2];
    let mut count = [0usize; 2];
    let mut last = [[0u8; 6]; 2];
    let mut made = [ids[0]; 2];
    let mut a = [0u64; 2];
    let rounds = 1 + twice as usize;
    let mut r = 0;
    while r < rounds {
        let (first, stride, n) = match (r, top) {
            (0, 9_000) => (choice(6), [1, 5][choice(2)], 1 + choice(6)),
            (0, _) => ([0, 5][choice(2)], 5, [1, 2, 6][choice(3)]),
            (_, 9_000) => ([0, 3, 5][choice(3)], 5, [1, 3, 6][choice(3)]),
            _ => ([0, 4][choice(2)], 1, [2, 5][choice(2)]),
        };
        a[r] = sym();
        let mut b = if flag() { w.spawn_with_capacity(n) } else { w.spawn() };
        let mut i = 0;
        while i < n {
            if i == n / 2 {
                b = b.with(A(a[r]));
            }
            let c = (first + i * stride) % 6;
            lists[r][i] = c;
            unsafe {
                let mut j = 0;
                while j < part[c].0 {
                    SRC.0[j] = pattern(r * 6 + c, j);
                    j += 1;
                }
                last[r][i] = symw(8) as u8;
                SRC.0[part[c].0 - 1] = last[r][i];
                b = b.with_dynamic_with_data(SRC.0.as_mut_ptr(), ids[c]);
                SRC.0[0] = 0;
            }
            i += 1;
        }
        made[r] = b.build();
        count[r] = n;
        r += 1;
    }
    r = 0;
    while r < rounds {
        let mut c = 0;
        while c < 6 {
            let p = w.get_component_mut_dynamic(made[r], ids[c]);
            let mut i = 0;
            while i < count[r] && lists[r][i] != c {
                i += 1;
            }
            ck!(p.is_some() == (i < count[r]));
            if let Some(p) = p {
                ck!(p as usize % part[c].1 == 0);
                let mut j = 0;
                while j + 1 < part[c].0 {
                    ck!(unsafe { *p.add(j) } == pattern(r * 6 + c, j));
                    j += 1;
                }
                ceq!(unsafe { *p.add(j) } as u64, last[r][i] as u64);
            }
            c += 1;
        }
        let mut q = w.query::<(&A,)>();
        ceq!(q.get(made[r]).unwrap().0 .0, a[r]);
        r += 1;
    }
    reach(1);
    unsafe { ManuallyDrop::drop(&mut w) };
    noleak();
}
/// Sets of many entities that end, lose and gain components in bulk
fn crowds(ops: usize) {
    let n = [66, 150][choice(2)];
    let pick = choice(3);
    let d;
    let t;
    let k: &dyn Kind = if pick == 2 {
        t = Typed::<12, u32>(PhantomData);
        &t
    } else {
        d = Dyn { size: [12, 0][pick], align: [4, 1][pick], drops: true };
        &d
    };
    let mut s = S::new(k);
    let mut j = 0;
    while j < n {
        s.create(j % 3);
        j += 1;
    }
    let op = choice(6);
    let order = choice(5);
    let mut j = 0;
    while j < n {
        let i = match order {
            1 => n - 1 - j,
            2 => (j * 7) % n,
            _ => j,
        };
        let skip = order == 3 && j % 2 == 1 || order == 4 && j + 1 == n;
        if !skip && op < 5 {
            let e = s.r[i].id;
            match op {
                0 | 1 => {
                    if op == 1 {
                        s.w.add_component_dynamic(e, s.t);
                    }
                    ck!(s.w.despawn(e));
                    s.r[i].alive = false;
                    s.ended += 1;
                    must(s.r[i].tag);
                }
                2 => {
                    s.k.remove(&mut s.w, e, s.comp);
                    s.r[i].has = false;
                    s.ended += 1;
                    must(s.r[i].tag);
                }
                3 => s.w.add_component_dynamic(e, s.t),
                _ => {
                    s.w.remove_component::<A>(e);
                    s.r[i].a = None;
                }
            }
        }
        j += 1;
    }
    s.check();
    let mut j = 0;
    while j < ops && s.step() {
        s.check();
        j += 1;
    }
    reach(1);
    s.finish();
}

entries! { LIST;
fn c06_crowds() { crowds(param(5)) }
fn c02_vast() { vast(param(3)) }
fn c09_vast() { vast_vecs(param(3)) }
fn c02_monsters() { monsters(param(3)) }
fn c09_monsters() { monster_vecs(param(3)) }
fn c17_loads() { loads(true) }
fn c09_layouts() { vecs(param(3)) }
fn c09_growth() { vec_growth(param(4)) }
fn c02_layouts() { layouts(param(0)) }
fn c02_payloads() { payloads(param(1)) }
fn c02_growth() { growth(param(2)) }
}
