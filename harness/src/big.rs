//! Worlds grown past every internal threshold, then stepped and compared as a whole (C16).
use crate::entries;
use crate::model::*;
use crate::rt::*;
use arche_tape::world::ComponentMeta;
use arche_tape::{EcsId, EcsIds, FetchType, World};
use core::mem::{ManuallyDrop, MaybeUninit};
const FILE: u32 = 13;

const NC: usize = 12;
/// components 0 (A) and 1 (D) are Rust types, the others entities with these layouts
const BS: [usize; NC] = [8, 16, 3, 0, 12, 64, 8, 1, 24, 8, 2, 8];
const BA: [usize; NC] = [8, 8, 1, 1, 4, 64, 8, 1, 8, 2, 2, 8];
const NB: usize = 220;
const NI: usize = 640;

#[derive(Clone, Copy)]
struct E {
    id: EcsId,
    alive: bool,
    mask: u32,
    val: [u64; NC],
    ser: u64,
}
struct Big {
    w: ManuallyDrop<World>,
    n: usize,
    /// components in use
    nc: usize,
    cid: [Option<EcsId>; NC],
    /// living entities that are neither tracked nor components
    others: usize,
    e: [E; NB],
    /// slot of an id -> tracked entity + 1
    at: [u16; NI],
}
fn mask_of(c: usize) -> u64 {
    if BS[c] >= 8 {
        !0
    } else {
        (1u64 << (8 * BS[c])) - 1
    }
}
#[repr(C, align(64))]
struct Buf([u8; 64]);
fn buf(c: usize, v: u64) -> Buf {
    let mut b = Buf([0x5a; 64]);
    let mut i = 0;
    while i < BS[c] && i < 8 {
        b.0[i] = (v >> (8 * i)) as u8;
        i += 1;
    }
    b
}
unsafe fn rd(c: usize, p: *const u8) -> u64 {
    ck!(!p.is_null());
    ck!(p as usize % BA[c] == 0);
    let mut v = 0;
    let mut i = 0;
    while i < BS[c] {
        let b = unsafe { *p.add(i) };
        if i < 8 {
            v |= (b as u64) << (8 * i);
        } else if c != 1 {
            ceq!(b as u64, 0x5a);
        }
        i += 1;
    }
    v
}
fn bdrop2(p: *mut MaybeUninit<u8>) {
    let _ = p;
    unsafe { DROP2 += 1 }
}
static mut DROP2: usize = 0;
static mut WANT2: usize = 0;

impl Big {
    fn new(nc: usize) -> Box<Big> {
        let e = E { id: mk_id(0, 0), alive: false, mask: 0, val: [0; NC], ser: 0 };
        Box::new(Big { w: ManuallyDrop::new(World::new()), n: 0, nc, cid: [None; NC], others: 0, e: [e; NB], at: [0; NI] })
    }
    fn comp(&mut self, c: usize) -> EcsId {
        if let Some(x) = self.cid[c] {
            return x;
        }
        let id = match c {
            0 => self.w.get_or_create_type_id_ecsid::<A>(),
            1 => self.w.get_or_create_type_id_ecsid::<D>(),
            3 => self.w.spawn().build(),
            _ => {
                let mut m = ComponentMeta::from_size_align(BS[c], BA[c]);
                if c == 2 {
                    m.drop_fn = Some(bdrop2);
                }
                unsafe { self.w.spawn_with_component_meta(m) }.build()
            }
        };
        self.cid[c] = Some(id);
        id
    }
    fn comps(&mut self) {
        let mut c = 0;
        while c < self.nc {
            self.comp(c);
            c += 1;
        }
    }
    /// value for a component: arbitrary or, in bulk, one that no other holds
    fn fresh(&self, i: usize, c: usize, bulk: bool) -> u64 {
        let v = if bulk { (i as u64 + 1) * 0x0101_0101_0101_0101 ^ c as u64 } else { sym() };
        v & mask_of(c)
    }
    fn spawn(&mut self, set: u32, bulk: bool) -> usize {
        let i = self.n;
        let mut c = 0;
        while c < self.nc {
            if set >> c & 1 == 1 {
                self.comp(c);
                self.e[i].val[c] = self.fresh(i, c, bulk);
            }
            c += 1;
        }
        if set >> 1 & 1 == 1 {
            self.e[i].ser = new_ser(self.e[i].val[1]);
        }
        let w: &mut World = &mut self.w;
        let mut b = w.spawn();
        let mut c = 0;
        while c < self.nc {
            if set >> c & 1 == 1 {
                let v = self.e[i].val[c];
                b = match c {
                    0 => b.with(A(v)),
                    1 => b.with(D { v, ser: self.e[i].ser }),
                    3 => b.with_dynamic(self.cid[c].unwrap()),
                    _ => {
                        let mut d = buf(c, v);
                        unsafe { b.with_dynamic_with_data(d.0.as_mut_ptr(), self.cid[c].unwrap()) }
                    }
                };
            }
            c += 1;
        }
        let id = b.build();
        drop(b);
        self.e[i].id = id;
        self.e[i].alive = true;
        self.e[i].mask = set;
        self.n += 1;
        let x = id.uindex();
        ck!(x < NI);
        if self.at[x] != 0 {
            let o = &self.e[self.at[x] as usize - 1];
            ck!(!o.alive && o.id != id);
        }
        self.at[x] = i as u16 + 1;
        i
    }
    fn add(&mut self, i: usize, c: usize, bulk: bool) {
        let cid = self.comp(c);
        let v = self.fresh(i, c, bulk);
        self.e[i].val[c] = v;
        self.e[i].mask |= 1 << c;
        let id = self.e[i].id;
        match c {
            0 => self.w.add_component(id, A(v)),
            1 => {
                self.e[i].ser = new_ser(v);
                self.w.add_component(id, D { v, ser: self.e[i].ser })
            }
            3 => self.w.add_component_dynamic(id, cid),
            _ => {
                let mut d = buf(c, v);
                unsafe { self.w.add_component_dynamic_with_data(id, cid, d.0.as_mut_ptr()) }
            }
        }
    }
    fn gone(&mut self, i: usize, c: usize) {
        self.e[i].mask &= !(1 << c);
        if c == 1 {
            must_drop(self.e[i].ser);
        }
        if c == 2 {
            unsafe { WANT2 += 1 }
        }
    }
    fn remove(&mut self, i: usize, c: usize) {
        self.gone(i, c);
        let id = self.e[i].id;
        match c {
            0 => self.w.remove_component::<A>(id),
            1 => self.w.remove_component::<D>(id),
            _ => self.w.remove_component_dynamic(id, self.cid[c].unwrap()),
        }
    }
    fn despawn(&mut self, i: usize) {
        let mut c = 0;
        while c < self.nc {
            if self.e[i].mask >> c & 1 == 1 {
                self.gone(i, c);
            }
            c += 1;
        }
        ck!(self.w.despawn(self.e[i].id));
        self.e[i].alive = false;
    }
    fn find(&self, id: EcsId) -> usize {
        let x = id.uindex();
        ck!(x < NI);
        let i = self.at[x] as usize;
        if i != 0 && self.e[i - 1].id == id {
            i - 1
        } else {
            NB
        }
    }
    fn has(&self, i: usize, c: usize) -> bool {
        self.e[i].alive && self.e[i].mask >> c & 1 == 1
    }
    fn count(&self, need: u32) -> usize {
        let mut m = 0;
        let mut i = 0;
        while i < self.n {
            m += (self.e[i].alive && self.e[i].mask & need == need) as usize;
            i += 1;
        }
        m
    }
    /// one entity, by every way of looking it up
    fn look(&mut self, i: usize) {
        let id = self.e[i].id;
        ck!(self.w.is_alive(id) == self.e[i].alive);
        ck!(self.w.has_component::<A>(id) == self.has(i, 0));
        ck!(self.w.has_component::<D>(id) == self.has(i, 1));
        match self.w.query::<(&A, EcsIds)>().get(id) {
            Some((a, x)) => {
                ck!(self.has(i, 0) && x == id);
                ceq!(a.0, self.e[i].val[0]);
            }
            None => ck!(!self.has(i, 0)),
        }
        match self.w.query::<(&mut D, &A)>().get(id) {
            Some((d, a)) => {
                ck!(self.has(i, 0) && self.has(i, 1));
                ceq!(d.v, self.e[i].val[1]);
                ck!(d.ser == self.e[i].ser);
                ceq!(a.0, self.e[i].val[0]);
            }
            None => ck!(!(self.has(i, 0) && self.has(i, 1))),
        }
        let mut c = 0;
        while c < self.nc {
            if let Some(cid) = self.cid[c] {
                match self.w.get_component_mut_dynamic(id, cid) {
                    Some(p) => {
                        ck!(self.has(i, c));
                        ceq!(unsafe { rd(c, p) }, self.e[i].val[c]);
                    }
                    None => ck!(!self.has(i, c)),
                }
            }
            c += 1;
        }
    }
    /// the whole world
    fn check(&mut self) {
        state();
        check_drops();
        unsafe { ck!(DROP2 == WANT2) }
        let mut c = 0;
        while c < self.nc {
            if let Some(cid) = self.cid[c] {
                let mut n = 0;
                let mut seen = [false; NB];
                let mut q = self.w.query_dynamic([FetchType::Immut(cid), FetchType::EcsId]);
                for [p, idp] in q.iter() {
                    let i = self.find(unsafe { *(idp as *const EcsId) });
                    ck!(i < NB);
                    ck!(self.has(i, c) && !seen[i]);
                    seen[i] = true;
                    ceq!(unsafe { rd(c, p) }, self.e[i].val[c]);
                    n += 1;
                }
                ck!(n == self.count(1 << c));
            }
            c += 1;
        }
        self.typed();
        let mut i = 0;
        while i < self.n {
            ck!(self.w.is_alive(self.e[i].id) == self.e[i].alive);
            i += 1;
        }
    }
    fn typed(&mut self) {
        let mut n = 0;
        {
            let mut q = self.w.query::<(EcsIds, &mut A)>();
            for (id, a) in q.iter() {
                let i = self.find(id);
                ck!(i < NB);
                ck!(self.has(i, 0));
                ceq!(a.0, self.e[i].val[0]);
                n += 1;
            }
        }
        ck!(n == self.count(1));
        n = 0;
        {
            let mut q = self.w.query::<(&D, EcsIds, &A)>();
            for (d, id, a) in q.iter() {
                let i = self.find(id);
                ck!(i < NB);
                ck!(self.has(i, 0) && self.has(i, 1));
                ceq!(a.0, self.e[i].val[0]);
                ceq!(d.v, self.e[i].val[1]);
                ck!(d.ser == self.e[i].ser);
                n += 1;
            }
        }
        ck!(n == self.count(3));
        n = 0;
        let mut rest = 0;
        {
            let mut q = self.w.query::<(EcsIds,)>();
            for (id,) in q.iter() {
                let i = self.find(id);
                if i < NB {
                    ck!(self.e[i].alive);
                    n += 1;
                } else {
                    rest += 1;
                }
            }
        }
        ck!(n == self.count(0));
        let mut k = 0;
        let mut c = 0;
        while c < NC {
            k += self.cid[c].is_some() as usize;
            c += 1;
        }
        ck!(rest == k + self.others);
    }
    /// one operation on one of the named entities with one of the named components
    fn step(&mut self, who: &[usize], what: &[usize]) {
        let c = choice(who.len() + 1);
        if c == who.len() {
            let like = who[choice(who.len())];
            self.spawn(self.e[like].mask, false);
            return;
        }
        let i = who[c];
        assume(self.e[i].alive);
        let k = choice(what.len() + 1);
        if k == what.len() {
            self.despawn(i);
        } else if self.has(i, what[k]) {
            self.remove(i, what[k]);
        } else {
            self.add(i, what[k], false);
        }
    }
    fn finish(mut self: Box<Self>) {
        let mut i = 0;
        while i < self.n {
            let mut c = 0;
            while c < self.nc {
                if self.has(i, c) {
                    self.gone(i, c);
                }
                c += 1;
            }
            i += 1;
        }
        unsafe {
            ManuallyDrop::drop(&mut self.w);
            check_drops();
            ck!(DROP2 == WANT2);
        }
    }
}

/// Components that come into the world when there are many sets without them already: whole words of their bitsets
/// are empty, in front or in between, and the bitsets differ in length.
fn late(counts: &[usize], k: usize) {
    let mut b = Big::new(12);
    b.comps();
    let early: &[u32] = [&[][..], &[1], &[6, 9], &[15, 3]][choice(4)];
    for &m in early {
        b.spawn(m, true);
    }
    let n = counts[choice(counts.len())];
    let mut i = 0;
    while i < n {
        b.spawn(((i as u32 + 1) & 0xff) << 4, true);
        i += 1;
    }
    let up = flag();
    let first = b.n;
    let mut m = 1;
    while m < 16 {
        let set = if up { m } else { 16 - m };
        // and some that have a component of the earlier sets as well
        b.spawn(if set % 3 == 1 { set | 0x10 << (set % 8) } else { set }, true);
        m += 1;
    }
    let mut j = 0;
    while j < k {
        b.step(&[first, first + 6, b.n - 1], &[0, 2, 3]);
        j += 1;
    }
    b.check();
    let mut t = 0;
    while t < 64 {
        let (x, y, z) = (t / 16, t / 4 % 4, t % 4);
        t += 1;
        if x == y || y == z || x == z {
            continue;
        }
        let need = 1u32 << x | 1 << y | 1 << z;
        let mut n = 0;
        let mut seen = [false; NB];
        let mut q = b.w.query_dynamic([FetchType::Immut(b.cid[x].unwrap()), FetchType::Mut(b.cid[y].unwrap()), FetchType::EcsId, FetchType::Immut(b.cid[z].unwrap())]);
        for [px, py, idp, pz] in q.iter() {
            let i = b.find(unsafe { *(idp as *const EcsId) });
            ck!(i < NB);
            ck!(b.e[i].alive && b.e[i].mask & need == need && !seen[i]);
            seen[i] = true;
            ceq!(unsafe { rd(x, px) }, b.e[i].val[x]);
            ceq!(unsafe { rd(y, py) }, b.e[i].val[y]);
            ceq!(unsafe { rd(z, pz) }, b.e[i].val[z]);
            n += 1;
        }
        drop(q);
        ck!(n == b.count(need));
        n = 0;
        let mut q = b.w.query_dynamic([FetchType::Mut(b.cid[z].unwrap()), FetchType::Immut(b.cid[x].unwrap())]);
        for col in q.column_iter() {
            let [(_, l), (_, l2)]: [(*mut u8, usize); 2] = unsafe { core::mem::transmute(col) };
            ck!(l == l2);
            n += l;
        }
        ck!(n == b.count(1 << x | 1 << z));
    }
    let mut n = 0;
    for (a, d) in b.w.query::<(&A, &D)>().iter() {
        // the entity is told by its value
        let mut i = 0;
        while i < b.n && !(b.has(i, 1) && b.e[i].ser == d.ser) {
            i += 1;
        }
        ck!(i < b.n && b.has(i, 0));
        ceq!(a.0, b.e[i].val[0]);
        n += 1;
    }
    ck!(n == b.count(3));
    n = 0;
    for (d, a, id) in b.w.query::<(&mut D, &mut A, EcsIds)>().iter() {
        let i = b.find(id);
        ck!(i < NB && b.has(i, 0) && b.has(i, 1));
        ceq!(a.0, b.e[i].val[0]);
        ck!(b.e[i].ser == d.ser);
        n += 1;
    }
    ck!(n == b.count(3));
    reach(1);
    b.finish();
}
/// The entity that stands for a component ends when many sets exist, with numbers of more than one word; then its slot
/// serves again and the sets it was part of are made anew.
fn ended(counts: &[usize], comps: &[usize], k: usize) {
    let mut b = Big::new(8);
    b.comps();
    let n = counts[choice(counts.len())];
    let c = comps[choice(comps.len())];
    let turn = flag();
    let mut i = 0;
    while i < n {
        let set = (i as u32 + 1) & 0xff;
        // the sets with the component come first or last
        b.spawn(if turn { set.reverse_bits() >> 24 } else { set }, true);
        i += 1;
    }
    let victim = b.cid[c].unwrap();
    let mut i = 0;
    while i < b.n {
        if b.has(i, c) {
            b.gone(i, c);
        }
        i += 1;
    }
    b.cid[c] = None;
    ck!(b.w.despawn(victim));
    ck!(!b.w.is_alive(victim));
    b.check();
    let taken = choice(3);
    if taken == 1 {
        // an entity that is not a component takes over the slot
        b.spawn(0, false);
    }
    if taken == 2 {
        b.spawn(5 & !(1 << c), false);
    }
    let new = b.comp(c);
    ck!(new != victim);
    b.check();
    {
        let mut q = b.w.query_dynamic([FetchType::Immut(new)]);
        ck!(q.iter().next().is_none());
        let mut q = b.w.query_dynamic([FetchType::Immut(victim), FetchType::EcsId]);
        ck!(q.iter().next().is_none());
    }
    // made anew: by a creation, by additions to entities that had it once and to one that never had
    let m = 1 << c;
    let (mut had, mut had_not) = (0, 0);
    let mut i = 0;
    while i < n {
        let set = (i as u32 + 1) & 0xff;
        let set = if turn { set.reverse_bits() >> 24 } else { set };
        if set & m != 0 {
            had = i;
        } else {
            had_not = i;
        }
        i += 1;
    }
    b.spawn(m, false);
    b.spawn(m | 3, false);
    if had > 0 {
        b.add(had, c, false);
        let like = b.e[had].mask;
        b.spawn(like, false);
    }
    b.add(had_not, c, false);
    b.check();
    let mut j = 0;
    while j < k {
        b.step(&[had, had_not, 0], &[0, c, 3]);
        b.check();
        j += 1;
    }
    for i in [0, had, had_not, b.n - 1] {
        b.look(i);
    }
    ck!(!b.w.is_alive(victim));
    reach(1);
    b.finish();
}
/// As many different sets as asked, made in one of three ways.
fn sets(n: usize, k: usize) {
    let mut b = Big::new(8);
    b.comps();
    let way = choice(3);
    let mut i = 0;
    while i < n {
        let set = (i as u32 + 1) & 0xff;
        match way {
            0 => {
                b.spawn(set, true);
            }
            1 => {
                let e = b.spawn(0, true);
                let mut c = 8;
                while c > 0 {
                    c -= 1;
                    if set >> c & 1 == 1 {
                        b.add(e, c, true);
                    }
                }
            }
            _ => {
                // by removal from the set with everything below
                let e = b.spawn(set | 1, true);
                if set & 1 == 0 {
                    b.remove(e, 0);
                }
            }
        }
        i += 1;
    }
    b.check();
    let last = b.n - 1;
    let m = if n > 130 { 128 } else { 64 };
    let who = [0, m - 3, m - 2, m - 1, m, last];
    let mut j = 0;
    while j < k {
        b.step(&who, &[0, 1, 5]);
        b.check();
        j += 1;
    }
    for i in who {
        b.look(i);
    }
    reach(1);
    b.finish();
}
/// More remembered moves out of one set than the fast memory holds, revisited in any order.
fn moves(k: usize) {
    let mut b = Big::new(9);
    b.comps();
    let e = b.spawn(1, false);
    let f = b.spawn(1, false);
    let back = flag();
    let mut c = 1;
    while c < 8 {
        let x = if back { 8 - c } else { c };
        b.add(e, x, true);
        if c > 1 {
            // some from within, some back to the hub
            b.remove(e, x);
        } else {
            b.remove(e, x);
            b.add(f, x, true);
        }
        c += 1;
    }
    b.check();
    let mut j = 0;
    while j < k {
        let i = [e, f][choice(2)];
        let c = 1 + choice(8);
        if b.has(i, c) {
            b.remove(i, c)
        } else {
            b.add(i, c, false)
        }
        b.look(e);
        b.look(f);
        j += 1;
    }
    b.check();
    reach(1);
    b.finish();
}
/// Many entities in one set: growth of every column, then any one of them goes.
fn crowd(counts: &[usize], k: usize) {
    let mut b = Big::new(6);
    b.comps();
    let n = counts[choice(counts.len())];
    let set = [0b111111, 0b1, 0b100110][choice(3)];
    let mut i = 0;
    while i < n {
        if i % 3 == 2 {
            // arrives by an addition
            let c = if set & 4 != 0 { 2 } else { 0 };
            let e = b.spawn(set & !(1 << c), true);
            b.add(e, c, true);
        } else {
            b.spawn(set, true);
        }
        i += 1;
    }
    b.check();
    let who = [0, 1, n / 2, n - 2, n - 1];
    let mut j = 0;
    while j < k {
        b.step(&who, &[0, 2]);
        b.check();
        j += 1;
    }
    b.look(n - 1);
    b.look(0);
    reach(1);
    b.finish();
}
/// Component ids on both sides of every boundary of the id space, new and reused slots.
fn far_ids(shifts: &[usize], k: usize) {
    let mut b = Big::new(5);
    let n = shifts[choice(shifts.len())];
    let used = flag();
    let mut ids = [mk_id(0, 0); 600];
    let mut i = 0;
    while i < n {
        ids[i] = b.w.spawn().build();
        i += 1;
    }
    b.others = n;
    if used {
        // the next ids take slots used before
        let mut j = 0;
        while j < 6 && j < n {
            ck!(b.w.despawn(ids[n - 1 - j]));
            b.others -= 1;
            j += 1;
        }
    }
    b.check();
    let e = b.spawn([0b11111, 0b101, 0][choice(3)], false);
    let f = b.spawn([0b11, 0][choice(2)], false);
    b.comps();
    b.check();
    let mut j = 0;
    while j < k {
        b.step(&[e, f], &[0, 1, 3, 4]);
        b.check();
        j += 1;
    }
    b.look(e);
    b.look(f);
    let mut i = 0;
    while i < n {
        ck!(b.w.is_alive(ids[i]) == !(used && i + 6 >= n));
        i += 1;
    }
    reach(1);
    b.finish();
}
/// More ids than the allocator first makes room for, more endings than it first remembers.
fn thousands(total: usize, ends: usize) {
    let mut w = ManuallyDrop::new(World::new());
    static mut IDS: [u64; 5000] = [0; 5000];
    static mut KEEP: [MaybeUninit<EcsId>; 5000] = [const { MaybeUninit::uninit() }; 5000];
    let mut i = 0;
    while i < total {
        let id = w.spawn().build();
        unsafe {
            KEEP[i].write(id);
            IDS[id.uindex()] += 1;
            ck!(IDS[id.uindex()] == 1);
        }
        i += 1;
    }
    let id = |i: usize| unsafe { KEEP[i].assume_init() };
    let probe = [0, 1, 511, 512, 513, 4094, 4095, 4096, 4097, total - 1][choice(10)];
    let v = sym();
    w.add_component(id(probe), A(v));
    let mut i = 0;
    while i < ends {
        if i != probe {
            ck!(w.despawn(id(i)));
        }
        i += 1;
    }
    ck!(w.is_alive(id(probe)) && w.is_alive(id(total - 2)));
    ck!(probe == ends - 1 || !w.is_alive(id(ends - 1)));
    ck!(probe == 0 || !w.is_alive(id(0)));
    let mut n = 0;
    {
        let mut q = w.query::<(EcsIds, &A)>();
        for (x, a) in q.iter() {
            ck!(x == id(probe));
            ceq!(a.0, v);
            n += 1;
        }
    }
    ck!(n == 1);
    let mut i = 0;
    while i < 3 {
        let x = w.spawn().with(A(v)).build();
        let mut j = 0;
        while j < total {
            ck!(id(j) != x);
            j += 1;
        }
        i += 1;
    }
    n = 0;
    for (_, a) in w.query::<(EcsIds, &A)>().iter() {
        ceq!(a.0, v);
        n += 1;
    }
    ck!(n == 4);
    reach(1);
    unsafe { ManuallyDrop::drop(&mut w) };
}

/// Entities with more components than a creation first makes room for.
fn wide(k: usize) {
    let mut b = Big::new(NC);
    b.comps();
    let e = b.spawn([0xfff, 0xff, 0x1ff][choice(3)], false);
    let f = b.spawn([0xfff, 0xefe, 0][choice(3)], false);
    let g = b.spawn(0x3, false);
    let mut c = 0;
    let down = flag();
    while c < NC {
        let x = if down { NC - 1 - c } else { c };
        if !b.has(g, x) {
            b.add(g, x, true);
        }
        c += 1;
    }
    b.check();
    let mut j = 0;
    while j < k {
        b.step(&[e, f, g], &[0, 2, 3, 5, 8, 11]);
        b.check();
        j += 1;
    }
    b.look(e);
    b.look(f);
    b.look(g);
    reach(1);
    b.finish();
}
/// Dozens of moves out of one set, each to a set of its own.
fn fan(n: usize, k: usize) {
    let mut w = ManuallyDrop::new(World::new());
    let e = w.spawn().build();
    let f = w.spawn().build();
    let mut t = [e; 80];
    let mut has = [[false; 80]; 2];
    let mut i = 0;
    while i < n {
        t[i] = w.spawn().build();
        i += 1;
    }
    let way = choice(3);
    i = 0;
    while i < n {
        if way == 0 || i % 2 == 0 && way == 1 {
            w.add_component_dynamic(e, t[i]);
            w.remove_component_dynamic(e, t[i]);
        } else {
            ck!(w.spawn().with_dynamic(t[i]).build() != e);
        }
        i += 1;
    }
    let few = [0, 1, 15, 16, 27, 28, n - 5, n - 1];
    let mut j = 0;
    while j < k {
        let x = choice(2);
        let c = few[choice(few.len())];
        if has[x][c] {
            w.remove_component_dynamic([e, f][x], t[c]);
        } else {
            w.add_component_dynamic([e, f][x], t[c]);
        }
        has[x][c] = !has[x][c];
        j += 1;
    }
    i = 0;
    while i < n {
        ck!(w.get_component_mut_dynamic(e, t[i]).is_some() == has[0][i]);
        ck!(w.get_component_mut_dynamic(f, t[i]).is_some() == has[1][i]);
        let mut c = 0;
        let mut ef = [0usize; 2];
        for [p] in w.query_dynamic([FetchType::EcsId]).iter() {
            let _ = p;
            c += 1;
        }
        let extra = (0..n).filter(|i| !(way == 0 || i % 2 == 0 && way == 1)).count();
        ck!(c == 2 + n + extra);
        for [idp, _p] in w.query_dynamic([FetchType::EcsId, FetchType::Immut(t[i])]).iter() {
            let id = unsafe { *(idp as *const EcsId) };
            if id == e {
                ef[0] += 1;
            }
            if id == f {
                ef[1] += 1;
            }
        }
        ck!(ef[0] == has[0][i] as usize && ef[1] == has[1][i] as usize);
        i += if n > 8 && i > 2 && i + 3 < n { 5 } else { 1 };
    }
    reach(1);
    unsafe { ManuallyDrop::drop(&mut w) };
}
/// Any three (or two) columns of a world of many sets, through the public interface only.
fn combos(counts: &[usize]) {
    let mut b = Big::new(8);
    b.comps();
    let n = counts[choice(counts.len())];
    let mut i = 0;
    while i < n {
        // every set once; the second half in another order
        let set = (i as u32).wrapping_mul(37).wrapping_add(1) & 0xff;
        b.spawn(set, true);
        i += 1;
    }
    if flag() {
        // sets with nobody in them
        b.despawn(choice(2) * (n - 1));
        if n > 1 {
            b.despawn(n / 2);
        }
    }
    let x = choice(8);
    let y = choice(8);
    let z = choice(8);
    assume(x < y && y < z);
    let c = [b.comp(x), b.comp(y), b.comp(z)];
    let need = 1u32 << x | 1 << y | 1 << z;
    let mut m = 0;
    let mut seen = [false; NB];
    {
        let mut q = b.w.query_dynamic([FetchType::Immut(c[2]), FetchType::EcsId, FetchType::Mut(c[0]), FetchType::Immut(c[1])]);
        let mut it = q.iter();
        while let Some([pz, idp, px, py]) = it.next() {
            let i = b.find(unsafe { *(idp as *const EcsId) });
            ck!(i < NB);
            ck!(b.e[i].alive && b.e[i].mask & need == need && !seen[i]);
            seen[i] = true;
            ceq!(unsafe { rd(x, px) }, b.e[i].val[x]);
            ceq!(unsafe { rd(y, py) }, b.e[i].val[y]);
            ceq!(unsafe { rd(z, pz) }, b.e[i].val[z]);
            m += 1;
        }
        ck!(it.next().is_none());
        ck!(it.next().is_none());
    }
    ck!(m == b.count(need));
    m = 0;
    {
        let mut q = b.w.query_dynamic([FetchType::Mut(c[1]), FetchType::Immut(c[2])]);
        for col in q.column_iter() {
            let [(_, l), (_, l2)]: [(*mut u8, usize); 2] = unsafe { core::mem::transmute(col) };
            ck!(l == l2);
            m += l;
        }
    }
    ck!(m == b.count(1 << y | 1 << z));
    b.typed();
    reach(1);
    b.finish();
}
pub struct V<const N: usize>(pub u64);
macro_rules! each {
    ($m:ident; $($i:literal)*) => { $( $m!($i); )* };
}
macro_rules! sixty {
    ($m:ident) => {
        each!($m; 0 1 2 3 4 5 6 7 8 9 10 11 12 13 14 15 16 17 18 19 20 21 22 23 24 25 26 27 28 29 30 31 32 33 34 35 36 37 38 39 40 41 42 43 44 45 46 47 48 49 50 51 52 53 54 55 56 57 58 59 60 61 62 63 64 65 66 67 68 69)
    };
}
/// More types than any table first makes room for.
fn types() {
    let mut w = ManuallyDrop::new(World::new());
    let e = w.spawn().build();
    let mut id = [e; 70];
    let v = sym();
    // these are met through an entity of their own, every n-th
    let nth = [1, 3, 71][choice(3)];
    macro_rules! meet {
        ($i:literal) => {
            if ($i + 1) % nth == 0 {
                let _ = w.spawn().with(V::<$i>(v ^ $i)).build();
            }
            id[$i] = w.get_or_create_type_id_ecsid::<V<$i>>();
        };
    }
    sixty!(meet);
    let mut i = 0;
    while i < 70 {
        ck!(id[i] != e && w.is_alive(id[i]));
        let mut j = 0;
        while j < i {
            ck!(id[i] != id[j]);
            j += 1;
        }
        i += 1;
    }
    let a = [0, 27, 28, 31, 32, 55, 56, 63, 64, 69][choice(10)];
    let b = [1, 29, 33, 57, 65][choice(5)];
    macro_rules! give {
        ($i:literal) => {
            if $i == a || $i == b {
                w.add_component(e, V::<$i>(v.wrapping_add($i)));
            }
        };
    }
    sixty!(give);
    macro_rules! again {
        ($i:literal) => {
            ck!(w.get_or_create_type_id_ecsid::<V<$i>>() == id[$i]);
            let want = $i == a || $i == b;
            ck!(w.has_component::<V<$i>>(e) == want);
            let mut n = 0;
            let mut mine = false;
            for (x, y) in w.query::<(&V<$i>, EcsIds)>().iter() {
                if y == e {
                    mine = true;
                    ceq!(x.0, v.wrapping_add($i));
                } else {
                    ceq!(x.0, v ^ $i);
                }
                n += 1;
            }
            ck!(mine == want);
            ck!(n == want as usize + (($i + 1) % nth == 0) as usize);
        };
    }
    sixty!(again);
    reach(1);
    unsafe { ManuallyDrop::drop(&mut w) };
}

entries! { LIST;
fn c08_public() { combos(&[1, 40, 63, 64, 65, 130, 200]) }
fn c16_wide() { wide(param(5)) }
fn c16_fan() { fan(40, param(6)) }
fn c16_types() { types() }
fn c16_sets() { sets(param(0), param(1)) }
fn c16_moves() { moves(param(2)) }
fn c16_crowd() { crowd(&[4, 5, 8, 9, 16, 17, 33], param(3)) }
fn c16_ids() { far_ids(&[0, 31, 32, 33, 63, 64, 65, 127, 128], param(4)) }
fn c16_ended() { ended(&[34, 70, 140], &[0, 1, 2, 3, 5, 6], param(8)) }
fn c16_late() { late(&[1, 33, 63, 64, 65, 70, 130], param(7)) }
fn c16_thousands() { thousands(4100, 520) }
}
