//! Operations the world has to refuse: whatever way it refuses, nothing changes (C12).
use crate::entries;
use crate::model::*;
use crate::rt::*;
use crate::typed;
use arche_tape::{EcsId, EcsIds, FetchType};
use core::mem::ManuallyDrop;
const FILE: u32 = 8;

const R_DUP: u32 = 1;
const R_ABSENT: u32 = 2;
const R_DEADENT: u32 = 4;
const R_DEADCOMP: u32 = 8;
const R_BUILDER: u32 = 16;
const R_DATA: u32 = 32;
const R_DESPAWN: u32 = 64;
const R_LOOK: u32 = 128;

/// add through one of the interfaces; the value is not tracked, it never becomes part of an entity
fn bad_add(s: &mut Sim, id: EcsId, k: usize, how: usize) -> bool {
    let v = 0x7777_0000_1111 ^ k as u64;
    if how == 0 && k != KT && k != KY {
        return typed!(k, T => {
            let t = T::mk(v, 0);
            let w = &mut s.w;
            refused(|| w.add_component(id, t))
        }; else unreachable!());
    }
    let c = s.comp_id(k);
    bad_add_raw(s, id, c, k, how)
}
fn bad_add_raw(s: &mut Sim, id: EcsId, c: EcsId, k: usize, how: usize) -> bool {
    let v = 0x7777_0000_1111 ^ k as u64;
    let w = &mut s.w;
    if k == KT && how == 0 {
        return refused(|| w.add_component_dynamic(id, c));
    }
    if k == KY {
        let mut y = ybuf(v, 0);
        return refused(|| unsafe { w.add_component_dynamic_with_data(id, c, &mut y as *mut _ as *mut u8) });
    }
    if k == KT {
        let mut u = ();
        return refused(|| unsafe { w.add_component_dynamic_with_data(id, c, &mut u as *mut _ as *mut u8) });
    }
    typed!(k, T => {
        let mut t = ManuallyDrop::new(T::mk(v, 0));
        refused(|| unsafe { w.add_component_dynamic_with_data(id, c, &mut t as *mut _ as *mut u8) })
    }; else unreachable!())
}
fn bad_remove(s: &mut Sim, id: EcsId, k: usize, how: usize) -> bool {
    if how == 0 && k != KT && k != KY {
        return typed!(k, T => { let w = &mut s.w; refused(|| w.remove_component::<T>(id)) }; else unreachable!());
    }
    let c = s.comp_id(k);
    let w = &mut s.w;
    refused(|| w.remove_component_dynamic(id, c))
}
/// a creation that names the same component twice, in every combination of interfaces
fn bad_build(s: &mut Sim, k: usize, how: usize, between: bool) {
    let c = s.comp_id(k);
    let w = &mut s.w;
    let v = 0x7777_0000_1111u64;
    let r = if k == KT || k == KY {
        let mut y = ybuf(v, 0);
        let mut y2 = ybuf(!v, 0);
        attempt(|| {
            let b = w.spawn();
            let b = unsafe { if k == KT { b.with_dynamic(c) } else { b.with_dynamic_with_data(&mut y as *mut _ as *mut u8, c) } };
            let b = if between { b.with(G { v: 5 }) } else { b };
            let mut b = unsafe { if k == KT { b.with_dynamic(c) } else { b.with_dynamic_with_data(&mut y2 as *mut _ as *mut u8, c) } };
            b.build()
        })
    } else {
        typed!(k, T => {
            let mut t = ManuallyDrop::new(T::mk(v, 0));
            let mut t2 = ManuallyDrop::new(T::mk(v ^ 1, 0));
            attempt(|| {
                let b = w.spawn();
                let b = if how & 1 == 0 { b.with(T::mk(v, 0)) } else { unsafe { b.with_dynamic_with_data(&mut t as *mut _ as *mut u8, c) } };
                let b = if between { b.with(G { v: 5 }) } else { b };
                let mut b = if how & 2 == 0 { b.with(T::mk(v ^ 1, 0)) } else { unsafe { b.with_dynamic_with_data(&mut t2 as *mut _ as *mut u8, c) } };
                b.build()
            })
        }; else unreachable!())
    };
    // an entity with the component twice does not exist, so the creation cannot have succeeded
    ck!(r.is_none());
}
/// builder with something that is not a component
fn bad_build_dead(s: &mut Sim, c: EcsId, data: bool, first: usize) {
    // the components named before it are ones that other entities carry
    let f = if first == 0 { NK } else { s.kinds[first - 1] };
    let fc = if f == NK { c } else { s.comp_id(f) };
    let w = &mut s.w;
    let mut y = ybuf(3, 0);
    let mut y0 = ybuf(4, 0);
    let r = attempt(|| {
        let b = w.spawn();
        let b = match f {
            NK => b,
            KT => b.with_dynamic(fc),
            KY => unsafe { b.with_dynamic_with_data(&mut y0 as *mut _ as *mut u8, fc) },
            f => typed!(f, T => b.with(T::mk(9, 0)); else unreachable!()),
        };
        let mut b = if data { unsafe { b.with_dynamic_with_data(&mut y as *mut _ as *mut u8, c) } } else { b.with_dynamic(c) };
        b.build()
    });
    ck!(r.is_none());
}
/// looking at something that is not there: an answer of nothing (or a panic), and no effect
fn bad_look(s: &mut Sim, dead: EcsId, live: EcsId, k: usize) {
    let c = s.comp_id(k);
    let w = &mut s.w;
    if let Some(x) = attempt(|| w.get_component_mut_dynamic(dead, c)) {
        ck!(x.is_none());
    }
    if let Some(x) = attempt(|| w.get_component_mut_dynamic(live, dead)) {
        ck!(x.is_none());
    }
    if let Some(x) = attempt(|| w.has_component::<A>(dead)) {
        ck!(!x);
    }
    ck!(w.query::<(EcsIds,)>().get(dead).is_none());
    ck!(w.query::<(&mut A, &B)>().get(dead).is_none());
    {
        let mut q = w.query_dynamic([FetchType::Mut(dead), FetchType::Immut(c)]);
        ck!(q.iter().next().is_none());
    }
    ck!(!w.is_alive(dead));
}

/// one operation that must be refused, chosen among all those of the allowed classes
fn refuse(s: &mut Sim, classes: u32, gone: Option<EcsId>) -> bool {
    let mut list = [(0u32, 0usize, 0usize, 0usize); 256];
    let mut m = 0;
    let mut put = |o: u32, a: usize, b: usize, c: usize| {
        if classes & o != 0 {
            list[m] = (o, a, b, c);
            m += 1;
        }
    };
    let nk = s.kinds.len();
    let mut i = 0;
    while i < s.n {
        let mut b = 0;
        while b < nk {
            let k = s.kinds[b];
            let mut how = 0;
            while how < 2 {
                if s.e[i].alive && s.e[i].has[k] {
                    put(R_DUP, i, k, how);
                }
                if s.e[i].alive && !s.e[i].has[k] {
                    put(R_ABSENT, i, k, how);
                }
                if !s.e[i].alive {
                    put(R_DEADENT, i, k, how);
                    put(R_DEADENT, i, k, how + 2);
                }
                how += 1;
            }
            if s.e[i].alive && (k == KD || k == KY || k == KA || k == KB || k == KG) {
                put(R_DATA, i, k, 0);
            }
            b += 1;
        }
        if s.e[i].alive {
            if gone.is_some() {
                put(R_DEADCOMP, i, 0, 0);
                put(R_DEADCOMP, i, 0, 1);
                put(R_DEADCOMP, i, 0, 2);
                put(R_DEADCOMP, i, 0, 3);
            }
        } else {
            put(R_DESPAWN, i, 0, 0);
            put(R_LOOK, i, s.kinds[0], 0);
        }
        i += 1;
    }
    let mut b = 0;
    while b < nk {
        let k = s.kinds[b];
        if k != KX && k != KD {
            let mut how = 0;
            while how < 4 {
                put(R_BUILDER, k, how, 0);
                if k != KG {
                    put(R_BUILDER, k, how, 1);
                }
                if k == KT || k == KY {
                    break;
                }
                how += 1;
            }
        }
        if SIZE[k] > 0 {
            let mut f = 0;
            while f <= nk {
                if f == 0 || (s.kinds[f - 1] != k && s.kinds[f - 1] != KD && s.kinds[f - 1] != KX) {
                    put(R_DATA, s.n, k, f);
                }
                f += 1;
            }
        }
        b += 1;
    }
    if gone.is_some() {
        let mut f = 0;
        while f <= nk {
            if f == 0 || (s.kinds[f - 1] != KD && s.kinds[f - 1] != KX) {
                put(R_BUILDER, NK, 0, f);
                put(R_BUILDER, NK, 1, f);
            }
            f += 1;
        }
    }
    if m == 0 {
        return false;
    }
    let (o, a, b, c) = list[choice(m)];
    trace(o as u64 * 1000_000 + a as u64 * 10000 + b as u64 * 100 + c as u64);
    match o {
        R_DUP => {
            let id = s.e[a].id;
            bad_add(s, id, b, c);
        }
        R_ABSENT => {
            let id = s.e[a].id;
            bad_remove(s, id, b, c);
            s.comp_id(b);
        }
        R_DEADENT => {
            let id = s.e[a].id;
            if c < 2 {
                bad_add(s, id, b, c);
            } else {
                bad_remove(s, id, b, c - 2);
            }
            s.comp_id(b);
        }
        R_DEADCOMP => {
            let (id, g) = (s.e[a].id, gone.unwrap());
            match c {
                0 => {
                    bad_add_raw(s, id, g, KT, 0);
                }
                1 => {
                    bad_add_raw(s, id, g, KY, 0);
                }
                2 => {
                    let w = &mut s.w;
                    refused(|| w.remove_component_dynamic(id, g));
                }
                _ => bad_look(s, g, id, s.kinds[0]),
            }
        }
        R_BUILDER => {
            if a == NK {
                bad_build_dead(s, gone.unwrap(), b == 1, c)
            } else {
                bad_build(s, a, b, c == 1);
                if c == 1 {
                    s.comp_id(KG);
                }
            }
        }
        R_DATA => {
            let k = s.comp_id(b);
            if a < s.n {
                // present or absent, a component with data cannot be added without
                let id = s.e[a].id;
                let w = &mut s.w;
                ck!(refused(|| w.add_component_dynamic(id, k)));
            } else {
                bad_build_dead(s, k, false, c);
            }
        }
        R_DESPAWN => {
            let id = s.e[a].id;
            ck!(!s.w.despawn(id));
        }
        _ => {
            let mut live = s.e[a].id;
            for e in s.e[..s.n].iter() {
                if e.alive {
                    live = e.id
                }
            }
            let id = s.e[a].id;
            bad_look(s, id, live, b);
        }
    }
    reach(2);
    true
}

fn run(kinds: &'static [usize], classes: u32, pre: usize, refusals: usize, post: usize, scaffolds: &[usize], comps: bool) {
    let mut s = Sim::new(kinds, MAXE, CH_FULL & !CH_SHAPES);
    s.scaffold(scaffolds[choice(scaffolds.len())]);
    s.maxe = s.n + 1;
    // an entity that served as a component and is dead now; its slot may have been taken over
    let mut gone = None;
    if comps {
        let g = s.w.spawn().build();
        s.fresh_id(g);
        let carried = flag();
        if carried && s.n > 0 && s.e[0].alive {
            s.w.add_component_dynamic(s.e[0].id, g);
        }
        ck!(s.w.despawn(g));
        if flag() {
            s.spawn(1);
        }
        gone = Some(g);
    }
    let mut j = 0;
    while j < pre && s.step(OP_STRUCT) {
        j += 1;
    }
    s.check();
    j = 0;
    while j < refusals && refuse(&mut s, classes, gone) {
        s.check();
        j += 1;
    }
    s.maxe = s.n + 1;
    j = 0;
    while j < post && s.step(OP_STRUCT) {
        s.check();
        j += 1;
    }
    reach(1);
    if gone.is_some() {
        ck!(!s.w.is_alive(gone.unwrap()));
    }
    s.finish();
}
const MEMBER: u32 = R_DUP | R_ABSENT;

const LT: usize = 12;
fn with_data(i: usize) -> bool {
    i % 3 == 1
}
struct Many {
    w: ManuallyDrop<arche_tape::World>,
    tag: [EcsId; LT],
    e: [EcsId; 8],
    has: [u32; 8],
    val: [u64; 8],
    n: usize,
}
fn put_on<'a>(m: &[EcsId; LT], b: arche_tape::entity_builder::EntityBuilder<'a>, i: usize, v: &mut u64) -> arche_tape::entity_builder::EntityBuilder<'a> {
    if with_data(i) {
        unsafe { b.with_dynamic_with_data(v as *mut u64 as *mut u8, m[i]) }
    } else {
        b.with_dynamic(m[i])
    }
}
impl Many {
    /// an entity with the components `list`
    fn create(&mut self, list: &[usize]) {
        let v = sym();
        let mut d = v;
        let tag = self.tag;
        let mut b = self.w.spawn();
        let mut has = 0;
        for &i in list {
            d = v ^ i as u64;
            b = put_on(&tag, b, i, &mut d);
            has |= 1 << i;
        }
        let e = b.with(A(!v)).build();
        let _ = d;
        let n = self.n;
        for j in 0..n {
            ck!(self.e[j] != e);
        }
        self.e[n] = e;
        self.has[n] = has;
        self.val[n] = v;
        self.n += 1;
    }
    fn check(&mut self) {
        state();
        for j in 0..self.n {
            let e = self.e[j];
            ck!(self.w.is_alive(e));
            for i in 0..LT {
                let p = self.w.get_component_mut_dynamic(e, self.tag[i]);
                ck!(p.is_some() == (self.has[j] >> i & 1 == 1));
                if let (Some(p), true) = (p, with_data(i)) {
                    ceq!(unsafe { *(p as *const u64) }, self.val[j] ^ i as u64);
                }
            }
            let mut q = self.w.query::<(&A, EcsIds)>();
            let r = q.get(e);
            ck!(r.is_some());
            let (a, id) = r.unwrap();
            ck!(id == e);
            ceq!(a.0, !self.val[j]);
        }
        let mut m = 0u32;
        for (a, id) in self.w.query::<(&A, EcsIds)>().iter() {
            let mut j = 0;
            while j < self.n && self.e[j] != id {
                j += 1;
            }
            ck!(j < self.n && m >> j & 1 == 0);
            m |= 1 << j;
            ceq!(a.0, !self.val[j]);
        }
        ck!(m == (1 << self.n) - 1);
        for i in 0..LT {
            let mut m = 0u32;
            let mut q = self.w.query_dynamic([FetchType::EcsId, FetchType::Immut(self.tag[i])]);
            for [id, p] in q.iter() {
                let id = unsafe { *(id as *const EcsId) };
                let mut j = 0;
                while j < self.n && self.e[j] != id {
                    j += 1;
                }
                ck!(j < self.n && m >> j & 1 == 0 && self.has[j] >> i & 1 == 1);
                m |= 1 << j;
                if with_data(i) {
                    ceq!(unsafe { *(p as *const u64) }, self.val[j] ^ i as u64);
                }
            }
            for j in 0..self.n {
                ck!((m >> j & 1 == 1) == (self.has[j] >> i & 1 == 1));
            }
        }
    }
}
/// Long creations, one of whose components cannot be had: named before, dead, or in need of data.
fn long_creations() {
    let mut w = ManuallyDrop::new(arche_tape::World::new());
    let tag: [EcsId; LT] = core::array::from_fn(|i| {
        if with_data(i) {
            unsafe { w.spawn_with_component_meta(arche_tape::world::ComponentMeta::from_size_align(8, 8)).build() }
        } else {
            w.spawn().build()
        }
    });
    let mut m = Many { w, tag, e: [tag[0]; 8], has: [0; 8], val: [0; 8], n: 0 };
    let first = choice(2) * 4;
    let len = [3, 4, 5, 7, 9, 11][choice(6)];
    let list: [usize; LT] = core::array::from_fn(|i| (i * 5 + first) % LT);
    // sets with all of them, with all but the last one, with one more
    let known = if param(3) == 1 { [0, 3][choice(2)] } else { choice(4) };
    if known & 1 == 1 {
        m.create(&list[..len]);
    }
    if known & 2 == 2 {
        m.create(&list[..len - 1]);
        m.create(&list[..len + 1]);
    }
    let wrong = choice(3);
    let dead = m.w.spawn().build();
    if wrong == 1 {
        if flag() {
            let e = m.w.spawn().with_dynamic(dead).build();
            ck!(m.w.despawn(e));
        }
        ck!(m.w.despawn(dead));
    }
    m.check();
    let at = choice(len);
    let place = [0, 1, 2, len / 2, len][choice(5)];
    let tags = m.tag;
    let mut y = 0x7777_0000_1111u64;
    let before = flag();
    let w = &mut m.w;
    let r = attempt(|| {
        let mut b = w.spawn();
        if before {
            b = b.with(A(5));
        }
        let mut i = 0;
        while i <= len {
            if i == place {
                b = match wrong {
                    0 => put_on(&tags, b, list[at], &mut y),
                    1 => b.with_dynamic(dead),
                    // needs data, gets none
                    _ => b.with_dynamic(tags[if with_data(list[len]) { list[len] } else if with_data(list[len - 1]) { list[len - 1] } else { list[len - 2] }]),
                };
            }
            if i < len {
                b = put_on(&tags, b, list[i], &mut y);
            }
            i += 1;
        }
        if !before {
            b = b.with(A(6));
        }
        b.build()
    });
    ck!(r.is_none());
    m.check();
    // everything works as before
    m.create(&list[..len]);
    m.create(&list[1..len]);
    if wrong != 1 {
        ck!(m.w.is_alive(dead) && m.w.despawn(dead));
    }
    m.check();
    let e = m.e[0];
    let i = list[0];
    if m.has[0] >> i & 1 == 1 {
        m.w.remove_component_dynamic(e, tags[i]);
        m.has[0] &= !(1 << i);
        m.check();
    }
    reach(1);
    unsafe { ManuallyDrop::drop(&mut m.w) };
}

static mut ENDED: usize = 0;
fn count(_: *mut core::mem::MaybeUninit<u8>) {
    unsafe { ENDED += 1 }
}
/// What needs data is not added without, however the component came to be and whether or not it has a destructor.
fn needs_data() {
    const LAY: [(usize, usize); 9] = [(1, 1), (4, 4), (8, 8), (12, 4), (16, 16), (64, 64), (300, 1), (0, 1), (0, 8)];
    let mut w = ManuallyDrop::new(arche_tape::World::new());
    unsafe { ENDED = 0 };
    let pick = choice(11);
    let drops = flag();
    let (size, c);
    if pick >= 9 {
        // an id that stands for a Rust type
        size = [8, 0][pick - 9];
        c = if pick == 9 { w.get_or_create_type_id_ecsid::<[u32; 2]>() } else { w.get_or_create_type_id_ecsid::<[u32; 0]>() };
    } else {
        let mut m = arche_tape::world::ComponentMeta::from_size_align(LAY[pick].0, LAY[pick].1);
        if drops {
            m.drop_fn = Some(count);
        }
        size = LAY[pick].0;
        c = unsafe { w.spawn_with_component_meta(m) }.build();
    }
    let counts = drops && pick < 9;
    #[repr(align(64))]
    struct Src([u64; 64]);
    let mut src = Src([0x0101_0101_0101_0101; 64]);
    src.0[0] = sym();
    let first = src.0[0] as u8;
    let (x, y, z) = (sym(), sym(), sym());
    // a carrier: never, made by addition, made at creation, made and gone again
    let had = choice(4);
    let e = w.spawn().with(A(x)).build();
    let f = w.spawn().with(A(y)).build();
    let mut g = w.spawn().build();
    let mut carries = false;
    let mut ended = 0;
    match had {
        0 => w.add_component(g, A(z)),
        1 | 3 => unsafe {
            w.add_component(g, A(z));
            w.add_component_dynamic_with_data(g, c, src.0.as_mut_ptr() as *mut u8);
            carries = true;
        },
        _ => {
            g = unsafe { w.spawn().with_dynamic_with_data(src.0.as_mut_ptr() as *mut u8, c) }.with(A(z)).build();
            carries = true;
        }
    }
    if had == 3 {
        w.remove_component_dynamic(g, c);
        carries = false;
        ended = 1;
    }
    let is_right = |w: &mut arche_tape::World, carriers: &[EcsId], ended: usize| {
        ck!(!counts || unsafe { ENDED } == ended);
        let all = [(e, x), (f, y), (g, z)];
        let mut q = w.query::<(EcsIds, &A)>();
        let mut n = 0;
        for (id, a) in q.iter() {
            let k = if id == e { 0 } else if id == f { 1 } else { 2 };
            ck!(id == all[k].0);
            ceq!(a.0, all[k].1);
            n += 1;
        }
        ck!(n == 3);
        drop(q);
        for (id, _) in all.iter() {
            let p = w.get_component_mut_dynamic(*id, c);
            ck!(p.is_some() == carriers.contains(id));
            if let Some(p) = p {
                if size > 0 {
                    ceq!(unsafe { *p } as u64, first as u64);
                }
            }
        }
        let mut q = w.query_dynamic([FetchType::EcsId, FetchType::Immut(c)]);
        let mut n = 0;
        for [id, _] in q.iter() {
            ck!(carriers.contains(unsafe { &*(id as *const EcsId) }));
            n += 1;
        }
        ck!(n == carriers.len());
    };
    let list = [g];
    let carriers: &[EcsId] = if carries { &list } else { &[] };
    is_right(&mut w, carriers, ended);
    if size > 0 {
        match choice(4) {
            0 => ck!(refused(|| w.add_component_dynamic(e, c))),
            1 => ck!(refused(|| w.add_component_dynamic(g, c))),
            2 => ck!(refused(|| w.spawn().with_dynamic(c).build())),
            _ => ck!(refused(|| w.spawn().with(A(1)).with_dynamic(c).build())),
        }
        reach(2);
    } else {
        w.add_component_dynamic(e, c);
        is_right(&mut w, &[e, g][..1 + carries as usize], ended);
        w.remove_component_dynamic(e, c);
        ended += 1;
    }
    is_right(&mut w, carriers, ended);
    // with data it works as ever
    unsafe { w.add_component_dynamic_with_data(f, c, src.0.as_mut_ptr() as *mut u8) };
    is_right(&mut w, &[f, g][..1 + carries as usize], ended);
    w.remove_component_dynamic(f, c);
    is_right(&mut w, carriers, ended + 1);
    reach(1);
    unsafe { ManuallyDrop::drop(&mut w) };
    ck!(!counts || unsafe { ENDED } == ended + 1 + carriers.len());
}

entries! { LIST;
fn c12_data() { needs_data() }
fn c12_long() { long_creations() }
// values given to an abandoned creation or refused addition are not anybody's component: leaks are not looked for
fn c12_member() { run(&[KA, KD, KZ], MEMBER | R_DATA, param(0), param(1), param(2), &[0, 1, 2, 3, 5], false) }
fn c12_dynamic() { run(&[KT, KY, KC], MEMBER | R_DATA, param(0), param(1), param(2), &[1, 2, 3, 5], false) }
fn c12_dead() { run(&[KA, KB], R_DEADENT | R_DESPAWN | R_LOOK, 0, param(1), param(2), &[4, 5], false) }
fn c12_comps() { run(&[KA, KT], R_DEADCOMP | R_BUILDER, 0, param(1), param(2), &[1, 2], true) }
fn c12_builder() { run(&[KB, KZ, KY], R_BUILDER | R_DATA, 0, param(1), param(2), &[0, 1, 3], false) }
}
