//! The identity of component types: routes of first contact, equal-looking types, several worlds,
//! and the end of the entity that stands for a type (C15).
use crate::entries;
use crate::hist::run;
use crate::model::*;
use crate::rt::*;
use arche_tape::{EcsId, EcsIds, FetchType, World};
use core::mem::ManuallyDrop;
const FILE: u32 = 12;

const ALLS: &[usize] = &[0, 1, 2, 3, 4, 5];
const CH: u32 = CH_FULL & !CH_SHAPES;

// types that cannot be told apart by their content
pub struct P(pub u64);
pub struct Q(pub u64);
pub struct R<T>(pub u64, core::marker::PhantomData<T>);
impl Drop for Q {
    fn drop(&mut self) {
        unsafe { ENDED += 1 }
    }
}
pub static mut ENDED: usize = 0;
pub mod inner {
    pub struct P(pub u64);
}
trait Tw: 'static + Sized {
    fn mk(v: u64) -> Self;
    fn v(&self) -> u64;
}
impl Tw for P {
    fn mk(v: u64) -> Self {
        P(v)
    }
    fn v(&self) -> u64 {
        self.0
    }
}
impl Tw for Q {
    fn mk(v: u64) -> Self {
        Q(v)
    }
    fn v(&self) -> u64 {
        self.0
    }
}
impl Tw for inner::P {
    fn mk(v: u64) -> Self {
        inner::P(v)
    }
    fn v(&self) -> u64 {
        self.0
    }
}
impl<T: 'static> Tw for R<T> {
    fn mk(v: u64) -> Self {
        R(v, core::marker::PhantomData)
    }
    fn v(&self) -> u64 {
        self.0
    }
}
impl Tw for u64 {
    fn mk(v: u64) -> Self {
        v
    }
    fn v(&self) -> u64 {
        *self
    }
}
impl Tw for (u64,) {
    fn mk(v: u64) -> Self {
        (v,)
    }
    fn v(&self) -> u64 {
        self.0
    }
}
// two types of the same name
pub trait Named {
    type T;
}
pub struct First;
pub struct Second;
macro_rules! same {
    ($k:ty) => {
        const _: () = {
            pub struct Same(u64);
            impl Named for $k {
                type T = Same;
            }
            impl Tw for Same {
                fn mk(v: u64) -> Self {
                    Same(v)
                }
                fn v(&self) -> u64 {
                    self.0
                }
            }
        };
    };
}
same!(First);
same!(Second);
const NT: usize = 8;
macro_rules! tw {
    ($k:expr, $T:ident => $e:expr) => {
        match $k {
            0 => { type $T = P; $e }
            1 => { type $T = inner::P; $e }
            2 => { type $T = R<P>; $e }
            3 => { type $T = R<Q>; $e }
            4 => { type $T = u64; $e }
            5 => { type $T = <First as Named>::T; $e }
            6 => { type $T = <Second as Named>::T; $e }
            _ => { type $T = (u64,); $e }
        }
    };
}
struct Tab {
    id: [Option<EcsId>; NT],
    val: [Option<u64>; NT],
}
/// what one world says about the types
fn see(w: &mut World, t: &Tab, e: EcsId) {
    let mut k = 0;
    while k < NT {
        if let Some(c) = t.id[k] {
            ck!(w.is_alive(c));
            ck!(c != e);
            tw!(k, T => ck!(w.get_or_create_type_id_ecsid::<T>() == c));
            let mut j = 0;
            while j < k {
                if let Some(d) = t.id[j] {
                    ck!(c != d);
                    ck!(c.as_u64() != d.as_u64());
                }
                j += 1;
            }
        }
        tw!(k, T => {
            ck!(w.has_component::<T>(e) == t.val[k].is_some());
            let mut n = 0;
            let mut q = w.query::<(EcsIds, &T)>();
            for (id, x) in q.iter() {
                ck!(id == e);
                ck!(t.val[k].is_some());
                ceq!(x.v(), t.val[k].unwrap_or(0));
                n += 1;
            }
            ck!(n == t.val[k].is_some() as usize);
        });
        if let Some(c) = t.id[k] {
            match w.get_component_mut_dynamic(e, c) {
                Some(p) => {
                    ck!(t.val[k].is_some());
                    ceq!(unsafe { *(p as *const u64) }, t.val[k].unwrap_or(0));
                }
                None => ck!(t.val[k].is_none()),
            }
        }
        k += 1;
    }
}
/// one contact of the world with type k, by any route; what is then known of its id is noted
fn contact(w: &mut World, t: &mut Tab, k: usize, e: EcsId, route: usize) {
    tw!(k, T => {
        match route {
            0 => {
                t.id[k] = Some(match t.id[k] {
                    Some(c) => {
                        ck!(w.get_or_create_type_id_ecsid::<T>() == c);
                        c
                    }
                    None => w.get_or_create_type_id_ecsid::<T>(),
                });
            }
            1 => {
                if t.val[k].is_none() {
                    let v = sym();
                    w.add_component(e, T::mk(v));
                    t.val[k] = Some(v);
                } else {
                    w.remove_component::<T>(e);
                    t.val[k] = None;
                }
            }
            2 => {
                // an entity that carries it comes and goes
                let x = w.spawn().with(T::mk(sym())).build();
                ck!(w.has_component::<T>(x) && x != e);
                ck!(w.despawn(x));
            }
            3 => {
                ck!(w.has_component::<T>(e) == t.val[k].is_some());
                let mut q = w.query::<(&mut T, EcsIds)>();
                ck!(q.get(e).is_some() == t.val[k].is_some());
            }
            _ => {
                if t.val[k].is_none() {
                    // refused; may make the type known
                    let refused = attempt(|| w.remove_component::<T>(e)).is_none();
                    ck!(refused || !w.has_component::<T>(e));
                } else {
                    // queried together with an id no type has
                    let mut n = 0;
                    let mut q = w.query_dynamic([FetchType::EcsId, FetchType::Immut(e)]);
                    q.iter().for_each(|_| n += 1);
                    ck!(n == 0);
                }
            }
        }
    });
}
fn blank() -> Tab {
    Tab { id: [None; NT], val: [None; NT] }
}
/// Equal-looking types met in any order by any route keep apart.
fn twins(k: usize, types: &[usize]) {
    let mut w = ManuallyDrop::new(World::new());
    if flag() {
        // slots and generations shifted
        let a = w.spawn().build();
        let _ = w.spawn().build();
        ck!(w.despawn(a));
    }
    let e = w.spawn().build();
    let mut t = blank();
    let mut j = 0;
    while j < k {
        contact(&mut w, &mut t, types[choice(types.len())], e, choice(5));
        if j + 1 == k {
            see(&mut w, &t, e);
        }
        j += 1;
    }
    let mut i = 0;
    while i < NT {
        contact(&mut w, &mut t, i, e, 0);
        i += 1;
    }
    see(&mut w, &t, e);
    ck!(w.despawn(e));
    t.val = [None; NT];
    see(&mut w, &t, e);
    reach(1);
    unsafe { ManuallyDrop::drop(&mut w) };
}
/// Two worlds: what one does never shows in the other.
fn worlds(k: usize) {
    let mut w = [ManuallyDrop::new(World::new()), ManuallyDrop::new(World::new())];
    let mut t = [blank(), blank()];
    let _shift = w[1].spawn().build();
    let e0 = w[0].spawn().build();
    let e1 = w[1].spawn().build();
    let e = [e0, e1];
    let mut j = 0;
    while j < k {
        let x = choice(2);
        contact(&mut w[x], &mut t[x], [0, 3][choice(2)], e[x], choice(3));
        j += 1;
    }
    see(&mut w[0], &t[0], e[0]);
    see(&mut w[1], &t[1], e[1]);
    let first = choice(2);
    unsafe { ManuallyDrop::drop(&mut w[first]) };
    let o = 1 - first;
    let mut i = 0;
    while i < NT {
        contact(&mut w[o], &mut t[o], i, e[o], 0);
        i += 1;
    }
    see(&mut w[o], &t[o], e[o]);
    reach(1);
    unsafe { ManuallyDrop::drop(&mut w[o]) };
}
/// One world after another in the same place, memory given out again: nothing of the earlier one shows in the later.
fn again(k: usize) {
    reuse();
    let mut round = 0;
    while round < 2 {
        let mut w = ManuallyDrop::new(World::new());
        let mut t = blank();
        // what has an id of its own before the first type
        let before = choice(2);
        let mut e = None;
        if before == 1 {
            e = Some(w.spawn().build());
        }
        // the first contact comes before there is any entity, or after
        let x = [0, 3][choice(2)];
        if e.is_none() {
            let id = tw!(x, T => w.get_or_create_type_id_ecsid::<T>());
            t.id[x] = Some(id);
        }
        let e = match e {
            Some(e) => e,
            None => w.spawn().build(),
        };
        let mut j = 0;
        while j < k {
            contact(&mut w, &mut t, [0, 3][choice(2)], e, choice(3));
            j += 1;
        }
        see(&mut w, &t, e);
        if round == 1 {
            reach(1);
        }
        unsafe { ManuallyDrop::drop(&mut w) };
        round += 1;
    }
}
/// Registration seen from everything else: nothing but the type's own entity appears.
fn quiet() {
    let mut s = Sim::new(&[KA, KB, KD], MAXE, CH_FULL);
    s.scaffold(choice(6));
    s.check();
    // types that no entity of the scaffold has
    let mut x = 0;
    let mut new = [KX, KG, KO, KL];
    let m = choice(4);
    while x <= m {
        let c = x + choice(4 - x);
        new.swap(x, c);
        s.comp_id(new[x]);
        x += 1;
    }
    s.check();
    s.step(OP_STRUCT);
    s.check();
    reach(1);
    s.finish();
}

entries! { LIST;
fn c15_reg() { run(&[KA, KD, KZ], OP_STRUCT | OP_REG, CH_FULL, param(0), ALLS, 1) }
fn c15_end() { run(&[KA, KD, KZ], OP_ADD | OP_REMOVE | OP_DESPAWN | OP_REG | OP_END, CH_FULL, param(0), ALLS, 0) }
fn c15_endmem() { run(&[KX, KG], OP_STRUCT | OP_REG | OP_END, CH, param(1), ALLS, 1) }
fn c15_twins() { twins(param(2), &[0, 1, 2, 3, 5, 6, 7]) }
fn c15_routes() { twins(param(3), &[0, 3]) }
fn c15_worlds() { worlds(param(4)) }
fn c15_again() { again(param(5)) }
fn c15_quiet() { quiet() }
}
