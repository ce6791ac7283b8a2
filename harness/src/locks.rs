//! Queries held side by side (C10).
use crate::entries;
use crate::model::*;
use crate::rt::*;
use arche_tape::{EcsId, EcsIds, FetchType, World};
const FILE: u32 = 7;

trait Held {}
impl<T> Held for T {}

/// what a shape asks for: per component (A, B, tag), how often shared and how often exclusively
#[derive(Clone, Copy, PartialEq)]
struct Ask {
    sh: [u8; 3],
    ex: [u8; 3],
}
impl Ask {
    fn selfish(&self) -> bool {
        let mut c = 0;
        let mut r = false;
        while c < 3 {
            r |= self.ex[c] > 0 && self.ex[c] + self.sh[c] > 1;
            c += 1;
        }
        r
    }
    fn conflicts(&self, o: &Ask) -> bool {
        let mut c = 0;
        let mut r = false;
        while c < 3 {
            r |= self.ex[c] > 0 && o.ex[c] + o.sh[c] > 0;
            r |= o.ex[c] > 0 && self.ex[c] + self.sh[c] > 0;
            c += 1;
        }
        r
    }
}
struct Ids {
    a: EcsId,
    b: EcsId,
    t: EcsId,
}

const NS: usize = 16;
const ND1: usize = 7;
const ND2: usize = 49;
/// typed shapes, untyped shapes with one fetch, untyped shapes with two fetches
const NSHAPES: usize = NS + ND1 + ND2;

fn fetch(i: &Ids, k: usize) -> FetchType {
    match k {
        0 => FetchType::EcsId,
        1 => FetchType::Immut(i.a),
        2 => FetchType::Mut(i.a),
        3 => FetchType::Immut(i.b),
        4 => FetchType::Mut(i.b),
        5 => FetchType::Immut(i.t),
        _ => FetchType::Mut(i.t),
    }
}
fn ask_fetch(r: &mut Ask, k: usize) {
    match k {
        0 => {}
        1 => r.sh[0] += 1,
        2 => r.ex[0] += 1,
        3 => r.sh[1] += 1,
        4 => r.ex[1] += 1,
        5 => r.sh[2] += 1,
        _ => r.ex[2] += 1,
    }
}
macro_rules! shapes {
    ($w:expr, $s:expr; $($n:literal $q:ty, $sa:literal $ea:literal $sb:literal $eb:literal;)*) => {
        match $s {
            $( $n => (Some(Box::new($w.query::<$q>()) as Box<dyn Held + '_>), Ask { sh: [$sa, $sb, 0], ex: [$ea, $eb, 0] }), )*
            _ => unreachable!(),
        }
    };
    (ask $s:expr; $($n:literal $q:ty, $sa:literal $ea:literal $sb:literal $eb:literal;)*) => {
        match $s { $( $n => Ask { sh: [$sa, $sb, 0], ex: [$ea, $eb, 0] }, )* _ => unreachable!() }
    };
}
macro_rules! table {
    ($($pre:tt)*) => {
        shapes! { $($pre)*;
            0 (&A,), 1 0 0 0;
            1 (&mut A,), 0 1 0 0;
            2 (&B,), 0 0 1 0;
            3 (&mut B,), 0 0 0 1;
            4 (&A, &B), 1 0 1 0;
            5 (&mut A, &B), 0 1 1 0;
            6 (&A, EcsIds, &mut B), 1 0 0 1;
            7 (&mut B, &mut A), 0 1 0 1;
            8 (EcsIds,), 0 0 0 0;
            9 (EcsIds, &mut A), 0 1 0 0;
            10 (&B, &A, &B, &A), 2 0 2 0;
            11 (&A, &mut A), 1 1 0 0;
            12 (&mut A, &A), 1 1 0 0;
            13 (&mut B, EcsIds, &mut B), 0 0 0 2;
            14 (&A, &A, EcsIds, &B), 2 0 1 0;
            15 (&B, &mut A, &B), 0 1 2 0;
        }
    };
}
fn ask(s: usize) -> Ask {
    if s < NS {
        return table!(ask s);
    }
    let mut r = Ask { sh: [0; 3], ex: [0; 3] };
    if s < NS + ND1 {
        ask_fetch(&mut r, s - NS);
    } else {
        ask_fetch(&mut r, (s - NS - ND1) / 7);
        ask_fetch(&mut r, (s - NS - ND1) % 7);
    }
    r
}
fn open<'a>(w: &'a World, i: &Ids, s: usize) -> Box<dyn Held + 'a> {
    if s < NS {
        return table!(w, s).0.unwrap();
    }
    if s < NS + ND1 {
        return Box::new(w.query_dynamic([fetch(i, s - NS)]));
    }
    let s = s - NS - ND1;
    Box::new(w.query_dynamic([fetch(i, s / 7), fetch(i, s % 7)]))
}
/// must be granted, and at once
fn granted<'a>(w: &'a World, i: &Ids, s: usize) -> Box<dyn Held + 'a> {
    match attempt(|| open(w, i, s)) {
        Some(q) => q,
        None => {
            ck!(false);
            unreachable!()
        }
    }
}
/// must wait or be refused
fn denied(w: &World, i: &Ids, s: usize) {
    expect_block(true);
    let r = attempt(|| open(w, i, s));
    ck!(r.is_none());
    expect_block(false);
    reach(255);
}
/// nothing is held any more: everything can be had exclusively
fn all_free(w: &World, i: &Ids) {
    let x = granted(w, i, 7);
    let y = granted(w, i, NS + 6);
    drop(x);
    drop(y);
}

fn setup(v: usize) -> (World, Ids) {
    let mut w = World::new();
    let ids = match v {
        // created with the entity, A first
        0 => {
            let t = w.spawn().build();
            let e = w.spawn().with(A(1)).with(B([1; 3])).build();
            w.add_component_dynamic(e, t);
            Ids { a: w.get_or_create_type_id_ecsid::<A>(), b: w.get_or_create_type_id_ecsid::<B>(), t }
        }
        // registered explicitly, B first, carried by different entities, added later
        1 => {
            let b = w.get_or_create_type_id_ecsid::<B>();
            let a = w.get_or_create_type_id_ecsid::<A>();
            let t = w.spawn().build();
            let e = w.spawn().with_dynamic(t).build();
            w.add_component(e, A(1));
            let e = w.spawn().build();
            w.add_component(e, B([2; 3]));
            Ids { a, b, t }
        }
        // ids in reused slots, other component types in between, untyped addition
        2 => {
            let x = w.spawn().build();
            let y = w.spawn().build();
            w.despawn(x);
            w.despawn(y);
            let a = w.get_or_create_type_id_ecsid::<A>();
            let e = w.spawn().with(L([1; 5])).with(C(4)).build();
            w.add_component(e, G { v: 1 });
            w.add_component(e, A(1));
            let t = w.spawn().build();
            w.add_component_dynamic(e, t);
            let e = w.spawn().build();
            w.add_component(e, B([2; 3]));
            w.add_component(e, C(1));
            Ids { a, b: w.get_or_create_type_id_ecsid::<B>(), t }
        }
        // carried once, by nobody now
        _ => {
            let e = w.spawn().with(B([1; 3])).build();
            w.add_component(e, A(1));
            let t = w.spawn().build();
            w.add_component_dynamic(e, t);
            w.remove_component::<A>(e);
            let f = w.spawn().with(A(2)).build();
            w.despawn(f);
            w.remove_component_dynamic(e, t);
            w.despawn(e);
            Ids { a: w.get_or_create_type_id_ecsid::<A>(), b: w.get_or_create_type_id_ecsid::<B>(), t }
        }
    };
    (w, ids)
}

/// Two queries, in any order of release.
fn pair(typed1: bool, typed2: bool) {
    let (w, i) = setup(choice(4));
    let s1 = if typed1 { choice(NS) } else { NS + choice(NSHAPES - NS) };
    let a1 = ask(s1);
    if a1.selfish() {
        denied(&w, &i, s1);
        all_free(&w, &i);
        reach(2);
        return;
    }
    let q1 = granted(&w, &i, s1);
    let s2 = if typed2 { choice(NS) } else { NS + choice(NSHAPES - NS) };
    let a2 = ask(s2);
    trace((s1 * 1000 + s2) as u64);
    if a2.selfish() || a1.conflicts(&a2) {
        denied(&w, &i, s2);
        drop(q1);
        reach(2);
    } else {
        let q2 = granted(&w, &i, s2);
        if flag() {
            drop(q1);
            drop(q2);
        } else {
            drop(q2);
            drop(q1);
        }
        reach(3);
    }
    all_free(&w, &i);
    reach(1);
}
/// Three queries: the third is requested after one of the first two was released.
fn triple() {
    // the interesting ones: two that can be held together
    const PICK: [usize; 9] = [0, 1, 3, 4, 8, 14, NS + 2, NS + 3, NS + 5];
    let (w, i) = setup(choice(2));
    let s1 = PICK[choice(9)];
    let q1 = granted(&w, &i, s1);
    let s2 = PICK[choice(9)];
    if ask(s2).conflicts(&ask(s1)) {
        return;
    }
    let q2 = granted(&w, &i, s2);
    let (left, keep) = if flag() {
        drop(q1);
        (s2, q2)
    } else {
        drop(q2);
        (s1, q1)
    };
    let s3 = PICK[choice(9)];
    trace((s1 * 10000 + s2 * 100 + s3) as u64);
    if ask(s3).conflicts(&ask(left)) {
        denied(&w, &i, s3);
        reach(2);
    } else {
        let q3 = granted(&w, &i, s3);
        drop(keep);
        // what is left is exactly the third
        let s4 = PICK[choice(9)];
        if ask(s4).conflicts(&ask(s3)) {
            denied(&w, &i, s4);
        } else {
            drop(granted(&w, &i, s4));
        }
        drop(q3);
        all_free(&w, &i);
        reach(3);
    }
    reach(1);
}
/// Queries that were used (iterated, looked up in) hold their access just the same, and the values written
/// through the exclusive one are what the next one reads.
fn used() {
    let (mut w, i) = setup(choice(3));
    let e = w.spawn().with(A(7)).build();
    let v = sym();
    {
        let mut q = w.query::<(&mut A, EcsIds)>();
        match choice(3) {
            0 => {
                for (a, id) in q.iter() {
                    if id == e {
                        a.0 = v
                    }
                }
            }
            1 => q.get(e).unwrap().0 .0 = v,
            _ => {
                q.iter().next();
                q.get(e).unwrap().0 .0 = v;
                q.get(i.t);
            }
        }
        let s = [0, 1, 4, NS + 1, NS + 2][choice(5)];
        if flag() {
            denied(&w, &i, s);
            reach(2);
        }
        drop(granted(&w, &i, 2));
        drop(granted(&w, &i, 3));
        drop(granted(&w, &i, 8));
    }
    {
        let mut q = w.query::<(&A,)>();
        ceq!(q.get(e).unwrap().0 .0, v);
        let mut r = w.query::<(EcsIds, &A)>();
        ceq!(r.get(e).unwrap().1 .0, v);
        for (id, a) in r.iter() {
            if id == e {
                ceq!(a.0, v);
            }
        }
        if flag() {
            denied(&w, &i, [1, 5, 7, 9, NS + 2][choice(5)]);
            reach(2);
        }
    }
    all_free(&w, &i);
    reach(1);
}
/// Holding queries in one world says nothing about another; structural changes in between keep the locks apart.
fn worlds() {
    let (w1, i1) = setup(choice(3));
    let (mut w2, i2) = setup(choice(3));
    let q = granted(&w1, &i1, [1, 3, 7][choice(3)]);
    let r = granted(&w2, &i2, 7);
    drop(r);
    let e = w2.spawn().with(A(1)).with(X(Box::new((1, 2)))).build();
    w2.add_component(e, B([0; 3]));
    let r = granted(&w2, &i2, 7);
    let s = granted(&w2, &i2, NS + 6);
    let x = attempt(|| w2.query::<(&mut X,)>());
    ck!(x.is_some());
    if flag() {
        denied(&w2, &i2, [0, 3, NS + 5][choice(3)]);
        reach(2);
    }
    drop(q);
    drop((r, s, x));
    all_free(&w1, &i1);
    all_free(&w2, &i2);
    unsafe {
        // the X dropped with its world was never handed to the model
        NEXTSER = 3;
    }
    reach(1);
}

/// Many components in use: every one keeps its own lock.
///
/// Components are data-less entities and Rust types, given at creation, added later, with some of them despawned in
/// between so that their slots come back.
fn many(n: usize) {
    let mut w = World::new();
    let none = w.spawn().build();
    let mut ids = [none; 300];
    let how = choice(4);
    let gone = [n, 5, 63][choice(3)];
    let mut k = 0;
    while k < n {
        ids[k] = w.spawn().build();
        k += 1;
    }
    let mut k = 0;
    while k < n {
        match (how, k % 2) {
            (0, _) | (2, 0) => {
                let _ = w.spawn().with_dynamic(ids[k]).build();
            }
            (3, 0) => {
                let e = w.spawn().build();
                w.add_component_dynamic(e, ids[k]);
                w.remove_component_dynamic(e, ids[k]);
            }
            _ => {
                let e = w.spawn().with(A(k as u64)).build();
                w.add_component_dynamic(e, ids[k]);
            }
        }
        if k == gone {
            w.despawn(ids[3]);
            ids[3] = w.spawn().build();
            let e = w.spawn().build();
            w.add_component_dynamic(e, ids[3]);
        }
        k += 1;
    }
    let _ = w.spawn().with(B([1; 3])).with(A(1)).build();
    let (a, b) = (w.get_or_create_type_id_ecsid::<A>(), w.get_or_create_type_id_ecsid::<B>());
    ids[n] = a;
    ids[n + 1] = b;
    const LOW: [usize; 6] = [0, 3, 4, 31, 63, 64];
    let x = [LOW[choice(6)], n - 1, n, n + 1][choice(4)];
    let ex = flag();
    let q = attempt(|| w.query_dynamic([if ex { FetchType::Mut(ids[x]) } else { FetchType::Immut(ids[x]) }]));
    ck!(q.is_some());
    // every other one is free, alone and in a row
    let mut k = 0;
    while k < n + 2 {
        if k != x {
            let r = attempt(|| w.query_dynamic([FetchType::Mut(ids[k])]));
            ck!(r.is_some());
        } else if !ex {
            let r = attempt(|| w.query_dynamic([FetchType::Immut(ids[k])]));
            ck!(r.is_some());
        }
        k += 1;
    }
    if x != n {
        let r = attempt(|| w.query::<(&mut A,)>());
        ck!(r.is_some());
    }
    if x != n + 1 {
        let r = attempt(|| w.query::<(EcsIds, &mut B)>());
        ck!(r.is_some());
    }
    let y = (x + 1) % (n + 2);
    let z = (x + n) % (n + 2);
    let r = attempt(|| w.query_dynamic([FetchType::Mut(ids[y]), FetchType::EcsId, FetchType::Mut(ids[z])]));
    ck!(r.is_some());
    if flag() {
        // held by the first query or by the second
        let k = [x, y, z][choice(3)];
        expect_block(true);
        let r = attempt(|| w.query_dynamic([FetchType::EcsId, FetchType::Mut(ids[k])]));
        ck!(r.is_none());
        expect_block(false);
        reach(255);
        reach(2);
    }
    drop(q);
    drop(r);
    let mut k = 0;
    while k < n + 2 {
        let r = attempt(|| w.query_dynamic([FetchType::Mut(ids[k])]));
        ck!(r.is_some());
        k += 1;
    }
    reach(1);
}

fn wide_dyn<const N: usize>() {
    let (w, i) = setup(choice(2));
    let p = choice(N - 1);
    let q = p + 1 + choice(N - 1 - p);
    let comp = choice(3);
    let (m, k) = (flag(), flag());
    // what the other positions ask for
    let filler = choice(3);
    let other = [i.b, i.t, i.a][comp];
    let one = |x: bool| {
        let id = [i.a, i.b, i.t][comp];
        if x { FetchType::Mut(id) } else { FetchType::Immut(id) }
    };
    let make = || -> [FetchType; N] {
        core::array::from_fn(|n| {
            if n == p {
                one(m)
            } else if n == q {
                one(k)
            } else if filler == 0 || filler == 2 && n % 2 == 0 {
                FetchType::EcsId
            } else {
                FetchType::Immut(other)
            }
        })
    };
    if m || k {
        expect_block(true);
        let r = attempt(|| w.query_dynamic(make()));
        ck!(r.is_none());
        expect_block(false);
        reach(255);
        reach(2);
    } else {
        let r = attempt(|| w.query_dynamic(make()));
        ck!(r.is_some());
        // shared twice: others may read, nobody may write
        let s = attempt(|| w.query_dynamic(make()));
        ck!(s.is_some());
        drop(if flag() { r } else { s });
        expect_block(true);
        let t = attempt(|| w.query_dynamic([one(true)]));
        ck!(t.is_none());
        expect_block(false);
        reach(255);
        reach(3);
    }
    all_free(&w, &i);
    reach(1);
}
macro_rules! wides {
    ($w:expr, $s:expr; $($n:literal $q:ty, $ok:literal;)*) => {
        match $s {
            $( $n => {
                if $ok {
                    let r = attempt(|| $w.query::<$q>());
                    ck!(r.is_some());
                    reach(3);
                } else {
                    expect_block(true);
                    let r = attempt(|| $w.query::<$q>());
                    ck!(r.is_none());
                    expect_block(false);
                    reach(255);
                    reach(2);
                }
            } )*
            _ => unreachable!(),
        }
    };
}
fn wide_typed() {
    let (w, i) = setup(choice(3));
    wides! { w, choice(26);
        0 (&mut A, &B, &mut A), false;
        1 (&A, &B, &mut A), false;
        2 (&B, &A, &A), true;
        3 (&mut A, EcsIds, &B, &A), false;
        4 (EcsIds, &B, &mut B, &A), false;
        5 (&B, &A, EcsIds, &A), true;
        6 (&A, &B, EcsIds, &B, &mut A), false;
        7 (EcsIds, &mut B, &A, &A, &B), false;
        8 (&A, &B, EcsIds, &B, &A), true;
        9 (&mut A, EcsIds, EcsIds, &B, &B, &A), false;
        10 (EcsIds, EcsIds, &B, &A, &mut B, &A), false;
        11 (&A, &A, &B, &A, EcsIds, &B), true;
        12 (&A, EcsIds, &B, EcsIds, &B, &B, &mut A), false;
        13 (EcsIds, &B, EcsIds, &mut A, &A, EcsIds, &B), false;
        14 (&A, EcsIds, &B, EcsIds, &B, &B, &A), true;
        15 (&mut A, EcsIds, &B, EcsIds, &B, &B, &B, &A), false;
        16 (EcsIds, EcsIds, &B, EcsIds, &A, &mut A, EcsIds, &B), false;
        17 (&A, EcsIds, &B, EcsIds, &B, &B, &B, &A), true;
        18 (&mut A, EcsIds, &B, EcsIds, &B, &B, &B, &B, &mut A), false;
        19 (EcsIds, EcsIds, EcsIds, &B, EcsIds, &B, EcsIds, &A, &mut B), false;
        20 (&A, EcsIds, &B, EcsIds, &B, &B, &B, &B, &A), true;
        21 (&A, EcsIds, &B, EcsIds, &B, &B, &B, &B, EcsIds, &mut A), false;
        22 (EcsIds, &mut B, &A, EcsIds, EcsIds, &A, &B, &A, &A, &A), false;
        23 (EcsIds, &A, &A, EcsIds, EcsIds, &A, &B, &A, &mut B, EcsIds), false;
        24 (&A, EcsIds, &B, EcsIds, &B, &B, &B, &B, &B, &A), true;
        25 (&mut A, EcsIds, &mut B, EcsIds, EcsIds, EcsIds, EcsIds, EcsIds, EcsIds, EcsIds), true;
    }
    all_free(&w, &i);
    reach(1);
}

/// Very many shared queries on one component at the same time, or one after another
fn readers(top: usize) {
    const MARKS: [usize; 11] = [1, 2, 126, 127, 128, 254, 255, 256, 32_767, 32_768, 65_535];
    let (w, i) = setup(choice(3));
    let mode = choice(4);
    let mut typed = Vec::with_capacity(top);
    let mut untyped = Vec::with_capacity(top);
    let mut k = 0;
    while k < top {
        match mode {
            0 => typed.push(w.query::<(&A,)>()),
            1 => untyped.push(w.query_dynamic([FetchType::Immut(i.a)])),
            2 => drop(w.query::<(&A, &B)>()),
            _ => drop(w.query::<(&mut A,)>()),
        }
        k += 1;
        let mut m = 0;
        while m < MARKS.len() && MARKS[m] != k {
            m += 1;
        }
        if m < MARKS.len() || k == top {
            probe(&w, &i, mode < 2);
        }
    }
    // and back again, all but the last
    while typed.len() > 1 || untyped.len() > 1 {
        typed.pop();
        untyped.pop();
        let k = typed.len() + untyped.len();
        let mut m = 0;
        while m < MARKS.len() && MARKS[m] != k {
            m += 1;
        }
        if m < MARKS.len() {
            probe(&w, &i, true);
        }
    }
    typed.clear();
    untyped.clear();
    all_free(&w, &i);
    reach(1);
}
/// shared access to A is granted, exclusive access to it exactly when it is not held
fn probe(w: &World, i: &Ids, held: bool) {
    let more = attempt(|| w.query::<(&A, &mut B)>());
    ck!(more.is_some());
    drop(more);
    let more = attempt(|| w.query_dynamic([FetchType::EcsId, FetchType::Immut(i.a)]));
    ck!(more.is_some());
    drop(more);
    // a refusal may be to wait for ever
    if !held {
        ck!(attempt(|| w.query::<(&B, &mut A)>()).is_some());
        ck!(attempt(|| w.query_dynamic([FetchType::Mut(i.a)])).is_some());
        return;
    }
    let which = choice(3);
    if which == 2 {
        return;
    }
    expect_block(true);
    if which == 0 {
        ck!(attempt(|| w.query::<(&B, &mut A)>()).is_none());
    } else {
        ck!(attempt(|| w.query_dynamic([FetchType::Mut(i.a)])).is_none());
    }
    expect_block(false);
    reach(255);
    assume(false);
}

entries! { LIST;
fn c10_readers() { readers(param(3)) }
fn c10_wide3() { wide_dyn::<3>() }
fn c10_wide4() { wide_dyn::<4>() }
fn c10_wide6() { wide_dyn::<6>() }
fn c10_wide10() { wide_dyn::<10>() }
fn c10_wide_typed() { wide_typed() }
fn c10_typed() { pair(true, true) }
fn c10_typed_dyn() { pair(true, false) }
fn c10_dyn_typed() { pair(false, true) }
fn c10_dyn() { pair(false, false) }
fn c10_triple() { triple() }
fn c10_used() { used() }
fn c10_worlds() { worlds() }
fn c10_many() { many(param(2)) }
}
