//! Histories of public operations with the full comparison after every step (C02-C07, C11, C13, C15).
use crate::entries;
use crate::model::*;
use crate::rt::*;
use arche_tape::world::ComponentMeta;
use arche_tape::{EcsId, EcsIds, FetchType, World};
use core::mem::ManuallyDrop;
const FILE: u32 = 3;

/// K arbitrary operations from an arbitrary scaffold, compared after each.
pub fn run(kinds: &'static [usize], ops: u32, ch: u32, k: usize, scaffolds: &[usize], room: usize) {
    let mut s = Sim::new(kinds, MAXE, ch);
    s.scaffold(scaffolds[choice(scaffolds.len())]);
    s.maxe = s.n + room;
    s.check();
    let mut j = 0;
    while j < k && s.step(ops) {
        s.check();
        j += 1;
    }
    reach(1);
    s.finish();
}
/// A world, then another one in the same place: memory is given out again, the same addresses and ids come back
/// with a different meaning.
fn again(kinds: &'static [usize], ops: u32, ch: u32, k: usize) {
    reuse();
    let mut round = 0;
    while round < 2 {
        let mut s = Sim::new(kinds, MAXE, ch);
        s.scaffold(if round == 0 { [1, 2, 4][choice(3)] } else { [0, 2, 3, 4, 5][choice(5)] });
        s.maxe = s.n + 1;
        s.check();
        let mut j = 0;
        while round == 1 && j < k && s.step(ops) {
            s.check();
            j += 1;
        }
        if round == 1 {
            reach(1);
        }
        s.finish();
        round += 1;
    }
}
/// One set with more remembered moves than are kept at hand, used in any order: every move leads where it should.
fn hub(tags: usize, k: usize) {
    const T: usize = 6;
    let mut w = ManuallyDrop::new(World::new());
    let mut t = [mk_id(0, 0); T];
    let mut i = 0;
    while i < tags {
        t[i] = w.spawn().build();
        i += 1;
    }
    let v = sym();
    let e = w.spawn().with(A(v)).build();
    let base = [0, !0, 0b0101_0101][choice(3)];
    let mut has = base & ((1usize << tags) - 1);
    let mut i = 0;
    while i < tags {
        if has >> i & 1 == 1 {
            w.add_component_dynamic(e, t[i]);
        }
        i += 1;
    }
    let look = |w: &mut World, has: usize| {
        state();
        let mut i = 0;
        while i < tags {
            ck!(w.get_component_mut_dynamic(e, t[i]).is_some() == (has >> i & 1 == 1));
            let mut q = w.query_dynamic([FetchType::EcsId, FetchType::Immut(t[i])]);
            let mut n = 0;
            for [id, _] in q.iter() {
                ck!(unsafe { *(id as *const EcsId) } == e);
                n += 1;
            }
            ck!(n == (has >> i & 1));
            i += 1;
        }
        match w.query::<(&A,)>().get(e) {
            Some((a,)) => ceq!(a.0, v),
            None => ck!(false),
        }
    };
    // all moves made once, in order, then K more in any order
    let mut j = 0;
    while j < tags + k {
        let c = if j < tags { j } else { choice(tags) };
        let mut there = 0;
        while there < 2 {
            if has >> c & 1 == 1 {
                w.remove_component_dynamic(e, t[c]);
            } else {
                w.add_component_dynamic(e, t[c]);
            }
            has ^= 1 << c;
            if j >= tags {
                look(&mut w, has);
            }
            there += 1;
        }
        j += 1;
    }
    reach(1);
    unsafe { ManuallyDrop::drop(&mut w) };
}
const ALLS: &[usize] = &[0, 1, 2, 3, 4, 5];
const BUSY: &[usize] = &[1, 2, 3, 4, 5];
const WRITES: u32 = OP_WGET | OP_WITER | OP_WDYN | OP_WROW;

#[repr(transparent)]
pub struct W<const N: usize>(pub u64);

/// wide queries: every arity from 1 to 10
macro_rules! wide {
    ($w:expr, $ids:expr, $vals:expr, $miss:expr, $n:literal; $($v:ident $i:literal)+) => {{
        // which entity a row belongs to is told by the address of its first component
        let first = [addr0(&mut $w, $ids[0]), addr0(&mut $w, $ids[1])];
        let mut count = 0;
        let mut q = $w.query::<($( &W<$i>, )+)>();
        for row in q.iter() {
            let ($($v,)+) = row;
            let at = row.0 as *const W<0> as usize;
            let e = if at == first[0] { 0 } else { 1 };
            ck!(at == first[e]);
            $( ceq!($v.0, $vals[e][$i]); )+
            count += 1;
        }
        let mut i = 0;
        let mut expected = 0;
        while i < 2 {
            let full = !(0 $( | 1usize << $i )+) | !(1usize << $miss[i]);
            let has = full == !0usize;
            expected += has as usize;
            match q.get($ids[i]) {
                Some(($($v,)+)) => { ck!(has); $( ceq!($v.0, $vals[i][$i]); )+ }
                None => ck!(!has),
            }
            i += 1;
        }
        ck!(count <= expected);
        ck!(count == expected);
    }};
}
fn addr0(w: &mut World, e: arche_tape::EcsId) -> usize {
    match w.query::<(&W<0>,)>().get(e) {
        Some((x,)) => x as *const W<0> as usize,
        None => 0,
    }
}
macro_rules! wide_mut {
    ($w:expr, $ids:expr, $vals:expr, $has:expr; $($v:ident $i:literal)+ ; $($r:ident $j:literal)*) => {{
        let mut q = $w.query::<($( &mut W<$i>, )+ $( &W<$j>, )* EcsIds,)>();
        let mut n = 0;
        for ($($v,)+ $($r,)* id) in q.iter() {
            let e = if id == $ids[0] { 0 } else { 1 };
            ck!(id == $ids[e]);
            $( ceq!($v.0, $vals[e][$i]); let nv = sym(); $v.0 = nv; $vals[e][$i] = nv; )+
            $( ceq!($r.0, $vals[e][$j]); )*
            n += 1;
        }
        ck!(n == $has);
    }};
}
fn with_w(w: &mut World, e: arche_tape::EcsId, i: usize, v: u64) {
    match i {
        0 => w.add_component(e, W::<0>(v)),
        1 => w.add_component(e, W::<1>(v)),
        2 => w.add_component(e, W::<2>(v)),
        3 => w.add_component(e, W::<3>(v)),
        4 => w.add_component(e, W::<4>(v)),
        5 => w.add_component(e, W::<5>(v)),
        6 => w.add_component(e, W::<6>(v)),
        7 => w.add_component(e, W::<7>(v)),
        8 => w.add_component(e, W::<8>(v)),
        _ => w.add_component(e, W::<9>(v)),
    }
}
fn wide_arity() {
    let mut w = World::new();
    let i0 = w.spawn().build();
    let i1 = w.spawn().build();
    let ids = [i0, i1];
    let mut vals = [[0u64; 10]; 2];
    // the second entity lacks one of the ten (or none)
    let miss = [63, choice(11)];
    let start = choice(3) * 3;
    let mut e = 0;
    while e < 2 {
        let mut j = 0;
        while j < 10 {
            let i = (j + start) % 10;
            if i != miss[e] {
                vals[e][i] = sym();
                with_w(&mut w, ids[e], i, vals[e][i]);
            }
            j += 1;
        }
        e += 1;
    }
    let lacking = |upto: usize| if miss[1] < upto { 1 } else { 2 };
    wide!(w, ids, vals, miss, 1; a 0);
    wide!(w, ids, vals, miss, 2; a 0 b 1);
    wide!(w, ids, vals, miss, 3; a 0 b 1 c 2);
    wide!(w, ids, vals, miss, 4; a 0 b 1 c 2 d 3);
    wide!(w, ids, vals, miss, 5; a 0 b 1 c 2 d 3 e 4);
    wide!(w, ids, vals, miss, 6; a 0 b 1 c 2 d 3 e 4 f 5);
    wide!(w, ids, vals, miss, 7; a 0 b 1 c 2 d 3 e 4 f 5 g 6);
    wide!(w, ids, vals, miss, 8; a 0 b 1 c 2 d 3 e 4 f 5 g 6 h 7);
    wide!(w, ids, vals, miss, 9; a 0 b 1 c 2 d 3 e 4 f 5 g 6 h 7 i 8);
    wide!(w, ids, vals, miss, 10; a 0 b 1 c 2 d 3 e 4 f 5 g 6 h 7 i 8 j 9);
    wide_mut!(w, ids, vals, lacking(1); a 0;);
    wide_mut!(w, ids, vals, lacking(4); a 1 b 3; c 0 d 2);
    wide_mut!(w, ids, vals, lacking(9); a 8 b 6 c 4 d 2 e 0; f 7 g 5 h 3 i 1);
    wide!(w, ids, vals, miss, 9; a 0 b 1 c 2 d 3 e 4 f 5 g 6 h 7 i 8);
    // ten untyped columns at once
    let mut cid = [ids[0]; 10];
    macro_rules! ids { ($($i:literal)*) => { $( cid[$i] = w.get_or_create_type_id_ecsid::<W<$i>>(); )* } }
    ids!(0 1 2 3 4 5 6 7 8 9);
    {
        let f = |i: usize| if i % 2 == 0 { FetchType::Immut(cid[i]) } else { FetchType::Mut(cid[i]) };
        let mut q = w.query_dynamic([f(9), f(8), f(7), f(6), f(5), f(4), f(3), f(2), f(1), FetchType::EcsId]);
        let mut n = 0;
        for row in q.iter() {
            let id = unsafe { *(row[9] as *const arche_tape::EcsId) };
            let e = if id == ids[0] { 0 } else { 1 };
            ck!(id == ids[e]);
            let mut j = 0;
            while j < 9 {
                ceq!(unsafe { *(row[j] as *const u64) }, vals[e][9 - j]);
                j += 1;
            }
            n += 1;
        }
        ck!(n == if miss[1] == 10 || miss[1] == 0 { 2 } else { 1 });
    }
    reach(1);
}

/// Untyped queries naming several ids at once, in every position and mode, and ids that nobody carries.
fn dyn_shapes(s: &mut Sim) {
    let nk = s.kinds.len();
    let stranger = s.extra_ids[0];
    let mut a = 0;
    while a < nk {
        let mut b = 0;
        while b < nk {
            if a != b {
                if let (Some(ca), Some(cb)) = (s.comp[s.kinds[a]], s.comp[s.kinds[b]]) {
                    let (ka, kb) = (s.kinds[a], s.kinds[b]);
                    let want = s.expect_mask(1 << ka | 1 << kb);
                    let mut pa = [0usize; MAXE];
                    let mut pb = [0usize; MAXE];
                    let mut i = 0;
                    while i < s.n {
                        if want >> i & 1 == 1 {
                            pa[i] = s.w.get_component_mut_dynamic(s.e[i].id, ca).unwrap() as usize;
                            pb[i] = s.w.get_component_mut_dynamic(s.e[i].id, cb).unwrap() as usize;
                        }
                        i += 1;
                    }
                    let mut seen = 0u64;
                    {
                        let mut q = s.w.query_dynamic([FetchType::Mut(ca), FetchType::EcsId, FetchType::Immut(cb)]);
                        for [p, idp, r] in q.iter() {
                            let i = s.find(unsafe { *(idp as *const arche_tape::EcsId) });
                            ck!(i < s.n);
                            ck!(want >> i & 1 == 1 && seen >> i & 1 == 0);
                            seen |= 1 << i;
                            ck!(SIZE[ka] == 0 || p as usize == pa[i]);
                            ck!(SIZE[kb] == 0 || r as usize == pb[i]);
                            ck!(p as usize % ALIGN[ka] == 0 && r as usize % ALIGN[kb] == 0);
                        }
                        ck!(seen == want);
                        seen = 0;
                        for col in q.column_iter() {
                            let [(p, l), (idp, l1), (r, l2)]: [(*mut u8, usize); 3] = unsafe { core::mem::transmute(col) };
                            ck!(l == l1 && l == l2);
                            let mut j = 0;
                            while j < l {
                                let i = s.find(unsafe { *(idp as *const arche_tape::EcsId).add(j) });
                                ck!(i < s.n);
                                ck!(want >> i & 1 == 1 && seen >> i & 1 == 0);
                                seen |= 1 << i;
                                ck!(SIZE[ka] == 0 || p as usize + j * SIZE[ka] == pa[i]);
                                ck!(SIZE[kb] == 0 || r as usize + j * SIZE[kb] == pb[i]);
                                j += 1;
                            }
                        }
                        ck!(seen == want);
                    }
                }
            }
            b += 1;
        }
        // together with an id nobody carries
        if let (Some(x), Some(ca)) = (stranger, s.comp[s.kinds[a]]) {
            let mut q = s.w.query_dynamic([FetchType::EcsId, FetchType::Immut(ca), FetchType::Mut(x)]);
            ck!(q.iter().next().is_none());
            ck!(q.column_iter().next().is_none());
        }
        a += 1;
    }
}
/// Every untyped query of N positions over the components of a world: names may be repeated as long as nothing named exclusively is named again.
fn all_queries<const N: usize>(s: &mut Sim) {
    let nk = s.kinds.len();
    let stranger = s.extra_ids[0].unwrap();
    // entity ids, someone who is nobody's component, then two modes of every component
    let opts = 2 + 2 * nk;
    let mut addr = [[0usize; NK]; MAXE];
    let mut b = 0;
    while b < nk {
        let k = s.kinds[b];
        if let Some(c) = s.comp[k] {
            let mut i = 0;
            while i < s.n {
                match s.w.get_component_mut_dynamic(s.e[i].id, c) {
                    Some(p) => addr[i][k] = p as usize,
                    None => ck!(!s.holds(i, k)),
                }
                i += 1;
            }
        }
        b += 1;
    }
    let mut code = [0usize; N];
    let mut held = 0u64;
    loop {
        let (mut need, mut shared, mut excl, mut ok, mut nobody, mut ids) = (0usize, 0usize, 0usize, true, false, 0);
        let mut n = 0;
        while n < N {
            if code[n] == 0 {
                ids += 1;
            } else if code[n] == 1 {
                nobody = true;
            } else {
                let k = s.kinds[(code[n] - 2) / 2];
                need |= 1 << k;
                ok &= s.comp[k].is_some() && excl >> k & 1 == 0;
                if code[n] % 2 == 1 {
                    ok &= shared >> k & 1 == 0;
                    excl |= 1 << k;
                } else {
                    shared |= 1 << k;
                }
            }
            n += 1;
        }
        if ok && ids < N {
            let want = if nobody { 0 } else { s.expect_mask(need) };
            let fetches: [FetchType; N] = core::array::from_fn(|n| match code[n] {
                0 => FetchType::EcsId,
                1 => FetchType::Immut(stranger),
                c if c % 2 == 1 => FetchType::Mut(s.comp[s.kinds[(c - 2) / 2]].unwrap()),
                c => FetchType::Immut(s.comp[s.kinds[(c - 2) / 2]].unwrap()),
            });
            let fits = |i: usize, row: &[usize; N]| {
                let mut n = 0;
                while n < N {
                    let c = code[n];
                    if c == 0 {
                        if unsafe { *(row[n] as *const arche_tape::EcsId) } != s.e[i].id {
                            return false;
                        }
                    } else {
                        let k = s.kinds[(c - 2) / 2];
                        if row[n] % ALIGN[k] != 0 || row[n] == 0 || SIZE[k] != 0 && row[n] != addr[i][k] {
                            return false;
                        }
                    }
                    n += 1;
                }
                true
            };
            let mut q = s.w.query_dynamic(fetches);
            let mut seen = 0u64;
            for row in q.iter() {
                let row: [usize; N] = core::array::from_fn(|n| row[n] as usize);
                let mut i = 0;
                while i < s.n && !(want >> i & 1 == 1 && seen >> i & 1 == 0 && fits(i, &row)) {
                    i += 1;
                }
                ck!(i < s.n);
                seen |= 1 << i;
            }
            ck!(seen == want);
            seen = 0;
            for col in q.column_iter() {
                let col: [(*mut u8, usize); N] = unsafe { core::mem::transmute_copy(&col) };
                let mut j = 0;
                while j < col[0].1 {
                    let row: [usize; N] = core::array::from_fn(|n| {
                        let size = match code[n] {
                            0 | 1 => 8,
                            c => SIZE[s.kinds[(c - 2) / 2]],
                        };
                        ck!(col[n].1 == col[0].1);
                        col[n].0 as usize + j * size
                    });
                    let mut i = 0;
                    while i < s.n && !(want >> i & 1 == 1 && seen >> i & 1 == 0 && fits(i, &row)) {
                        i += 1;
                    }
                    ck!(i < s.n);
                    seen |= 1 << i;
                    j += 1;
                }
            }
            ck!(seen == want);
            held += 1;
        }
        let mut n = 0;
        while n < N {
            code[n] += 1;
            if code[n] < opts {
                break;
            }
            code[n] = 0;
            n += 1;
        }
        if n == N {
            break;
        }
    }
    trace(held);
}
fn all_shapes<const N: usize>(kinds: &'static [usize], k: usize) {
    let mut s = Sim::new(kinds, MAXE, CH_DYN);
    s.scaffold(choice(6));
    s.maxe = s.n + 1;
    let x = s.w.spawn().build();
    s.fresh_id(x);
    s.extra_ids[0] = Some(x);
    let mut j = 0;
    while j < k && s.step(OP_STRUCT) {
        j += 1;
    }
    all_queries::<N>(&mut s);
    reach(1);
    s.finish();
}
fn c05_run(kinds: &'static [usize], k: usize) {
    let mut s = Sim::new(kinds, MAXE, CH_DYN);
    s.scaffold(choice(6));
    s.maxe = s.n + 1;
    let x = s.w.spawn().build();
    s.fresh_id(x);
    s.extra_ids[0] = Some(x);
    s.check();
    dyn_shapes(&mut s);
    let mut j = 0;
    while j < k && s.step(OP_STRUCT | OP_WROW | OP_REG) {
        s.check();
        dyn_shapes(&mut s);
        j += 1;
    }
    reach(1);
    s.finish();
}
/// Any 64-bit id that is not a component of this world gives an empty untyped query.
fn c05_unknown() {
    let mut s = Sim::new(&[KA, KB], MAXE, CH_DYN);
    s.scaffold(choice(6));
    let v = sym();
    let id = mk_id(v as u32, (v >> 32) as u32);
    for c in s.comp.iter() {
        if let Some(c) = c {
            assume(c.as_u64() != id.as_u64());
        }
    }
    if flag() {
        let mut q = s.w.query_dynamic([FetchType::Immut(id)]);
        ck!(q.iter().next().is_none());
        ck!(q.column_iter().next().is_none());
    } else {
        let a = s.comp_id(KA);
        assume(a.as_u64() != id.as_u64());
        let mut q = s.w.query_dynamic([FetchType::EcsId, FetchType::Mut(a), FetchType::Mut(id)]);
        ck!(q.iter().next().is_none());
        ck!(q.column_iter().next().is_none());
    }
    reach(1);
    s.check();
    s.finish();
}
/// Components that have ended, their slots taken over by others that are components too: the old ids name nothing.
fn c05_past() {
    let mut w = ManuallyDrop::new(World::new());
    let (x, y) = (sym(), sym());
    let e = w.spawn().with(A(x)).build();
    let f = w.spawn().build();
    let rounds = 1 + choice(2);
    let mut old = [e; 2];
    let mut r = 0;
    while r < rounds {
        // a component, carried or not
        let data = flag();
        let c = if data { unsafe { w.spawn_with_component_meta(ComponentMeta::from_size_align(8, 8)) }.build() } else { w.spawn().build() };
        let mut v = 7u64 + r as u64;
        let how = choice(4);
        unsafe {
            let p = &mut v as *mut u64 as *mut u8;
            match how {
                0 => {}
                1 => w.add_component_dynamic_with_data(e, c, p),
                2 => {
                    w.add_component_dynamic_with_data(f, c, p);
                    w.remove_component_dynamic(f, c);
                }
                _ => {
                    let _ = w.spawn().with_dynamic_with_data(p, c).with(A(y)).build();
                }
            }
        }
        ck!(w.despawn(c));
        old[r] = c;
        r += 1;
    }
    // its slot is taken
    let new = w.spawn().build();
    ck!(new != old[0] && new != old[rounds - 1]);
    let mut has = [false; 2];
    match choice(4) {
        0 => {}
        1 => {
            w.add_component_dynamic(e, new);
            has[0] = true;
        }
        2 => {
            w.add_component_dynamic(f, new);
            w.add_component_dynamic(e, new);
            w.remove_component_dynamic(e, new);
            has[1] = true;
        }
        _ => {
            w.add_component_dynamic(e, new);
            w.add_component_dynamic(f, new);
            has = [true; 2];
        }
    }
    let a = w.get_or_create_type_id_ecsid::<A>();
    let mutable = flag();
    let mut r = 0;
    while r < rounds {
        let o = old[r];
        let one = || if mutable { FetchType::Mut(o) } else { FetchType::Immut(o) };
        macro_rules! none {
            ($q:expr) => {{
                let mut q = w.query_dynamic($q);
                ck!(q.iter().next().is_none());
                ck!(q.column_iter().next().is_none());
                ck!(q.iter().next().is_none());
            }};
        }
        none!([one()]);
        none!([FetchType::EcsId, one()]);
        none!([one(), FetchType::Immut(a)]);
        none!([FetchType::Immut(new), one()]);
        none!([one(), FetchType::EcsId, FetchType::Mut(new)]);
        r += 1;
    }
    let mut seen = [false; 2];
    let mut q = w.query_dynamic([FetchType::EcsId, FetchType::Mut(new)]);
    for [id, _] in q.iter() {
        let id = unsafe { *(id as *const EcsId) };
        let k = (id == f) as usize;
        ck!(id == [e, f][k] && !seen[k]);
        seen[k] = true;
    }
    ck!(seen == has);
    reach(1);
    drop(q);
    unsafe { ManuallyDrop::drop(&mut w) };
}
/// Entities that take the same and other ways through the sets one after another, sets being left in between.
fn trails(kinds: &'static [usize], ch: u32) {
    let mut s = Sim::new(kinds, MAXE, ch);
    if flag() {
        // the ids the other way round
        let mut k = kinds.len();
        while k > 0 {
            k -= 1;
            s.comp_id(kinds[k]);
        }
    }
    let mut j = 0;
    while j < 3 {
        s.spawn(1);
        j += 1;
    }
    s.maxe = s.n;
    j = 0;
    while j < 3 {
        // one or two of the others, the first one without loss of generality in one order
        let a = if j == 0 { 1 } else { 1 + choice(3) };
        s.add(j, kinds[a]);
        let b = choice(if j == 0 { 2 } else { 3 });
        if b > 0 {
            s.add(j, kinds[1 + (a - 1 + b) % 3]);
        }
        s.check();
        if j < 2 {
            match choice(4) {
                0 => s.despawn(j),
                1 => s.remove(j, kinds[a]),
                2 => s.remove(j, kinds[0]),
                _ => {}
            }
        }
        j += 1;
    }
    s.check();
    reach(1);
    s.finish();
}
/// Ids of every age looked up through typed queries after their slots have been reused.
fn c04_stale() {
    let mut s = Sim::new(&[KA, KB], MAXE, CH_ALIVE | CH_GET | CH_HAS);
    let mut j = 0;
    while j < param(0) {
        // create one, end one, repeatedly: the slot is always the last one freed
        match choice(3) {
            0 => {
                s.spawn(choice(4));
            }
            1 => {
                let i = choice(s.n);
                assume(s.e[i].alive);
                s.despawn(i);
            }
            _ => {
                let i = choice(s.n);
                assume(s.e[i].alive);
                let k = choice(2);
                if s.e[i].has[k] {
                    s.remove(i, k)
                } else {
                    s.add(i, k)
                }
            }
        }
        s.check();
        j += 1;
    }
    // arbitrary generations of the existing slots
    let gen = symw(32) as u32;
    let i = choice(s.n);
    let id = mk_id(s.e[i].id.uindex() as u32, gen);
    let mut known = false;
    let mut j = 0;
    while j < s.n {
        known |= s.e[j].id.as_u64() == id.as_u64() && s.e[j].alive;
        j += 1;
    }
    if !known {
        let a = s.w.query::<(EcsIds, &A)>().get(id).is_none();
        let b = s.w.query::<(&mut B,)>().get(id).is_none();
        let c = s.w.query::<(EcsIds,)>().get(id).is_none();
        let mut comp = false;
        for c in s.comp.iter() {
            if let Some(c) = c {
                comp |= c.as_u64() == id.as_u64()
            }
        }
        ck!(a && b);
        ck!(c || comp);
        ck!(!s.w.has_component::<A>(id));
        reach(2);
    }
    reach(1);
    s.finish();
}
/// A component type that is unknown, known but nobody's, or nobody's any more gives an empty iteration.
fn c03_nobody() {
    let mut s = Sim::new(&[KA, KD, KZ], MAXE, CH_ITER | CH_GET | CH_ALL | CH_SHAPES);
    match choice(5) {
        0 => {}
        1 => {
            s.comp_id(KA);
            s.comp_id(KZ);
        }
        2 => {
            s.spawn(1);
            s.comp_id(KD);
        }
        3 => {
            s.spawn(3);
            s.remove(0, KD);
            s.remove(0, KA);
        }
        _ => {
            s.spawn(7);
            s.despawn(0);
        }
    }
    s.check();
    reach(1);
    s.finish();
}

entries! { LIST;
fn c02_core() { run(&[KA, KB, KD], OP_STRUCT, CH_CORE, param(0), ALLS, 2) }
fn c02_write() { run(&[KA, KB, KX], OP_ADD | OP_REMOVE | OP_DESPAWN | WRITES, CH_CORE | CH_DYN, param(1), BUSY, 1) }
fn c02_sizes() { run(&[KG, KL, KY], OP_STRUCT, CH_CORE | CH_DYN, param(1), ALLS, 1) }
fn c02_zst() { run(&[KD, KZ, KX, KT], OP_STRUCT, CH_CORE, param(1), ALLS, 1) }
fn c02_deep() { run(&[KA, KB], OP_STRUCT, CH_CORE, param(2), &[2, 4, 5], 1) }
fn c03_shapes() { run(&[KA, KB, KD, KZ], OP_STRUCT | OP_REG, CH_ITER | CH_ALL | CH_SHAPES, param(0), ALLS, 1) }
fn c03_deep() { run(&[KA, KB], OP_STRUCT | OP_REG, CH_ITER | CH_ALL | CH_SHAPES, param(1), ALLS, 1) }
fn c03_wide() { wide_arity() }
fn c03_nobody_has() { c03_nobody() }
fn c04_hist() { run(&[KA, KD, KZ], OP_STRUCT | OP_DEAD, CH_ALIVE | CH_GET | CH_HAS | CH_SHAPES, param(0), ALLS, 1) }
fn c04_mem() { run(&[KX, KG], OP_STRUCT | OP_END | OP_DEAD | OP_WGET, CH_ALIVE | CH_GET | CH_HAS, param(1), ALLS, 1) }
fn c04_ids() { c04_stale() }
fn c04_again() { again(&[KA, KD], OP_STRUCT | OP_REG | OP_DEAD, CH_FULL, param(2)) }
fn c05_two() { all_shapes::<2>(&[KA, KD, KZ], param(2)) }
fn c05_three() { all_shapes::<3>(&[KY, KA, KO], 0) }
fn c05_four() { all_shapes::<4>(&[KT, KA], 0) }
fn c05_five() { all_shapes::<5>(&[KA, KL], 0) }
fn c05_typed() { c05_run(&[KA, KD, KO], param(0)) }
fn c05_dyn() { c05_run(&[KY, KT, KB], param(0)) }
fn c05_mix() { c05_run(&[KG, KZ], param(1)) }
fn c05_none() { c05_unknown() }
fn c05_ended() { c05_past() }
fn c11_trails() { trails(&[KA, KB, KT, KD], CH_HAS | CH_GET | CH_ITER | CH_DYN | CH_ALL) }
fn c06_main() { run(&[KD, KX, KZ], OP_STRUCT | OP_END, CH_DROP, param(0), ALLS, 2) }
fn c06_kinds() { run(&[KO, KY, KD], OP_STRUCT | OP_END | WRITES, CH_DROP, param(1), ALLS, 1) }
fn c06_dyn() { run(&[KD, KZ], OP_STRUCT | OP_ADDDYN | OP_REMDYN | OP_WGET, CH_DROP, param(0), ALLS, 2) }
fn c07_main() { run(&[KX, KG, KO], OP_STRUCT | OP_END, CH_CORE, param(0), ALLS, 1) }
fn c07_more() { run(&[KX, KB, KL, KY], OP_STRUCT | WRITES, CH_CORE | CH_DYN, param(1), ALLS, 1) }
fn c07_zst() { run(&[KZ, KO, KD, KT], OP_STRUCT, CH_CORE | CH_DYN | CH_SHAPES, param(1), ALLS, 1) }
fn c11_moves() { run(&[KA, KB, KD], OP_ADD | OP_REMOVE, CH_HAS | CH_GET | CH_ITER | CH_ALL, param(0), BUSY, 0) }
fn c11_hist() { run(&[KA, KZ], OP_STRUCT | OP_END, CH_HAS | CH_GET | CH_ITER | CH_ALL, param(1), ALLS, 2) }
fn c11_hub() { hub(3 + param(3), 2 + param(3)); }
fn c11_many() { run(&[KA, KB, KD, KZ, KX], OP_ADD | OP_REMOVE | OP_ADDDYN | OP_REMDYN, CH_HAS | CH_GET | CH_ITER | CH_DYN, param(2), &[1, 3, 5], 0) }
fn c13_hist() { run(&[KT, KY, KC], OP_STRUCT | OP_END | OP_ADDDYN | OP_REMDYN | OP_WDYN | OP_WROW, CH_FULL & !CH_SHAPES, param(0), ALLS, 1) }
fn c13_mixed() { run(&[KY, KA], OP_STRUCT | OP_END | OP_ADDDYN | OP_REMDYN, CH_FULL & !CH_SHAPES, param(1), ALLS, 1) }
}
