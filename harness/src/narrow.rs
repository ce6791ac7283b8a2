//! Worlds with more of everything than eight, or sixteen, bits can count (C16).
use crate::entries;
use crate::model::*;
use crate::rt::*;
use arche_tape::world::ComponentMeta;
use arche_tape::{EcsId, EcsIds, FetchType, World};
use core::mem::{ManuallyDrop, MaybeUninit};
const FILE: u32 = 15;

const MAXT: usize = 512;
static mut TAG: [MaybeUninit<EcsId>; MAXT] = [const { MaybeUninit::uninit() }; MAXT];
static mut OWN: [MaybeUninit<EcsId>; MAXT] = [const { MaybeUninit::uninit() }; MAXT];
static mut WANT: [bool; MAXT] = [false; MAXT];
fn tag(i: usize) -> EcsId {
    unsafe { TAG[i].assume_init() }
}
fn own(i: usize) -> EcsId {
    unsafe { OWN[i].assume_init() }
}
fn valued(i: usize) -> bool {
    i % 16 == 7
}
fn give(w: &mut World, e: EcsId, i: usize, v: u64) {
    if valued(i) {
        let mut x = ManuallyDrop::new(v);
        unsafe { w.add_component_dynamic_with_data(e, tag(i), &mut x as *mut _ as *mut u8) }
    } else {
        w.add_component_dynamic(e, tag(i));
    }
}
/// More than 256 components, component sets and components per entity.
fn bytes(n: usize) {
    let mut w = ManuallyDrop::new(World::new());
    let v = sym();
    let way = choice(2);
    let mut i = 0;
    while i < n {
        let id = if valued(i) {
            unsafe { w.spawn_with_component_meta(ComponentMeta::from_size_align(8, 8)).build() }
        } else {
            w.spawn().build()
        };
        unsafe {
            TAG[i].write(id);
            WANT[i] = true;
        }
        i += 1;
    }
    // one entity for each
    i = 0;
    while i < n {
        let e = if way == 0 && !valued(i) {
            w.spawn().with_dynamic(tag(i)).with(A(v ^ i as u64)).build()
        } else {
            let e = w.spawn().with(A(v ^ i as u64)).build();
            give(&mut w, e, i, v.wrapping_mul(3) ^ i as u64);
            e
        };
        unsafe {
            OWN[i].write(e);
        }
        i += 1;
    }
    // one with all of them
    let hub = if way == 0 {
        let mut b = w.spawn().with(A(!v));
        i = 0;
        while i < n {
            b = if valued(i) {
                let mut x = ManuallyDrop::new(v.wrapping_add(i as u64));
                unsafe { b.with_dynamic_with_data(&mut x as *mut _ as *mut u8, tag(i)) }
            } else {
                b.with_dynamic(tag(i))
            };
            i += 1;
        }
        b.build()
    } else {
        let e = {
            let mut b = w.spawn().with(A(!v));
            i = 0;
            while i + 4 < n {
                if !valued(i) {
                    b = b.with_dynamic(tag(i));
                }
                i += 1;
            }
            b.build()
        };
        i = 0;
        while i < n {
            if valued(i) || i + 4 >= n {
                give(&mut w, e, i, v.wrapping_add(i as u64));
            }
            i += 1;
        }
        e
    };
    let x = [0, 7, 127, 128, 254, 255, 256, 263, n - 1][choice(9)];
    let op = choice(5);
    // 0: taken from the hub, 1: ended, 2: its own entity ended, 3 and 4: given to somebody else
    let other = (x + 1) % n;
    let mut extra = hub;
    match op {
        0 => w.remove_component_dynamic(hub, tag(x)),
        1 => {
            ck!(w.despawn(tag(x)));
        }
        2 => {
            ck!(w.despawn(own(x)));
        }
        3 => {
            extra = w.spawn().with(A(v)).build();
            give(&mut w, extra, x, v);
        }
        _ => {
            extra = own(other);
            give(&mut w, extra, x, v);
        }
    }
    i = 0;
    while i < n {
        let dead = op == 1 && i == x;
        let on_hub = !dead && !(op == 0 && i == x);
        let on_own = !dead && !(op == 2 && i == x);
        if !dead {
            ck!(w.get_component_mut_dynamic(hub, tag(i)).is_some() == on_hub);
        }
        if on_own {
            let p = w.get_component_mut_dynamic(own(i), tag(i));
            ck!(p.is_some());
            if valued(i) {
                ceq!(unsafe { *(p.unwrap() as *const u64) }, v.wrapping_mul(3) ^ i as u64);
            }
        }
        if valued(i) && on_hub {
            ceq!(unsafe { *(w.get_component_mut_dynamic(hub, tag(i)).unwrap() as *const u64) }, v.wrapping_add(i as u64));
        }
        if i == x || i == other || i == 0 || i + 1 == n || i == 255 || i == 256 || (i + 256) % n == x {
            let mut m = 0;
            let mut q = w.query_dynamic([FetchType::Mut(tag(i)), FetchType::EcsId]);
            for [_, e] in q.iter() {
                let e = unsafe { *(e as *const EcsId) };
                ck!(e == hub && on_hub || op != 2 && e == own(i) && on_own || op == 2 && i != x && e == own(i) || op > 2 && i == x && e == extra);
                m += 1;
            }
            ck!(m == on_hub as usize + on_own as usize + (op > 2 && i == x) as usize);
        }
        i += 1;
    }
    // their own values
    let mut m = 0;
    for (e, a) in w.query::<(EcsIds, &A)>().iter() {
        if e == hub {
            ceq!(a.0, !v);
        } else if op == 3 && e == extra {
            ceq!(a.0, v);
        } else {
            i = 0;
            while i < n && own(i) != e {
                i += 1;
            }
            ck!(i < n && !(op == 2 && i == x));
            ceq!(a.0, v ^ i as u64);
        }
        m += 1;
    }
    ck!(m == n + 1 + (op == 3) as usize - (op == 2) as usize);
    reach(1);
    unsafe { ManuallyDrop::drop(&mut w) };
}

const MAXW: usize = 66_100;
static mut ROW: [MaybeUninit<EcsId>; MAXW] = [const { MaybeUninit::uninit() }; MAXW];
pub struct Num(u32);
fn row(i: usize) -> EcsId {
    unsafe { ROW[i].assume_init() }
}
/// More entities in one set, and altogether, than 65536.
fn words(n: usize) {
    let mut w = ManuallyDrop::new(World::new());
    let mut i = 0;
    while i < n {
        let e = w.spawn().with(Num(i as u32)).build();
        unsafe {
            ROW[i].write(e);
        }
        i += 1;
    }
    let v = sym();
    let x = [0, 1, 65534, 65535, 65536, 65537, n - 1][choice(7)];
    let op = choice(3);
    let back = flag();
    match op {
        0 => {
            ck!(w.despawn(row(x)));
            if back {
                let e = w.spawn().with(A(v)).build();
                ck!(e != row(x));
            }
        }
        1 => {
            w.remove_component::<Num>(row(x));
            if back {
                w.add_component(row(x), Num(x as u32));
            }
        }
        _ => {
            w.add_component(row(x), A(v));
            if back {
                w.remove_component::<A>(row(x));
            }
        }
    }
    let gone = op == 0 || op == 1 && !back;
    ck!(w.is_alive(row(x)) == (op != 0));
    {
        let mut q = w.query::<(&Num, EcsIds)>();
        let near = [0, 1, 2, 4095, 4096, 65533, 65534, 65535, 65536, 65537, 65538, n - 2, n - 1];
        for i in near {
            match q.get(row(i)) {
                Some((k, e)) => ck!(e == row(i) && k.0 as usize == i && !(gone && i == x)),
                None => ck!(gone && i == x),
            }
        }
        let mut m = 0;
        for (k, e) in q.iter() {
            ck!(e == row(k.0 as usize));
            m += 1;
        }
        ck!(m == n - gone as usize);
    }
    reach(1);
    unsafe { ManuallyDrop::drop(&mut w) };
}

const PER: usize = 4;
static mut MET: [[MaybeUninit<EcsId>; PER]; MAXW] = [const { [const { MaybeUninit::uninit() }; PER] }; MAXW];
static mut METN: [u8; MAXW] = [0; MAXW];
static mut NEW: [MaybeUninit<EcsId>; MAXW] = [const { MaybeUninit::uninit() }; MAXW];
/// An id nobody has had before.
fn fresh(e: EcsId) {
    let i = e.uindex();
    if i < MAXW {
        unsafe {
            let mut k = 0;
            while k < METN[i] as usize {
                ck!(MET[i][k].assume_init() != e);
                k += 1;
            }
            if k < PER {
                MET[i][k].write(e);
                METN[i] += 1;
            }
        }
    }
}
/// Nearly everything ends, in some order, and as many are created again.
fn tides(n: usize, orders: usize) {
    let mut w = ManuallyDrop::new(World::new());
    let v = sym();
    let mut nums = 0;
    let mut i = 0;
    if orders == 1 || flag() {
        // the entities of the types come first, the last slots are free to end
        let t = w.get_or_create_type_id_ecsid::<Num>();
        fresh(t);
        fresh(w.get_or_create_type_id_ecsid::<A>());
    }
    while i < n {
        let e = if i % 8 == 5 { w.spawn().with(Num(i as u32)).build() } else { w.spawn().build() };
        fresh(e);
        unsafe {
            ROW[i].write(e);
        }
        i += 1;
    }
    let keep = [0, n / 2, n - 1][choice(3)];
    w.add_component(row(keep), A(v));
    if keep % 8 == 5 {
        nums += 1;
    }
    let order = choice(orders);
    let mut new = 0;
    i = 0;
    while i < n {
        let k = match order {
            0 => i,
            1 => n - 1 - i,
            _ => (i * 7919) % n,
        };
        if k != keep {
            ck!(w.despawn(row(k)));
            if i % 512 == 511 {
                let e = w.spawn().with(Num(1 << 30 | i as u32)).build();
                fresh(e);
                ck!(w.is_alive(e) && !w.is_alive(row(k)) && w.is_alive(row(keep)));
                unsafe { NEW[new].write(e) };
                new += 1;
                nums += 1;
            }
        }
        i += 1;
    }
    while new < n + 3 {
        let e = if new % 8 == 1 { w.spawn().with(Num(1 << 31 | new as u32)).build() } else { w.spawn().build() };
        nums += (new % 8 == 1) as usize;
        fresh(e);
        unsafe { NEW[new].write(e) };
        new += 1;
    }
    i = 0;
    while i < n {
        ck!(w.is_alive(row(i)) == (i == keep));
        if i % 99 == 0 && i != keep {
            ck!(!w.despawn(row(i)));
        }
        i += 1;
    }
    i = 0;
    while i < new {
        ck!(w.is_alive(unsafe { NEW[i].assume_init() }));
        i += 1;
    }
    let mut m = 0;
    for (e, a) in w.query::<(EcsIds, &A)>().iter() {
        ck!(e == row(keep));
        ceq!(a.0, v);
        m += 1;
    }
    ck!(m == 1);
    m = 0;
    for (e, k) in w.query::<(EcsIds, &Num)>().iter() {
        ck!(w.is_alive(e));
        ck!(if k.0 >> 30 == 0 { e == row(keep) && k.0 as usize == keep } else { k.0 >> 31 == 0 || e == unsafe { NEW[(k.0 & 0xff_ffff) as usize].assume_init() } });
        m += 1;
    }
    ck!(m == nums);
    reach(1);
    unsafe { ManuallyDrop::drop(&mut w) };
}

/// More sets than sixteen bits can count.
fn hoard(n: usize) {
    const P: usize = 64;
    let mut w = ManuallyDrop::new(World::new());
    let v = sym();
    let a = w.get_or_create_type_id_ecsid::<A>();
    let mut x = 0;
    while x < P {
        unsafe { TAG[x].write(w.spawn().build()) };
        x += 1;
    }
    // the empty set is the first one; entities with a value at both ends
    let first = w.spawn().with(A(v)).build();
    let mut sets = 2;
    let mut e = first;
    while sets < n {
        // every one is somebody else's component
        e = w.spawn().with_dynamic(e).build();
        unsafe { OWN[sets % MAXT].write(e) };
        sets += 1;
    }
    // the last ones made: what they have, and what others gain and lose around them
    let g = w.spawn().build();
    let mut late = [first; 8];
    let mut i = 0;
    while i < 8 {
        late[i] = if i % 2 == 0 {
            w.spawn().with_dynamic(g).with(A(v ^ i as u64)).with_dynamic(tag(i)).build()
        } else {
            let e = own(sets.wrapping_sub(i) % MAXT);
            w.add_component(e, A(v ^ i as u64));
            e
        };
        i += 1;
    }
    // the moves between them, every one twice
    let mut round = 0;
    while round < 2 {
        let mut i = 0;
        while i < 8 {
            w.add_component_dynamic(late[i], tag(41));
            ck!(w.get_component_mut_dynamic(late[i], tag(41)).is_some());
            w.remove_component::<A>(late[i]);
            ck!(!w.has_component::<A>(late[i]));
            w.remove_component_dynamic(late[i], tag(41));
            ck!(w.get_component_mut_dynamic(late[i], tag(41)).is_none());
            w.add_component(late[i], A(v ^ i as u64));
            i += 1;
        }
        round += 1;
    }
    let x = choice(8);
    let op = choice(3);
    let gone = match op {
        0 => {
            ck!(w.despawn(late[x]));
            true
        }
        1 => {
            w.remove_component::<A>(late[x]);
            true
        }
        _ => {
            w.add_component_dynamic(late[x], tag(40));
            false
        }
    };
    state();
    let mut m = 0u64;
    let mut count = 0;
    let mut q = w.query::<(EcsIds, &A)>();
    for (id, val) in q.iter() {
        count += 1;
        if id == first {
            ceq!(val.0, v);
            continue;
        }
        let mut i = 0;
        while i < 8 && late[i] != id {
            i += 1;
        }
        ck!(i < 8);
        ceq!(val.0, v ^ i as u64);
        m |= 1 << i;
    }
    ck!(count == 9 - gone as usize);
    ck!(m == if gone { 0xff & !(1 << x) } else { 0xff });
    let mut i = 0;
    while i < 8 {
        match q.get(late[i]) {
            Some((id, val)) => {
                ck!(!(gone && i == x));
                ck!(id == late[i]);
                ceq!(val.0, v ^ i as u64);
            }
            None => ck!(gone && i == x),
        }
        i += 1;
    }
    drop(q);
    let mut i = 0;
    while i < 8 {
        let dead = op == 0 && i == x;
        ck!(w.is_alive(late[i]) == !dead);
        if !dead {
            ck!(w.has_component::<A>(late[i]) == !(gone && i == x));
            ck!(w.get_component_mut_dynamic(late[i], a).is_some() == !(gone && i == x));
            ck!(w.get_component_mut_dynamic(late[i], g).is_some() == (i % 2 == 0));
            ck!(w.get_component_mut_dynamic(late[i], tag(40)).is_some() == (op == 2 && i == x));
            if i % 2 == 0 {
                ck!(w.get_component_mut_dynamic(late[i], tag(i)).is_some());
            }
        }
        i += 1;
    }
    ck!(w.get_component_mut_dynamic(first, a).is_some());
    ck!(w.get_component_mut_dynamic(first, g).is_none());
    reach(1);
    noleak();
}

entries! { LIST;
fn c16_hoard() { hoard(if param(0) == 0 { 65_540 } else { param(0) }) }
fn c16_bytes() { bytes(270 + param(0)) }
fn c16_words() { words(65_545) }
fn c16_tides() { tides(2600, 3) }
fn c16_flood() { tides(65_600, 1) }
}
