//! Entity ids: the allocator on its own, through a world, and one step from an arbitrary state (C01).
use crate::entries;
use crate::model::*;
use crate::rt::*;
use arche_tape::entities::Entities;
use arche_tape::EcsId;
const FILE: u32 = 4;

const MAXI: usize = 24;
struct Ids {
    e: Entities,
    n: usize,
    id: [EcsId; MAXI],
    alive: [bool; MAXI],
}
impl Ids {
    fn new() -> Ids {
        Ids { e: Entities::new(), n: 0, id: [mk_id(0, 0); MAXI], alive: [false; MAXI] }
    }
    fn spawn(&mut self) {
        let id = self.e.spawn();
        let mut i = 0;
        while i < self.n {
            ck!(self.id[i] != id);
            ck!(self.id[i].as_u64() != id.as_u64());
            i += 1;
        }
        self.id[self.n] = id;
        self.alive[self.n] = true;
        self.n += 1;
        trace(id.as_u64());
    }
    fn despawn(&mut self, i: usize) {
        let r = self.e.despawn(self.id[i]);
        ck!(r == self.alive[i]);
        self.alive[i] = false;
    }
    fn check(&mut self) {
        state();
        let mut i = 0;
        while i < self.n {
            ck!(self.e.is_alive(self.id[i]) == self.alive[i]);
            i += 1;
        }
    }
}

/// Every sequence of creations and despawns of any id ever handed out.
fn hist() {
    let mut s = Ids::new();
    let mut j = 0;
    while j < param(0) {
        let c = choice(s.n + 1);
        if c == s.n {
            s.spawn()
        } else {
            s.despawn(c)
        }
        s.check();
        j += 1;
    }
    // an id with any generation is alive only if it is one of the living ids
    if s.n > 0 {
        let i = choice(s.n);
        let id = mk_id(s.id[i].uindex() as u32, symw(32) as u32);
        let mut want = false;
        let mut j = 0;
        while j < s.n {
            want |= (s.id[j].as_u64() == id.as_u64()) & s.alive[j];
            j += 1;
        }
        let got = s.e.is_alive(id);
        ck!(got == want);
        ck!(s.e.despawn(id) == want);
        j = 0;
        while j < s.n {
            let now = s.alive[j] & (s.id[j].as_u64() != id.as_u64());
            ck!(s.e.is_alive(s.id[j]) == now);
            j += 1;
        }
        reach(2);
    }
    reach(1);
}
/// Long runs over few slots: phases of creating a and despawning b, in either order, newest or oldest first.
fn phases() {
    let mut s = Ids::new();
    let mut round = 0;
    while round < 3 {
        let a = 1 + choice(3);
        let mut j = 0;
        while j < a {
            s.spawn();
            j += 1;
        }
        s.check();
        let b = choice(3);
        let newest = flag();
        j = 0;
        while j < b {
            let mut i = if newest { s.n } else { 0 };
            // the newest or oldest living id
            loop {
                if newest {
                    if i == 0 {
                        break;
                    }
                    i -= 1;
                    if s.alive[i] {
                        break;
                    }
                } else {
                    if s.alive[i] {
                        break;
                    }
                    i += 1;
                    if i == s.n {
                        break;
                    }
                }
            }
            if i < s.n && s.alive[i] {
                s.despawn(i);
                // and once more, to no effect
                s.despawn(i);
            }
            j += 1;
        }
        s.check();
        round += 1;
    }
    reach(1);
}
/// The same through a world: component types registered in between, entities of several sets.
fn world() {
    let mut s = Sim::new(&[KA, KZ], MAXE, CH_ALIVE | CH_ALL);
    let mut j = 0;
    while j < param(1) {
        // creations with or without components, despawns of any id dead or alive, registration
        if !s.step(OP_SPAWN | OP_DESPAWN | OP_DEAD | OP_REG) {
            break;
        }
        s.check();
        j += 1;
    }
    reach(1);
    s.finish();
}
/// A builder that is dropped unfinished must not disturb any other id.
fn abandoned() {
    let mut s = Sim::new(&[KA, KB], MAXE, CH_ALIVE | CH_HAS | CH_GET);
    let mut j = 0;
    while j < param(1) {
        if flag() {
            match choice(3) {
                0 => drop(s.w.spawn()),
                1 => drop(s.w.spawn_with_capacity(16)),
                _ => drop(unsafe { s.w.spawn_with_component_meta(ymeta()) }),
            }
        } else {
            s.step(OP_SPAWN | OP_DESPAWN | OP_DEAD);
        }
        s.check();
        j += 1;
    }
    s.spawn(1);
    s.check();
    reach(1);
    s.finish();
}

/// Histories from an arbitrary state of up to three living slots with any generations.
///
/// Only living slots are put into the state, so that nothing is assumed about how the allocator
/// remembers dead ones.
#[cfg(feature = "ents")]
fn step(k: usize) {
    use arche_tape::verif_entities::from_parts;
    let n = choice(3);
    let mut gens: Vec<(bool, u32)> = Vec::new();
    let mut s = Ids::new();
    let mut i = 0;
    while i < n {
        let g = symw(32) as u32;
        // the 2^32nd reuse of a slot is outside the property
        assume(g < u32::MAX - k as u32);
        gens.push((true, g));
        s.id[i] = mk_id(i as u32, g);
        s.alive[i] = true;
        i += 1;
    }
    s.n = n;
    s.e = from_parts(gens, Vec::new());
    s.check();
    let mut j = 0;
    while j < k {
        let c = choice(s.n + 1);
        if c == s.n {
            s.spawn();
        } else {
            s.despawn(c)
        }
        s.check();
        j += 1;
    }
    // a slot that has been reused never honours an id of an earlier or later life
    if s.n > 0 {
        let i = choice(s.n);
        let id = mk_id(s.id[i].uindex() as u32, symw(32) as u32);
        let mut want = false;
        let mut j = 0;
        while j < s.n {
            want |= (s.id[j].as_u64() == id.as_u64()) & s.alive[j];
            j += 1;
        }
        ck!(s.e.is_alive(id) == want);
        ck!(s.e.despawn(id) == want);
        ck!(!s.e.is_alive(id));
        let mut j = 0;
        while j < s.n {
            let now = s.alive[j] & (s.id[j].as_u64() != id.as_u64());
            ck!(s.e.is_alive(s.id[j]) == now);
            j += 1;
        }
        reach(2);
    }
    reach(1);
}
/// Reuse takes the generation of a slot through all 2^32 values: the step from one to the next is the same odd number
/// everywhere (up to the wrap-around, which is outside the property).
#[cfg(feature = "ents")]
fn period() {
    use arche_tape::verif_entities::from_parts;
    let mut e = Entities::new();
    let a = e.spawn();
    e.despawn(a);
    let b = e.spawn();
    if a.uindex() != b.uindex() {
        // slots are not reused at once
        reach(1);
        return;
    }
    let gen = |id: EcsId| {
        // the part of the 64-bit form that does not hold the index
        let one = mk_id(0, 1).as_u64();
        id.as_u64() / one
    };
    let step = gen(b).wrapping_sub(gen(a)) as u32;
    ck!(step & 1 == 1);
    let g = symw(32) as u32;
    assume(g != u32::MAX);
    let mut e = from_parts(vec![(true, g)], Vec::new());
    let a = mk_id(0, g);
    ck!(e.is_alive(a));
    ck!(e.despawn(a));
    let b = e.spawn();
    if b.uindex() == 0 {
        ck!(gen(b) as u32 == g.wrapping_add(step));
        ck!(e.is_alive(b) && !e.is_alive(a));
    }
    reach(1);
}
#[cfg(not(feature = "ents"))]
fn step(_: usize) {}
#[cfg(not(feature = "ents"))]
fn period() {}

/// One slot after very many reuses: every id of every life but the last is dead.
fn reused(n: usize) {
    let mut e = Entities::new();
    let other = e.spawn();
    let first = e.spawn();
    let mut last = first;
    let mut i = 0;
    while i < n {
        ck!(e.despawn(last));
        let id = e.spawn();
        ck!(id != first && id != last && id != other);
        last = id;
        i += 1;
    }
    let id = mk_id(last.uindex() as u32, symw(32) as u32);
    ck!(e.is_alive(id) == (id.as_u64() == last.as_u64()));
    ck!(e.is_alive(other) && e.is_alive(last));
    ck!(!e.is_alive(first) && !e.despawn(first));
    ck!(e.is_alive(last));
    reach(1);
}

entries! { LIST;
fn c01_hist() { hist() }
fn c01_phases() { phases() }
fn c01_world() { world() }
fn c01_abandoned() { abandoned() }
fn c01_step() { step(param(1)) }
fn c01_period() { period() }
fn c01_reused() { reused(param(2)) }
}
