//! Creating entities: orders, sizes, capacity hints, reused buffers, abandoned and repeated creations (C17).
use crate::entries;
use crate::model::*;
use crate::rt::*;
use arche_tape::spawn;
const FILE: u32 = 11;

const CAPS: [Option<usize>; 5] = [None, Some(0), Some(1), Some(7), Some(64)];
const CH: u32 = CH_CORE | CH_DYN | CH_REG;

/// an arbitrary list of at most `max` different kinds
fn some_order(s: &Sim, max: usize, out: &mut [usize; NK]) -> usize {
    let nk = s.kinds.len();
    let mut left = [0usize; NK];
    left[..nk].copy_from_slice(s.kinds);
    let mut n = 0;
    while n < max && n < nk {
        let c = choice(nk - n + 1);
        if c == nk - n {
            break;
        }
        out[n] = left[c];
        left[c] = left[nk - n - 1];
        n += 1;
    }
    n
}
fn ready(s: &mut Sim, order: &[usize]) {
    for &k in order.iter() {
        if k == KT || k == KY || k == KC {
            s.comp_id(k);
        }
    }
}
/// One creation of any shape.
fn create(s: &mut Sim, max: usize, caps: usize, hows: &[usize]) {
    let mut o = [0usize; NK];
    let n = some_order(s, max, &mut o);
    ready(s, &o[..n]);
    let cap = CAPS[choice(caps)];
    let how = hows[choice(hows.len())];
    if how == 3 && s.comp[KC].is_none() && s.kinds.contains(&KC) {
        s.comp_id(KC);
    }
    let i = s.n;
    s.spawn_how(i, &o[..n], cap, how);
}
/// what went before: nothing, a buffer left by a small, a large, an abandoned creation, reused slots
fn before(s: &mut Sim) {
    let c = choice(6);
    if c != 0 && c != 4 {
        let k = s.kinds;
        ready(s, &k[..2]);
    }
    match c {
        0 => {}
        1 => {
            s.spawn_how(0, &s.kinds[1..2], None, 0);
        }
        2 => {
            let all = s.kinds;
            ready(s, all);
            s.spawn_how(0, all, None, 0);
        }
        3 => {
            // abandoned, with and without an allocation of its own
            s.spawn_how(0, &s.kinds[..1], None, 2);
            s.spawn_how(0, &[], Some(9), 2);
        }
        4 => {
            // never allocates
            s.spawn_how(0, &[], None, 0);
            s.spawn_how(1, &[], Some(0), 0);
            s.despawn(0);
        }
        _ => {
            // the same set, built in another order
            let k = s.kinds;
            s.spawn_how(0, &[k[1], k[0]], Some(3), 1);
        }
    }
}
fn one(kinds: &'static [usize], max: usize, caps: usize) {
    let mut s = Sim::new(kinds, MAXE, CH);
    before(&mut s);
    create(&mut s, max, caps, &[0]);
    s.check();
    reach(1);
    s.finish();
}
fn several(kinds: &'static [usize], max: usize, caps: usize, hows: &[usize], k: usize) {
    let mut s = Sim::new(kinds, MAXE, CH);
    let mut j = 0;
    while j < k {
        create(&mut s, max, caps, hows);
        s.check();
        j += 1;
    }
    reach(1);
    s.finish();
}
/// creations that are never finished leave nothing for the next one, whatever they had
fn left(kinds: &'static [usize], times: usize) {
    let mut s = Sim::new(kinds, MAXE, CH);
    if flag() {
        ready(&mut s, kinds);
        s.spawn_how(0, kinds, None, 0);
    }
    let mut j = 0;
    while j < times {
        create(&mut s, 2, 5, &[2]);
        j += 1;
    }
    create(&mut s, 2, 2, &[0, 1]);
    s.check();
    reach(1);
    s.finish();
}
/// every order of all the kinds, then the values move on to other sets
fn permuted(kinds: &'static [usize]) {
    let mut s = Sim::new(kinds, MAXE, CH);
    let mut o = [0usize; NK];
    let nk = kinds.len();
    ready(&mut s, kinds);
    if flag() {
        s.spawn_how(0, kinds, None, 0);
    }
    let mut left = [0usize; NK];
    left[..nk].copy_from_slice(kinds);
    let mut n = 0;
    while n < nk {
        let c = choice(nk - n);
        o[n] = left[c];
        left[c] = left[nk - n - 1];
        n += 1;
    }
    let i = s.n;
    s.spawn_how(i, &o[..nk], CAPS[choice(2)], choice(2));
    s.check();
    s.remove(i, o[choice(nk)]);
    s.check();
    reach(1);
    s.finish();
}
/// creations between other operations
fn between(kinds: &'static [usize], max: usize, k: usize) {
    let mut s = Sim::new(kinds, MAXE, CH);
    s.scaffold(1 + choice(5));
    create(&mut s, max, 1, &[0, 2]);
    let mut j = 0;
    while j < k && s.step(OP_DESPAWN | OP_ADD | OP_REMOVE) {
        j += 1;
    }
    create(&mut s, max, 1, &[0]);
    s.check();
    reach(1);
    s.finish();
}
/// the macro
fn by_macro() {
    let mut s = Sim::new(&[KA, KB, KD, KG], MAXE, CH_FULL);
    if flag() {
        s.spawn(3);
    }
    let v = [sym(), sym() & 0xff_ffff, sym(), sym()];
    let ser = new_ser(v[2]);
    let i = s.n;
    let mut w = core::mem::ManuallyDrop::into_inner(core::mem::replace(&mut s.w, core::mem::ManuallyDrop::new(arche_tape::World::new())));
    let (id, has) = match choice(7) {
        0 => (spawn!(&mut w), 0),
        1 => (spawn!(&mut w, A(v[0])), 1),
        2 => (spawn!(&mut w, B::mk(v[1], 0), A(v[0])), 3),
        3 => (spawn!(&mut w, A(v[0]), B::mk(v[1], 0), D { v: v[2], ser },), 7),
        4 => (spawn!(&mut w, G { v: v[3] }, D { v: v[2], ser }, B::mk(v[1], 0), A(v[0])), 15),
        5 => (spawn!(&mut w, D { v: v[2], ser }, G { v: v[3] }), 12),
        _ => (spawn!(&mut w, B::mk(v[1], 0), G { v: v[3] }, A(v[0])), 11),
    };
    unsafe { core::mem::ManuallyDrop::drop(&mut core::mem::replace(&mut s.w, core::mem::ManuallyDrop::new(w))) };
    s.fresh_id(id);
    s.n += 1;
    s.e[i].id = id;
    s.e[i].alive = true;
    let mut b = 0;
    while b < 4 {
        let k = s.kinds[b];
        if has >> b & 1 == 1 {
            s.e[i].has[k] = true;
            s.e[i].val[k] = v[b];
            s.comp_id(k);
        }
        b += 1;
    }
    if has & 4 != 0 {
        s.e[i].ser[KD] = ser;
    } else {
        unsafe { SERST[ser as usize] = 0 }
    }
    s.check();
    reach(1);
    s.finish();
}

entries! { LIST;
fn c17_first() { one(&[KA, KB, KG, KZ, KX], param(0), 5) }
fn c17_dyn() { one(&[KY, KT, KD, KL, KC], param(0), 2) }
fn c17_perm() { permuted(&[KB, KX, KG, KY]) }
fn c17_perm5() { permuted(&[KA, KZ, KD, KT, KO]) }
fn c17_twice() { several(&[KB, KD, KG], 2, 2, &[0, 1, 2, 3], param(1)) }
fn c17_reuse() { several(&[KA, KL, KZ], 3, 2, &[0], param(1)) }
fn c17_mixed() { between(&[KA, KD, KY], 2, param(2)) }
fn c17_left() { left(&[KZ, KT, KA], param(3)) }
fn c17_macro() { by_macro() }
}
