//! Entities attached to entities: plain ones, ones with a data layout, and the entities that stand
//! for Rust types; their despawn and the reuse of their slots (C13, C18, C15).
use crate::entries;
use crate::model::*;
use crate::rt::*;
use arche_tape::{EcsId, EcsIds, FetchType, World};
use core::mem::ManuallyDrop;
const FILE: u32 = 9;

const N: usize = 9;
#[derive(Clone, Copy)]
struct Typed {
    has: bool,
    v: u64,
    ser: u64,
}
struct Rel {
    w: ManuallyDrop<World>,
    n: usize,
    id: [EcsId; N],
    alive: [bool; N],
    /// spawned with a data layout
    data: [bool; N],
    /// att[i][j]: j is attached to i
    att: [[bool; N]; N],
    val: [[u64; N]; N],
    ser: [[u64; N]; N],
    a: [Typed; N],
    d: [Typed; N],
    /// entities that stand for A and D
    ta: Option<EcsId>,
    td: Option<EcsId>,
    cap: usize,
    deep: bool,
}
const T0: Typed = Typed { has: false, v: 0, ser: 0 };

impl Rel {
    fn new() -> Rel {
        Rel {
            w: ManuallyDrop::new(World::new()),
            n: 0,
            id: [mk_id(0, 0); N],
            alive: [false; N],
            data: [false; N],
            att: [[false; N]; N],
            val: [[0; N]; N],
            ser: [[0; N]; N],
            a: [T0; N],
            d: [T0; N],
            ta: None,
            td: None,
            cap: N,
            deep: true,
        }
    }
    fn put(&mut self, i: usize, j: usize) -> (u64, u64) {
        self.att[i][j] = true;
        if self.data[j] {
            self.val[i][j] = sym();
            self.ser[i][j] = new_ser(self.val[i][j]);
        }
        (self.val[i][j], self.ser[i][j])
    }
    fn gone(&mut self, i: usize, j: usize) {
        self.att[i][j] = false;
        if self.data[j] {
            must_drop(self.ser[i][j]);
        }
    }
    /// a new entity, carrying those named, possibly with an A
    fn spawn(&mut self, data: bool, carried: &[usize], a: bool) -> usize {
        let i = self.n;
        self.data[i] = data;
        let mut vals = [(0u64, 0u64); N];
        for (x, &j) in carried.iter().enumerate() {
            vals[x] = self.put(i, j);
        }
        let av = if a { sym() } else { 0 };
        let ids = self.id;
        let isd = self.data;
        let w: &mut World = &mut self.w;
        let mut b = if data { unsafe { w.spawn_with_component_meta(ymeta()) } } else { w.spawn() };
        for (x, &j) in carried.iter().enumerate() {
            b = if isd[j] {
                let mut y = ybuf(vals[x].0, vals[x].1);
                unsafe { b.with_dynamic_with_data(&mut y as *mut _ as *mut u8, ids[j]) }
            } else {
                b.with_dynamic(ids[j])
            };
        }
        if a {
            b = b.with(A(av));
            self.a[i] = Typed { has: true, v: av, ser: 0 };
        }
        let id = b.build();
        drop(b);
        let mut j = 0;
        while j < self.n {
            ck!(self.id[j].as_u64() != id.as_u64());
            j += 1;
        }
        self.id[i] = id;
        self.alive[i] = true;
        self.n += 1;
        if a {
            self.type_a();
        }
        i
    }
    fn type_a(&mut self) -> EcsId {
        let t = self.w.get_or_create_type_id_ecsid::<A>();
        if let Some(x) = self.ta {
            ck!(x == t);
        }
        self.ta = Some(t);
        t
    }
    fn type_d(&mut self) -> EcsId {
        let t = self.w.get_or_create_type_id_ecsid::<D>();
        if let Some(x) = self.td {
            ck!(x == t);
        }
        self.td = Some(t);
        t
    }
    fn attach(&mut self, i: usize, j: usize) {
        let (v, s) = self.put(i, j);
        if self.data[j] {
            let mut y = ybuf(v, s);
            unsafe { self.w.add_component_dynamic_with_data(self.id[i], self.id[j], &mut y as *mut _ as *mut u8) }
        } else {
            self.w.add_component_dynamic(self.id[i], self.id[j])
        }
    }
    fn detach(&mut self, i: usize, j: usize) {
        self.gone(i, j);
        self.w.remove_component_dynamic(self.id[i], self.id[j])
    }
    fn despawn(&mut self, j: usize) {
        let mut i = 0;
        while i < self.n {
            if self.att[i][j] {
                self.gone(i, j)
            }
            if self.att[j][i] {
                self.gone(j, i)
            }
            i += 1;
        }
        if self.d[j].has {
            must_drop(self.d[j].ser);
        }
        self.d[j].has = false;
        self.a[j].has = false;
        ck!(self.w.despawn(self.id[j]));
        self.alive[j] = false;
        ck!(!self.w.despawn(self.id[j]));
    }
    fn add_a(&mut self, i: usize) {
        let v = sym();
        self.w.add_component(self.id[i], A(v));
        self.a[i] = Typed { has: true, v, ser: 0 };
        self.type_a();
    }
    fn add_d(&mut self, i: usize) {
        let v = sym();
        let ser = new_ser(v);
        self.w.add_component(self.id[i], D { v, ser });
        self.d[i] = Typed { has: true, v, ser };
        self.type_d();
    }
    fn rem_a(&mut self, i: usize) {
        self.a[i].has = false;
        self.w.remove_component::<A>(self.id[i]);
    }
    fn rem_d(&mut self, i: usize) {
        self.d[i].has = false;
        must_drop(self.d[i].ser);
        self.w.remove_component::<D>(self.id[i]);
    }
    fn end_type(&mut self, which: usize) {
        let t = if which == 0 { self.ta.take() } else { self.td.take() };
        let mut i = 0;
        while i < self.n {
            if which == 0 {
                self.a[i].has = false;
            } else if self.d[i].has {
                self.d[i].has = false;
                must_drop(self.d[i].ser);
            }
            i += 1;
        }
        ck!(self.w.despawn(t.unwrap()));
        ck!(!self.w.is_alive(t.unwrap()));
    }
    fn find(&self, p: *mut u8) -> usize {
        let id = unsafe { *(p as *const EcsId) };
        let mut i = 0;
        while i < self.n && self.id[i].as_u64() != id.as_u64() {
            i += 1;
        }
        i
    }
    fn check(&mut self) {
        state();
        check_drops();
        let n = self.n;
        let mut j = 0;
        while j < n {
            ck!(self.w.is_alive(self.id[j]) == self.alive[j]);
            let mut want = 0u64;
            let mut at = [0usize; N];
            let mut i = 0;
            while i < n {
                if self.alive[i] {
                    let want_it = self.alive[j] && self.att[i][j];
                    match self.w.get_component_mut_dynamic(self.id[i], self.id[j]) {
                        Some(p) => {
                            ck!(want_it);
                            ck!(!p.is_null());
                            if self.data[j] {
                                let (v, s) = unsafe { yread(p) };
                                ceq!(v, self.val[i][j]);
                                ceq!(s, self.ser[i][j]);
                            }
                            at[i] = p as usize;
                        }
                        None => ck!(!want_it),
                    }
                    want |= (want_it as u64) << i;
                }
                i += 1;
            }
            let mut seen = 0u64;
            {
                let mut q = self.w.query_dynamic([FetchType::Immut(self.id[j]), FetchType::EcsId]);
                for [p, idp] in q.iter() {
                    let i = self.find(idp);
                    ck!(i < n);
                    ck!(want >> i & 1 == 1 && seen >> i & 1 == 0);
                    seen |= 1 << i;
                    ck!(!self.data[j] || p as usize == at[i]);
                }
                ck!(seen == want);
            }
            if self.deep {
                let mut q = self.w.query_dynamic([FetchType::EcsId, FetchType::Mut(self.id[j])]);
                seen = 0;
                for col in q.column_iter() {
                    let [(idp, l), (p, l2)]: [(*mut u8, usize); 2] = unsafe { core::mem::transmute(col) };
                    ck!(l == l2);
                    let mut x = 0;
                    while x < l {
                        let i = self.find(unsafe { (idp as *mut EcsId).add(x) as *mut u8 });
                        ck!(i < n);
                        ck!(want >> i & 1 == 1 && seen >> i & 1 == 0);
                        seen |= 1 << i;
                        ck!(!self.data[j] || p as usize + x * YSIZE == at[i]);
                        x += 1;
                    }
                }
                ck!(seen == want);
            }
            j += 1;
        }
        // typed components
        let mut q = self.w.query::<(&A, EcsIds)>();
        let mut seen = 0u64;
        for (a, id) in q.iter() {
            let mut i = 0;
            while i < n && self.id[i] != id {
                i += 1;
            }
            ck!(i < n);
            ck!(self.a[i].has && self.alive[i] && seen >> i & 1 == 0);
            ceq!(a.0, self.a[i].v);
            seen |= 1 << i;
        }
        let mut i = 0;
        while i < n {
            ck!((seen >> i & 1 == 1) == (self.alive[i] && self.a[i].has));
            match q.get(self.id[i]) {
                Some((a, id)) => {
                    ck!(self.alive[i] && self.a[i].has && id == self.id[i]);
                    ceq!(a.0, self.a[i].v);
                }
                None => ck!(!(self.alive[i] && self.a[i].has)),
            }
            i += 1;
        }
        drop(q);
        let mut q = self.w.query::<(&mut D,)>();
        i = 0;
        while i < n {
            match q.get(self.id[i]) {
                Some((d,)) => {
                    ck!(self.alive[i] && self.d[i].has);
                    ceq!(d.v, self.d[i].v);
                    ceq!(d.ser, self.d[i].ser);
                }
                None => ck!(!(self.alive[i] && self.d[i].has)),
            }
            i += 1;
        }
        let mut c = 0;
        for (d,) in q.iter() {
            ck!(d.ser < NSER as u64);
            c += 1;
        }
        drop(q);
        let mut want = 0;
        i = 0;
        while i < n {
            want += (self.alive[i] && self.d[i].has) as usize;
            i += 1;
        }
        ck!(c == want);
        // every living id exactly once
        let mut seen = 0u64;
        let mut types = 0;
        for (id,) in self.w.query::<(EcsIds,)>().iter() {
            let mut i = 0;
            while i < n && self.id[i] != id {
                i += 1;
            }
            if i == n {
                ck!(self.ta == Some(id) || self.td == Some(id));
                types += 1;
            } else {
                ck!(self.alive[i] && seen >> i & 1 == 0);
                seen |= 1 << i;
            }
        }
        ck!(types == self.ta.is_some() as usize + self.td.is_some() as usize);
        i = 0;
        while i < n {
            ck!((seen >> i & 1 == 1) == self.alive[i]);
            i += 1;
        }
    }
    fn step(&mut self, types: bool) -> bool {
        let mut list = [(0u8, 0usize, 0usize); 256];
        let mut m = 0;
        let mut put = |o: u8, a: usize, b: usize| {
            list[m] = (o, a, b);
            m += 1;
        };
        let n = self.n;
        if n < self.cap {
            put(0, 0, 0);
            put(0, 1, 0);
            put(0, 1, 1);
        }
        let mut j = 0;
        while j < n {
            if self.alive[j] {
                put(1, j, 0);
                if n < self.cap {
                    put(2, j, 0);
                    put(2, j, 1);
                    // one that has data for others and components of its own
                    put(2, j, 2);
                    if types {
                        put(2, j, 3);
                    }
                }
                put(if self.a[j].has { 4 } else { 3 }, j, 0);
                if types {
                    put(if self.d[j].has { 6 } else { 5 }, j, 0);
                }
                let mut i = 0;
                while i < n {
                    if self.alive[i] {
                        put(if self.att[i][j] { 8 } else { 7 }, i, j);
                    }
                    i += 1;
                }
            }
            j += 1;
        }
        if types {
            if self.ta.is_some() {
                put(9, 0, 0);
            }
            if self.td.is_some() {
                put(9, 1, 0);
            }
        }
        let (o, a, b) = list[choice(m)];
        trace(o as u64 * 10000 + a as u64 * 100 + b as u64);
        match o {
            0 => {
                self.spawn(a == 1, &[], b == 1);
            }
            1 => self.despawn(a),
            2 => {
                self.spawn(b > 1, &[a], b & 1 == 1);
            }
            3 => self.add_a(a),
            4 => self.rem_a(a),
            5 => self.add_d(a),
            6 => self.rem_d(a),
            7 => self.attach(a, b),
            8 => self.detach(a, b),
            _ => self.end_type(a),
        }
        true
    }
    fn scaffold(&mut self, s: usize) {
        match s {
            // one attached to another, one bystander
            0 => {
                self.spawn(false, &[], false);
                self.spawn(false, &[], true);
                self.attach(0, 1);
                self.spawn(false, &[], false);
            }
            // a cycle, with typed components
            1 => {
                self.spawn(false, &[], true);
                self.spawn(false, &[0], true);
                self.attach(0, 1);
            }
            // attached to itself and to others
            2 => {
                self.spawn(false, &[], false);
                self.attach(0, 0);
                self.add_d(0);
                self.spawn(false, &[0], false);
                self.spawn(false, &[0], true);
            }
            // with data, in several sets
            3 => {
                self.spawn(true, &[], false);
                self.spawn(false, &[0], false);
                self.spawn(false, &[0], true);
                self.attach(2, 1);
                self.attach(1, 1);
            }
            // one carried by many in different sets, several per set
            4 => {
                self.spawn(false, &[], false);
                self.spawn(false, &[0], false);
                self.spawn(false, &[0], true);
                self.spawn(false, &[0], true);
                self.spawn(false, &[0, 1], true);
                self.add_d(4);
                self.attach(2, 1);
            }
            // a slot that served as a component is taken over
            5 => {
                self.spawn(false, &[], false);
                self.spawn(false, &[], true);
                self.attach(1, 0);
                self.despawn(0);
                self.spawn(true, &[], false);
                self.attach(1, 2);
            }
            // a type ends while carried and comes back
            6 => {
                self.spawn(false, &[], true);
                self.spawn(false, &[0], true);
                self.end_type(0);
                self.spawn(false, &[1], false);
                self.add_a(2);
                self.attach(2, 0);
            }
            // sets that differ only in the component that goes away, linked by remembered moves
            _ => {
                self.spawn(false, &[], false);
                self.spawn(true, &[], true);
                self.attach(1, 0);
                self.detach(1, 0);
                self.attach(1, 0);
                self.attach(0, 1);
                self.rem_a(1);
                self.detach(1, 0);
                self.add_a(1);
                self.attach(1, 0);
            }
        }
    }
    fn finish(mut self) {
        let mut i = 0;
        while i < self.n {
            if self.alive[i] {
                let mut j = 0;
                while j < self.n {
                    if self.att[i][j] {
                        self.gone(i, j)
                    }
                    j += 1;
                }
                if self.d[i].has {
                    must_drop(self.d[i].ser)
                }
            }
            i += 1;
        }
        unsafe { ManuallyDrop::drop(&mut self.w) };
        check_drops();
    }
}

/// K arbitrary operations
fn hist(scaffolds: &[usize], k: usize, room: usize, types: bool) {
    let mut s = Rel::new();
    s.scaffold(scaffolds[choice(scaffolds.len())]);
    s.check();
    s.cap = core::cmp::min(N, s.n + room);
    let mut j = 0;
    while j < k {
        s.step(types);
        s.check();
        j += 1;
    }
    reach(1);
    s.finish();
}
/// despawn first, then anything: the slot comes back as plain or data entity and serves again
fn after(k: usize) {
    let mut s = Rel::new();
    s.scaffold(choice(8));
    let mut j = choice(s.n + 2);
    if j < s.n {
        assume(s.alive[j]);
        s.despawn(j);
    } else {
        j -= s.n;
        assume(if j == 0 { s.ta.is_some() } else { s.td.is_some() });
        s.end_type(j);
    }
    s.check();
    // the slot is taken over
    let data = flag();
    let f = s.spawn(data, &[], false);
    s.check();
    // and the newcomer is attached, or not
    if flag() {
        let mut i = 0;
        while i < s.n && !s.alive[i] {
            i += 1;
        }
        s.attach(i, f);
        s.check();
    }
    s.cap = s.n;
    let mut j = 0;
    while j < k {
        s.step(true);
        s.check();
        j += 1;
    }
    reach(1);
    s.finish();
}
/// an id of an existing slot with any generation: it can be attached only if it is the living one
fn any_generation() {
    let mut s = Rel::new();
    s.scaffold([0, 2, 5, 7][choice(4)]);
    let j = choice(s.n);
    let g = mk_id(s.id[j].uindex() as u32, symw(32) as u32);
    let mut live = false;
    let mut i = 0;
    while i < s.n {
        live |= (s.id[i].as_u64() == g.as_u64()) & s.alive[i];
        i += 1;
    }
    if !live {
        let i = choice(s.n);
        assume(s.alive[i]);
        let id = s.id[i];
        let mut y = ybuf(1, 0);
        let w: &mut World = &mut s.w;
        match choice(4) {
            0 => {
                refused(|| w.add_component_dynamic(id, g));
            }
            1 => {
                refused(|| unsafe { w.add_component_dynamic_with_data(id, g, &mut y as *mut _ as *mut u8) });
            }
            2 => {
                refused(|| w.remove_component_dynamic(id, g));
            }
            _ => ck!(attempt(|| w.spawn().with_dynamic(g).build()).is_none()),
        }
        s.check();
        let mut q = s.w.query_dynamic([FetchType::EcsId, FetchType::Immut(g)]);
        ck!(q.iter().next().is_none());
        drop(q);
        reach(2);
    }
    reach(1);
    s.finish();
}

entries! { LIST;
fn c18_hist() { hist(&[0, 1, 2, 3, 4, 5, 6, 7], param(0), 1, true) }
fn c18_deep() { hist(&[0, 1, 5], param(1), 1, false) }
fn c18_after() { after(param(2)) }
fn c18_any() { any_generation() }
}
