//! Typed queries of many shapes compared, by address, with what the model says they must yield.
use crate::model::*;
use crate::rt::*;
use crate::entries;
use crate::ways;
use arche_tape::{EcsId, EcsIds, FetchType};
const FILE: u32 = 2;

/// address of every component value, found one entity at a time
pub fn addresses(s: &mut Sim) -> [[usize; NK]; MAXE] {
    let mut t = [[0usize; NK]; MAXE];
    let mut b = 0;
    while b < s.kinds.len() {
        let k = s.kinds[b];
        typed!(k, T => {
            let mut q = s.w.query::<(&T,)>();
            let mut i = 0;
            while i < s.n {
                if let Some((r,)) = q.get(s.e[i].id) {
                    t[i][k] = r as *const T as usize;
                    ck!(s.holds(i, k));
                } else {
                    ck!(!s.holds(i, k));
                }
                i += 1;
            }
        }; else ());
        b += 1;
    }
    t
}

#[macro_export]
macro_rules! sh_ty {
    (i) => { EcsIds };
    (r $t:ident) => { &$t };
    (w $t:ident) => { &mut $t };
}
#[macro_export]
macro_rules! sh_need {
    (i) => { 0usize };
    ($m:ident $t:ident) => { 1usize << <$t as Comp>::K };
}
#[macro_export]
macro_rules! sh_ok {
    ($s:expr, $a:expr, $i:expr, $v:ident, i) => { $v == $s.e[$i].id };
    ($s:expr, $a:expr, $i:expr, $v:ident, r $t:ident) => {
        SIZE[<$t as Comp>::K] == 0 && $v as *const $t as usize != 0 || $v as *const $t as usize == $a[$i][<$t as Comp>::K]
    };
    ($s:expr, $a:expr, $i:expr, $v:ident, w $t:ident) => {
        SIZE[<$t as Comp>::K] == 0 && $v as *mut $t as usize != 0 || $v as *mut $t as usize == $a[$i][<$t as Comp>::K]
    };
}
/// shape!(sim, addresses; a(i) b(r A) c(w B)): iteration and lookup of one query shape
#[macro_export]
macro_rules! shape {
    ($s:expr, $a:expr; $( $v:ident ( $($p:ident)+ ) )+ ) => {{
        let need = 0 $( | sh_need!($($p)+) )+;
        let want = $s.expect_mask(need);
        let mut extra = 0usize;
        if need == 0 {
            // component entities are entities too
            for c in $s.comp.iter() { extra += c.is_some() as usize; }
            for c in $s.extra_ids.iter() { extra += c.is_some() as usize; }
        }
        let mut seen = 0u64;
        let mut q = $s.w.query::<( $( sh_ty!($($p)+), )+ )>();
        for ( $($v,)+ ) in q.iter() {
            let mut i = 0;
            loop {
                if i == $s.n { break; }
                if want >> i & 1 == 1 && seen >> i & 1 == 0 $( && (sh_ok!($s, $a, i, $v, $($p)+)) )+ { break; }
                i += 1;
            }
            if i == $s.n {
                ck!(extra > 0);
                extra -= 1;
            } else {
                seen |= 1 << i;
            }
        }
        ck!(extra == 0);
        ck!(seen == want);
        let mut i = 0;
        while i < $s.n {
            match q.get($s.e[i].id) {
                Some(( $($v,)+ )) => {
                    ck!(want >> i & 1 == 1);
                    $( ck!(sh_ok!($s, $a, i, $v, $($p)+)); )+
                }
                None => ck!(want >> i & 1 == 0),
            }
            i += 1;
        }
        trace(seen);
    }};
}

pub fn check_shapes(s: &mut Sim) {
    let a = addresses(s);
    shape!(s, a; x(r A));
    shape!(s, a; x(w A));
    shape!(s, a; x(r A) y(r B));
    shape!(s, a; x(w B) y(r A));
    shape!(s, a; x(r A) y(r A) z(i));
    shape!(s, a; x(i) y(i));
    shape!(s, a; x(w D) y(i) z(w A));
    shape!(s, a; x(r B) y(w D));
    shape!(s, a; x(r Z) y(r A));
    shape!(s, a; x(i) y(r D) z(w B) u(r A));
    shape!(s, a; x(w Z) y(r B) z(i) u(r B));
}

const MAXW: usize = 16;
/// ways!(a fresh iterator; pattern => key): every way of consuming an iterator gives what repeated `next` gives
#[macro_export]
macro_rules! ways {
    ($it:expr; $x:pat => $key:expr) => {{
        let mut base = [0u64; MAXW];
        let mut hint = [(0usize, None); MAXW + 1];
        let mut n = 0;
        {
            let mut it = $it;
            hint[0] = it.size_hint();
            while let Some($x) = it.next() {
                ck!(n < MAXW);
                base[n] = $key;
                n += 1;
                hint[n] = it.size_hint();
            }
        }
        let mut j = 0;
        while j <= n {
            ck!(hint[j].0 <= n - j);
            ck!(match hint[j].1 { Some(h) => h >= n - j, None => true });
            // nth, and what follows
            let mut it = $it;
            match it.nth(j) {
                Some($x) => ck!(j < n && $key == base[j]),
                None => ck!(j == n),
            }
            if j < n {
                match it.next() {
                    Some($x) => ck!(j + 1 < n && $key == base[j + 1]),
                    None => ck!(j + 1 == n),
                }
            }
            // some by next, the rest by folding, counting, taking the last
            let mut way = 0;
            while way < 5 {
                let mut it = $it;
                let mut i = 0;
                while i < j {
                    ck!(it.next().is_some());
                    i += 1;
                }
                match way {
                    0 => it.for_each(|$x| {
                        ck!(i < n && $key == base[i]);
                        i += 1;
                    }),
                    1 => i += it.count(),
                    2 => match it.last() {
                        Some($x) => {
                            ck!(j < n && $key == base[n - 1]);
                            i = n;
                        }
                        None => ck!(j == n),
                    },
                    3 => {
                        ck!(!it.any(|$x| {
                            ck!(i < n && $key == base[i]);
                            i += 1;
                            false
                        }));
                    }
                    _ => {
                        for $x in it.by_ref().take(1) {
                            ck!(j < n && $key == base[j]);
                            i += 1;
                        }
                        for $x in it.step_by(2) {
                            ck!(i < n && $key == base[i]);
                            i += 2;
                        }
                        if i > n { i = n; }
                    }
                }
                ck!(i == n);
                way += 1;
            }
            match $it.skip(j).next() {
                Some($x) => ck!(j < n && $key == base[j]),
                None => ck!(j == n),
            }
            j += 1;
        }
        let v: Vec<u64> = $it.map(|$x| $key).collect();
        ck!(v.len() == n && v[..] == base[..n]);
        n
    }};
}
fn typed_ways(s: &mut Sim) {
    let all = 1 << KA;
    {
        let mut q = s.w.query::<(&A,)>();
        let n = ways!(q.iter(); (a,) => a as *const A as u64);
        ck!(n == s.expect_mask(all).count_ones() as usize);
    }
    {
        let mut q = s.w.query::<(EcsIds, &mut A)>();
        let n = ways!(q.iter(); (e, a) => { let _ = a; e.as_u64() });
        ck!(n == s.expect_mask(all).count_ones() as usize);
    }
    {
        let mut q = s.w.query::<(EcsIds,)>();
        ways!(q.iter(); (e,) => e.as_u64());
    }
    {
        let mut q = s.w.query::<(&B, EcsIds, &mut A)>();
        let n = ways!(q.iter(); (b, e, a) => { let _ = (b, a); e.as_u64() });
        ck!(n == s.expect_mask(all | 1 << KB).count_ones() as usize);
    }
    {
        let mut q = s.w.query::<(&Z, EcsIds)>();
        ways!(q.iter(); (_, e) => e.as_u64());
    }
}
fn dyn_ways(s: &mut Sim) {
    let (a, b) = (s.comp_id(KA), s.comp_id(KB));
    {
        let mut q = s.w.query_dynamic([FetchType::Immut(a)]);
        let n = ways!(q.iter(); [p] => p as u64);
        ck!(n == s.expect_mask(1 << KA).count_ones() as usize);
        ways!(q.column_iter(); c => unsafe { core::mem::transmute::<_, (*mut u8, usize)>(c).0 as u64 });
        ways!(q.column_iter(); c => unsafe { core::mem::transmute::<_, (*mut u8, usize)>(c).1 as u64 });
    }
    {
        let mut q = s.w.query_dynamic([FetchType::Mut(b), FetchType::EcsId, FetchType::Immut(a)]);
        let n = ways!(q.iter(); [_, e, _] => unsafe { *(e as *const EcsId) }.as_u64());
        ck!(n == s.expect_mask(1 << KA | 1 << KB).count_ones() as usize);
        ways!(q.column_iter(); c => unsafe { core::mem::transmute::<_, [(*mut u8, usize); 3]>(c)[2].0 as u64 });
    }
    {
        let mut q = s.w.query_dynamic([FetchType::EcsId, FetchType::EcsId]);
        ways!(q.iter(); [e, f] => { ck!(e == f); unsafe { *(e as *const EcsId) }.as_u64() });
    }
}
fn consumed(k: usize, how: fn(&mut Sim)) {
    let mut s = Sim::new(&[KA, KB, KZ], MAXE, CH_ITER);
    s.scaffold(choice(6));
    s.maxe = s.n + 1;
    let mut j = 0;
    while j < k && s.step(OP_STRUCT) {
        j += 1;
    }
    how(&mut s);
    reach(1);
    s.finish();
}
entries! { LIST;
fn c03_ways() { consumed(1 + param(2), typed_ways) }
fn c05_ways() { consumed(1 + param(3), dyn_ways) }
}
