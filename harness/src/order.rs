//! Ids as values: equality, order, hash, parts (C14). Every id is two arbitrary 32-bit numbers.
use crate::entries;
use crate::model::*;
use crate::rt::*;
use arche_tape::entities::Entities;
use arche_tape::EcsId;
use core::cmp::Ordering;
use core::hash::{Hash, Hasher};
const FILE: u32 = 10;

fn any() -> (EcsId, u32, u32) {
    let (i, g) = (symw(32) as u32, symw(32) as u32);
    (mk_id(i, g), i, g)
}
/// records what is fed to it
struct Rec {
    n: usize,
    b: [u8; 64],
}
impl Hasher for Rec {
    fn write(&mut self, x: &[u8]) {
        let mut i = 0;
        while i < x.len() {
            self.b[self.n] = x[i];
            self.n += 1;
            i += 1;
        }
    }
    fn finish(&self) -> u64 {
        0
    }
}
fn rec(id: &EcsId) -> Rec {
    let mut r = Rec { n: 0, b: [0; 64] };
    id.hash(&mut r);
    r
}
/// takes the last eight bytes as they are
struct Last(u64);
impl Hasher for Last {
    fn write(&mut self, x: &[u8]) {
        let mut i = 0;
        let mut v = 0;
        while i < x.len() {
            v |= (x[i] as u64) << (8 * (i % 8));
            i += 1;
        }
        self.0 = v;
    }
    fn finish(&self) -> u64 {
        self.0
    }
}

fn parts() {
    let (a, i, g) = any();
    ck!(a.uindex() == i as usize);
    ck!(a.as_u64() as u32 == i || a.as_u64() >> 32 == i as u64);
    ck!(a.as_u64() as u32 == g || a.as_u64() >> 32 == g as u64);
    let c = a;
    let d = a.clone();
    ck!(a == c && a == d && !(a != c));
    ck!(c.as_u64() == a.as_u64() && d.as_u64() == a.as_u64());
    ck!(a.index() == c.index() && a.generation() == c.generation());
    ck!(a.cmp(&c) == Ordering::Equal);
    ck!(a <= c && a >= c && !(a < c) && !(a > c));
    reach(1);
}
fn pair() {
    let (a, i, g) = any();
    let (b, j, h) = any();
    let same = (i == j) & (g == h);
    ck!((a == b) == same);
    ck!((b == a) == same);
    ck!((a != b) == !same);
    ck!((a.as_u64() == b.as_u64()) == same);
    ck!((a.index() == b.index()) == (i == j));
    ck!((a.generation() == b.generation()) == (g == h));
    ck!((a.uindex() == b.uindex()) == (i == j));
    let c = a.cmp(&b);
    ck!((c == Ordering::Equal) == same);
    ck!(b.cmp(&a) == c.reverse());
    ck!(a.partial_cmp(&b) == Some(c));
    ck!((a < b) == (c == Ordering::Less));
    ck!((a > b) == (c == Ordering::Greater));
    ck!((a <= b) == (c != Ordering::Greater));
    ck!((a >= b) == (c != Ordering::Less));
    let m = core::cmp::max(a, b);
    let n = core::cmp::min(a, b);
    ck!((m == a) | (m == b));
    ck!(n <= m);
    // the parts are ordered as well
    let (p, q) = (a.generation(), b.generation());
    ck!((p.cmp(&q) == Ordering::Equal) == (g == h));
    ck!(p.cmp(&q) == q.cmp(&p).reverse() && p.partial_cmp(&q) == Some(p.cmp(&q)));
    let (p, q) = (a.index(), b.index());
    ck!((p.cmp(&q) == Ordering::Equal) == (i == j));
    ck!(p.cmp(&q) == q.cmp(&p).reverse() && p.partial_cmp(&q) == Some(p.cmp(&q)));
    reach(1);
}
fn triple() {
    let (a, _, _) = any();
    let (b, _, _) = any();
    let (c, _, _) = any();
    ck!(!((a < b) & (b < c)) | (a < c));
    ck!(!((a <= b) & (b <= c)) | (a <= c));
    ck!(!((a == b) & (b < c)) | (a < c));
    ck!(!((a < b) & (b == c)) | (a < c));
    ck!(!((a == b) & (b == c)) | (a == c));
    ck!((a < b) as u8 + (a == b) as u8 + (a > b) as u8 == 1);
    reach(1);
}
fn hashes() {
    let (a, i, g) = any();
    let (b, j, h) = any();
    let (x, y) = (rec(&a), rec(&b));
    let same = (i == j) & (g == h);
    // equal ids are indistinguishable to every hasher
    let mut eq = x.n == y.n;
    let mut k = 0;
    while k < 64 {
        eq &= x.b[k] == y.b[k];
        k += 1;
    }
    ck!(!same | eq);
    ck!(x.n > 0);
    let (mut l, mut m) = (Last(0), Last(0));
    a.hash(&mut l);
    b.hash(&mut m);
    ck!(!same | (l.finish() == m.finish()));
    // a slice of ids hashes like its elements
    let s = [a, b];
    let mut r = Rec { n: 0, b: [0; 64] };
    EcsId::hash_slice(&s, &mut r);
    let mut k = 0;
    while k < x.n {
        ck!(r.b[k] == x.b[k]);
        ck!(r.b[x.n + k] == y.b[k]);
        k += 1;
    }
    reach(1);
}
/// ids found by searching: sorted and looked up, as keys of ordered and hashed collections
fn keys() {
    let ids = [any().0, any().0, any().0];
    let mut v = ids;
    v.sort();
    ck!(v[0] <= v[1] && v[1] <= v[2]);
    let mut i = 0;
    while i < 3 {
        ck!(v.contains(&ids[i]));
        ck!(v.binary_search(&ids[i]).is_ok());
        i += 1;
    }
    reach(1);
}
/// the ids an allocator gives out have the parts they print
fn issued() {
    let mut e = Entities::new();
    let n = 1 + choice(3);
    let mut ids = [e.spawn(); 8];
    let mut i = 1;
    while i < n {
        ids[i] = e.spawn();
        i += 1;
    }
    let j = choice(n);
    e.despawn(ids[j]);
    let r = e.spawn();
    ck!(r != ids[j]);
    let mut k = 0;
    while k < n {
        let a = ids[k];
        let same_slot = a.index() == r.index();
        ck!((a == r) == (same_slot && a.generation() == r.generation()));
        ck!(a != r);
        ck!(a.cmp(&r) != Ordering::Equal);
        let mut l = 0;
        while l < k {
            ck!(a != ids[l] && a.cmp(&ids[l]) != Ordering::Equal && a.as_u64() != ids[l].as_u64());
            l += 1;
        }
        k += 1;
    }
    reach(1);
}

/// what is printed, as text
struct Text {
    n: usize,
    b: [u8; 128],
}
impl core::fmt::Write for Text {
    fn write_str(&mut self, s: &str) -> core::fmt::Result {
        for c in s.as_bytes() {
            self.b[self.n] = *c;
            self.n += 1;
        }
        Ok(())
    }
}
/// the n-th number in the text, which is hexadecimal and marked 0x; n counts from 0
fn number(t: &Text, nth: usize) -> (u64, usize) {
    let mut i = 0;
    let mut k = 0;
    while i + 1 < t.n {
        if t.b[i] == b'0' && t.b[i + 1] == b'x' {
            i += 2;
            let (mut v, mut d) = (0u64, 0);
            while i < t.n && t.b[i] != b',' && t.b[i] != b' ' && t.b[i] != b')' && t.b[i] != b'}' {
                v = v << 4 | ((t.b[i] & 15) + 9 * (t.b[i] >> 6)) as u64;
                d += 1;
                i += 1;
            }
            if k == nth {
                return (v, d);
            }
            k += 1;
        } else {
            i += 1;
        }
    }
    (0, 0)
}
/// position of a word in the text, or the end
fn word(t: &Text, w: &[u8]) -> usize {
    let mut i = 0;
    while i + w.len() <= t.n {
        let mut j = 0;
        while j < w.len() && t.b[i + j] == w[j] {
            j += 1;
        }
        if j == w.len() {
            return i;
        }
        i += 1;
    }
    t.n
}
/// `what`: 0 the whole id, 1 its generation, 2 its index; `debug`: the other way of printing
fn printed(what: usize, debug: bool) {
    use core::fmt::Write;
    let (i, g) = (symw(32) as u32, symw(32) as u32);
    let id = mk_id(i, g);
    let mut t = Text { n: 0, b: [0; 128] };
    let r = match (what, debug) {
        (0, false) => write!(t, "{}", id),
        (1, false) => write!(t, "{}", id.generation()),
        (2, false) => write!(t, "{}", id.index()),
        (1, true) => write!(t, "{:?}", id.generation()),
        (2, true) => write!(t, "{:?}", id.index()),
        _ => write!(t, "{:?}", id),
    };
    ck!(r.is_ok());
    match what {
        0 => {
            let (first, d1) = number(&t, 0);
            let (second, d2) = number(&t, 1);
            ck!(d1 > 0 && d2 > 0);
            let (gw, iw) = if debug { (word(&t, b"generation"), word(&t, b"index")) } else { (word(&t, b"Generation"), word(&t, b"Index")) };
            ck!(gw < t.n && iw < t.n && gw != iw);
            let (gg, ii) = if gw < iw { (first, second) } else { (second, first) };
            ck!(gg == g as u64);
            ck!(ii == i as u64);
        }
        _ => {
            let (v, d) = number(&t, 0);
            ck!(d > 0);
            ck!(v == if what == 1 { g } else { i } as u64);
        }
    }
    let mut k = 0;
    while k < t.n {
        trace(t.b[k] as u64);
        k += 1;
    }
    reach(1);
}

entries! { LIST;
fn c14_print_id() { printed(0, false) }
fn c14_print_gen() { printed(1, flag()) }
fn c14_print_index() { printed(2, flag()) }
fn c14_debug_id() { printed(0, true) }
fn c14_parts() { parts() }
fn c14_pair() { pair() }
fn c14_triple() { triple() }
fn c14_hashes() { hashes() }
fn c14_keys() { keys() }
fn c14_issued() { issued() }
}
