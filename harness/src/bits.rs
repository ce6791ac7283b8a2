//! Bitset combination and storage over arbitrary words (C08).
#[cfg(feature = "bits")]
mod on {
    use crate::entries;
    use crate::model::mk_id;
    use crate::rt::*;
    use arche_tape::verif_bits::{BitSets, Bits, BitsIter, MapFn};
    const FILE: u32 = 5;

    fn ident(x: usize) -> usize {
        x
    }
    fn neg(x: usize) -> usize {
        !x
    }
    fn mapped(m: usize, x: usize) -> usize {
        if m == 1 {
            !x
        } else {
            x
        }
    }

    /// the lowest n positions, n in 0..128
    fn below(n: usize) -> u128 {
        1u128.wrapping_shl(n as u32).wrapping_sub(1)
    }
    /// `N` sets of at most two arbitrary words each, any length in bits, any map; `k` calls of next
    /// compared with the definition.
    fn combine<const N: usize>(k: usize) {
        let mut words: Vec<Vec<usize>> = Vec::new();
        let mut m = [0usize; N];
        let mut common = !0u128;
        let mut i = 0;
        while i < N {
            m[i] = choice(2);
            let n = choice(3);
            let mut v = Vec::new();
            let mut set = 0u128;
            let mut j = 0;
            while j < n {
                let w = sym() as usize;
                v.push(w);
                set |= (mapped(m[i], w) as u128) << (64 * j);
                j += 1;
            }
            // positions beyond the end of the shortest set do not count
            common &= set;
            words.push(v);
            i += 1;
        }
        let len = symw(8) as usize;
        let big = flag();
        // lengths 0..=127, 128..=255 (longer than any set here) and far beyond
        let len = if big { [128usize, 129, 192, u32::MAX as usize][choice(4)] } else { len & 127 };
        let cap = if big { !0u128 } else { below(len) };
        common &= cap;
        let f: [MapFn; 2] = [ident, neg];
        let mut at = 0;
        let iters = [(); N].map(|_| {
            let r = (words[at].iter(), f[m[at]]);
            at += 1;
            r
        });
        let mut it = BitsIter::<N>::new(iters, len as u32);
        // positions already passed
        let mut passed = 0u128;
        let mut c = 0;
        while c < k {
            match it.next() {
                Some(p) => {
                    trace(p as u64);
                    ck!(p < 128);
                    // it is a common position below the length, not reported before, and none was skipped
                    ck!((common >> (p & 127)) & 1 == 1);
                    ck!(common & below(p) & !passed == 0);
                    ck!((passed >> (p & 127)) & 1 == 0);
                    passed = below(p) << 1 | 1;
                    reach(2);
                }
                None => {
                    ck!(common & !passed == 0);
                    // and it stays at the end
                    ck!(it.next().is_none());
                    ck!(it.next().is_none());
                    ck!(it.next().is_none());
                    reach(3);
                    break;
                }
            }
            c += 1;
        }
        state();
        reach(1);
    }
    /// no sets at all: the end at once
    fn none() {
        let len = symw(32) as u32;
        let mut it = BitsIter::<0>::new([], len);
        ck!(it.next().is_none());
        ck!(it.next().is_none());
        reach(1);
    }
    const LENS: [usize; 12] = [0, 1, 32, 63, 64, 65, 127, 128, 129, 191, 192, 250];
    /// the whole iteration, to its end and beyond: up to three words per set, ones possible at two chosen
    /// places of every word, the remaining bits ones in one set and zeros in the other
    fn drain() {
        let mask = [0x8000_0000_0000_0001usize, 0x0000_0001_8000_0000, 0xc000_0000_0000_0000][choice(3)];
        let (na, nb) = (1 + choice(3), 1 + choice(3));
        let mut a = [0usize; 3];
        let mut b = [0usize; 3];
        let mut w = 0;
        while w < 3 {
            a[w] = sym() as usize | !mask;
            b[w] = sym() as usize & mask;
            w += 1;
        }
        let len = LENS[choice(12)];
        let f: MapFn = ident;
        let mut it = BitsIter::<2>::new([(a[..na].iter(), f), (b[..nb].iter(), f)], len as u32);
        let mut p = 0;
        while p < 192 {
            if mask >> (p % 64) & 1 == 1 && p < 64 * na && p < 64 * nb && p < len {
                if (a[p / 64] & b[p / 64]) >> (p % 64) & 1 == 1 {
                    ck!(it.next() == Some(p));
                }
            }
            p += 1;
        }
        ck!(it.next().is_none());
        ck!(it.next().is_none());
        ck!(it.next().is_none());
        state();
        reach(1);
    }
    const POS: [usize; 14] = [0, 1, 2, 30, 31, 32, 33, 62, 63, 64, 65, 127, 128, 191];
    /// writes to one bitset: at any position below 192, pushes; all read back
    fn store(k: usize) {
        let mut b = match choice(3) {
            0 => Bits::new(),
            1 => Bits::with_capacity(1),
            _ => Bits::with_capacity(64),
        };
        let mut mlen = 0usize;
        let mut m = [0usize; 4];
        let mut j = 0;
        while j < k {
            let v = symw(1) == 1;
            if flag() {
                let p = mlen;
                b.push_bit(v);
                let bit = 1usize << (p % 64);
                m[p / 64] = if v { m[p / 64] | bit } else { m[p / 64] & !bit };
                mlen += 1;
            } else {
                let p = POS[choice(POS.len())];
                b.set_bit(p, v);
                let bit = 1usize << (p % 64);
                m[p / 64] = if v { m[p / 64] | bit } else { m[p / 64] & !bit };
                if p >= mlen {
                    mlen = p + 1;
                }
            }
            verify(&b, &m, mlen);
            j += 1;
        }
        state();
        // any position at all
        let q = sym() as usize;
        let got = b.get_bit(q);
        if q >= mlen {
            ck!(got.is_none());
            reach(2);
        } else {
            let mut bit = false;
            let mut w = 0;
            while w < 4 {
                if q / 64 == w {
                    bit = m[w] >> (q % 64) & 1 == 1;
                }
                w += 1;
            }
            ck!(got == Some(bit));
            reach(3);
        }
        reach(1);
    }
    fn verify(b: &Bits, m: &[usize; 4], mlen: usize) {
        let mut p = 0;
        while p < mlen {
            match b.get_bit(p) {
                Some(x) => ceq!(x as u64, (m[p / 64] >> (p % 64) & 1) as u64),
                None => ck!(false),
            }
            p += 1;
        }
        ck!(b.get_bit(mlen).is_none());
        // what an iteration over the stored words sees
        let f: MapFn = ident;
        let ws = b.words();
        ck!(b.len() == mlen);
        ck!(ws.len() * 64 >= mlen);
        let mut w = 0;
        while w < ws.len() {
            ceq!(ws[w] as u64, m[w] as u64);
            w += 1;
        }
        let _ = f;
    }
    /// several bitsets keyed by id: writing one position of one changes nothing else
    fn keyed(k: usize) {
        let mut s = if flag() { BitSets::new() } else { BitSets::with_capacity(2) };
        let id = [mk_id(0, 0), mk_id(2, 7), mk_id(3, 1)];
        let mut len = [0usize; 3];
        let mut m = [[0usize; 3]; 3];
        const P: [usize; 6] = [0, 1, 63, 64, 66, 129];
        let mut j = 0;
        while j < k {
            let i = choice(3);
            let v = symw(1) == 1;
            let p = if choice(2) == 1 {
                s.push_bit(id[i], v);
                len[i]
            } else {
                let p = P[choice(6)];
                s.set_bit(id[i], p, v);
                p
            };
            let bit = 1usize << (p % 64);
            m[i][p / 64] = if v { m[i][p / 64] | bit } else { m[i][p / 64] & !bit };
            if p >= len[i] {
                len[i] = p + 1;
            }
            let mut a = 0;
            while a < 3 {
                let mut p = 0;
                while p < 131 {
                    let got = s.get_bit(id[a], p);
                    if p < len[a] {
                        match got {
                            Some(Some(x)) => ceq!(x as u64, (m[a][p / 64] >> (p % 64) & 1) as u64),
                            _ => ck!(false),
                        }
                    } else {
                        ck!(!matches!(got, Some(Some(_))));
                    }
                    p += if p < 3 || p > 60 && p < 67 || p > 126 { 1 } else { 9 };
                }
                a += 1;
            }
            j += 1;
        }
        state();
        // an index nobody used
        let never = s.get_bit(mk_id(1, 0), 0);
        ck!(!matches!(never, Some(Some(_))));
        ck!(s.get_bit(mk_id(4, 0), 0).is_none());
        reach(1);
    }

    entries! { LIST;
    fn c08_one() { combine::<1>(param(0)) }
    fn c08_two() { combine::<2>(param(0)) }
    fn c08_three() { combine::<3>(param(1)) }
    fn c08_none() { none() }
    fn c08_drain() { drain() }
    fn c08_store() { store(param(1)) }
    fn c08_keyed() { keyed(param(1)) }
    }
}
#[cfg(feature = "bits")]
pub use on::LIST;
#[cfg(not(feature = "bits"))]
pub static LIST: &[(&str, extern "C-unwind" fn())] = &[];
