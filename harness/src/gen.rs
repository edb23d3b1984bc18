//! Choice-tape generator.
//!
//! A case is a pure function of its tape (a `Vec<u64>` of *semantic* choices:
//! the width minus one, the raw digits, the index of an alternative, ...). In
//! random mode the value of each choice is picked by a distribution fed from a
//! PRNG or from fuzzer bytes and recorded; in replay mode it is read back (0
//! once the tape is exhausted). Shrinking edits the tape.

use crate::model::M;

/// Entropy source: PRNG or fuzzer bytes.
#[derive(Clone)]
pub enum Src {
    Prng([u64; 4]),
    Bytes(Vec<u8>, usize),
}

fn splitmix(x: &mut u64) -> u64 {
    *x = x.wrapping_add(0x9E37_79B9_7F4A_7C15);
    let mut z = *x;
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
    z ^ (z >> 31)
}

pub fn mix(parts: &[u64]) -> u64 {
    let mut x = 0x243F_6A88_85A3_08D3u64;
    for p in parts {
        x ^= *p;
        x = splitmix(&mut x);
    }
    x
}

impl Src {
    pub fn seeded(seed: u64) -> Src {
        let mut s = seed;
        Src::Prng([
            splitmix(&mut s),
            splitmix(&mut s),
            splitmix(&mut s),
            splitmix(&mut s),
        ])
    }
    pub fn u64(&mut self) -> u64 {
        match self {
            Src::Prng(s) => {
                let r = s[1].wrapping_mul(5).rotate_left(7).wrapping_mul(9);
                let t = s[1] << 17;
                s[2] ^= s[0];
                s[3] ^= s[1];
                s[1] ^= s[2];
                s[0] ^= s[3];
                s[2] ^= t;
                s[3] = s[3].rotate_left(45);
                r
            }
            Src::Bytes(b, p) => {
                let mut x = 0u64;
                for i in 0..8 {
                    x |= (b.get(*p).copied().unwrap_or(0) as u64) << (8 * i);
                    *p += 1;
                }
                x
            }
        }
    }
    pub fn below(&mut self, n: u64) -> u64 {
        assert!(n > 0);
        match self {
            Src::Prng(_) => ((self.u64() as u128 * n as u128) >> 64) as u64,
            Src::Bytes(b, p) => {
                let k = if n <= 256 { 1 } else if n <= 65536 { 2 } else { 8 };
                let mut x = 0u64;
                for i in 0..k {
                    x |= (b.get(*p).copied().unwrap_or(0) as u64) << (8 * i);
                    *p += 1;
                }
                x % n
            }
        }
    }
    pub fn chance(&mut self, num: u64, den: u64) -> bool {
        match self {
            Src::Prng(_) => self.below(den) < num,
            // exhausted or zero bytes mean the common alternative
            Src::Bytes(..) => self.below(den) >= den - num,
        }
    }
    /// Bytes exhausted? (keeps fuzz-driven histories finite)
    pub fn dry(&self) -> bool {
        match self {
            Src::Prng(_) => false,
            Src::Bytes(b, p) => *p >= b.len(),
        }
    }
}

/// First tape word of an enumerated giant case.
pub const GIANT: u64 = 0xffff_ffff_ffff_fff1;

pub struct Gen {
    src: Option<Src>,
    pub tape: Vec<u64>,
    pos: usize,
    /// print every choice as it is made (survives a crash of the case)
    pub echo: bool,
}

impl Gen {
    pub fn random(src: Src) -> Gen {
        Gen { src: Some(src), tape: Vec::with_capacity(64), pos: 0, echo: false }
    }
    pub fn replay(tape: Vec<u64>) -> Gen {
        Gen { src: None, tape, pos: 0, echo: false }
    }
    /// Length of the tape actually consumed.
    pub fn used(&self) -> usize {
        self.pos.min(self.tape.len())
    }
    pub fn is_random(&self) -> bool {
        self.src.is_some()
    }
    fn put(&mut self, v: u64) {
        if self.echo {
            eprintln!("T {}", v);
        }
        self.tape.push(v);
        self.pos = self.tape.len();
    }
    fn take(&mut self) -> u64 {
        let v = self.tape.get(self.pos).copied().unwrap_or(0);
        self.pos += 1;
        if self.echo {
            eprintln!("T {}", v);
        }
        v
    }
    /// Draw a value in `0..n` (`n == 0`: any u64) with the given distribution.
    pub fn draw(&mut self, n: u64, f: impl FnOnce(&mut Src) -> u64) -> u64 {
        if let Some(s) = self.src.as_mut() {
            let v = f(s);
            let v = if n == 0 { v } else { v % n };
            self.put(v);
            v
        } else {
            let v = self.take();
            if n == 0 {
                v
            } else {
                v % n
            }
        }
    }
    pub fn below(&mut self, n: u64) -> u64 {
        self.draw(n, |s| s.below(n))
    }
    pub fn idx(&mut self, n: usize) -> usize {
        self.below(n as u64) as usize
    }
    pub fn u64(&mut self) -> u64 {
        self.draw(0, |s| s.u64())
    }
    pub fn coin(&mut self) -> bool {
        self.below(2) == 1
    }
    /// true with probability num/den (simplest = false)
    pub fn chance(&mut self, num: u64, den: u64) -> bool {
        self.draw(2, |s| s.chance(num, den) as u64) == 1
    }
    pub fn pick<'a, T>(&mut self, xs: &'a [T]) -> &'a T {
        let i = self.idx(xs.len());
        &xs[i]
    }
    /// Is this an enumerated giant case (replay of a tape that starts with
    /// the mark)? Consumes the mark.
    pub fn giant(&mut self) -> bool {
        let yes = self.src.is_none() && self.pos == 0 && self.tape.first() == Some(&GIANT);
        if yes {
            self.take();
        }
        yes
    }
    /// A width in `1..=max`, biased to digit boundaries.
    pub fn width(&mut self, max: usize) -> usize {
        1 + self.draw(max as u64, |s| rand_width(s, max) as u64 - 1) as usize
    }
    /// Mostly `width(base)`, rarely (1 in 300) something up to `max`: digit
    /// counts and positions that overflow 8- and 16-bit quantities.
    pub fn width_h(&mut self, base: usize, max: usize) -> usize {
        1 + self.draw(max as u64, |s| rand_width_h(s, base, max) as u64 - 1) as usize
    }
    /// Mostly `width_h(base, mid)`; in one of `den` cases up to `max`.
    pub fn width_x(&mut self, base: usize, mid: usize, max: usize, den: u64) -> usize {
        1 + self.draw(max as u64, |s| rand_width_x(s, base, mid, max, den) as u64 - 1) as usize
    }
    pub fn width_range(&mut self, lo: usize, hi: usize) -> usize {
        lo + self.draw((hi - lo + 1) as u64, |s| {
            let v = rand_width(s, hi);
            if v >= lo {
                (v - lo) as u64
            } else {
                s.below((hi - lo + 1) as u64)
            }
        }) as usize
    }
    /// A value of width `w`; on the random side the pattern may relate it to
    /// the `hints`.
    pub fn value(&mut self, w: usize, hints: &[&M]) -> M {
        self.value_with(w, |s| rand_value(s, w, hints))
    }
    pub fn value_with(&mut self, w: usize, f: impl FnOnce(&mut Src) -> M) -> M {
        let n = (w + 63) / 64;
        if let Some(s) = self.src.as_mut() {
            let m = f(s);
            assert_eq!(m.w, w);
            for i in 0..n {
                self.put(m.digit(i));
            }
            m
        } else {
            let ds: Vec<u64> = (0..n).map(|_| self.take()).collect();
            M::from_digits(w, &ds)
        }
    }
    /// A dividend/divisor pair shaped to reach the rare branches of long
    /// division. The divisor may be zero only when replaying.
    pub fn div_pair(&mut self, w: usize) -> (M, M) {
        if let Some(s) = self.src.as_mut() {
            let (n, d) = rand_div_pair(s, w);
            self.value_with(w, |_| n.clone());
            self.value_with(w, |_| d.clone());
            (n, d)
        } else {
            let n = self.value(w, &[]);
            let d = self.value(w, &[]);
            (n, d)
        }
    }
    /// A position/amount near the interesting places of width `w`.
    pub fn amount(&mut self, w: usize) -> usize {
        self.draw(0, |s| rand_amount(s, w) as u64) as usize
    }
    pub fn amount_below(&mut self, w: usize) -> usize {
        self.draw(w as u64, |s| {
            let k = rand_amount(s, w);
            if k < w {
                k as u64
            } else {
                s.below(w as u64)
            }
        }) as usize
    }
    pub fn dry(&self) -> bool {
        match &self.src {
            Some(s) => s.dry(),
            None => self.pos >= self.tape.len(),
        }
    }
}

pub fn rand_width_x(s: &mut Src, base: usize, mid: usize, max: usize, den: u64) -> usize {
    if s.chance(1, den) {
        rand_width_log(s, mid, max)
    } else {
        rand_width_h(s, base, mid)
    }
}

pub fn rand_width_h(s: &mut Src, base: usize, max: usize) -> usize {
    if !s.chance(1, 300) || max <= base {
        return rand_width(s, base);
    }
    rand_width_log(s, base, max)
}

fn rand_width_log(s: &mut Src, base: usize, max: usize) -> usize {
    // log-uniform between base and max, half of the time at a power of two
    let (mut k, mut top) = (0, base);
    while top < max {
        top *= 2;
        k += 1;
    }
    let lo = base << s.below(k);
    let v = if s.chance(1, 2) {
        lo.next_power_of_two() + [0, 1, 2, 63, 64, 65][s.below(6) as usize]
    } else {
        lo + s.below(lo as u64) as usize
    };
    v.clamp(1, max)
}

pub fn rand_width(s: &mut Src, max: usize) -> usize {
    let w = match s.below(20) {
        0..=2 => 1 + s.below(64) as usize,
        3 => [1, 2, 3, 7, 8, 9, 31, 32, 33, 62, 63, 64][s.below(12) as usize],
        4..=12 => {
            // 2..=6 digits
            let k = 1 + s.below(5) as usize;
            near_boundary(s, k)
        }
        13..=16 => {
            let k = 1 + s.below(16) as usize;
            near_boundary(s, k)
        }
        17..=18 => 1 + s.below(400) as usize,
        _ => {
            let k = 1 + s.below((max as u64 / 64).max(1)) as usize;
            near_boundary(s, k)
        }
    };
    if w >= 1 && w <= max {
        w
    } else {
        1 + s.below(max as u64) as usize
    }
}

/// Width with k full digits plus something.
fn near_boundary(s: &mut Src, k: usize) -> usize {
    let b = 64 * k;
    match s.below(8) {
        0 | 1 => b + 64,
        2 => b + 1,
        3 => b + 63,
        4 => b + 2,
        5 => b + 32,
        _ => b + 1 + s.below(64) as usize,
    }
}

pub fn corner_digit(s: &mut Src) -> u64 {
    match s.below(16) {
        0..=2 => 0,
        3..=5 => u64::MAX,
        6 => 1,
        7 => 1 << 63,
        8 => u64::MAX >> 1,
        9 => u64::MAX - 1,
        10 => 1 << 32,
        11 => 0xffff_ffff,
        12 => 0xffff_ffff_0000_0000,
        13 => 1u64 << s.below(64),
        14 => u64::MAX << s.below(64),
        _ => s.u64(),
    }
}

pub fn rand_digits(s: &mut Src, w: usize) -> M {
    let n = (w + 63) / 64;
    let ds: Vec<u64> = (0..n).map(|_| s.u64()).collect();
    M::from_digits(w, &ds)
}

/// Keep only the low `k` bits.
pub fn low_bits(m: &M, k: usize) -> M {
    if k == 0 {
        M::zero(m.w)
    } else if k >= m.w {
        m.clone()
    } else {
        m.trunc(k).zext(m.w)
    }
}

pub fn rand_value(s: &mut Src, w: usize, hints: &[&M]) -> M {
    if !hints.is_empty() && s.chance(1, 3) {
        let h = hints[s.below(hints.len() as u64) as usize];
        let h = h.zresize(w);
        return match s.below(14) {
            0 => h,
            1 => h.inc(),
            2 => h.dec(),
            3 => h.neg(),
            4 => h.not(),
            5 => {
                let k = s.below(w as u64) as usize;
                h.lshr(k)
            }
            6 => {
                let k = s.below(w as u64) as usize;
                h.shl(k)
            }
            7 | 8 => {
                let k = s.below(w as u64) as usize;
                h.with_bit(k, !h.bit(k))
            }
            9 => {
                // replace one digit
                let mut ds = h.digits();
                let i = s.below(ds.len() as u64) as usize;
                ds[i] = corner_digit(s);
                M::from_digits(w, &ds)
            }
            10 => {
                // one digit off by one
                let mut ds = h.digits();
                let i = s.below(ds.len() as u64) as usize;
                ds[i] = if s.chance(1, 2) {
                    ds[i].wrapping_add(1)
                } else {
                    ds[i].wrapping_sub(1)
                };
                M::from_digits(w, &ds)
            }
            11 => {
                // two digits changed so that sums or parities cancel, or swapped
                let mut ds = h.digits();
                let i = s.below(ds.len() as u64) as usize;
                let j = s.below(ds.len() as u64) as usize;
                let x = if s.chance(1, 2) { 1 << s.below(64) } else { corner_digit(s) };
                match s.below(3) {
                    0 => {
                        ds[i] ^= x;
                        ds[j] ^= x;
                    }
                    1 => {
                        ds[i] = ds[i].wrapping_add(x);
                        ds[j] = ds[j].wrapping_sub(x);
                    }
                    _ => ds.swap(i, j),
                }
                M::from_digits(w, &ds)
            }
            12 => {
                // agrees from some place on, differs anywhere below
                let k = s.below(w as u64) as usize;
                let r = low_bits(&rand_digits(s, w), k);
                h.lshr(k).shl(k).or(&r)
            }
            _ => h.with_bit(w - 1, !h.msb()),
        };
    }
    let n = (w + 63) / 64;
    match s.below(16) {
        0 | 1 => rand_digits(s, w),
        2..=5 => {
            let ds: Vec<u64> = (0..n).map(|_| corner_digit(s)).collect();
            M::from_digits(w, &ds)
        }
        6 | 7 => {
            // uniform significant length
            let k = s.below(w as u64 + 1) as usize;
            let v = if s.chance(1, 2) {
                rand_digits(s, w)
            } else {
                let ds: Vec<u64> = (0..n).map(|_| corner_digit(s)).collect();
                M::from_digits(w, &ds)
            };
            let mut v = low_bits(&v, k);
            if k > 0 {
                v.set(k - 1, true);
            }
            if s.chance(1, 5) {
                v.neg()
            } else {
                v
            }
        }
        8 | 9 => {
            let k = rand_amount_below(s, w);
            let p = M::pow2(w, k);
            match s.below(6) {
                0 => p,
                1 => p.dec(),
                2 => p.inc(),
                3 => p.neg(),
                4 => p.neg().dec(),
                _ => p.not(),
            }
        }
        10 | 11 => {
            // runs of equal bits
            let mut m = M::zero(w);
            let mut i = 0;
            let mut b = s.chance(1, 2);
            while i < w {
                let scale = [4u64, 20, 70, 200][s.below(4) as usize];
                let run = 1 + s.below(scale) as usize;
                if b {
                    for j in i..(i + run).min(w) {
                        m.set(j, true);
                    }
                }
                i += run;
                b = !b;
            }
            m
        }
        12 => {
            // few set / few cleared bits
            let mut m = M::zero(w);
            for _ in 0..1 + s.below(4) {
                let k = rand_amount_below(s, w);
                m.set(k, true);
            }
            if s.chance(1, 2) {
                m.not()
            } else {
                m
            }
        }
        13 => match s.below(6) {
            0 => M::zero(w),
            1 => M::one(w),
            2 => M::ones(w),
            3 => M::smin(w),
            4 => M::smax(w),
            _ => M::from_u128(w, 2),
        },
        14 if s.chance(1, 4) => {
            // regular digits: repeated, palindromic, equal in all but one place
            let mut ds: Vec<u64> = match s.below(3) {
                0 => vec![if s.chance(1, 2) { corner_digit(s) } else { s.u64() }; n],
                1 => {
                    let h: Vec<u64> = (0..(n + 1) / 2).map(|_| s.u64()).collect();
                    (0..n).map(|i| h[i % h.len()]).collect()
                }
                _ => {
                    let h: Vec<u64> = (0..(n + 1) / 2).map(|_| s.u64()).collect();
                    (0..n).map(|i| h[i.min(n - 1 - i)]).collect()
                }
            };
            if s.chance(1, 3) {
                let i = s.below(n as u64) as usize;
                ds[i] ^= 1 << s.below(64);
            }
            M::from_digits(w, &ds)
        }
        14 => {
            // only one to three digits non-zero (or not all-ones), often at the ends
            let mut ds = vec![0u64; n];
            for _ in 0..[1, 1, 2, 3][s.below(4) as usize] {
                let i = match s.below(5) {
                    0 | 1 => 0,
                    2 | 3 => n - 1,
                    _ => s.below(n as u64) as usize,
                };
                ds[i] = if s.chance(1, 4) { s.u64() >> s.below(64) } else { corner_digit(s) };
            }
            if n > 1 && s.chance(1, 4) {
                // two digits that cancel
                let i = s.below(n as u64) as usize;
                let j = (i + 1 + s.below(n as u64 - 1) as usize) % n;
                ds[j] = [ds[i], ds[i].wrapping_neg(), !ds[i]][s.below(3) as usize];
            }
            let m = M::from_digits(w, &ds);
            if s.chance(1, 3) {
                m.not()
            } else {
                m
            }
        }
        _ => {
            // small numbers / one digit
            let v = M::from_u128(w, (s.u64() >> s.below(64)) as u128);
            if s.chance(1, 4) {
                v.neg()
            } else {
                v
            }
        }
    }
}

fn rand_amount_below(s: &mut Src, w: usize) -> usize {
    let k = rand_amount(s, w);
    if k < w {
        k
    } else {
        s.below(w as u64) as usize
    }
}

pub fn rand_amount(s: &mut Src, w: usize) -> usize {
    match s.below(16) {
        0 => 0,
        1 => 1,
        2 => w - 1,
        3 => w,
        4 => w + 1,
        5 | 6 => 64 * s.below(w as u64 / 64 + 2) as usize,
        7 => (64 * (1 + s.below(w as u64 / 64 + 1)) as usize) - 1,
        8 => 64 * s.below(w as u64 / 64 + 2) as usize + 1,
        9 => match s.below(8) {
            0 => usize::MAX,
            1 => usize::MAX - 63,
            2 => 1 << 63,
            3 => (1usize << [8, 16, 31, 32, 33, 48][s.below(6) as usize]) + s.below(w as u64) as usize,
            4 => w + 63,
            5 => w + 64,
            6 => 64 * ((w + 63) / 64),
            _ => 2 * w + s.below(100) as usize,
        },
        _ => s.below(w as u64) as usize,
    }
}

fn div_value(s: &mut Src, w: usize, bits: usize) -> M {
    // a value with exactly `bits` significant bits (bits >= 1), shaped
    let n = (w + 63) / 64;
    let mut v = match s.below(8) {
        0 | 1 => rand_digits(s, w),
        2..=4 => {
            let ds: Vec<u64> = (0..n).map(|_| corner_digit(s)).collect();
            M::from_digits(w, &ds)
        }
        5 => M::zero(w),
        6 => M::ones(w),
        _ => {
            // top ~64 bits special, rest zeros or ones
            let m = if s.chance(1, 2) { M::zero(w) } else { M::ones(w) };
            let top = corner_digit(s);
            let sh = bits.saturating_sub(64);
            let t = M::from_u128(w, top as u128).shl(sh);
            low_bits(&m, sh).or(&t)
        }
    };
    v = low_bits(&v, bits);
    v.set(bits - 1, true);
    // sometimes align the interesting digits to the top bit instead
    if s.chance(1, 4) && bits > 1 {
        let k = s.below(bits as u64) as usize;
        let mut u = v.lshr(k).shl(k);
        if s.chance(1, 2) {
            u = u.or(&low_bits(&M::ones(w), k));
        }
        return u;
    }
    v
}

pub fn rand_div_pair(s: &mut Src, w: usize) -> (M, M) {
    let bits = |s: &mut Src, lo: usize, hi: usize| -> usize {
        // hi >= lo
        match s.below(6) {
            0 => hi,
            1 => {
                let b = 64 * (s.below(hi as u64 / 64 + 1) as usize)
                    + s.below(3) as usize;
                b.max(lo).min(hi)
            }
            _ => lo + s.below((hi - lo + 1) as u64) as usize,
        }
    };
    match s.below(10) {
        0 => {
            let a = rand_value(s, w, &[]);
            let mut b = rand_value(s, w, &[&a]);
            if b.is_zero() {
                b = M::one(w);
            }
            (a, b)
        }
        1 => {
            // nearly equal magnitudes: quotient 0, 1 or a small digit
            let db = bits(s, 1, w);
            let d = div_value(s, w, db);
            let k = s.below(70).min((w - db) as u64) as usize;
            let mut n = d.shl(k);
            match s.below(5) {
                0 => {}
                1 => n = n.dec(),
                2 => n = n.inc(),
                3 => {
                    let i = s.below((db + k).min(w) as u64) as usize;
                    n = n.with_bit(i, !n.bit(i));
                }
                _ => {
                    let b = (db + k).min(w);
                    n = div_value(s, w, b);
                }
            }
            (n, d)
        }
        2 => {
            // small divisor
            let db = bits(s, 1, w.min(65));
            let d = div_value(s, w, db);
            (rand_value(s, w, &[]), d)
        }
        _ => {
            // n = q*d + r
            let db = bits(s, 1, w);
            let d = div_value(s, w, db);
            let room = w - db;
            let q = if room == 0 {
                M::one(w)
            } else {
                let qb = bits(s, 1, room);
                div_value(s, w, qb)
            };
            let r = match s.below(8) {
                0 => M::zero(w),
                1 => M::one(w),
                2 | 3 => d.dec(),
                4 => d.dec().dec(),
                5 => d.lshr(1),
                _ => {
                    let x = rand_digits(s, w);
                    x.udivrem(&d).1
                }
            };
            let r = r.udivrem(&d).1;
            (q.mul(&d).add(&r), d)
        }
    }
}
