//! Independent reference model of n-bit two's complement integers.
//!
//! Deliberately simple: little-endian 32-bit limbs, schoolbook
//! multiplication, bit-serial (shift and subtract) division. It shares no code
//! and no algorithm with the crate under test; `self_check` compares it with
//! the primitive `u128`/`i128` arithmetic.

use std::cmp::Ordering;

#[derive(Clone, PartialEq, Eq, Hash)]
pub struct M {
    pub w: usize,
    pub d: Vec<u32>,
}

impl std::fmt::Debug for M {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        let h = self.hex();
        if h.len() > 40_000 {
            return write!(
                f,
                "{}'h{}...({} hex digits)...{}",
                self.w,
                &h[..200],
                h.len() - 400,
                &h[h.len() - 200..]
            );
        }
        write!(f, "{}'h{}", self.w, h)
    }
}

fn limbs(w: usize) -> usize {
    (w + 31) / 32
}

impl M {
    pub fn zero(w: usize) -> M {
        assert!(w > 0);
        M { w, d: vec![0; limbs(w)] }
    }
    pub fn one(w: usize) -> M {
        let mut m = M::zero(w);
        m.d[0] = 1;
        m
    }
    pub fn ones(w: usize) -> M {
        let mut m = M::zero(w);
        for x in m.d.iter_mut() {
            *x = u32::MAX;
        }
        m.fix()
    }
    pub fn smin(w: usize) -> M {
        let mut m = M::zero(w);
        m.set(w - 1, true);
        m
    }
    pub fn smax(w: usize) -> M {
        let mut m = M::ones(w);
        m.set(w - 1, false);
        m
    }
    pub fn pow2(w: usize, k: usize) -> M {
        let mut m = M::zero(w);
        m.set(k, true);
        m
    }
    fn fix(mut self) -> M {
        let r = self.w % 32;
        if r != 0 {
            let l = self.d.len();
            self.d[l - 1] &= (1u32 << r) - 1;
        }
        self
    }
    /// From little-endian 64-bit digits; missing digits are zero, surplus bits
    /// are dropped.
    pub fn from_digits(w: usize, ds: &[u64]) -> M {
        let mut m = M::zero(w);
        for i in 0..m.d.len() {
            let x = ds.get(i / 2).copied().unwrap_or(0);
            m.d[i] = if i % 2 == 0 { x as u32 } else { (x >> 32) as u32 };
        }
        m.fix()
    }
    pub fn from_u128(w: usize, v: u128) -> M {
        M::from_digits(w, &[v as u64, (v >> 64) as u64])
    }
    pub fn from_i128(w: usize, v: i128) -> M {
        if w <= 128 {
            M::from_u128(w, v as u128)
        } else {
            M::from_u128(128, v as u128).sext(w)
        }
    }
    /// Little-endian 64-bit digits.
    pub fn digits(&self) -> Vec<u64> {
        let n = (self.w + 63) / 64;
        (0..n).map(|i| self.digit(i)).collect()
    }
    pub fn digit(&self, i: usize) -> u64 {
        let lo = self.d.get(2 * i).copied().unwrap_or(0) as u64;
        let hi = self.d.get(2 * i + 1).copied().unwrap_or(0) as u64;
        lo | (hi << 32)
    }
    pub fn ndigits(&self) -> usize {
        (self.w + 63) / 64
    }
    pub fn bit(&self, i: usize) -> bool {
        assert!(i < self.w);
        (self.d[i / 32] >> (i % 32)) & 1 == 1
    }
    pub fn set(&mut self, i: usize, b: bool) {
        assert!(i < self.w);
        if b {
            self.d[i / 32] |= 1 << (i % 32)
        } else {
            self.d[i / 32] &= !(1 << (i % 32))
        }
    }
    pub fn with_bit(&self, i: usize, b: bool) -> M {
        let mut m = self.clone();
        m.set(i, b);
        m
    }
    pub fn msb(&self) -> bool {
        self.bit(self.w - 1)
    }
    pub fn is_zero(&self) -> bool {
        self.d.iter().all(|&x| x == 0)
    }
    pub fn not(&self) -> M {
        M { w: self.w, d: self.d.iter().map(|x| !x).collect() }.fix()
    }
    fn zipw(&self, o: &M, f: impl Fn(u32, u32) -> u32) -> M {
        assert_eq!(self.w, o.w);
        M {
            w: self.w,
            d: self.d.iter().zip(&o.d).map(|(a, b)| f(*a, *b)).collect(),
        }
        .fix()
    }
    pub fn and(&self, o: &M) -> M {
        self.zipw(o, |a, b| a & b)
    }
    pub fn or(&self, o: &M) -> M {
        self.zipw(o, |a, b| a | b)
    }
    pub fn xor(&self, o: &M) -> M {
        self.zipw(o, |a, b| a ^ b)
    }
    pub fn add(&self, o: &M) -> M {
        assert_eq!(self.w, o.w);
        let mut c = 0u64;
        let mut r = M::zero(self.w);
        for i in 0..r.d.len() {
            let s = self.d[i] as u64 + o.d[i] as u64 + c;
            r.d[i] = s as u32;
            c = s >> 32;
        }
        r.fix()
    }
    pub fn sub(&self, o: &M) -> M {
        assert_eq!(self.w, o.w);
        let mut borrow = 0i64;
        let mut r = M::zero(self.w);
        for i in 0..r.d.len() {
            let mut s = self.d[i] as i64 - o.d[i] as i64 - borrow;
            borrow = 0;
            if s < 0 {
                s += 1 << 32;
                borrow = 1;
            }
            r.d[i] = s as u32;
        }
        r.fix()
    }
    pub fn neg(&self) -> M {
        M::zero(self.w).sub(self)
    }
    pub fn inc(&self) -> M {
        self.add(&M::one(self.w))
    }
    pub fn dec(&self) -> M {
        self.sub(&M::one(self.w))
    }
    pub fn mul(&self, o: &M) -> M {
        assert_eq!(self.w, o.w);
        let n = self.d.len();
        let mut r = M::zero(self.w);
        let limbs = |m: &M| m.d.iter().filter(|x| **x != 0).count();
        let (a, b) = if limbs(self) <= limbs(o) { (self, o) } else { (o, self) };
        for i in 0..n {
            if a.d[i] == 0 {
                continue;
            }
            let mut c = 0u64;
            for j in 0..n - i {
                let t = a.d[i] as u64 * b.d[j] as u64 + r.d[i + j] as u64 + c;
                r.d[i + j] = t as u32;
                c = t >> 32;
            }
        }
        r.fix()
    }
    /// Number of significant bits (0 for zero).
    pub fn bits(&self) -> usize {
        for i in (0..self.d.len()).rev() {
            if self.d[i] != 0 {
                return 32 * i + 32 - self.d[i].leading_zeros() as usize;
            }
        }
        0
    }
    /// Bit-serial long division. Divisor must not be zero.
    pub fn udivrem(&self, o: &M) -> (M, M) {
        assert_eq!(self.w, o.w);
        assert!(!o.is_zero());
        let w = self.w;
        let nb = self.bits();
        let db = o.bits();
        let mut q = M::zero(w);
        if nb < db {
            return (q, self.clone());
        }
        // remainder held in a vector with one spare limb so `2r+1` never
        // overflows
        let n = limbs(db + 1) + 1;
        let mut r = vec![0u32; n];
        let dv: Vec<u32> =
            (0..n).map(|i| o.d.get(i).copied().unwrap_or(0)).collect();
        // the first db-1 bits can be loaded at once (always < divisor)
        let pre = db - 1;
        for k in 0..pre {
            let src = nb - pre + k;
            if self.bit(src) {
                r[k / 32] |= 1 << (k % 32);
            }
        }
        for i in (0..nb - pre).rev() {
            // r = 2r + bit
            let mut c = self.bit(i) as u32;
            for x in r.iter_mut() {
                let nc = *x >> 31;
                *x = (*x << 1) | c;
                c = nc;
            }
            // r >= d ?
            let mut ge = true;
            for j in (0..n).rev() {
                if r[j] != dv[j] {
                    ge = r[j] > dv[j];
                    break;
                }
            }
            if ge {
                let mut borrow = 0i64;
                for j in 0..n {
                    let mut s = r[j] as i64 - dv[j] as i64 - borrow;
                    borrow = 0;
                    if s < 0 {
                        s += 1 << 32;
                        borrow = 1;
                    }
                    r[j] = s as u32;
                }
                q.set(i, true);
            }
        }
        let mut rem = M::zero(w);
        for j in 0..rem.d.len().min(n) {
            rem.d[j] = r[j];
        }
        (q, rem)
    }
    pub fn abs(&self) -> M {
        if self.msb() {
            self.neg()
        } else {
            self.clone()
        }
    }
    /// Truncating signed division (wrapping for MIN / -1).
    pub fn sdivrem(&self, o: &M) -> (M, M) {
        let (q, r) = self.abs().udivrem(&o.abs());
        let q = if self.msb() != o.msb() { q.neg() } else { q };
        let r = if self.msb() { r.neg() } else { r };
        (q, r)
    }
    pub fn shl(&self, k: usize) -> M {
        let mut r = M::zero(self.w);
        let (ls, bs) = (k / 32, k % 32);
        for i in (ls..r.d.len()).rev() {
            let lo = self.d[i - ls] as u64;
            let below = if i > ls { self.d[i - ls - 1] as u64 } else { 0 };
            let both = (lo << 32) | below;
            r.d[i] = ((both << bs) >> 32) as u32;
        }
        r.fix()
    }
    pub fn lshr(&self, k: usize) -> M {
        let mut r = M::zero(self.w);
        let (ls, bs) = (k / 32, k % 32);
        let n = self.d.len();
        for i in 0..n.saturating_sub(ls) {
            let lo = self.d[i + ls] as u64;
            let hi = self.d.get(i + ls + 1).copied().unwrap_or(0) as u64;
            r.d[i] = (((hi << 32) | lo) >> bs) as u32;
        }
        r
    }
    pub fn ashr(&self, k: usize) -> M {
        let mut r = self.lshr(k);
        if self.msb() {
            for i in self.w.saturating_sub(k)..self.w {
                r.set(i, true);
            }
        }
        r
    }
    pub fn trunc(&self, w: usize) -> M {
        assert!(w <= self.w);
        M { w, d: self.d[..limbs(w)].to_vec() }.fix()
    }
    pub fn zext(&self, w: usize) -> M {
        assert!(w >= self.w);
        let mut r = M::zero(w);
        r.d[..self.d.len()].copy_from_slice(&self.d);
        r
    }
    pub fn sext(&self, w: usize) -> M {
        let mut r = self.zext(w);
        if self.msb() {
            for i in self.w..w {
                r.set(i, true);
            }
        }
        r
    }
    pub fn zresize(&self, w: usize) -> M {
        if w <= self.w {
            self.trunc(w)
        } else {
            self.zext(w)
        }
    }
    pub fn sresize(&self, w: usize) -> M {
        if w <= self.w {
            self.trunc(w)
        } else {
            self.sext(w)
        }
    }
    pub fn ucmp(&self, o: &M) -> Ordering {
        assert_eq!(self.w, o.w);
        for i in (0..self.d.len()).rev() {
            if self.d[i] != o.d[i] {
                return self.d[i].cmp(&o.d[i]);
            }
        }
        Ordering::Equal
    }
    pub fn scmp(&self, o: &M) -> Ordering {
        match (self.msb(), o.msb()) {
            (true, false) => Ordering::Less,
            (false, true) => Ordering::Greater,
            _ => self.ucmp(o),
        }
    }
    pub fn count_ones(&self) -> usize {
        (0..self.w).filter(|&i| self.bit(i)).count()
    }
    pub fn leading_zeros(&self) -> usize {
        self.w - self.bits()
    }
    pub fn trailing_zeros(&self) -> usize {
        (0..self.w).find(|&i| self.bit(i)).unwrap_or(self.w)
    }
    pub fn low_u128(&self) -> u128 {
        self.digit(0) as u128 | ((self.digit(1) as u128) << 64)
    }
    /// Lower-case hexadecimal without leading zeros ("0" for zero).
    pub fn hex(&self) -> String {
        let mut s = String::new();
        let mut started = false;
        for i in (0..self.d.len() * 8).rev() {
            let nib = (self.d[i / 8] >> (4 * (i % 8))) & 15;
            if nib != 0 || started {
                started = true;
                s.push(std::char::from_digit(nib, 16).unwrap());
            }
        }
        if !started {
            s.push('0');
        }
        s
    }
    /// Lower-case digits in any radix 2..=36, without leading zeros.
    pub fn radix_string(&self, r: u32) -> String {
        // k digits at a time, r^k < 2^32
        let (mut p, mut k) = (r as u64, 1);
        while p * (r as u64) < 1 << 32 {
            p *= r as u64;
            k += 1;
        }
        let mut d = self.d.clone();
        let mut out = Vec::new();
        loop {
            while d.last() == Some(&0) {
                d.pop();
            }
            if d.is_empty() {
                break;
            }
            let mut rem = 0u64;
            for x in d.iter_mut().rev() {
                let cur = (rem << 32) | *x as u64;
                *x = (cur / p) as u32;
                rem = cur % p;
            }
            for _ in 0..k {
                out.push(std::char::from_digit((rem % r as u64) as u32, r).unwrap());
                rem /= r as u64;
            }
        }
        while out.last() == Some(&'0') {
            out.pop();
        }
        if out.is_empty() {
            out.push('0');
        }
        out.iter().rev().collect()
    }
    /// Value of a digit sequence (most significant first), at a width that is
    /// certainly sufficient.
    pub fn from_radix_digits(ds: &[u32], r: u32) -> M {
        let mut d: Vec<u32> = vec![];
        // as many digits at a time as keep r^k below 2^32
        for ch in ds.chunks(6) {
            let (mut c, mut p) = (0u64, 1u64);
            for &x in ch {
                c = c * r as u64 + x as u64;
                p *= r as u64;
            }
            for l in d.iter_mut() {
                let t = *l as u64 * p + c;
                *l = t as u32;
                c = t >> 32;
            }
            if c != 0 {
                d.push(c as u32);
            }
        }
        let w = (d.len().max(1)) * 32;
        d.resize(limbs(w), 0);
        M { w, d }
    }
    /// Same numeric (unsigned) value, any widths.
    pub fn same_value(&self, o: &M) -> bool {
        let n = self.d.len().max(o.d.len());
        (0..n).all(|i| {
            self.d.get(i).copied().unwrap_or(0)
                == o.d.get(i).copied().unwrap_or(0)
        })
    }
    pub fn nonzero_digits(&self) -> usize {
        (0..self.ndigits()).filter(|&i| self.digit(i) != 0).count()
    }
}

/// Compare the model with primitive arithmetic. Panics on disagreement (an
/// error of the machinery, never reported as a violation).
pub fn self_check() {
    let mut s = 0x1234_5678_9abc_def1u64;
    let mut rnd = || {
        s ^= s << 13;
        s ^= s >> 7;
        s ^= s << 17;
        s
    };
    for it in 0..(if cfg!(miri) { 3usize } else { 4000 }) {
        let w = 1 + (rnd() as usize) % 128;
        let mask = if w == 128 { u128::MAX } else { (1u128 << w) - 1 };
        let mut r128 = || {
            let a = ((rnd() as u128) << 64) | rnd() as u128;
            let sh = (rnd() % 128) as u32;
            (if rnd() % 3 == 0 { !(a >> sh) } else { a >> sh }) & mask
        };
        let (a, b) = (r128(), r128());
        let sx = |x: u128| ((x << (128 - w)) as i128) >> (128 - w);
        let (ma, mb) = (M::from_u128(w, a), M::from_u128(w, b));
        let v = |x: u128| M::from_u128(w, x & mask);
        assert_eq!(ma.add(&mb), v(a.wrapping_add(b)));
        assert_eq!(ma.sub(&mb), v(a.wrapping_sub(b)));
        assert_eq!(ma.mul(&mb), v(a.wrapping_mul(b)));
        assert_eq!(ma.neg(), v(a.wrapping_neg()));
        assert_eq!(ma.not(), v(!a));
        assert_eq!(ma.and(&mb), v(a & b));
        assert_eq!(ma.or(&mb), v(a | b));
        assert_eq!(ma.xor(&mb), v(a ^ b));
        if b != 0 {
            let (q, r) = ma.udivrem(&mb);
            assert_eq!(q, v(a / b));
            assert_eq!(r, v(a % b));
            let (q, r) = ma.sdivrem(&mb);
            assert_eq!(q, v(sx(a).wrapping_div(sx(b)) as u128));
            assert_eq!(r, v(sx(a).wrapping_rem(sx(b)) as u128));
        }
        let k = it % w;
        assert_eq!(ma.shl(k), v(a << k));
        assert_eq!(ma.lshr(k), v(a >> k));
        assert_eq!(ma.ashr(k), v((sx(a) >> k) as u128));
        assert_eq!(ma.ucmp(&mb), a.cmp(&b));
        assert_eq!(ma.scmp(&mb), sx(a).cmp(&sx(b)));
        assert_eq!(ma.count_ones(), a.count_ones() as usize);
        assert_eq!(ma.leading_zeros(), a.leading_zeros() as usize + w - 128);
        assert_eq!(
            ma.trailing_zeros(),
            (a.trailing_zeros() as usize).min(w)
        );
        assert_eq!(ma.hex(), format!("{:x}", a));
        assert_eq!(ma.radix_string(10), format!("{}", a));
        assert_eq!(ma.radix_string(8), format!("{:o}", a));
        let ds: Vec<u32> =
            format!("{}", a).bytes().map(|c| (c - b'0') as u32).collect();
        assert!(M::from_radix_digits(&ds, 10).same_value(&ma));
        let w2 = 1 + (it * 7) % 200;
        let zr = ma.zresize(w2);
        let sr = ma.sresize(w2);
        for i in 0..w2 {
            let zb = i < w && (a >> i) & 1 == 1;
            let sb = if i < w { (a >> i) & 1 == 1 } else { sx(a) < 0 };
            assert_eq!(zr.bit(i), zb);
            assert_eq!(sr.bit(i), sb);
        }
        // wide division checked by its defining relation
        let w3 = 129 + (rnd() as usize) % 300;
        let n = M::from_digits(w3, &[rnd(), rnd(), rnd(), rnd(), rnd(), rnd(), rnd()]);
        let d = M::from_digits(w3, &[rnd(), rnd(), rnd() >> (rnd() % 64), 0]);
        let d = d.lshr((rnd() % 100) as usize).or(&M::one(w3));
        let (q, r) = n.udivrem(&d);
        assert_eq!(q.mul(&d).add(&r), n);
        assert_eq!(r.ucmp(&d), Ordering::Less);
        assert!(q.bits() + d.bits() <= w3 + 1);
    }
}
