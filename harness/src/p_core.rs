//! P01-P09, P15, P17, P18: value semantics of single operations.

use crate::gen::*;
use crate::model::M;
use crate::ops::*;
use crate::runner::*;
use apint::{ApInt, Int, UInt, Width};
use std::collections::hash_map::DefaultHasher;
use std::hash::{Hash, Hasher};
use std::sync::OnceLock;

pub fn ops() -> &'static [Op] {
    static T: OnceLock<Vec<Op>> = OnceLock::new();
    T.get_or_init(table)
}

pub type List = Vec<&'static Op>;

fn groups(gs: &[G]) -> List {
    ops().iter().filter(|o| gs.contains(&o.g)).collect()
}

macro_rules! list {
    ($name:ident, $($g:ident),+) => {
        pub fn $name() -> &'static List {
            static T: OnceLock<List> = OnceLock::new();
            T.get_or_init(|| groups(&[$(G::$g),+]))
        }
    };
}
list!(l_ring, Ring);
list!(l_udiv, UDiv);
list!(l_sdiv, SDiv);
list!(l_shift, Shift);
list!(l_bitw, Bitw);
list!(l_bit, Bit);
list!(l_pred, Pred);
list!(l_cmp, Cmp);
list!(l_cast, Cast);
list!(l_prim, Prim);

/// Memo of reference outcomes per semantics within one case.
#[derive(Default)]
pub struct Memo(Vec<(&'static str, MRes)>);

impl Memo {
    pub fn get(&mut self, op: &Op, a: &M, b: &M, n: usize) -> &MRes {
        if let Some(i) = self.0.iter().position(|(s, _)| *s == op.sem) {
            return &self.0[i].1;
        }
        let m = (op.model)(a, b, n);
        self.0.push((op.sem, m));
        &self.0.last().unwrap().1
    }
}

/// Run every form of the list on fresh copies of the operands and compare with
/// the reference. Operators are run only where they must not panic.
pub fn run_list(
    ctx: &mut Ctx,
    list: &[&'static Op],
    a: &M,
    b: &M,
    n: usize,
) -> Result<(), String> {
    let (xa, xb) = (build(a), build(b));
    let mut memo = Memo::default();
    for op in list {
        let want = memo.get(op, a, b, n);
        if op.oper && want.out.is_err() {
            continue;
        }
        set_op(op.name);
        let r = (op.run)(xa.clone(), xb.clone(), n);
        ctx.ops += 1;
        judge(op, &r, want).map_err(|m| {
            format!("{} [a={:?} b={:?} n={}]", m, a, b, n)
        })?;
    }
    Ok(())
}

pub fn hash_of<T: Hash>(t: &T) -> u64 {
    let mut h = DefaultHasher::new();
    t.hash(&mut h);
    h.finish()
}

pub fn wlabel(ctx: &mut Ctx, w: usize) {
    ctx.label(match w {
        1 => "width=1",
        2..=63 => "width 2..63",
        64 => "width=64",
        65..=128 => "width 65..128",
        129..=256 => "width 129..256",
        257..=1024 => "width 257..1024",
        1025..=4096 => "width 1025..4096",
        4097..=16384 => "width 4097..16384",
        _ => "width >16384",
    });
    if w % 64 == 0 {
        ctx.label("width multiple of 64");
    }
}

/// ordinary and rare maximal widths
pub const BASEW: usize = 2400;
pub const MAXW: usize = 70_000;

// ------------------------------------------------------------- enumerators

/// all operand pairs for widths 1..=hi
pub fn enum_pairs(hi: usize, out: &mut Vec<Vec<u64>>) {
    for w in 1..=hi {
        for a in 0..1u64 << w {
            for b in 0..1u64 << w {
                out.push(vec![w as u64 - 1, a, b]);
            }
        }
    }
}

const C8: [u64; 8] = [
    0,
    1,
    u64::MAX,
    1 << 63,
    u64::MAX >> 1,
    u64::MAX - 1,
    0xffff_ffff,
    1 << 32,
];

/// all assignments of corner digits to `slots` tape places after `head`
pub fn grid(head: &[u64], slots: usize, corners: &[u64], out: &mut Vec<Vec<u64>>) {
    let k = corners.len();
    let total = (k as u64).pow(slots as u32);
    for mut i in 0..total {
        let mut t = head.to_vec();
        for _ in 0..slots {
            t.push(corners[(i % k as u64) as usize]);
            i /= k as u64;
        }
        out.push(t);
    }
}

fn enum_arith(thorough: bool, out: &mut Vec<Vec<u64>>) {
    giants(out);
    enum_pairs(if thorough { 9 } else { 7 }, out);
    for w in [65usize, 127, 128] {
        grid(&[w as u64 - 1], 4, &C8, out);
    }
    let c5 = [0, 1, u64::MAX, 1 << 63, u64::MAX - 1];
    for w in [129usize, 192] {
        grid(&[w as u64 - 1], 6, if thorough { &C8 } else { &c5 }, out);
    }
    let c3 = [0, u64::MAX, 1 << 63];
    let c4 = [0, 1, u64::MAX, 1 << 63];
    grid(&[255], 8, if thorough { &c4 } else { &c3 }, out);
    if thorough {
        grid(&[319], 10, &c3, out);
    }
    // both ends corner digits, uniform between
    let c6 = [0, 1, u64::MAX, 1 << 63, 3, 0xffff_ffff];
    for w in [320usize, 577, 1088, 2112] {
        let n = (w + 63) / 64;
        for bg in 0..4u64 {
            for mut i in 0..6usize.pow(4) {
                let mut t = vec![w as u64 - 1];
                for k in 0..2 {
                    let mut ds = vec![if bg >> k & 1 == 1 { u64::MAX } else { 0 }; n];
                    ds[0] = c6[i % 6];
                    ds[n - 1] = c6[i / 6 % 6];
                    i /= 36;
                    t.extend(ds);
                }
                out.push(t);
            }
        }
    }
}

// ------------------------------------------------------------ giant widths

/// Widths of more than 65536 digits, at which a digit index or count no longer
/// fits 16 bits. Only operations that take linear time.
pub const GIANTS: [usize; 3] = [65_536 * 64 + 1, 65_537 * 64, 65_538 * 64 + 37];
const GSCEN: u64 = 8;

pub fn giants(out: &mut Vec<Vec<u64>>) {
    if cfg!(miri) {
        return;
    }
    for i in 0..GSCEN {
        out.push(vec![GIANT, i]);
    }
}

/// Giant operand number `i`.
pub fn giant_value(w: usize, i: u64) -> M {
    const B: usize = 65_536 * 64;
    match i % 6 {
        0 => {
            let mut x = 0x9E37_79B9_7F4A_7C15u64;
            let ds: Vec<u64> = (0..(w + 63) / 64)
                .map(|_| {
                    x ^= x << 13;
                    x ^= x >> 7;
                    x ^= x << 17;
                    x
                })
                .collect();
            M::from_digits(w, &ds).with_bit(w - 1, true)
        }
        1 => M::ones(w).with_bit(B, false),
        2 => M::pow2(w, B).with_bit(1, true),
        3 => M::pow2(w, B - 64).with_bit(3, true).with_bit(w - 1, true),
        4 => M::pow2(w, B).dec(),
        _ => M::ones(w).shl(w - 70),
    }
}

fn giant_case(p: u8, g: &mut Gen, ctx: &mut Ctx) -> Result<(), String> {
    const B: usize = 65_536 * 64;
    let i = g.below(GSCEN);
    let w = GIANTS[(i % 3) as usize];
    let a = giant_value(w, i);
    let b = giant_value(w, i + 1 + i / 6);
    wlabel(ctx, w);
    ctx.label("giant width");
    ctx.nontrivial(true);
    ctx.note(|| format!("giant width {} operands {}", w, i));
    let places = [1, 64, B - 64, B - 1, B, B + 1, w - 1, w + B * (i as usize & 1)];
    match p {
        1 => {
            let linear: List = l_ring().iter().filter(|o| !o.sem.contains("mul")).copied().collect();
            run_list(ctx, &linear, &a, &b, 0)?;
            let small = M::from_u128(w, 0xfff1_0000_0001_0003);
            run_list(ctx, l_ring(), &a, &small, 0)?;
            run_list(ctx, l_ring(), &small, &b, 0)
        }
        2 | 3 => {
            let l = if p == 2 { l_udiv() } else { l_sdiv() };
            let d = match i % 4 {
                0 => M::from_u128(w, 0xfff1_0003),
                1 => M::from_u128(w, 0xfff1_0000_0001_0003),
                2 => M::from_u128(w, 0x7fff_ffff_ffff_fff1_0000_0001_0003),
                _ => a.lshr(70).with_bit(0, true),
            };
            let d = if p == 3 && i & 1 == 1 { d.neg() } else { d };
            run_list(ctx, l, &a, &d, 0)
        }
        4 => {
            for k in places {
                run_list(ctx, l_shift(), &a, &a, k)?;
            }
            Ok(())
        }
        5 => {
            run_list(ctx, l_bitw(), &a, &b, 0)?;
            for k in places {
                run_list(ctx, l_bit(), &a, &b, k)?;
            }
            Ok(())
        }
        6 => {
            run_list(ctx, l_pred(), &a, &a, 0)?;
            run_list(ctx, l_pred(), &b, &b, 0)
        }
        7 => {
            run_list(ctx, l_cmp(), &a, &b, 0)?;
            for k in [0, B - 1, B, w - 1] {
                let c = a.with_bit(k, !a.bit(k));
                run_list(ctx, l_cmp(), &a, &c, 0)?;
                let (x, y) = (build(&a), build(&c));
                if x == y || x != x.clone() || hash_of(&x) != hash_of(&build(&a)) {
                    return Err(format!("equality or hashing of {:?} and {:?}", a, c));
                }
            }
            Ok(())
        }
        8 => {
            for t in [1, 64, 200, B - 64, B, B + 1, w - 1, w + 100] {
                run_list(ctx, l_cast(), &a, &b, t)?;
            }
            let small = M::from_i128(190, -5 - i as i128);
            run_list(ctx, l_cast(), &small, &b, w)
        }
        _ => {
            for m in [&a, &b, &M::from_u128(w, 77), &M::one(w).neg()] {
                run_list(ctx, l_prim(), m, m, 0)?;
            }
            Ok(())
        }
    }
}

fn enum_none(_: bool, _: &mut Vec<Vec<u64>>) {}

// ---------------------------------------------------------------- P01

fn rand_mul_pair(s: &mut Src, w: usize) -> (M, M) {
    if w > 64 && s.chance(1, 3) {
        // significant lengths adding up to about the total digit capacity
        let cap = ((w + 63) / 64) * 64;
        let la = 1 + s.below(w as u64) as usize;
        let delta = s.below(6) as i64 - 3;
        let lb = (cap as i64 - la as i64 + delta).clamp(1, w as i64) as usize;
        let mk = |s: &mut Src, l: usize| {
            let v = rand_value(s, w, &[]);
            let mut v = low_bits(&v, l);
            v.set(l - 1, true);
            v
        };
        let a = mk(s, la);
        let b = mk(s, lb);
        (a, b)
    } else {
        let a = rand_value(s, w, &[]);
        let b = if s.chance(1, 16) { a.clone() } else { rand_value(s, w, &[&a]) };
        (a, b)
    }
}

pub fn pair_by(g: &mut Gen, w: usize, f: impl FnOnce(&mut Src) -> (M, M)) -> (M, M) {
    let mut stash = None;
    let a = g.value_with(w, |s| {
        let (x, y) = f(s);
        stash = Some(y);
        x
    });
    let b = match stash {
        Some(y) => g.value_with(w, |_| y),
        None => g.value(w, &[]),
    };
    (a, b)
}

pub fn case_p01(g: &mut Gen, ctx: &mut Ctx) -> Result<(), String> {
    if g.giant() {
        return giant_case(1, g, ctx);
    }
    let w = g.width_h(BASEW, MAXW);
    let (a, b) = pair_by(g, w, |s| rand_mul_pair(s, w));
    wlabel(ctx, w);
    if w > 64 {
        let (na, nb) = (a.bits(), b.bits());
        ctx.label(match (na <= 64, nb <= 64) {
            (true, true) => "mul small*small",
            (true, false) => "mul small*large",
            (false, true) => "mul large*small",
            _ if na + nb <= a.ndigits() * 64 => "mul large*large fits",
            _ => "mul large*large wraps",
        });
        let carry = a.add(&b).ucmp(&a) == std::cmp::Ordering::Less;
        ctx.label(if carry { "add wraps" } else { "add no wrap" });
    }
    ctx.nontrivial(a.nonzero_digits() >= 2 && b.nonzero_digits() >= 2);
    ctx.note(|| format!("a={:?} b={:?}", a, b));
    run_list(ctx, l_ring(), &a, &b, 0)
}

// ---------------------------------------------------------------- P02 / P03

fn div_labels(ctx: &mut Ctx, n: &M, d: &M) {
    let (nb, db) = (n.bits(), d.bits());
    if n.w <= 64 {
        ctx.label("one-digit width");
        return;
    }
    ctx.label(if nb == 0 {
        "dividend zero"
    } else if nb < db {
        "shorter dividend"
    } else if db <= 32 {
        "divisor <= 32 bits"
    } else if db <= 64 {
        "divisor <= 64 bits"
    } else if nb <= 128 {
        "two by two digits"
    } else if nb == db {
        "long: equal length"
    } else if nb - db < 64 {
        "long: quotient below one digit"
    } else {
        "long: multi-digit quotient"
    });
}

pub fn case_p02(g: &mut Gen, ctx: &mut Ctx) -> Result<(), String> {
    if g.giant() {
        return giant_case(2, g, ctx);
    }
    let w = g.width_x(1400, 20_000, MAXW, 8000);
    let (n, d) = g.div_pair(w);
    if d.is_zero() {
        return Ok(());
    }
    wlabel(ctx, w);
    div_labels(ctx, &n, &d);
    ctx.nontrivial(n.bits() > 128 && d.bits() > 64 && n.bits() >= d.bits());
    ctx.note(|| format!("n={:?} d={:?}", n, d));
    run_list(ctx, l_udiv(), &n, &d, 0)?;
    // defining relation, evaluated on the results themselves
    let (mut q, mut r) = (build(&n), build(&d));
    set_op("ApInt::wrapping_udivrem_assign");
    ApInt::wrapping_udivrem_assign(&mut q, &mut r).map_err(|e| format!("{:?}", e.kind()))?;
    let (qm, rm) = (read(&q)?, read(&r)?);
    if qm.mul(&d).add(&rm) != n || rm.ucmp(&d) != std::cmp::Ordering::Less {
        return Err(format!("n={:?} d={:?}: q={:?} r={:?} not a division", n, d, qm, rm));
    }
    Ok(())
}

pub fn case_p03(g: &mut Gen, ctx: &mut Ctx) -> Result<(), String> {
    if g.giant() {
        return giant_case(3, g, ctx);
    }
    let w = g.width_x(1400, 20_000, MAXW, 8000);
    let (n, d) = pair_by(g, w, |s| {
        let (mut n, mut d) = rand_div_pair(s, w);
        if s.chance(1, 2) {
            n = n.neg();
        }
        if s.chance(1, 2) {
            d = d.neg();
        }
        if s.chance(1, 20) {
            n = M::smin(w);
        }
        if s.chance(1, 20) {
            d = match s.below(3) {
                0 => M::ones(w),
                1 => M::smin(w),
                _ => M::one(w),
            };
        }
        (n, d)
    });
    if d.is_zero() {
        return Ok(());
    }
    wlabel(ctx, w);
    ctx.label(match (n.msb(), d.msb()) {
        (false, false) => "+/+",
        (false, true) => "+/-",
        (true, false) => "-/+",
        (true, true) => "-/-",
    });
    if n == M::smin(w) {
        ctx.label("dividend MIN");
        if d == M::ones(w) {
            ctx.label("MIN / -1");
        }
    }
    ctx.nontrivial(
        (n.msb() || d.msb()) && n.abs().bits() >= d.abs().bits() && w > 64,
    );
    ctx.note(|| format!("n={:?} d={:?}", n, d));
    run_list(ctx, l_sdiv(), &n, &d, 0)
}

// ---------------------------------------------------------------- P04

pub fn case_p04(g: &mut Gen, ctx: &mut Ctx) -> Result<(), String> {
    if g.giant() {
        return giant_case(4, g, ctx);
    }
    let w = g.width_h(BASEW, MAXW);
    let k = g.amount(w);
    let a = g.value(w, &[]);
    wlabel(ctx, w);
    ctx.label(if k >= w {
        "amount >= width"
    } else if k == 0 {
        "amount 0"
    } else if k % 64 == 0 {
        "amount whole digits"
    } else if k > 64 {
        "amount digits+bits"
    } else {
        "amount within a digit"
    });
    ctx.nontrivial(w > 64 && k > 0 && k < w && a.nonzero_digits() >= 2);
    ctx.note(|| format!("a={:?} k={}", a, k));
    run_list(ctx, l_shift(), &a, &a, k)?;
    // operators must reject what the methods reject
    if k >= w {
        run_oper_panics(ctx, l_shift(), &a, &a, k)?;
    }
    Ok(())
}

/// Operators whose method fails must panic (and only panic).
pub fn run_oper_panics(
    ctx: &mut Ctx,
    list: &[&'static Op],
    a: &M,
    b: &M,
    n: usize,
) -> Result<(), String> {
    for op in list.iter().filter(|o| o.oper) {
        if (op.model)(a, b, n).out.is_ok() {
            continue;
        }
        let (xa, xb) = (build(a), build(b));
        ctx.ops += 1;
        set_op(op.name);
        if catch(|| drop((op.run)(xa, xb, n))).is_ok() {
            return Err(format!(
                "{} did not panic although its method must fail [a={:?} b={:?} n={}]",
                op.name, a, b, n
            ));
        }
    }
    Ok(())
}

fn enum_p04(thorough: bool, out: &mut Vec<Vec<u64>>) {
    giants(out);
    let hi = if thorough { 330 } else { 200 };
    for w in 1..=hi {
        for k in 0..=w + 1 {
            for pat in 0..3u64 {
                let mut t = vec![w as u64 - 1, k as u64];
                let nd = (w + 63) / 64;
                for i in 0..nd {
                    t.push(match pat {
                        0 => u64::MAX,
                        1 => 0x9E37_79B9_7F4A_7C15u64.wrapping_mul(i as u64 * 2 + 3),
                        _ if i == nd - 1 => {
                            let top = (w - 1) % 64;
                            (1u64 << top) | 1
                        }
                        _ => 0x8000_0000_0000_0001,
                    });
                }
                out.push(t);
            }
        }
    }
}

// ---------------------------------------------------------------- P05

pub fn case_p05(g: &mut Gen, ctx: &mut Ctx) -> Result<(), String> {
    if g.giant() {
        return giant_case(5, g, ctx);
    }
    let w = g.width_h(BASEW, MAXW);
    let k = g.amount(w);
    let a = g.value(w, &[]);
    let b = g.value(w, &[&a]);
    wlabel(ctx, w);
    ctx.label(if k >= w { "position out of range" } else { "position in range" });
    ctx.nontrivial(w > 64 && a.nonzero_digits() >= 2 && b.nonzero_digits() >= 1);
    ctx.note(|| format!("a={:?} b={:?} pos={}", a, b, k));
    run_list(ctx, l_bitw(), &a, &b, 0)?;
    run_list(ctx, l_bit(), &a, &b, k)?;
    // every bit is readable and is the model's bit
    if w <= 300 {
        let x = build(&a);
        set_op("ApInt::get_bit_at");
        for i in 0..w {
            if x.get_bit_at(i).map_err(|e| format!("{:?}", e.kind()))? != a.bit(i) {
                return Err(format!("bit {} of {:?} misread", i, a));
            }
        }
        ctx.ops += w as u64;
    }
    Ok(())
}

fn enum_p05(thorough: bool, out: &mut Vec<Vec<u64>>) {
    giants(out);
    let hi = if thorough { 330 } else { 200 };
    for w in 1..=hi {
        for k in 0..=w {
            let nd = (w + 63) / 64;
            for pat in [0u64, u64::MAX, 0xAAAA_AAAA_5555_5555] {
                let mut t = vec![w as u64 - 1, k as u64];
                t.extend(std::iter::repeat(pat).take(nd));
                t.extend((0..nd).map(|i| 0x9E37_79B9_7F4A_7C15u64 << i));
                out.push(t);
            }
        }
    }
}

// ---------------------------------------------------------------- P06

pub fn case_p06(g: &mut Gen, ctx: &mut Ctx) -> Result<(), String> {
    if g.giant() {
        return giant_case(6, g, ctx);
    }
    let w = g.width_h(BASEW, MAXW);
    let a = g.value(w, &[]);
    wlabel(ctx, w);
    if a.is_zero() {
        ctx.label("zero");
    }
    if a == M::one(w) {
        ctx.label("one");
    }
    if a.not().is_zero() {
        ctx.label("all set");
    }
    if a == M::smin(w) {
        ctx.label("MIN");
    }
    ctx.nontrivial(w > 64 && !a.is_zero());
    ctx.note(|| format!("a={:?}", a));
    run_list(ctx, l_pred(), &a, &a, 0)
}

fn enum_p06(thorough: bool, out: &mut Vec<Vec<u64>>) {
    giants(out);
    for w in 1..=if thorough { 14 } else { 11 } {
        for a in 0..1u64 << w {
            out.push(vec![w as u64 - 1, a]);
        }
    }
    // every single-bit value, its complement, its predecessor and negation
    for w in 1..=if thorough { 520 } else { 270usize } {
        for k in 0..w {
            let p = M::pow2(w, k);
            for m in [p.clone(), p.not(), p.dec(), p.neg()] {
                let mut t = vec![w as u64 - 1];
                t.extend(m.digits());
                out.push(t);
            }
        }
    }
}

// ---------------------------------------------------------------- P07

pub fn case_p07(g: &mut Gen, ctx: &mut Ctx) -> Result<(), String> {
    if g.giant() {
        return giant_case(7, g, ctx);
    }
    let w = g.width_h(BASEW, MAXW);
    let a = g.value(w, &[]);
    let b0 = g.value(w, &[&a]);
    let other = g.chance(1, 5);
    let b = if other {
        let w2 = g.width_h(BASEW, MAXW);
        // same numeric value where possible, or same bits
        b0.zresize(w2)
    } else {
        b0
    };
    wlabel(ctx, w);
    ctx.label(if a.w != b.w {
        "different widths"
    } else if a == b {
        "equal"
    } else if a.msb() != b.msb() {
        "different signs"
    } else {
        "same sign, different"
    });
    ctx.nontrivial(w > 64 && a != b);
    ctx.note(|| format!("a={:?} b={:?}", a, b));
    run_list(ctx, l_cmp(), &a, &b, 0)?;
    run_list(ctx, l_cmp(), &b, &a, 0)?;
    run_list(ctx, l_cmp(), &a, &a, 0)?;
    // equality and hashing
    let how = g.idx(BUILDERS);
    let (x, y, x2) = (build(&a), build(&b), build_how(&a, how));
    if !(x == x2) || x != x2 {
        return Err(format!("two integers built as {:?} differ", a));
    }
    let (hx, hx2, hy) = (hash_of(&x), hash_of(&x2), hash_of(&y));
    if hx != hx2 {
        return Err(format!("equal integers {:?} hash differently", a));
    }
    if x == y && hx != hy {
        return Err(format!("equal integers {:?} {:?} hash differently", a, b));
    }
    if hash_of(&Int::from(x.clone())) != hash_of(&Int::from(x2.clone()))
        || hash_of(&UInt::from(x.clone())) != hash_of(&UInt::from(x2.clone()))
    {
        return Err(format!("equal typed integers {:?} hash differently", a));
    }
    ctx.ops += 4;
    // a hash collection keyed by integers finds exactly the equal key
    let mut set = std::collections::HashSet::new();
    set.insert(x);
    if !set.contains(&x2) || set.contains(&y) != (a == b) {
        return Err(format!("hash set lookup wrong for {:?} / {:?}", a, b));
    }
    Ok(())
}

fn enum_p07(thorough: bool, out: &mut Vec<Vec<u64>>) {
    giants(out);
    enum_pairs(if thorough { 8 } else { 6 }, out);
    for w in [65usize, 128] {
        grid(&[w as u64 - 1], 4, &C8, out);
    }
    grid(&[191], 6, &[0, 1, u64::MAX, 1 << 63], out);
}

// ---------------------------------------------------------------- P08

pub fn case_p08(g: &mut Gen, ctx: &mut Ctx) -> Result<(), String> {
    if g.giant() {
        return giant_case(8, g, ctx);
    }
    let w = g.width_h(BASEW, MAXW);
    let t = 1 + g.draw(MAXW as u64, |s| {
        (if s.chance(1, 3) {
            // near the source width
            let d = [0i64, 1, -1, 63, -63, 64, -64, 65, -65][s.below(9) as usize];
            (w as i64 + d).clamp(1, MAXW as i64) as usize
        } else {
            rand_width_h(s, BASEW, MAXW)
        }) as u64
            - 1
    }) as usize;
    let a = g.value(w, &[]);
    let wb = if g.chance(1, 2) { t } else { w };
    let b = g.value(wb, &[&a]);
    wlabel(ctx, w);
    ctx.label(match (w <= 64, t <= 64) {
        (true, true) => "inline->inline",
        (true, false) => "inline->heap",
        (false, true) => "heap->inline",
        (false, false) if (w + 63) / 64 == (t + 63) / 64 => "heap->heap same digits",
        _ => "heap->heap other digits",
    });
    ctx.label(if t == w { "same width" } else if t > w { "grow" } else { "shrink" });
    ctx.nontrivial(t != w && (w > 64 || t > 64) && !a.is_zero());
    ctx.note(|| format!("a={:?} -> width {} (b={:?})", a, t, b));
    run_list(ctx, l_cast(), &a, &b, t)?;
    // clones and assignment targets are independent of their source
    set_op("independence of clone/assign");
    let mut x = build(&a);
    let c = x.clone();
    let mut d = build(&b);
    d.assign(&x);
    let mut ti = Int::from(build(&b));
    ti.assign(&Int::from(x.clone()));
    x.flip_all();
    x.wrapping_inc();
    same(&c, &a).map_err(|m| format!("clone of {:?} changed with its source: {}", a, m))?;
    same(&d, &a).map_err(|m| format!("assigned copy of {:?} changed: {}", a, m))?;
    d.flip_all();
    drop(d);
    same(&x, &a.neg()).map_err(|m| format!("source of {:?} changed: {}", a, m))?;
    same(&ti.into_apint(), &a).map_err(|m| format!("typed assign: {}", m))?;
    ctx.ops += 4;
    Ok(())
}

fn enum_p08(thorough: bool, out: &mut Vec<Vec<u64>>) {
    giants(out);
    let ws: Vec<usize> = if thorough {
        (1..=70).chain(120..=136).chain(185..=200).chain(250..=260).collect()
    } else {
        vec![
            1, 2, 3, 8, 31, 32, 33, 62, 63, 64, 65, 66, 96, 126, 127, 128, 129, 130,
            190, 191, 192, 193, 255, 256, 257, 320, 511, 512, 513, 640,
        ]
    };
    for &w in &ws {
        for &t in &ws {
            let nd = (w + 63) / 64;
            for pat in 0..4u64 {
                let mut m = match pat {
                    0 => M::ones(w),
                    1 => M::smin(w),
                    2 => M::smax(w),
                    _ => M::from_digits(w, &vec![0x9E37_79B9_7F4A_7C15; nd]),
                };
                if pat == 3 {
                    m.set(w - 1, true);
                }
                let mut tape = vec![w as u64 - 1, t as u64 - 1];
                tape.extend(m.digits());
                tape.push(1);
                tape.extend(vec![u64::MAX; (t + 63) / 64]);
                out.push(tape);
            }
        }
    }
}

// ---------------------------------------------------------------- P09

fn chk(ctx: &mut Ctx, what: &'static str, a: &ApInt, m: &M) -> Result<(), String> {
    ctx.ops += 1;
    same(a, m).map_err(|e| format!("{}: {}", what, e))
}

pub fn case_p09(g: &mut Gen, ctx: &mut Ctx) -> Result<(), String> {
    if g.giant() {
        return giant_case(9, g, ctx);
    }
    match g.below(4) {
        0 => {
            let w = g.width_x(700, 17_000, MAXW, 8000);
            let a = g.value_with(w, |s| {
                if s.chance(1, 3) {
                    return rand_value(s, w, &[]);
                }
                // around the representability borders
                let k = [1usize, 7, 8, 15, 16, 31, 32, 63, 64, 127, 128]
                    [s.below(11) as usize];
                let base = if k < w { M::pow2(w, k) } else { M::zero(w) };
                let d = M::from_u128(w, s.below(3) as u128);
                let mut v = match s.below(4) {
                    0 => base.add(&d),
                    1 => base.sub(&d),
                    2 => base.neg().add(&d),
                    _ => base.neg().sub(&d),
                };
                if s.chance(1, 6) {
                    let b = s.below(w as u64) as usize;
                    v = v.with_bit(b, !v.bit(b));
                }
                v
            });
            wlabel(ctx, w);
            ctx.label("to primitives");
            ctx.nontrivial(w > 1 && !a.is_zero() && !a.not().is_zero());
            ctx.note(|| format!("to primitives a={:?}", a));
            run_list(ctx, l_prim(), &a, &a, 0)
        }
        1 => {
            let v = (g.u64() as u128) | ((g.u64() as u128) << 64);
            ctx.label("from primitives");
            ctx.nontrivial(v > 1);
            ctx.note(|| format!("from primitives v={:#x}", v));
            from_prims(ctx, v)
        }
        2 => {
            let n = *g.pick(&[2usize, 3, 4, 5, 6, 7, 8, 16, 32]);
            let m = g.value(64 * n, &[]);
            ctx.label("from arrays");
            ctx.nontrivial(m.nonzero_digits() >= 2);
            ctx.note(|| format!("from array of {} words {:?}", n, m));
            from_arrays(ctx, &m)
        }
        _ => {
            let w = g.width_h(BASEW, MAXW);
            wlabel(ctx, w);
            ctx.label("constants");
            ctx.nontrivial(w > 1);
            ctx.note(|| format!("constants at width {}", w));
            constants(ctx, w)
        }
    }
}

pub fn from_prims(ctx: &mut Ctx, v: u128) -> Result<(), String> {
    set_op("from primitive");
    macro_rules! u {
        ($T:ty, $bits:expr, $f:ident, $t:ident, $r:ident) => {{
            let x = v as $T;
            let m = M::from_u128($bits, x as u128);
            chk(ctx, concat!("ApInt::", stringify!($f)), &ApInt::$f(x), &m)?;
            chk(ctx, concat!("ApInt::from ", stringify!($T)), &ApInt::from(x), &m)?;
            chk(ctx, concat!("UInt::", stringify!($f)), &UInt::$f(x).into_apint(), &m)?;
            chk(ctx, concat!("UInt::from ", stringify!($T)), &UInt::from(x).into_apint(), &m)?;
            if UInt::$f(x).$t().ok() != Some(x)
                || UInt::$f(x).$r() != x
                || ApInt::$f(x).$t().ok() != Some(x)
                || ApInt::$f(x).$r() != x
            {
                return Err(format!("round trip of {} as {}", x, stringify!($T)));
            }
        }};
    }
    macro_rules! i {
        ($T:ty, $bits:expr, $f:ident, $t:ident, $r:ident) => {{
            let x = v as $T;
            let m = M::from_i128($bits, x as i128);
            chk(ctx, concat!("ApInt::", stringify!($f)), &ApInt::$f(x), &m)?;
            chk(ctx, concat!("ApInt::from ", stringify!($T)), &ApInt::from(x), &m)?;
            chk(ctx, concat!("Int::", stringify!($f)), &Int::$f(x).into_apint(), &m)?;
            chk(ctx, concat!("Int::from ", stringify!($T)), &Int::from(x).into_apint(), &m)?;
            if Int::$f(x).$t().ok() != Some(x)
                || Int::$f(x).$r() != x
                || ApInt::$f(x).$t().ok() != Some(x)
                || ApInt::$f(x).$r() != x
            {
                return Err(format!("round trip of {} as {}", x, stringify!($T)));
            }
        }};
    }
    u!(u8, 8, from_u8, try_to_u8, resize_to_u8);
    u!(u16, 16, from_u16, try_to_u16, resize_to_u16);
    u!(u32, 32, from_u32, try_to_u32, resize_to_u32);
    u!(u64, 64, from_u64, try_to_u64, resize_to_u64);
    u!(u128, 128, from_u128, try_to_u128, resize_to_u128);
    i!(i8, 8, from_i8, try_to_i8, resize_to_i8);
    i!(i16, 16, from_i16, try_to_i16, resize_to_i16);
    i!(i32, 32, from_i32, try_to_i32, resize_to_i32);
    i!(i64, 64, from_i64, try_to_i64, resize_to_i64);
    i!(i128, 128, from_i128, try_to_i128, resize_to_i128);
    let b = v & 1 == 1;
    let m = M::from_u128(1, b as u128);
    chk(ctx, "ApInt::from_bool", &ApInt::from_bool(b), &m)?;
    chk(ctx, "ApInt::from bool", &ApInt::from(b), &m)?;
    chk(ctx, "Int::from_bool", &Int::from_bool(b).into_apint(), &m)?;
    chk(ctx, "Int::from bool", &Int::from(b).into_apint(), &m)?;
    chk(ctx, "UInt::from_bool", &UInt::from_bool(b).into_apint(), &m)?;
    chk(ctx, "UInt::from bool", &UInt::from(b).into_apint(), &m)?;
    if ApInt::from(b).try_to_bool().ok() != Some(b)
        || UInt::from(b).try_to_bool().ok() != Some(b)
        || Int::from(b).try_to_bool().ok() != Some(b)
        || ApInt::from(b).resize_to_bool() != b
    {
        return Err(format!("bool round trip of {}", b));
    }
    Ok(())
}

pub fn from_arrays(ctx: &mut Ctx, m: &M) -> Result<(), String> {
    set_op("from array");
    let ds = m.digits();
    macro_rules! arr {
        ($($n:literal),*) => {
            match ds.len() {
                $($n => {
                    let mut u = [0u64; $n];
                    let mut i = [0i64; $n];
                    for k in 0..$n { u[k] = ds[$n - 1 - k]; i[k] = u[k] as i64; }
                    chk(ctx, "ApInt::from [u64]", &ApInt::from(u), m)?;
                    chk(ctx, "ApInt::from [i64]", &ApInt::from(i), m)?;
                    chk(ctx, "UInt::from [u64]", &UInt::from(u).into_apint(), m)?;
                    chk(ctx, "Int::from [i64]", &Int::from(i).into_apint(), m)?;
                })*
                _ => unreachable!(),
            }
        };
    }
    arr!(2, 3, 4, 5, 6, 7, 8, 16, 32);
    Ok(())
}

pub fn constants(ctx: &mut Ctx, w: usize) -> Result<(), String> {
    set_op("constants");
    let b = bw(w);
    let (z, o, f, mn, mx) =
        (M::zero(w), M::one(w), M::ones(w), M::smin(w), M::smax(w));
    chk(ctx, "ApInt::zero", &ApInt::zero(b), &z)?;
    chk(ctx, "ApInt::one", &ApInt::one(b), &o)?;
    chk(ctx, "ApInt::all_unset", &ApInt::all_unset(b), &z)?;
    chk(ctx, "ApInt::all_set", &ApInt::all_set(b), &f)?;
    chk(ctx, "ApInt::unsigned_min_value", &ApInt::unsigned_min_value(b), &z)?;
    chk(ctx, "ApInt::unsigned_max_value", &ApInt::unsigned_max_value(b), &f)?;
    chk(ctx, "ApInt::signed_min_value", &ApInt::signed_min_value(b), &mn)?;
    chk(ctx, "ApInt::signed_max_value", &ApInt::signed_max_value(b), &mx)?;
    chk(ctx, "Int::zero", &Int::zero(b).into_apint(), &z)?;
    match Int::one(b) {
        None if w == 1 => {}
        Some(x) if w > 1 => chk(ctx, "Int::one", &x.into_apint(), &o)?,
        x => return Err(format!("Int::one at width {} is {:?}", w, x)),
    }
    chk(ctx, "Int::all_unset", &Int::all_unset(b).into_apint(), &z)?;
    chk(ctx, "Int::all_set", &Int::all_set(b).into_apint(), &f)?;
    chk(ctx, "Int::min_value", &Int::min_value(b).into_apint(), &mn)?;
    chk(ctx, "Int::max_value", &Int::max_value(b).into_apint(), &mx)?;
    chk(ctx, "UInt::zero", &UInt::zero(b).into_apint(), &z)?;
    chk(ctx, "UInt::one", &UInt::one(b).into_apint(), &o)?;
    chk(ctx, "UInt::all_unset", &UInt::all_unset(b).into_apint(), &z)?;
    chk(ctx, "UInt::all_set", &UInt::all_set(b).into_apint(), &f)?;
    chk(ctx, "UInt::min_value", &UInt::min_value(b).into_apint(), &z)?;
    chk(ctx, "UInt::max_value", &UInt::max_value(b).into_apint(), &f)?;
    Ok(())
}

fn enum_p09(thorough: bool, out: &mut Vec<Vec<u64>>) {
    giants(out);
    // constants at every small width
    for w in 1..=if thorough { BASEW } else { 1100 } {
        out.push(vec![3, w as u64 - 1]);
    }
    // all 16-bit primitives
    for v in 0..=0xffffu64 {
        out.push(vec![1, v, 0]);
        if thorough {
            out.push(vec![1, v.wrapping_neg(), u64::MAX]);
        }
    }
    // all values of small widths into every primitive
    for w in 1..=if thorough { 13 } else { 10 } {
        for a in 0..1u64 << w {
            out.push(vec![0, w as u64 - 1, a]);
        }
    }
    // powers of two +-1 and their negations at every width up to 140
    for w in 1..=140usize {
        for k in 0..w {
            let p = M::pow2(w, k);
            for m in [p.clone(), p.dec(), p.neg(), p.neg().dec()] {
                let mut t = vec![0, w as u64 - 1];
                t.extend(m.digits());
                out.push(t);
            }
        }
    }
}

// ---------------------------------------------------------------- P15

/// Must this operation, on these arguments, succeed without allocating?
fn must_not_alloc(op: &Op, a: &M, b: &M, n: usize) -> bool {
    let small = a.w <= 64;
    match op.g {
        G::Cast => {
            if op.k == K::Wid {
                small && n <= 64
            } else if op.k == K::Bin {
                small && b.w <= 64
            } else if op.sem == "view" {
                true
            } else {
                small
            }
        }
        G::Ring if op.sem == "mul" => small || a.bits() <= 64 || b.bits() <= 64,
        G::UDiv if op.sem == "wrapping_udivrem_assign" || op.sem == "wrapping_uremdiv_assign" => {
            small || a.is_zero() || b.bits() <= 64
        }
        G::UDiv | G::SDiv => small,
        G::Ring | G::Shift | G::Bitw | G::Bit | G::Pred | G::Cmp => true,
        G::Prim => small,
    }
}

pub fn case_p15(g: &mut Gen, ctx: &mut Ctx) -> Result<(), String> {
    let small = g.chance(1, 3);
    let w = if small { g.width(64) } else { g.width_h(BASEW, MAXW) };
    let t = if small || g.chance(1, 3) { g.width(64) } else { g.width_h(BASEW, MAXW) };
    let (a, b) = pair_by(g, w, |s| {
        let (a, b) = match s.below(3) {
            0 => rand_mul_pair(s, w),
            1 => rand_div_pair(s, w),
            _ => {
                let a = rand_value(s, w, &[]);
                let b = M::from_u128(w, corner_digit(s) as u128);
                if s.chance(1, 2) {
                    (a, b)
                } else {
                    (b, a)
                }
            }
        };
        (a, b)
    });
    let k = g.amount_below(w);
    wlabel(ctx, w);
    ctx.note(|| format!("a={:?} b={:?} k={} target={}", a, b, k, t));
    ctx.nontrivial(!a.is_zero() && !b.is_zero());
    let (xa, xb) = (build(&a), build(&b));
    for op in ops() {
        let n = if op.k == K::Wid { t } else { k };
        if !must_not_alloc(op, &a, &b, n) {
            continue;
        }
        // only successful calls are claimed
        let zero_div = matches!(op.g, G::UDiv | G::SDiv) && b.is_zero();
        let bad_wid = op.k == K::Wid && (op.model)(&a, &b, n).out.is_err();
        let unrep = op.g == G::Prim && (op.model)(&a, &b, n).out.is_err();
        if zero_div || bad_wid || unrep {
            continue;
        }
        let (ca, cb) = (xa.clone(), xb.clone());
        set_op(op.name);
        let before = crate::alloc::count();
        let r = (op.run)(ca, cb, n);
        let after = crate::alloc::count();
        ctx.ops += 1;
        let d = after - before;
        if r.out.is_err() {
            return Err(format!("{} failed [a={:?} b={:?} n={}]", op.name, a, b, n));
        }
        if d != 0 {
            return Err(format!(
                "{} made {} allocation(s) [a={:?} b={:?} n={}]",
                op.name, d, a, b, n
            ));
        }
    }
    if w <= 64 {
        ctx.label("small");
        let x = a.digit(0);
        let wd = bw(w);
        let before = crate::alloc::count();
        set_op("small construction");
        {
            let v = [
                ApInt::from_bool(x & 1 == 1),
                ApInt::from_u8(x as u8),
                ApInt::from_i8(x as i8),
                ApInt::from_u16(x as u16),
                ApInt::from_i16(x as i16),
                ApInt::from_u32(x as u32),
                ApInt::from_i32(x as i32),
                ApInt::from_u64(x),
                ApInt::from_i64(x as i64),
                ApInt::from(x),
                ApInt::from(x as i64),
                ApInt::zero(wd),
                ApInt::one(wd),
                ApInt::all_set(wd),
                ApInt::all_unset(wd),
                ApInt::signed_min_value(wd),
                ApInt::signed_max_value(wd),
                ApInt::unsigned_min_value(wd),
                ApInt::unsigned_max_value(wd),
            ];
            let w2 = v.clone();
            drop(w2);
            let t = (
                UInt::from_u64(x),
                Int::from_i64(x as i64),
                UInt::max_value(wd),
                Int::min_value(wd),
                Int::max_value(wd),
                Int::one(wd),
                UInt::one(wd),
            );
            drop(t);
        }
        let d = crate::alloc::count() - before;
        ctx.ops += 1;
        if d != 0 {
            return Err(format!("construction at width {} made {} allocation(s)", w, d));
        }
    }
    Ok(())
}

fn enum_p15(_: bool, out: &mut Vec<Vec<u64>>) {
    // every width up to 64 with a few values, targets 1..64 spread
    for w in 1..=64u64 {
        for (i, a) in [0u64, 1, u64::MAX, 1 << 63, 0x9E37_79B9_7F4A_7C15].iter().enumerate() {
            for b in [1u64, 3, u64::MAX, 1 << 31] {
                let t = (w * 7 + i as u64 * 13) % 64;
                out.push(vec![1, w - 1, t, *a, b, w / 2]);
            }
        }
    }
}

// ---------------------------------------------------------------- P17

pub fn case_p17(g: &mut Gen, ctx: &mut Ctx) -> Result<(), String> {
    let w = g.width_x(700, 17_000, MAXW, 8000);
    let mode = g.below(8);
    let (mut a, mut b) = pair_by(g, w, |s| match s.below(3) {
        0 => rand_div_pair(s, w),
        _ => rand_mul_pair(s, w),
    });
    // 0..=4 valid, 5 zero divisor, 6 other width, 7 swapped/negative
    match mode {
        5 => b = M::zero(w),
        6 => {
            let w2 = g.width_x(700, 17_000, MAXW, 8000);
            b = g.value(w2, &[&b]);
        }
        7 => {
            a = a.not();
            b = b.neg();
        }
        _ => {}
    }
    let k = g.amount(w);
    let t = g.width_x(700, 17_000, MAXW, 8000);
    wlabel(ctx, w);
    ctx.label(match mode {
        5 => "zero right operand",
        6 if b.w != w => "different widths",
        _ => "valid operands",
    });
    ctx.nontrivial(!a.is_zero() && (a.msb() || b.msb()) && w > 1);
    ctx.note(|| format!("a={:?} b={:?} k={} target={}", a, b, k, t));
    let (xa, xb) = (build(&a), build(&b));
    // reference outcome per semantics: the untyped named method
    let mut refs: Vec<(&'static str, &'static str, Res)> = vec![];
    for op in ops() {
        let n = if op.k == K::Wid { t } else { k };
        set_op(op.name);
        let r = catch(|| (op.run)(xa.clone(), xb.clone(), n));
        ctx.ops += 1;
        let inp = || format!("[a={:?} b={:?} n={}]", a, b, n);
        match refs.iter().find(|(s, _, _)| *s == op.sem) {
            None => {
                // untyped method (or an operation that exists only typed):
                // anchored to the reference semantics
                let r = r.map_err(|m| format!("{} panicked: {} {}", op.name, m, inp()))?;
                judge(op, &r, &(op.model)(&a, &b, n)).map_err(|m| m + " " + &inp())?;
                refs.push((op.sem, op.name, r));
            }
            Some((_, rname, rr)) => {
                if op.oper {
                    match (&r, &rr.out) {
                        (Err(_), Err(_)) => continue,
                        (Err(m), Ok(_)) => {
                            return Err(format!(
                                "{} panicked although {} succeeds: {} {}",
                                op.name, rname, m, inp()
                            ))
                        }
                        (Ok(_), Err(_)) => {
                            return Err(format!(
                                "{} did not panic although {} fails {}",
                                op.name, rname, inp()
                            ))
                        }
                        _ => {}
                    }
                }
                let r = r.map_err(|m| format!("{} panicked: {} {}", op.name, m, inp()))?;
                let outs_equal = match (&r.out, &rr.out) {
                    (Ok(x), Ok(y)) => x == y,
                    (Err(x), Err(y)) => same_error(x, y),
                    _ => false,
                };
                let va = match (&r.a, &rr.a) {
                    (Some(x), Some(y)) => x == y && read(x)? == read(y)?,
                    _ => r.out.is_err(),
                };
                let vb = match (&r.b, &rr.b) {
                    (Some(x), Some(y)) => x == y && read(x)? == read(y)?,
                    _ => true,
                };
                if !(outs_equal && va && vb) {
                    return Err(format!(
                        "{} disagrees with {}: {:?}/{:?}/{:?} vs {:?}/{:?}/{:?} {}",
                        op.name, rname, r.out, r.a, r.b, rr.out, rr.a, rr.b, inp()
                    ));
                }
            }
        }
    }
    // views never change bits
    set_op("typed views");
    let i = Int::from(xa.clone());
    let u = i.clone().into_unsigned();
    let i2 = u.clone().into_signed();
    if i.width() != xa.width() || u.width() != xa.width() {
        return Err("typed view changed the width".into());
    }
    same(&i.clone().into_apint(), &a)?;
    same(&u.clone().into_apint(), &a)?;
    same(&i2.clone().into_apint(), &a)?;
    if i2 != i {
        return Err("signed -> unsigned -> signed is not the identity".into());
    }
    // printing agrees
    let forms = [
        (format!("{:b}", xa), format!("{:b}", i), format!("{:b}", u)),
        (format!("{:o}", xa), format!("{:o}", i), format!("{:o}", u)),
        (format!("{:x}", xa), format!("{:x}", i), format!("{:x}", u)),
        (format!("{:X}", xa), format!("{:X}", i), format!("{:X}", u)),
    ];
    for (x, y, z) in &forms {
        if x != y || x != z {
            return Err(format!("typed printing differs: {} {} {}", x, y, z));
        }
    }
    ctx.ops += 8;
    if mode == 0 {
        constants(ctx, w)?;
        from_prims(ctx, a.low_u128())?;
    }
    Ok(())
}

fn enum_p17(thorough: bool, out: &mut Vec<Vec<u64>>) {
    // all pairs at tiny widths, modes 0/5/7
    for w in 1..=if thorough { 6u64 } else { 4 } {
        for a in 0..1u64 << w {
            for b in 0..1u64 << w {
                for k in [0, 1, w - 1, w] {
                    out.push(vec![w - 1, 0, a, b, k, (a + b) % 70]);
                }
            }
            out.push(vec![w - 1, 5, a, 0, 0, 1]);
        }
    }
}

// ---------------------------------------------------------------- P18

pub fn case_p18(g: &mut Gen, ctx: &mut Ctx) -> Result<(), String> {
    let k = g.below(13);
    match k {
        0 => case_p01(g, ctx),
        1 => case_p02(g, ctx),
        2 => case_p03(g, ctx),
        3 => case_p04(g, ctx),
        4 => case_p05(g, ctx),
        5 => case_p06(g, ctx),
        6 => case_p07(g, ctx),
        7 => case_p08(g, ctx),
        8 => case_p09(g, ctx),
        9 => crate::p_str::case_p10(g, ctx),
        10 => crate::p_err::case_p12(g, ctx),
        11 => crate::hist::case_p13(g, ctx),
        _ => case_p17(g, ctx),
    }
}

fn enum_p18(thorough: bool, out: &mut Vec<Vec<u64>>) {
    let mut add = |k: u64, f: fn(bool, &mut Vec<Vec<u64>>), step: usize| {
        let mut v = vec![];
        f(false, &mut v);
        let step = if thorough { 1.max(step / 8) } else { step };
        v.retain(|t| t.first() != Some(&GIANT));
        for t in v.into_iter().step_by(step) {
            let mut x = vec![k];
            x.extend(t);
            out.push(x);
        }
    };
    add(0, enum_arith, 17);
    add(1, enum_arith, 17);
    add(2, enum_arith, 17);
    add(3, enum_p04, 23);
    add(4, enum_p05, 23);
    add(5, enum_p06, 31);
    add(6, enum_p07, 13);
    add(7, enum_p08, 3);
    add(8, enum_p09, 29);
    add(12, enum_p17, 3);
}

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "P01",
            rule: "width in 1..=2400 biased to 64-bit boundaries; operands from corner digits, runs, related values, significant lengths adding up to the digit capacity; all pairs for widths 1..7 and corner-digit grids at 65/127/128/129/192/256 bits enumerated. Non-trivial: both operands have at least two non-zero 64-bit digits",
            case: case_p01,
            enums: enum_arith,
            quick: 260_000,
        },
        Prop {
            id: "P02",
            rule: "dividend/divisor built as q*d+r (r in {0,1,d-1,d-2,d/2,random}), nearly equal magnitudes, small divisors, shaped leading digits; all pairs for widths 1..7 and corner-digit grids enumerated. Non-trivial: dividend > 128 bits, divisor > 64 bits, dividend not shorter than divisor",
            case: case_p02,
            enums: enum_arith,
            quick: 260_000,
        },
        Prop {
            id: "P03",
            rule: "as P02 with random signs, MIN and +-1 mixed in. Non-trivial: width > 64, at least one operand negative, |dividend| not shorter than |divisor|",
            case: case_p03,
            enums: enum_arith,
            quick: 260_000,
        },
        Prop {
            id: "P04",
            rule: "width x shift amount (0, 1, width-1, width, whole digits +-1, huge) x value; every (width<=200, amount<=width+1) enumerated with three patterns. Non-trivial: width > 64, 0 < amount < width, at least two non-zero digits",
            case: case_p04,
            enums: enum_p04,
            quick: 500_000,
        },
        Prop {
            id: "P05",
            rule: "width x operand pair x bit position; every (width<=200, position<=width) enumerated with three patterns. Non-trivial: width > 64 with at least two non-zero digits",
            case: case_p05,
            enums: enum_p05,
            quick: 300_000,
        },
        Prop {
            id: "P06",
            rule: "width x value; all values for widths 1..11 and every power of two, its complement, predecessor and negation for widths up to 270 enumerated. Non-trivial: width > 64 and value non-zero",
            case: case_p06,
            enums: enum_p06,
            quick: 600_000,
        },
        Prop {
            id: "P07",
            rule: "operand pairs equal / differing in one bit or digit / opposite signs / different widths; all pairs for widths 1..6 and corner grids enumerated. Non-trivial: width > 64 and operands differ",
            case: case_p07,
            enums: enum_p07,
            quick: 300_000,
        },
        Prop {
            id: "P08",
            rule: "source width x target width x value (target near the source width or independent); grid of boundary width pairs with sign patterns enumerated. Non-trivial: widths differ, at least one above 64 bits, value non-zero",
            case: case_p08,
            enums: enum_p08,
            quick: 400_000,
        },
        Prop {
            id: "P09",
            rule: "values at the representability borders of every primitive at widths 1..700, primitives, word arrays, constants; all 16-bit primitives, all values of widths 1..10, powers of two +-1 up to 140 bits and constants at widths up to 1100 enumerated. Non-trivial: value neither zero nor all ones (conversions), more than one bit (constructors)",
            case: case_p09,
            enums: enum_p09,
            quick: 500_000,
        },
        Prop {
            id: "P15",
            rule: "width (one third <= 64 bits) x operands (one-digit operands, q*d+r, shaped) x amount x target width; allocations counted by the global allocator around every operation required not to allocate. Non-trivial: both operands non-zero",
            case: case_p15,
            enums: enum_p15,
            quick: 200_000,
        },
        Prop {
            id: "P17",
            rule: "operands valid, zero, of other width or negated x shift amount/bit position possibly out of range x target width; every typed form and operator compared with the untyped named method. Non-trivial: width > 1, an operand with its sign bit set",
            case: case_p17,
            enums: enum_p17,
            quick: 60_000,
        },
        Prop {
            id: "P18",
            rule: "cases of P01-P10, P12, P13 and P17 (including a sample of their enumerated parts) run in every build configuration. Non-trivial: as in the delegated property",
            case: case_p18,
            enums: enum_p18,
            quick: 40_000,
        },
    ]
}

#[allow(unused)]
fn _unused(t: bool, o: &mut Vec<Vec<u64>>) {
    enum_none(t, o)
}
