//! P16: random integers.

use crate::gen::*;
use crate::model::M;
use crate::ops::*;
use crate::runner::*;
use apint::{ApInt, Int, UInt, Width};
use rand::{Error, RngCore, SeedableRng};

/// A generator with a scripted stream.
#[derive(Clone)]
struct Script {
    kind: u64,
    state: u64,
}
impl RngCore for Script {
    fn next_u32(&mut self) -> u32 {
        (self.next_u64() >> 32) as u32
    }
    fn next_u64(&mut self) -> u64 {
        match self.kind {
            0 => {
                self.state = self.state.wrapping_add(0x9E37_79B9_7F4A_7C15);
                let mut z = self.state;
                z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
                z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
                z ^ (z >> 31)
            }
            1 => u64::MAX,
            2 => 0,
            _ => {
                self.state = self.state.wrapping_add(1);
                self.state
            }
        }
    }
    fn fill_bytes(&mut self, dest: &mut [u8]) {
        for c in dest.chunks_mut(8) {
            let w = self.next_u64().to_le_bytes();
            c.copy_from_slice(&w[..c.len()]);
        }
    }
    fn try_fill_bytes(&mut self, dest: &mut [u8]) -> Result<(), Error> {
        self.fill_bytes(dest);
        Ok(())
    }
}

fn well(a: &ApInt, w: usize, what: &str) -> Result<M, String> {
    if a.width().to_usize() != w {
        return Err(format!("{}: width {} instead of {}", what, a.width().to_usize(), w));
    }
    let m = read(a).map_err(|e| format!("{}: {}", what, e))?;
    if *a != build(&m) {
        return Err(format!("{}: not equal to a fresh integer of its value {:?}", what, m));
    }
    Ok(m)
}

fn agree<R: RngCore + Clone>(ctx: &mut Ctx, r0: &R, w: usize, prev: &M) -> Result<M, String> {
    let b = bw(w);
    set_op("random_with_width_using");
    let mut r = r0.clone();
    let x = ApInt::random_with_width_using(b, &mut r);
    let m = well(&x, w, "random_with_width_using")?;
    let x2 = ApInt::random_with_width_using(b, &mut r0.clone());
    if x != x2 {
        return Err(format!("same generator state, width {}: {:?} and {:?}", w, x, x2));
    }
    set_op("randomize_using");
    let mut r1 = r0.clone();
    let mut y = build(prev);
    y.randomize_using(&mut r1);
    let my = well(&y, w, "randomize_using")?;
    if my != m {
        return Err(format!("in place (from {:?}) {:?} instead of {:?}", prev, my, m));
    }
    // a second draw from the same generators still agrees
    let n1 = ApInt::random_with_width_using(b, &mut r);
    let n2 = ApInt::random_with_width_using(b, &mut r1);
    if n1 != n2 {
        return Err(format!("width {}: second draws differ after in-place and constructing form", w));
    }
    set_op("typed random");
    let i = Int::random_with_width_using(b, &mut r0.clone());
    let u = UInt::random_with_width_using(b, &mut r0.clone());
    let mut ip = Int::from(build(prev));
    ip.randomize_using(&mut r0.clone());
    let mut up = UInt::from(build(prev));
    up.randomize_using(&mut r0.clone());
    for (n, v) in [
        ("Int::random_with_width_using", i.into_apint()),
        ("UInt::random_with_width_using", u.into_apint()),
        ("Int::randomize_using", ip.into_apint()),
        ("UInt::randomize_using", up.into_apint()),
    ] {
        ctx.ops += 1;
        if well(&v, w, n)? != m {
            return Err(format!("{} gives {:?} instead of {:?}", n, v, m));
        }
    }
    ctx.ops += 4;
    Ok(m)
}

/// Frequency tests over `n` samples; bounds at about seven standard
/// deviations (seeds are fixed, so an outcome is reproducible).
fn stats(samples: &[M], pairs: &[(usize, usize)], what: &str) -> Result<(), String> {
    let n = samples.len() as f64;
    let dev = 7.0 * (n / 4.0).sqrt();
    let w = samples[0].w;
    for k in 0..w {
        let c = samples.iter().filter(|m| m.bit(k)).count() as f64;
        if (c - n / 2.0).abs() > dev {
            return Err(format!("{}: bit {} of width {} set in {} of {} samples", what, k, w, c, n));
        }
    }
    for &(i, j) in pairs {
        if i == j {
            continue;
        }
        let c = samples.iter().filter(|m| m.bit(i) == m.bit(j)).count() as f64;
        if (c - n / 2.0).abs() > dev {
            return Err(format!(
                "{}: bits {} and {} of width {} agree in {} of {} samples",
                what, i, j, w, c, n
            ));
        }
    }
    // successive samples are unrelated
    for k in 0..w {
        let c = samples.windows(2).filter(|p| p[0].bit(k) == p[1].bit(k)).count() as f64;
        if (c - n / 2.0).abs() > dev {
            return Err(format!("{}: bit {} of width {} repeats in {} of {} samples", what, k, w, c, n));
        }
    }
    Ok(())
}

fn bit_pairs(g: &mut Gen, w: usize) -> Vec<(usize, usize)> {
    let mut v = vec![];
    for k in 0..w {
        if k + 1 < w {
            v.push((k, k + 1));
        }
        if k + 32 < w {
            v.push((k, k + 32));
        }
        if k + 64 < w {
            v.push((k, k + 64));
        }
        if k + 128 < w {
            v.push((k, k + 128));
        }
        v.push((k, w - 1 - k));
    }
    for _ in 0..16 {
        v.push((g.idx(w), g.idx(w)));
    }
    // the same place in two digits
    if w > 200 {
        for _ in 0..64 {
            let i = g.idx(w);
            v.push((i, i % 64 + 64 * g.idx((w - i % 64 + 63) / 64)));
        }
    }
    v
}

/// Two values from each system-seeded form.
pub fn fresh_values(w: usize) -> Vec<ApInt> {
    let b = bw(w);
    let mut v = vec![];
    for _ in 0..2 {
        v.push(ApInt::random_with_width(b));
        v.push(Int::random_with_width(b).into_apint());
        v.push(UInt::random_with_width(b).into_apint());
        let mut x = ApInt::zero(b);
        x.randomize();
        v.push(x);
        let mut x = Int::zero(b);
        x.randomize();
        v.push(x.into_apint());
        let mut x = UInt::zero(b);
        x.randomize();
        v.push(x.into_apint());
    }
    v
}

/// The same from a fresh process (this binary with the command `fresh`).
#[cfg(not(miri))]
fn process_values(w: usize) -> Result<Vec<ApInt>, String> {
    let exe = std::env::current_exe().map_err(|e| e.to_string())?;
    let out = std::process::Command::new(exe)
        .args(["fresh", &w.to_string()])
        .output()
        .map_err(|e| e.to_string())?;
    let s = String::from_utf8_lossy(&out.stdout);
    let v: Vec<ApInt> = s
        .split_whitespace()
        .map(|h| {
            let ds: Vec<u64> =
                h.split(',').map(|d| u64::from_str_radix(d, 16).unwrap_or(0)).collect();
            build(&M::from_digits(w, &ds))
        })
        .collect();
    if v.len() != 12 {
        return Err(format!("a process that draws random values failed: {}", String::from_utf8_lossy(&out.stderr)));
    }
    Ok(v)
}

/// `fresh W`: print system-seeded values.
pub fn fresh_main(w: usize) {
    for a in fresh_values(w) {
        let m = read(&a).expect("readable value");
        println!("{}", m.digits().iter().map(|d| format!("{:x}", d)).collect::<Vec<_>>().join(","));
    }
}

pub fn case_p16(g: &mut Gen, ctx: &mut Ctx) -> Result<(), String> {
    if g.giant() {
        use crate::p_core::{giant_value, GIANTS};
        let i = g.below(8);
        let w = GIANTS[(i % 3) as usize];
        ctx.label("giant width");
        ctx.nontrivial(true);
        ctx.note(|| format!("giant width {} previous value {}", w, i));
        let m = agree(ctx, &rand::rngs::StdRng::seed_from_u64(i), w, &giant_value(w, i))?;
        // about half of the bits are set, and no whole digit is constant or repeated
        let ones = m.count_ones();
        let mut ds = m.digits();
        ds.pop();
        let n = ds.len();
        ds.sort_unstable();
        ds.dedup();
        if ones < w / 2 - 20_000 || ones > w / 2 + 20_000 || ds.len() != n {
            return Err(format!("random value of width {}: {} ones, {} of {} digits distinct", w, ones, ds.len(), n));
        }
        return Ok(());
    }
    let mode = g.draw(32, |s| if s.below(12) == 0 { s.below(32) } else { 0 });
    match mode {
        1..=8 => {
            // distribution of the supplied-generator forms
            let wide = g.chance(1, 12);
            let tiny = !wide && g.chance(1, 6);
            let w = if wide {
                g.width_range(200, 2200)
            } else if tiny {
                // few bits, few bits in the top digit, or anything
                match g.below(3) {
                    0 => g.width_range(1, 10),
                    1 => 64 * (1 + g.idx(3)) + 1 + g.idx(8),
                    _ => g.width(200),
                }
            } else {
                g.width(200)
            };
            let seed = g.u64();
            let n = if tiny { 30_000 } else { 600 };
            let mut r = Script { kind: 0, state: seed };
            let in_place = g.coin();
            set_op("distribution");
            let b = bw(w);
            let mut cur = ApInt::zero(b);
            let samples: Result<Vec<M>, String> = (0..n)
                .map(|_| {
                    if in_place {
                        cur.randomize_using(&mut r);
                        read(&cur)
                    } else {
                        read(&ApInt::random_with_width_using(b, &mut r))
                    }
                })
                .collect();
            let pairs = bit_pairs(g, w);
            ctx.ops += n;
            ctx.label("distribution");
            ctx.nontrivial(w > 1);
            ctx.note(|| format!("distribution of {} samples at width {}, seed {}", n, w, seed));
            let samples = samples?;
            if tiny {
                // the values of a group of bits occur about equally often
                // (eight standard deviations)
                let top = if w % 64 == 0 { 64 } else { w % 64 };
                let (k, e) = (w.min(8), top.min(8));
                let at = g.idx(w - k + 1);
                for (lo, k) in [(0, k), (w - k, k), (w - e, e), (at, k), (0, w.min(2))] {
                    let mut c = vec![0u64; 1 << k];
                    for m in &samples {
                        c[(0..k).map(|i| (m.bit(lo + i) as usize) << i).sum::<usize>()] += 1;
                    }
                    let e = samples.len() as f64 / c.len() as f64;
                    for (v, &n) in c.iter().enumerate() {
                        if (n as f64 - e).abs() > 8.0 * e.sqrt() + 4.0 {
                            return Err(format!(
                                "bits {}..{} of width {} are {} in {} of {} samples instead of about {:.0}",
                                lo, lo + k, w, v, n, samples.len(), e
                            ));
                        }
                    }
                }
            }
            stats(&samples, &pairs, if in_place { "randomize_using" } else { "random_with_width_using" })
        }
        9..=12 => {
            // variants seeded from the system give fresh values
            let w = g.width_range(100, 400);
            let b = bw(w);
            set_op("random_with_width");
            let mut vals: Vec<ApInt> = vec![];
            for k in 0..12 {
                let v = match k % 6 {
                    0 => ApInt::random_with_width(b),
                    1 => Int::random_with_width(b).into_apint(),
                    2 => UInt::random_with_width(b).into_apint(),
                    3 => {
                        let mut x = ApInt::zero(b);
                        x.randomize();
                        x
                    }
                    4 => {
                        let mut x = Int::zero(b);
                        x.randomize();
                        x.into_apint()
                    }
                    _ => {
                        let mut x = UInt::zero(b);
                        x.randomize();
                        x.into_apint()
                    }
                };
                well(&v, w, "system-seeded form")?;
                ctx.ops += 1;
                if vals.contains(&v) {
                    return Err(format!("system-seeded forms repeated the {}-bit value {:?}", w, v));
                }
                vals.push(v);
            }
            // ... and neither does another thread nor another process
            let other = std::thread::spawn(move || fresh_values(w)).join().map_err(|_| "panic in a thread")?;
            #[allow(unused_mut)]
            let mut sets = vec![("thread", other)];
            #[cfg(not(miri))]
            if g.chance(1, 12) && std::env::var_os("APV_PROP").is_none() {
                sets.push(("process", process_values(w)?));
                sets.push(("process", process_values(w)?));
                ctx.label("system entropy in other processes");
            }
            for (what, set) in sets {
                for v in set {
                    ctx.ops += 1;
                    if vals.contains(&v) {
                        return Err(format!("another {} repeated the system-seeded {}-bit value {:?}", what, w, v));
                    }
                    vals.push(v);
                }
            }
            ctx.label("system entropy");
            ctx.nontrivial(true);
            ctx.note(|| format!("twelve system-seeded values of width {}", w));
            Ok(())
        }
        13 => {
            // frequency of the system-seeded forms
            let w = g.width(150);
            let b = bw(w);
            set_op("random_with_width");
            let n = 400;
            let samples: Result<Vec<M>, String> = (0..n)
                .map(|k| {
                    if k % 2 == 0 {
                        read(&ApInt::random_with_width(b))
                    } else {
                        let mut x = ApInt::all_set(b);
                        x.randomize();
                        read(&x)
                    }
                })
                .collect();
            // unseeded: bounds far out (about 9 standard deviations)
            let samples = samples?;
            ctx.ops += n;
            ctx.label("system entropy distribution");
            ctx.nontrivial(w > 1);
            ctx.note(|| format!("frequency of {} system-seeded samples at width {}", n, w));
            for k in 0..w {
                let c = samples.iter().filter(|m| m.bit(k)).count();
                if !(110..=290).contains(&c) {
                    return Err(format!("system-seeded: bit {} of width {} set in {} of {}", k, w, c, n));
                }
            }
            Ok(())
        }
        _ => {
            let w = g.width_x(1500, 20_000, 70_000, 3000);
            let kind = g.below(6);
            let seed = g.u64();
            let prev = g.value(w, &[]);
            ctx.label(match kind {
                0 => "mixed script",
                1 => "all-ones script",
                2 => "all-zeros script",
                3 => "counter script",
                4 => "SmallRng",
                _ => "StdRng",
            });
            ctx.nontrivial(w > 1 && kind != 2);
            ctx.note(|| format!("width {} generator {} seed {} previous {:?}", w, kind, seed, prev));
            match kind {
                0..=3 => {
                    let m = agree(ctx, &Script { kind, state: seed }, w, &prev)?;
                    // the value comes from the generator: constant streams at
                    // both ends give values that differ
                    if kind == 1 {
                        let z = agree(ctx, &Script { kind: 2, state: seed }, w, &prev)?;
                        if z == m {
                            return Err(format!("width {}: the generator has no influence", w));
                        }
                    }
                    Ok(())
                }
                4 => agree(ctx, &rand::rngs::SmallRng::seed_from_u64(seed), w, &prev).map(|_| ()),
                _ => agree(ctx, &rand::rngs::StdRng::seed_from_u64(seed), w, &prev).map(|_| ()),
            }
        }
    }
}

fn enum_p16(thorough: bool, out: &mut Vec<Vec<u64>>) {
    crate::p_core::giants(out);
    for w in 1..=if thorough { 1500u64 } else { 400 } {
        for kind in 0..6u64 {
            for pat in [0u64, u64::MAX] {
                let mut t = vec![0, w - 1, kind, 0x5eed + w];
                t.extend(vec![pat; ((w + 63) / 64) as usize]);
                out.push(t);
            }
        }
    }
    for w in [1u64, 2, 31, 63, 64, 65, 127, 128, 129, 192] {
        for place in 0..2 {
            out.push(vec![1, w - 1, 77, place]);
        }
        if w <= 150 {
            out.push(vec![13, w - 1]);
        }
    }
    out.push(vec![9, 0]);
    out.push(vec![9, 28]);
}

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "P16",
        rule: "width x generator (scripted mixing / all-ones / all-zeros / counter streams, SmallRng, StdRng) x previous value: all forms and types compared; frequency, pairwise, bit-group and serial tests over 600 to 30,000 samples with bounds at seven standard deviations; system-seeded forms for width, distinctness and frequency. Non-trivial: width > 1 and a generator that is not constantly zero",
        case: case_p16,
        enums: enum_p16,
        quick: 30_000,
    }]
}
