//! P10: strings.

use crate::gen::*;
use crate::model::M;
use crate::ops::*;
use crate::runner::*;
use apint::{ApInt, ErrorKind, Int, Radix, UInt};

const BAD: [char; 30] = [
    ' ', '+', '-', '.', ',', '\0', '\t', '\n', '/', ':', '@', '[', '`', '{', '~', '\u{7f}',
    'é', 'ß', '٣', '０', 'Ａ', '€', '𝟙', '\u{80}', '\u{ff}', '²', 'Ⅷ', '#', '\'', '"',
];

fn digit_char(d: u32, upper: bool) -> char {
    let c = std::char::from_digit(d, 36).unwrap();
    if upper {
        c.to_ascii_uppercase()
    } else {
        c
    }
}

/// Write the digits with the given style (0 = plain lower case).
fn render(ds: &[u32], style: u64) -> String {
    let mut s = String::new();
    let mut src = Src::seeded(style);
    let case = style % 4; // 0 lower, 1 upper, 2/3 mixed
    let under = (style / 4) % 4; // 0,1 none, 2 some, 3 many
    for (i, &d) in ds.iter().enumerate() {
        let up = match case {
            0 => false,
            1 => true,
            _ => src.below(2) == 1,
        };
        s.push(digit_char(d, up));
        if i + 1 < ds.len() {
            let n = match under {
                2 => (src.below(8) == 0) as u64,
                3 => src.below(4),
                _ => 0,
            };
            for _ in 0..n {
                s.push('_');
            }
        }
    }
    s
}

/// Digits of a valid numeral, most significant first.
fn numeral(g: &mut Gen, r: u32) -> Vec<u32> {
    let lead = if g.chance(1, 6) { g.below(70) as usize } else { 0 };
    let mut ds = vec![0u32; lead];
    if g.coin() {
        let w = g.width_x(1300, 17_000, 70_000, 8000);
        let m = g.value(w, &[]);
        ds.extend(m.radix_string(r).chars().map(|c| c.to_digit(36).unwrap()));
    } else {
        // close to a power of the radix, or arbitrary digits
        let n = 1 + g.draw(2500, |s| if s.chance(1, 25) { s.below(2500) } else { s.below(260) }) as usize;
        match g.below(5) {
            4 => {
                // runs of zeros, of the greatest digit and of arbitrary digits
                let start = ds.len();
                while ds.len() < start + n {
                    let k = 1 + g.below(60);
                    match g.below(3) {
                        0 => ds.extend(vec![0; k as usize]),
                        1 => ds.extend(vec![r - 1; k as usize]),
                        _ => ds.extend((0..k).map(|i| (g.below(r as u64) + i) as u32 % r)),
                    }
                }
            }
            0 => {
                ds.push(1);
                ds.extend(vec![0; n]);
            }
            1 => ds.extend(vec![r - 1; n]),
            2 => {
                ds.push(1 + g.below(r as u64 - 1) as u32);
                ds.extend(vec![0; n]);
                let l = ds.len();
                ds[l - 1] = g.below(r as u64) as u32;
            }
            _ => {
                for _ in 0..n {
                    ds.push(g.draw(r as u64, |s| match s.below(4) {
                        0 => 0,
                        1 => r as u64 - 1,
                        _ => s.below(r as u64),
                    }) as u32);
                }
            }
        }
    }
    ds
}

fn radix(g: &mut Gen) -> u32 {
    2 + g.draw(35, |s| {
        if s.below(2) == 0 {
            [2u64, 4, 8, 10, 16, 32, 36, 3, 7][s.below(9) as usize] - 2
        } else {
            s.below(35)
        }
    }) as u32
}

fn parse_ok(ctx: &mut Ctx, r: u32, s: &str, want: &M) -> Result<(), String> {
    set_op("ApInt::from_str_radix");
    ctx.ops += 1;
    match ApInt::from_str_radix(r as u8, s) {
        Ok(a) => {
            let m = read(&a).map_err(|e| format!("radix {} {:?}: {}", r, s, e))?;
            if !m.same_value(want) {
                return Err(format!(
                    "radix {} {:?} parsed as 0x{} instead of 0x{}",
                    r,
                    s,
                    m.hex(),
                    want.hex()
                ));
            }
            // printing gives the numeral back
            let digits: String = s.chars().filter(|&c| c != '_').collect::<String>().to_lowercase();
            let digits = digits.trim_start_matches('0');
            let p = a.to_string_radix(r as u8);
            ctx.ops += 1;
            if p != digits && !(p == "0" && digits.is_empty()) {
                return Err(format!("radix {} {:?} parsed and printed is {:?}", r, s, p));
            }
            Ok(())
        }
        Err(e) => Err(format!("radix {} {:?} rejected: {:?}", r, s, e.kind())),
    }
}

/// Must be rejected, naming input, radix and (where a character is invalid)
/// the first invalid character and its index.
pub fn parse_bad(ctx: &mut Ctx, r: u32, s: &str) -> Result<(), String> {
    set_op("ApInt::from_str_radix");
    ctx.ops += 1;
    let e = match ApInt::from_str_radix(r as u8, s) {
        Ok(a) => {
            return Err(format!("radix {} {:?} accepted as {:?}", r, s, read(&a)));
        }
        Err(e) => e,
    };
    let edge = s.is_empty() || s.starts_with('_') || s.ends_with('_');
    let bad = s
        .chars()
        .enumerate()
        .find(|(_, c)| *c != '_' && !(c.is_ascii() && c.to_digit(r).is_some()));
    let ok = match e.kind() {
        ErrorKind::InvalidStringRepr { input, radix, pos_char } => {
            input == s
                && *radix == Radix::new(r as u8).unwrap()
                && (edge || *pos_char == bad)
        }
        _ => false,
    };
    if !ok || e.message().is_empty() {
        return Err(format!(
            "radix {} {:?}: error {:?} does not identify the cause (expected char {:?})",
            r,
            s,
            e.kind(),
            bad
        ));
    }
    Ok(())
}

fn valid(s: &str, r: u32) -> bool {
    !s.is_empty()
        && !s.starts_with('_')
        && !s.ends_with('_')
        && s.chars().all(|c| c == '_' || (c.is_ascii() && c.to_digit(r).is_some()))
}

pub fn invalid_string(g: &mut Gen, r: u32) -> String {
    let w = g.width(300);
    let m = g.value(w, &[]);
    let style = g.draw(16, |s| s.below(16));
    let ds: Vec<u32> =
        m.radix_string(r).chars().map(|c| c.to_digit(36).unwrap()).collect();
    let mut cs: Vec<char> = render(&ds, style).chars().collect();
    match g.below(8) {
        0 => cs.clear(),
        1 => cs.insert(0, '_'),
        2 => cs.push('_'),
        3 => cs = vec!['_'; 1 + g.idx(4)],
        4 if r < 36 => {
            // a digit just beyond the radix
            let d = r + g.below(36 - r as u64) as u32;
            let up = g.coin();
            let i = g.idx(cs.len() + 1);
            cs.insert(i, digit_char(d, up));
        }
        5 => {
            let i = g.idx(cs.len());
            cs[i] = *g.pick(&BAD);
        }
        6 => {
            let i = g.idx(cs.len() + 1);
            cs.insert(i, *g.pick(&BAD));
            let j = g.idx(cs.len() + 1);
            cs.insert(j, *g.pick(&BAD));
        }
        _ => {
            let i = g.idx(cs.len() + 1);
            let c = char::from_u32(g.below(0x300) as u32).unwrap_or(' ');
            cs.insert(i, c);
        }
    }
    cs.into_iter().collect()
}

/// Any string: judged by the grammar.
pub fn parse_any(ctx: &mut Ctx, r: u32, s: &str) -> Result<(), String> {
    if valid(s, r) {
        let ds: Vec<u32> =
            s.chars().filter(|c| *c != '_').map(|c| c.to_digit(36).unwrap()).collect();
        parse_ok(ctx, r, s, &M::from_radix_digits(&ds, r))
    } else {
        parse_bad(ctx, r, s)
    }
}

fn format_all(ctx: &mut Ctx, m: &M, a: &ApInt, radices: &[u32]) -> Result<(), String> {
    set_op("fmt");
    let i = Int::from(a.clone());
    let u = UInt::from(a.clone());
    let up = |s: String| s.to_uppercase();
    let want = [m.radix_string(2), m.radix_string(8), m.hex(), up(m.hex())];
    let got = [
        [format!("{:b}", a), format!("{:b}", i), format!("{:b}", u)],
        [format!("{:o}", a), format!("{:o}", i), format!("{:o}", u)],
        [format!("{:x}", a), format!("{:x}", i), format!("{:x}", u)],
        [format!("{:X}", a), format!("{:X}", i), format!("{:X}", u)],
    ];
    for k in 0..4 {
        for (t, s) in ["ApInt", "Int", "UInt"].iter().zip(&got[k]) {
            ctx.ops += 1;
            if *s != want[k] {
                return Err(format!(
                    "{} {:?} printed with {} as {:?} instead of {:?}",
                    t,
                    m,
                    ["{:b}", "{:o}", "{:x}", "{:X}"][k],
                    s,
                    want[k]
                ));
            }
        }
    }
    for &r in radices {
        set_op("ApInt::to_string_radix");
        ctx.ops += 1;
        let s = a.to_string_radix(r as u8);
        let want = m.radix_string(r);
        if s.to_ascii_lowercase() != want {
            return Err(format!("{:?} in radix {}: {:?} instead of {:?}", m, r, s, want));
        }
        parse_ok(ctx, r, &s, m)?;
    }
    for (r, k) in [(2u32, 0usize), (8, 1), (16, 2), (16, 3)] {
        parse_ok(ctx, r, &got[k][0], m)?;
    }
    Ok(())
}

/// Binary and hexadecimal printing and power-of-two parsing (all linear) at
/// widths of more than 65536 digits.
fn giant_p10(g: &mut Gen, ctx: &mut Ctx) -> Result<(), String> {
    use crate::p_core::{giant_value, GIANTS};
    let i = g.below(8);
    let w = GIANTS[(i % 3) as usize];
    let m = giant_value(w, i);
    ctx.label("giant width");
    ctx.nontrivial(true);
    ctx.note(|| format!("giant width {} value {}", w, i));
    let a = build(&m);
    set_op("fmt");
    let bits: String = (0..m.bits()).rev().map(|k| if m.bit(k) { '1' } else { '0' }).collect();
    let hex = m.hex();
    ctx.ops += 3;
    if format!("{:b}", a) != bits || format!("{:x}", a) != hex || format!("{:X}", a) != hex.to_uppercase() {
        return Err(format!("{:?} printed wrongly in binary or hexadecimal", m));
    }
    for k in [1usize, 2, 3, 4, 5] {
        // base-2^k numeral of the same value
        let n = (m.bits() + k - 1) / k;
        let s: String = (0..n)
            .rev()
            .map(|j| {
                let d = (0..k).filter(|t| j * k + t < w && m.bit(j * k + t)).map(|t| 1u32 << t).sum();
                digit_char(d, false)
            })
            .collect();
        set_op("ApInt::from_str_radix");
        ctx.ops += 1;
        let x = ApInt::from_str_radix(1u8 << k, &s).map_err(|e| format!("{:?}", e.kind()))?;
        if !read(&x)?.same_value(&m) {
            return Err(format!("numeral of {:?} in radix {} parsed wrongly", m, 1 << k));
        }
    }
    Ok(())
}

pub fn case_p10(g: &mut Gen, ctx: &mut Ctx) -> Result<(), String> {
    if g.giant() {
        return giant_p10(g, ctx);
    }
    match g.below(4) {
        0 => {
            let r = radix(g);
            let ds = numeral(g, r);
            let style = g.draw(4096, |s| s.below(4096));
            let s = render(&ds, style);
            let want = M::from_radix_digits(&ds, r);
            ctx.label(if r.is_power_of_two() {
                "parse, power-of-two radix"
            } else {
                "parse, other radix"
            });
            ctx.label(if want.bits() > 64 { "numeral > 64 bits" } else { "numeral <= 64 bits" });
            ctx.nontrivial(want.bits() > 64);
            ctx.note(|| format!("radix {} {:?}", r, s));
            parse_ok(ctx, r, &s, &want)
        }
        1 => {
            let r = radix(g);
            let s = invalid_string(g, r);
            ctx.label("mutated string");
            ctx.nontrivial(s.len() > 1);
            ctx.note(|| format!("radix {} {:?}", r, s));
            parse_any(ctx, r, &s)
        }
        2 => {
            let w = g.width_x(1300, 17_000, 70_000, 8000);
            let m = g.value(w, &[]);
            let r = radix(g);
            ctx.label("print");
            ctx.nontrivial(m.bits() > 64);
            ctx.note(|| format!("print {:?}, radix {}", m, r));
            format_all(ctx, &m, &build(&m), &[r])
        }
        _ => {
            // a short arbitrary string
            let r = radix(g);
            let n = g.idx(8);
            let s: String = (0..n)
                .map(|_| {
                    let c = g.draw(0x250, |s| match s.below(4) {
                        0 => s.below(0x250),
                        1 => b'_' as u64,
                        _ => {
                            let d = s.below(36) as u32;
                            let up = s.below(2) == 1;
                            digit_char(d, up) as u64
                        }
                    });
                    char::from_u32(c as u32).unwrap()
                })
                .collect();
            ctx.label("short arbitrary string");
            ctx.nontrivial(n > 1);
            ctx.note(|| format!("radix {} {:?}", r, s));
            parse_any(ctx, r, &s)
        }
    }
}

fn enum_p10(thorough: bool, out: &mut Vec<Vec<u64>>) {
    crate::p_core::giants(out);
    // every one-character string (and after a leading digit) in every radix
    for r in 2..=36u64 {
        for c in 0..0x250u64 {
            out.push(vec![3, r - 2, 1, c]);
            if thorough {
                out.push(vec![3, r - 2, 2, b'1' as u64, c]);
                out.push(vec![3, r - 2, 2, c, b'0' as u64]);
            }
        }
        // powers of the radix and their predecessors, every length
        for n in 0..if thorough { 260u64 } else { 150 } {
            out.push(vec![0, r - 2, 0, 0, n, 0]);
            out.push(vec![0, r - 2, 0, 0, n, 1]);
        }
        // printing powers of two and their predecessors at several widths
        for k in (0..200usize).step_by(if thorough { 1 } else { 3 }) {
            for w in [k + 1, k + 70] {
                let p = M::pow2(w, k);
                for m in [p.clone(), p.dec(), p.inc()] {
                    let mut t = vec![2, w as u64 - 1];
                    t.extend(m.digits());
                    t.push(r - 2);
                    out.push(t);
                }
            }
        }
    }
}

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "P10",
        rule: "numerals of up to ~1300 bits in radix 2..36 with leading zeros, mixed case and underscores; mutated strings (invalid digits, symbols, non-ASCII, misplaced underscores) and short arbitrary strings judged by the grammar; values printed in b/o/x/X and in a radix and parsed back; all one-character strings, powers of the radix and of two enumerated. Non-trivial: number above 64 bits, or string longer than one character",
        case: case_p10,
        enums: enum_p10,
        quick: 250_000,
    }]
}
