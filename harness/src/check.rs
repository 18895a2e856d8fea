//! The properties, judged on every word. Same relations as Judge.tla, on the exported tables.

use crate::api::*;
use crate::run::*;
use crate::spec::*;
use std::collections::HashMap;
use std::fmt::Write as _;

pub struct Buf {
    pub b: [u8; 256],
    pub n: usize,
}
impl Buf {
    pub fn new() -> Self {
        Buf { b: [0; 256], n: 0 }
    }
    #[inline]
    pub fn text(&self) -> &[u8] {
        &self.b[..self.n]
    }
    pub fn string(&self) -> String {
        String::from_utf8_lossy(self.text()).into_owned()
    }
}
impl std::fmt::Write for Buf {
    #[inline]
    fn write_str(&mut self, s: &str) -> std::fmt::Result {
        let s = s.as_bytes();
        if self.n + s.len() > self.b.len() {
            return Err(std::fmt::Error);
        }
        self.b[self.n..self.n + s.len()].copy_from_slice(s);
        self.n += s.len();
        Ok(())
    }
}

pub fn show(r: &Rep) -> String {
    if r.ok {
        format!(
            "{} rd={} rs1={} rs2={} imm={} {}{}",
            op_name(r.op),
            r.rd,
            r.rs1,
            r.rs2,
            if r.himm { r.imm.to_string() } else { "-".into() },
            fmt_name(r.fmt),
            if r.compressed { " compressed" } else { "" }
        )
    } else {
        format!("Err({})", err_name(r.err))
    }
}

#[inline]
fn get(width: u8, w: u32, k: usize) -> Rep {
    rep(&decode(width, w, k))
}

/// Structured 32-bit words: every listing row with zero, one and random operands, their one-bit
/// neighbours, and random words.
pub fn pool32(sp: &Spec, seed: u64, per_row: usize, random: usize) -> Vec<u32> {
    let mut rng = Rng(seed ^ 0x1234);
    let mut v = Vec::new();
    for r in sp.rows.iter().filter(|r| r.width == 32) {
        for j in 0..per_row {
            let x = match j {
                0 => 0,
                1 => u32::MAX,
                2 => 0x8000_0000,
                3 => 0x7fff_ffff,
                4 => 0x5555_5555,
                5 => 0xaaaa_aaaa,
                _ => rng.next() as u32,
            };
            let w = r.v | (x & !r.m);
            v.push(w);
            if j < 8 {
                v.extend((0..32).map(|b| w ^ (1 << b)));
            }
        }
    }
    v.extend((0..random).map(|_| rng.next() as u32));
    v.extend((0..32).map(|b| 1 << b));
    v.extend([0, u32::MAX]);
    v.sort_unstable();
    v.dedup();
    v
}

pub fn all16() -> Vec<u32> {
    (0..0x10000).collect()
}

/// Acceptance. Returns what the listing says the word is when both sides accept and the word is
/// not a recorded deviation.
#[inline]
fn both(sp: &Spec, width: u8, w: u32, k: usize, g: &Rep) -> Option<Rep> {
    if !g.ok {
        return None;
    }
    match sp.leaf(width, w, k) {
        Leaf::Op(op) => Some(sp.decoded(op, w, k)),
        // c.lui with a zero immediate: when it is accepted as c.lui its operands are c.lui's.
        Leaf::Dev(d) => match sp.devs[d as usize].actual {
            Leaf::Op(op) if g.op == op => Some(sp.decoded(op, w, k)),
            _ => None,
        },
        _ => None,
    }
}

pub fn accept(sp: &Spec, run: &Run, width: u8) {
    let n = if width == 32 { 1 << 32 } else { 1 << 16 };
    run.each("words", width, n, |w, l| {
        let w = w as u32;
        for k in 0..2 {
            let g = get(width, w, k);
            l.counts[0] += u64::from(g.ok);
            let want = match sp.leaf(width, w, k) {
                Leaf::Op(_) => true,
                Leaf::Absent | Leaf::Err(_) => false,
                Leaf::Dev(d) => {
                    let dv = &sp.devs[d as usize];
                    let as_actual = match dv.actual {
                        Leaf::Op(op) => g.ok && g.op == op,
                        _ => !g.ok,
                    };
                    if as_actual {
                        l.dev(d, u64::from(w));
                    } else if matches!(dv.ideal, Leaf::Err(_)) && g.ok {
                        l.bad(width, u64::from(w), k, || format!("accepted as {}, which it is not", show(&g)));
                    }
                    continue;
                }
            };
            if want != g.ok {
                l.bad(width, u64::from(w), k, || {
                    format!("gave {}, specified {}", show(&g), show(&sp.reply(width, w, k)))
                });
            } else if width == 16 && want && Leaf::Op(g.op) != sp.leaf(width, w, k) {
                l.bad(width, u64::from(w), k, || {
                    format!("gave {}, specified {}", show(&g), show(&sp.reply(width, w, k)))
                });
            }
        }
    });
}

/// C02-C04, C06, C07: one part of the instruction wherever both sides accept.
pub fn part(sp: &Spec, run: &Run, width: u8, same: fn(&Rep, &Rep) -> bool) {
    let n = if width == 32 { 1 << 32 } else { 1 << 16 };
    run.each("words", width, n, |w, l| {
        let w = w as u32;
        for k in 0..2 {
            let g = get(width, w, k);
            if let Some(a) = both(sp, width, w, k, &g) {
                l.counts[0] += 1;
                if !same(&a, &g) {
                    l.bad(width, u64::from(w), k, || format!("gave {}, specified {}", show(&g), show(&a)));
                }
            }
        }
    });
}

fn is_imm_shift(op: u16) -> bool {
    matches!(
        op_name(op),
        "BaseI.SLLI" | "BaseI.SRLI" | "BaseI.SRAI" | "BaseI.SLLIW" | "BaseI.SRLIW" | "BaseI.SRAIW" | "C.SLLI" | "C.SRLI" | "C.SRAI"
    )
}

pub fn xlen(sp: &Spec, run: &Run) {
    let shift: Vec<bool> = (0..OPS.len() as u16).map(is_imm_shift).collect();
    for width in [32u8, 16] {
        let n = if width == 32 { 1 << 32 } else { 1 << 16 };
        run.each(if width == 32 { "words32" } else { "words16" }, width, n, |w, l| {
            let w = w as u32;
            let (g32, g64) = (get(width, w, 0), get(width, w, 1));
            let (l32, l64) = (sp.leaf(width, w, 0), sp.leaf(width, w, 1));
            if matches!(l32, Leaf::Dev(_)) || matches!(l64, Leaf::Dev(_)) {
                // Whichever side the crate is on, both ISAs must agree: the deviations are not XLEN-dependent.
                if g32 != g64 {
                    l.bad(width, u64::from(w), 2, || format!("Rv32 {} but Rv64 {}", show(&g32), show(&g64)));
                }
                return;
            }
            let only = |r: &Rep| !r.ok && r.err == 9;
            let want_only = l32 == Leaf::Err(9);
            let say = || format!("Rv32 {} / Rv64 {}, specified {} / {}", show(&g32), show(&g64), show(&sp.reply(width, w, 0)), show(&sp.reply(width, w, 1)));
            if only(&g64) || only(&g32) != want_only {
                l.bad(width, u64::from(w), 2, say);
                return;
            }
            if want_only {
                l.counts[0] += 1;
                return;
            }
            let same = match (l32, l64) {
                (Leaf::Op(a), Leaf::Op(b)) => a == b && sp.decoded(a, w, 0) == sp.decoded(b, w, 1),
                (a, b) => a == b,
            };
            if same {
                if g32 != g64 {
                    l.bad(width, u64::from(w), 2, say);
                }
                return;
            }
            l.counts[1] += 1;
            for (k, g, a) in [(0, &g32, l32), (1, &g64, l64)] {
                let good = match a {
                    Leaf::Op(op) => {
                        g.ok && g.op == op && (!shift[op as usize] || {
                            let r = sp.decoded(op, w, k);
                            r.himm == g.himm && r.imm == g.imm
                        })
                    }
                    _ => !g.ok,
                };
                if !good {
                    l.bad(width, u64::from(w), k, say);
                }
            }
        });
    }
}

/// C09: every entry point on every word (32-bit operand parsers on a pool), all opcodes.
pub fn no_panic(sp: &Spec, run: &Run, deep: usize) {
    run.each("decode32", 32, 1 << 32, |w, l| {
        for k in 0..2 {
            let d = decode(32, w as u32, k);
            let o = parse_opcode(32, w as u32, k);
            l.counts[0] += u64::from(d.is_ok());
            l.counts[1] += u64::from(o.is_ok());
        }
    });
    run.each("decode16", 16, 1 << 16, |w, l| {
        for k in 0..2 {
            l.counts[0] += u64::from(decode(16, w as u32, k).is_ok());
            l.counts[1] += u64::from(parse_opcode(16, w as u32, k).is_ok());
        }
    });
    let p32 = pool32(sp, run.seed, 400 * deep, 200_000 * deep);
    for (width, pool) in [(16u8, all16()), (32, p32)] {
        run.each(if width == 32 { "operands32" } else { "operands16" }, width, pool.len() as u64, |i, l| {
            let w = pool[i as usize];
            for op in 0..OPS.len() as u16 {
                let o = op_make(op);
                for k in 0..2 {
                    for part in 0..4 {
                        if k == 0 && part < 3 {
                            continue;
                        }
                        l.counts[2] += u64::from(std::hint::black_box(parse_part(part, width, w, k, &o)).is_ok());
                    }
                }
            }
        });
    }
    upper(sp, run, deep, |op, w, l| {
        let o = op_make(op);
        for part in 0..4 {
            l.counts[3] += u64::from(std::hint::black_box(parse_part(part, 32, w, 1, &o)).is_ok());
        }
        l.counts[3] += u64::from(std::hint::black_box(parse_part(3, 32, w, 0, &o)).is_ok());
    });
}

/// Every opcode of the 32-bit instructions with every value of the upper 20 bits of a word (25 when
/// deep), whether or not the lower ones belong to the opcode.
fn upper(sp: &Spec, run: &Run, deep: usize, f: impl Fn(u16, u32, &mut Local) + Sync) {
    let ops: Vec<u16> = (0..OPS.len() as u16).filter(|o| sp.ops[*o as usize].width == 32).collect();
    run.each("opcodes_with_upper_bits", 0, (ops.len() as u64) << 20, |i, l| {
        let op = ops[(i >> 20) as usize];
        let hi = (i as u32 & 0xf_ffff) << 12;
        let own = sp.ops[op as usize].rows[1].v & 0x7f;
        if deep > 1 {
            for rd in 0..32 {
                f(op, hi | rd << 7 | own, l);
            }
        } else {
            let mix = (hi >> 12).wrapping_mul(0x9e37_79b9) ^ u32::from(op) << 7 ^ run.seed as u32;
            f(op, hi | mix >> 20 & 0xf80 | own, l);
        }
        f(op, hi, l);
        f(op, hi | 0xfff, l);
        f(op, hi | (i as u32).wrapping_mul(0x85eb_ca6b) >> 20, l);
    });
}

/// C10: the error wherever both sides refuse.
pub fn errors(sp: &Spec, run: &Run, deep: usize) {
    for width in [32u8, 16] {
        let n = if width == 32 { 1 << 32 } else { 1 << 16 };
        run.each(if width == 32 { "words32" } else { "words16" }, width, n, |w, l| {
            let w = w as u32;
            for k in 0..2 {
                let (a, b) = (sp.leaf(width, w, k), sp.opcode(width, w, k));
                if let Leaf::Err(e) = a {
                    if let Err(g) = decode(width, w, k) {
                        l.counts[0] += 1;
                        if err_index(&g) != e {
                            l.bad(width, u64::from(w), k, || format!("decode gave Err({g:?}), specified Err({})", err_name(e)));
                        }
                    }
                }
                if let Leaf::Err(e) = b {
                    if let Err(g) = parse_opcode(width, w, k) {
                        if err_index(&g) != e {
                            l.bad(width, u64::from(w), k, || format!("parse_opcode gave Err({g:?}), specified Err({})", err_name(e)));
                        }
                    }
                }
            }
        });
    }
    let p32 = pool32(sp, run.seed, 60 * deep, 20_000 * deep);
    for (width, pool) in [(16u8, all16()), (32, p32)] {
        run.each(if width == 32 { "other_width32" } else { "other_width16" }, width, pool.len() as u64, |i, l| {
            let w = pool[i as usize];
            for op in (0..OPS.len() as u16).filter(|&o| sp.ops[o as usize].width != width) {
                let o = op_make(op);
                for part in 0..4 {
                    if let Err(g) = parse_part(part, width, w, 1, &o) {
                        l.counts[1] += 1;
                        if err_index(&g) != u8::from(width == 32) {
                            l.bad(width, u64::from(w), 2, || format!("parse_{} for {} gave Err({g:?})", PARTS[part], op_name(op)));
                        }
                    }
                }
            }
        });
    }
    let big = big_integers(sp, run.seed, deep);
    run.each("integers", 64, big.len() as u64, |i, l| {
        let q = big[i as usize];
        let e = u8::from(q & 3 == 3);
        if let Err(g) = raki::Instruction::try_from(q as usize) {
            l.counts[2] += 1;
            if err_index(&g) != e {
                l.bad(64, q, 2, || format!("try_from gave Err({g:?}), specified Err({})", err_name(e)));
            }
        }
    });
}

/// Integers beyond the width their low bits announce.
fn big_integers(sp: &Spec, seed: u64, deep: usize) -> Vec<u64> {
    let mut v = Vec::new();
    let mut rng = Rng(seed ^ 77);
    for w in pool32(sp, seed, 8, 1000 * deep) {
        let lo = u64::from(w);
        for h in [1u64, 0x8000_0000, 0xffff_ffff, 1 << rng.below(32), rng.next() >> 32 | 1] {
            v.push(h << 32 | lo);
            v.push(h << 32 | (lo & 0xffff));
        }
    }
    for w in 0..0x10000u64 {
        if w & 3 != 3 {
            for b in 16..64 {
                if b < 34 || rng.below(8) == 0 {
                    v.push(w | 1 << b);
                }
            }
            v.push(w | 0xffff_ffff_ffff_0000);
            v.push(w | 0xffff_0000);
            v.push(w | (rng.next() | 1) << 16);
        } else {
            v.push(w | 1 << 32);
            v.push(w | 0xffff_ffff_ffff_0000);
        }
    }
    v
}

/// C11 on single words.
pub fn lengths(run: &Run) {
    for width in [32u8, 16] {
        let n = if width == 32 { 1 << 32 } else { 1 << 16 };
        run.each(if width == 32 { "words32" } else { "words16" }, width, n, |w, l| {
            for k in 0..2 {
                let g = get(width, w as u32, k);
                if g.ok {
                    l.counts[0] += 1;
                    if (w & 3 == 3) != (width == 32) || g.compressed != (width == 16) {
                        l.bad(width, w, k, || format!("low bits {:#04b} decoded as {}", w & 3, show(&g)));
                    }
                }
            }
        });
    }
}

/// C12.
pub fn convert(sp: &Spec, run: &Run, deep: usize) {
    run.each("integers32", 64, 1 << 32, |q, l| {
        let g = rep(&raki::Instruction::try_from(q as usize));
        if q & 3 != 3 && q > 0xffff {
            if g.ok {
                l.bad(64, q, 2, || format!("does not fit 16 bits, yet gave {}", show(&g)));
            }
            return;
        }
        l.counts[0] += u64::from(g.ok);
        let width = if q & 3 == 3 { 32 } else { 16 };
        let Ok(d) = std::panic::catch_unwind(|| get(width, q as u32, 1)) else {
            return;
        };
        if d != g {
            l.bad(64, q, 2, || format!("gave {}, the Rv64 decode gives {}", show(&g), show(&d)));
        }
    });
    // Every upper half above words that decode.
    let low = [0x13u64, 0x0000_8067, 0xfff5_0513, 0x3000_2573, 0x0001, 0x4501, 0x8082, 0xfffe];
    let low: Vec<u64> = low.into_iter().filter(|q| matches!(std::panic::catch_unwind(|| get(if q & 3 == 3 { 32 } else { 16 }, *q as u32, 1)), Ok(g) if g.ok)).collect();
    run.each("upper_halves", 64, 1 << 32, |h, l| {
        let Some(q) = low.get((h ^ h >> 7 ^ h >> 19 ^ run.seed) as usize % low.len().max(1)).map(|q| h << 32 | q) else { return };
        match std::panic::catch_unwind(|| raki::Instruction::try_from(q as usize).is_ok()) {
            Err(_) => l.bad(64, q, 2, || "panicked".into()),
            Ok(true) if h != 0 => l.bad(64, q, 2, || "does not fit, yet was decoded".into()),
            Ok(_) => {}
        }
    });
    let big = big_integers(sp, run.seed, 40 * deep);
    run.each("integers64", 64, big.len() as u64, |i, l| {
        let q = big[i as usize];
        let r = std::panic::catch_unwind(|| rep(&raki::Instruction::try_from(q as usize)));
        match r {
            Err(_) => l.bad(64, q, 2, || "panicked".into()),
            Ok(g) if g.ok => l.bad(64, q, 2, || format!("does not fit, yet gave {}", show(&g))),
            Ok(_) => l.counts[1] += 1,
        }
    });
}

/// decode as the composition of the public parts.
fn compose(width: u8, w: u32, k: usize) -> Rep {
    if width == 16 && w == 0 {
        return Rep { err: 8, ..REFUSED };
    }
    let o = match parse_opcode(width, w, k) {
        Err(e) => return Rep { err: err_index(&e), ..REFUSED },
        Ok(o) => o,
    };
    let mut v = [NONE; 4];
    let mut himm = false;
    for p in 0..4 {
        match parse_part(p, width, w, k, &o) {
            Err(e) => return Rep { err: err_index(&e), ..REFUSED },
            Ok(x) => {
                if p == 3 {
                    himm = x.is_some();
                    v[3] = x.unwrap_or(0);
                } else {
                    v[p] = x.unwrap_or(NONE);
                }
            }
        }
    }
    Rep {
        ok: true,
        err: 254,
        op: op_index(&o),
        rd: v[0],
        rs1: v[1],
        rs2: v[2],
        himm,
        imm: v[3] as i32,
        fmt: fmt_index(&o.get_format()),
        compressed: width == 16,
    }
}

/// C13.
pub fn parts(sp: &Spec, run: &Run, deep: usize) {
    for width in [32u8, 16] {
        let n = if width == 32 { 1 << 32 } else { 1 << 16 };
        run.each(if width == 32 { "words32" } else { "words16" }, width, n, |w, l| {
            let w = w as u32;
            for k in 0..2 {
                let g = get(width, w, k);
                let mut c = compose(width, w, k);
                l.counts[0] += u64::from(g.ok);
                // The length flag is C11's.
                c.compressed = g.compressed;
                if c != g {
                    l.bad(width, u64::from(w), k, || format!("decode gave {}, the parts give {}", show(&g), show(&c)));
                }
            }
        });
    }
    let p32 = pool32(sp, run.seed, 400 * deep, 100_000 * deep);
    for (width, pool) in [(16u8, all16()), (32, p32)] {
        run.each(if width == 32 { "operands32" } else { "operands16" }, width, pool.len() as u64, |i, l| {
            let w = pool[i as usize];
            for op in 0..OPS.len() as u16 {
                parser(sp, width, w, op, l);
            }
        });
    }
    upper(sp, run, deep, |op, w, l| parser(sp, 32, w, op, l));
}

/// The operand parsers with any opcode and any word.
fn parser(sp: &Spec, width: u8, w: u32, op: u16, l: &mut Local) {
    let o = op_make(op);
    let info = &sp.ops[op as usize];
    for part in 0..4 {
        for k in 0..2 {
            if part < 3 && k == 0 {
                continue;
            }
            let g = match std::panic::catch_unwind(|| parse_part(part, width, w, k, &o)) {
                Ok(g) => g,
                Err(_) => {
                    l.bad(width, u64::from(w), k, || format!("parse_{} for {} panicked", PARTS[part], op_name(op)));
                    continue;
                }
            };
            l.counts[1] += 1;
            let row = &info.rows[k];
            let good = if info.width != width {
                g == Err(if width == 32 { raki::DecodingError::Not32BitInst } else { raki::DecodingError::Not16BitInst })
            } else {
                match (&g, part) {
                    (Err(_), _) => false,
                    (Ok(v), 3) => *v == row.himm.then(|| i64::from(row.imm(w))),
                    (Ok(v), p) => [&row.rd, &row.rs1, &row.rs2][p].admits(w, v.unwrap_or(NONE)),
                }
            };
            if !good {
                l.bad(width, u64::from(w), k, || {
                    let want = if info.width != width {
                        "the wrong-length error".to_string()
                    } else if part == 3 {
                        format!("{:?}", row.himm.then(|| row.imm(w)))
                    } else {
                        format!("{} (-1: absent)", [&row.rd, &row.rs1, &row.rs2][part].value(w))
                    };
                    format!("parse_{} for {} gave {g:?}, specified {want}", PARTS[part], op_name(op))
                });
            }
        }
    }
}

/// C14.
pub fn shape(sp: &Spec, run: &Run) {
    run.each("opcodes", 0, OPS.len() as u64, |op, l| {
        let f = fmt_index(&op_make(op as u16).get_format());
        if f != sp.ops[op as usize].fmt {
            l.bad(0, op, 2, || format!("get_format of {} is {}, specified {}", op_name(op as u16), fmt_name(f), fmt_name(sp.ops[op as usize].fmt)));
        }
    });
    for width in [32u8, 16] {
        let n = if width == 32 { 1 << 32 } else { 1 << 16 };
        run.each(if width == 32 { "words32" } else { "words16" }, width, n, |w, l| {
            for k in 0..2 {
                let g = get(width, w as u32, k);
                if !g.ok || g.op == UNKNOWN {
                    continue;
                }
                l.counts[0] += 1;
                let o = &sp.ops[g.op as usize];
                let has = [g.rd != NONE, g.rs1 != NONE, g.rs2 != NONE, g.himm];
                let range = |v: i64, top: i64| v <= top;
                if g.fmt != o.fmt || has != o.shape || !range(g.rd, 31) || !range(g.rs1, 31) || !range(g.rs2, if o.zicsr { 4095 } else { 31 }) {
                    l.bad(width, w, k, || format!("{} does not have the shape or format of its opcode ({})", show(&g), fmt_name(o.fmt)));
                }
            }
        });
    }
}

#[derive(Clone, Copy, PartialEq)]
pub enum Text {
    Total,
    Mnemonic,
    Operands,
}

/// Prints with one of 18 combinations of formatting options.
fn with_options(b: &mut dyn std::fmt::Write, how: usize, what: &dyn std::fmt::Display, len: usize) -> std::fmt::Result {
    let half = len / 2;
    match how {
        0 => write!(b, "{what:40}"),
        1 => write!(b, "{what:>40}"),
        2 => write!(b, "{what:#}"),
        3 => write!(b, "{what:+}"),
        4 => write!(b, "{what:040}"),
        5 => write!(b, "{what:-^half$}"),
        6 => write!(b, "{what:é<len$}"),
        7 => write!(b, "{what:1}"),
        8 => write!(b, "{what:.0}"),
        9 => write!(b, "{what:.half$}"),
        10 => write!(b, "{what:>40.half$}"),
        11 => write!(b, "{what:#060.99}"),
        12 => write!(b, "{what:0}"),
        13 => write!(b, "{what:70}"),
        14 => write!(b, "{what:\u{1d11e}^140}"),
        15 => write!(b, "{what:>300.200}"),
        16 => write!(b, "{what:<+01100}"),
        _ => write!(b, "{what:.60000}"),
    }
}

/// C15 with formatting options, and into a writer without enough room.
fn options(width: u8, w: u64, k: usize, what: &dyn std::fmt::Display, len: usize, l: &mut Local) {
    // A growing buffer: an implementation may pad every part of the text.
    let mut b = String::new();
    for how in 0..18 {
        b.clear();
        let ok = with_options(&mut b, how, what, len);
        let t = b.as_bytes();
        // A precision below the length may leave nothing of the text.
        let cut = (8..=10).contains(&how);
        if ok.is_err() || (t.is_empty() && !cut) || t.contains(&b'\n') || t.contains(&b'\r') {
            l.bad(width, w, k, || format!("{what} with formatting options ({how}) prints as {b:?}"));
        }
        // Whatever the text is, it does not fit into less.
        if let Some(room) = b.len().checked_sub(1) {
            for room in [0, room] {
                if with_options(&mut crate::fresh::Full(room), how, what, len).is_ok() {
                    l.bad(width, w, k, || format!("printing {what} with formatting options ({how}) into {room} bytes reports success"));
                }
            }
        }
    }
    for room in [0, len / 2, len.saturating_sub(1)] {
        let mut b = crate::fresh::Full(room);
        if write!(b, "{what}").is_ok() {
            l.bad(width, w, k, || format!("printing {what} into {room} bytes reports success"));
        }
    }
    l.counts[2] += 1;
}

/// C15, C16, C19: print everything that decodes.
pub fn print(sp: &Spec, run: &Run, what: Text) {
    // The crate's own text of each opcode.
    let mut names: Vec<Option<Vec<u8>>> = Vec::new();
    for op in 0..OPS.len() as u16 {
        let r = std::panic::catch_unwind(|| {
            let mut b = Buf::new();
            let ok = write!(b, "{}", op_make(op)).is_ok();
            (ok, b)
        });
        let bare = std::panic::catch_unwind(|| op_bare(op));
        let mut l = run.all.lock().unwrap();
        if what == Text::Total {
            let mut found = Local::default();
            let o = op_make(op);
            let len = sp.ops[op as usize].mn.len();
            let calm = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
                options(0, u64::from(op), 2, &o, len, &mut found);
                with_bare(op, |x| options(0, u64::from(op), 2, x, len, &mut found));
            }));
            if calm.is_err() {
                l.bad(0, u64::from(op), 2, || format!("printing {} with formatting options panicked", op_name(op)));
            }
            l.merge(found);
        }
        match &bare {
            Err(_) if what == Text::Total => l.bad(0, u64::from(op), 2, || format!("printing the bare {} panicked", op_name(op))),
            Ok(t) if what == Text::Mnemonic && t[0] != sp.ops[op as usize].mn => {
                l.bad(0, u64::from(op), 2, || format!("the bare {} prints as {:?}, specified {:?}", op_name(op), t[0], sp.ops[op as usize].mn))
            }
            _ => {}
        }
        match r {
            Err(_) => {
                if what == Text::Total {
                    l.bad(0, u64::from(op), 2, || format!("printing {} panicked", op_name(op)));
                }
                names.push(None);
            }
            Ok((ok, b)) => {
                let t = b.text();
                if what == Text::Total && (!ok || t.is_empty() || t.contains(&b'\n') || t.contains(&b'\r')) {
                    l.bad(0, u64::from(op), 2, || format!("{} prints as {:?}", op_name(op), b.string()));
                }
                if what == Text::Mnemonic && t != sp.ops[op as usize].mn.as_bytes() {
                    l.bad(0, u64::from(op), 2, || format!("{} prints as {:?}, specified {:?}", op_name(op), b.string(), sp.ops[op as usize].mn));
                }
                names.push(Some(t.to_vec()));
            }
        }
    }
    if what == Text::Mnemonic {
        let mut seen: HashMap<Vec<u8>, u16> = HashMap::new();
        for (op, n) in names.iter().enumerate() {
            if let Some(o) = n.as_ref().and_then(|n| seen.insert(n.clone(), op as u16)) {
                run.all.lock().unwrap().bad(0, op as u64, 2, || format!("{} and {} share a mnemonic", op_name(o), op_name(op as u16)));
            }
        }
    }
    run.add("opcodes", OPS.len() as u64);
    for width in [32u8, 16] {
        let n = if width == 32 { 1 << 32 } else { 1 << 16 };
        run.each(if width == 32 { "words32" } else { "words16" }, width, n, |w, l| {
            let mut last: Option<Rep> = None;
            for k in [1, 0] {
                let d = decode(width, w as u32, k);
                let g = rep(&d);
                let Ok(ins) = &d else { continue };
                // The same instruction prints the same; C17 checks that.
                if last == Some(g) {
                    continue;
                }
                last = Some(g);
                l.counts[0] += 1;
                let mut b = Buf::new();
                let ok = write!(b, "{ins}").is_ok();
                let t = b.text();
                match what {
                    Text::Total => {
                        // Every 16-bit word and some of the others (and all rows, below) also with formatting options and
                        // a writer that fails.
                        if width == 16 || (w.wrapping_mul(0x9e37_79b9_7f4a_7c15) >> 40 ^ run.seed) & 0x3f == 0 {
                            options(width, w, k, ins, t.len(), l);
                        }
                        if !ok || t.is_empty() || t.iter().any(|c| *c == b'\n' || *c == b'\r') {
                            l.bad(width, w, k, || format!("{} prints as {:?}", show(&g), b.string()));
                        }
                    }
                    Text::Mnemonic => {
                        if g.op == UNKNOWN {
                            continue;
                        }
                        let m = sp.ops[g.op as usize].mn.as_bytes();
                        let good = t.starts_with(m) && (t.len() == m.len() || (t[m.len()] == b' ' && t.len() > m.len() + 1 && t[m.len() + 1] != b' '));
                        if !good {
                            l.bad(width, w, k, || format!("{} prints as {:?}, mnemonic {:?}", show(&g), b.string(), sp.ops[g.op as usize].mn));
                        }
                    }
                    Text::Operands => {
                        if g.op == UNKNOWN {
                            continue;
                        }
                        let Some(name) = &names[g.op as usize] else { continue };
                        let mut want = Vec::with_capacity(64);
                        want.extend_from_slice(name);
                        if !sp.ops[g.op as usize].tpl.is_empty() {
                            want.push(b' ');
                        }
                        if sp.operands(&g, &mut want).is_none() {
                            continue;
                        }
                        l.counts[1] += 1;
                        if t != want {
                            l.bad(width, w, k, || format!("{} prints as {:?}, specified {:?}", show(&g), b.string(), String::from_utf8_lossy(&want)));
                        }
                    }
                }
            }
        });
    }
    if what == Text::Total {
        let pool = pool32(sp, run.seed, 20, 0);
        run.each("options32", 32, pool.len() as u64, |i, l| {
            let w = pool[i as usize];
            for k in 0..2 {
                let Ok(ins) = std::panic::catch_unwind(|| decode(32, w, k)) else { continue };
                let Ok(ins) = &ins else { continue };
                let calm = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
                    let len = text_of(ins).map_or(0, |t| t.len());
                    options(32, u64::from(w), k, ins, len, l);
                }));
                if calm.is_err() {
                    l.bad(32, u64::from(w), k, || "printing with formatting options panicked".into());
                }
            }
        });
    }
}

/// C18.
pub fn lossless(sp: &Spec, run: &Run) {
    const SWAP: u32 = 3 << 25;
    let swap: Vec<bool> = OPS.iter().map(|o| o.starts_with("Zicfiss.SSAMOSWAP")).collect();
    for width in [32u8, 16] {
        let n = if width == 32 { 1 << 32 } else { 1 << 16 };
        run.each(if width == 32 { "words32" } else { "words16" }, width, n, |w, l| {
            let w = w as u32;
            for k in 0..2 {
                let g = get(width, w, k);
                if !g.ok {
                    continue;
                }
                l.counts[0] += 1;
                let back = (g.op != UNKNOWN && sp.ops[g.op as usize].width == width)
                    .then(|| sp.ops[g.op as usize].rows[k].encode(&g))
                    .flatten();
                let free = if g.op != UNKNOWN && swap[g.op as usize] { SWAP } else { 0 };
                if back.is_some_and(|b| (b ^ w) & !free == 0) {
                    continue;
                }
                // Not the word the listing would rebuild: only a loss if some other word decodes the same.
                l.counts[1] += 1;
                if let Some(b) = back {
                    if get(width, b, k) == g {
                        l.bad(width, u64::from(w), k, || format!("decodes like {b:#x}: {}", show(&g)));
                        continue;
                    }
                }
                l.suspects.push((w, (k as u8) << 6 | width));
            }
        });
    }
    let suspects = std::mem::take(&mut run.all.lock().unwrap().suspects);
    run.add("suspects", suspects.len() as u64);
    let mut seen: HashMap<(u8, u16, i64, i64, i64, bool, i32, u8), u32> = HashMap::new();
    for (w, tag) in suspects {
        let (width, k) = (tag & 63, (tag >> 6) as usize);
        let Ok(g) = std::panic::catch_unwind(|| get(width, w, k)) else { continue };
        let free = if g.op != UNKNOWN && swap[g.op as usize] { SWAP } else { 0 };
        let key = (tag, g.op, g.rd, g.rs1, g.rs2, g.himm, g.imm, g.fmt);
        if let Some(&o) = seen.get(&key) {
            if (o ^ w) & !free != 0 {
                run.all.lock().unwrap().bad(width, u64::from(w), k, || format!("decodes like {o:#x}: {}", show(&g)));
            }
        } else {
            seen.insert(key, w);
        }
    }
    // The crate's own equality, on neighbours.
    let p32 = pool32(sp, run.seed, 200, 0);
    for (width, pool) in [(16u8, all16()), (32, p32)] {
        run.each(if width == 32 { "neighbours32" } else { "neighbours16" }, width, pool.len() as u64, |i, l| {
            let w = pool[i as usize];
            for k in 0..2 {
                let Ok(a) = decode(width, w, k) else { continue };
                let op = op_index(&a.opc);
                let free = if op != UNKNOWN && swap[op as usize] { SWAP } else { 0 };
                for b in 0..u32::from(width) {
                    if free >> b & 1 == 1 {
                        continue;
                    }
                    if let Ok(o) = decode(width, w ^ 1 << b, k) {
                        l.counts[2] += 1;
                        if a == o {
                            l.bad(width, u64::from(w), k, || format!("instruction equal to that of {:#x}", w ^ 1 << b));
                        }
                    }
                }
            }
        });
    }
}

/// C20: a compressed word against the 32-bit word of its expansion.
fn expands(sp: &Spec, w: u32, k: usize, long: u32, a: &Rep, l: &mut Local) {
    let g = get(16, w, k);
    if !g.ok || g.op != a.op {
        return;
    }
    l.counts[0] += 1;
    let want = sp.ops[g.op as usize].expand.as_ref().expect("rule").apply(&g);
    let x = get(32, long, k);
    let same = x.ok && (x.op, x.rd, x.rs1, x.rs2, x.himm, x.imm) == (want.op, want.rd, want.rs1, want.rs2, want.himm, want.imm);
    if !same {
        l.bad(16, u64::from(w), k, || format!("decodes as {}, its expansion {long:#x} as {}", show(&g), show(&x)));
    }
}

pub fn expansion(sp: &Spec, run: &Run) {
    run.each("words16", 16, 1 << 16, |w, l| {
        let w = w as u32;
        for k in 0..2 {
            let Leaf::Op(op) = sp.leaf(16, w, k) else { continue };
            let a = sp.decoded(op, w, k);
            let long = sp.expand_word(&a, k).expect("expansion");
            expands(sp, w, k, long, &a, l);
        }
    });
}

/// Every single-field change of an instruction.
pub fn changed(r: &Rep, n: u64) -> Rep {
    let mut c = *r;
    let other = |v: i64| if v == NONE { (n >> 3) as i64 & 31 } else if n & 8 == 0 { NONE } else { (v + 1 + (n >> 4) as i64 % 31) & 31 };
    match n % 8 {
        0 => c.op = ((u64::from(c.op) + 1 + (n >> 3) % (OPS.len() as u64 - 1)) % OPS.len() as u64) as u16,
        1 => c.rd = other(c.rd),
        2 => c.rs1 = other(c.rs1),
        3 => c.rs2 = if c.rs2 > 31 { c.rs2 ^ 1 << ((n >> 3) % 12) } else { other(c.rs2) },
        4 => {
            c.himm = !c.himm;
            c.imm = 0;
        }
        5 if c.himm => c.imm ^= 1 << ((n >> 3) % 32),
        6 => c.fmt = ((u64::from(c.fmt) + 1 + (n >> 3) % (FMTS.len() as u64 - 1)) % FMTS.len() as u64) as u8,
        _ => c.compressed = !c.compressed,
    }
    c
}

/// C21: equality is equality of the fields.
pub fn equality(sp: &Spec, run: &Run) {
    let judge = |l: &mut Local, eq: bool, ne: bool, want: bool, what: &dyn Fn() -> String| {
        l.counts[0] += 1;
        if eq != want || ne == want {
            l.bad(0, 0, 2, || format!("{}: == gives {eq}, != gives {ne}", what()));
        }
    };
    run.each("opcode_pairs", 0, OPS.len() as u64, |a, l| {
        for b in 0..OPS.len() as u64 {
            let (x, y) = (op_make(a as u16), op_make(b as u16));
            judge(l, x == y, x != y, a == b, &|| format!("{} and {}", op_name(a as u16), op_name(b as u16)));
        }
    });
    run.each("format_pairs", 0, FMTS.len() as u64, |a, l| {
        for b in 0..FMTS.len() as u64 {
            let (x, y) = (fmt_make(a as u8), fmt_make(b as u8));
            judge(l, x == y, x != y, a == b, &|| format!("{} and {}", fmt_name(a as u8), fmt_name(b as u8)));
        }
    });
    run.each("error_pairs", 0, ERRS.len() as u64, |a, l| {
        for b in 0..ERRS.len() as u64 {
            let (x, y) = (err_make(a as u8), err_make(b as u8));
            judge(l, x == y, x != y, a == b, &|| format!("{} and {}", err_name(a as u8), err_name(b as u8)));
        }
    });
    let compare = |l: &mut Local, a: &Rep, b: &Rep| {
        let (x, y) = (build(a), build(b));
        judge(l, x == y, x != y, a == b, &|| format!("{} and {}", show(a), show(b)));
        judge(l, y == x, y != x, a == b, &|| format!("{} and {}", show(b), show(a)));
    };
    // One opcode, all pairs of operand tuples from a few values; opcodes of every format.
    let regs = [NONE, 0, 1, 8, 16, 31, 4095];
    let imms = [None, Some(0), Some(1), Some(-1), Some(i32::MIN), Some(i32::MAX), Some(0x0001_0000), Some(256)];
    run.each("operand_pairs", 0, OPS.len() as u64, |op, l| {
        let o = &sp.ops[op as usize];
        let base = Rep { ok: true, err: 254, op: op as u16, rd: 1, rs1: 2, rs2: 3, himm: true, imm: 4, fmt: o.fmt, compressed: o.width == 16 };
        for &x in &regs {
            for &y in &regs {
                for f in 0..3 {
                    let (mut a, mut b) = (base, base);
                    *[&mut a.rd, &mut a.rs1, &mut a.rs2][f] = x;
                    *[&mut b.rd, &mut b.rs1, &mut b.rs2][f] = y;
                    compare(l, &a, &b);
                }
                // The same registers in exchanged roles.
                compare(l, &Rep { rd: x, rs1: y, ..base }, &Rep { rd: y, rs1: x, ..base });
                compare(l, &Rep { rs1: x, rs2: y, ..base }, &Rep { rs1: y, rs2: x, ..base });
            }
        }
        for x in imms {
            for y in imms {
                let im = |v: Option<i32>| Rep { himm: v.is_some(), imm: v.unwrap_or(0), ..base };
                compare(l, &im(x), &im(y));
            }
        }
        for n in 0..8 * 64 {
            compare(l, &base, &changed(&base, n));
            compare(l, &base, &base);
        }
    });
    // Every decoded instruction: equal to its copy, to another decoding of the word, and to no
    // instruction that differs in one field.
    for width in [32u8, 16] {
        let n = if width == 32 { 1 << 32 } else { 1 << 16 };
        run.each(if width == 32 { "words32" } else { "words16" }, width, n, |w, l| {
            let d = decode(width, w as u32, 1);
            let g = rep(&d);
            let Ok(i) = &d else { return };
            if g.op == UNKNOWN || g.fmt == 255 {
                return;
            }
            l.counts[1] += 1;
            let copy = build(&g);
            let again = decode(width, w as u32, 1);
            if rep(&again) == g && (again != d || d != again) || *i != copy || copy != *i || !(*i == copy) {
                l.bad(width, w, 1, || format!("{} is not equal to an instruction with the same fields", show(&g)));
            }
            let mut h = w.wrapping_mul(0x9e37_79b9_7f4a_7c15);
            h ^= h >> 29;
            let c = changed(&g, h);
            let o = build(&c);
            if *i == o || o == *i || !(*i != o) {
                l.bad(width, w, 1, || format!("{} is equal to {}", show(&g), show(&c)));
            }
        });
    }
    // Replies: an error equals no instruction and no other error.
    let p32 = pool32(sp, run.seed, 40, 20_000);
    run.each("replies", 32, p32.len() as u64, |i, l| {
        let w = p32[i as usize];
        let v = p32[(i as usize * 31 + 7) % p32.len()];
        let (a, b) = (decode(32, w, 0), decode(32, v, 1));
        let want = rep(&a) == rep(&b);
        if rep(&a).op == UNKNOWN && a.is_ok() {
            return;
        }
        judge(l, a == b, a != b, want, &|| format!("replies for {w:#x} and {v:#x}"));
        judge(l, b == a, b != a, want, &|| format!("replies for {v:#x} and {w:#x}"));
    });
}

fn text_of(i: &raki::Instruction) -> Option<Vec<u8>> {
    let mut b = Buf::new();
    write!(b, "{i}").ok()?;
    Some(b.text().to_vec())
}

/// C22: instructions built by hand print like decoded ones.
pub fn built(sp: &Spec, run: &Run, deep: usize) {
    // Decoded and rebuilt, with what is not displayed changed.
    let shown = |op: u16| {
        let t = &sp.ops[op as usize].tpl;
        [
            t.iter().any(|t| matches!(t, Tok::Rd)),
            t.iter().any(|t| matches!(t, Tok::Rs1)),
            t.iter().any(|t| matches!(t, Tok::Rs2 | Tok::CsrX | Tok::CsrD)),
            t.iter().any(|t| matches!(t, Tok::Imm | Tok::ImmX)),
        ]
    };
    let shown: Vec<[bool; 4]> = (0..OPS.len() as u16).map(shown).collect();
    let hide = |g: &Rep, h: u64| {
        let mut c = *g;
        let s = &shown[g.op as usize];
        let any = |n: u64| [NONE, 0, 31, 32, 4095, i64::MAX, (n % 32) as i64, g.rd][n as usize % 8];
        if !s[0] {
            c.rd = any(h);
        }
        if !s[1] {
            c.rs1 = any(h >> 8);
        }
        if !s[2] {
            c.rs2 = any(h >> 16);
        }
        if !s[3] {
            c.himm = h >> 24 & 1 == 1;
            c.imm = if c.himm { (h >> 25) as i32 } else { 0 };
        }
        c.compressed = h >> 60 & 1 == 1;
        c
    };
    for width in [32u8, 16] {
        let n = if width == 32 { 1 << 32 } else { 1 << 16 };
        run.each(if width == 32 { "words32" } else { "words16" }, width, n, |w, l| {
            // Every 16-bit word; one in four 32-bit words, another quarter per seed.
            if width == 32 && deep == 1 && (w.wrapping_mul(0x9e37_79b9_7f4a_7c15) >> 40 ^ run.seed) & 3 != 0 {
                return;
            }
            let d = decode(width, w as u32, 1);
            let g = rep(&d);
            let Ok(i) = &d else { return };
            if g.op == UNKNOWN || g.fmt != sp.ops[g.op as usize].fmt || sp.operands(&g, &mut Vec::new()).is_none() {
                return;
            }
            let mut b = Buf::new();
            let Ok(Ok(())) = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| write!(b, "{i}"))) else { return };
            let mut h = w.wrapping_mul(0x9e37_79b9_7f4a_7c15) ^ run.seed;
            h ^= h >> 31;
            for c in [g, hide(&g, h)] {
                l.counts[0] += 1;
                let mut t = Buf::new();
                let ok = write!(t, "{}", build(&c)).is_ok();
                if !ok || t.text() != b.text() {
                    l.bad(width, w, 1, || format!("{} built by hand prints {:?}, decoded {:?}", show(&c), t.string(), b.string()));
                }
            }
        });
    }
    // Operands no word encodes.
    let imms: Vec<i32> = (0..32)
        .flat_map(|b| [1i32 << b, (1i32 << b).wrapping_neg(), (1i32 << b).wrapping_sub(1), !(1 << b)])
        .chain((0..10).flat_map(|d| [10i32.pow(d), -10i32.pow(d), 10i32.pow(d) - 1, 1 - 10i32.pow(d)]))
        .chain([0, i32::MIN, i32::MAX, -276, 12345, -99999, 0x0fed_cba9])
        .collect();
    run.each("built", 0, OPS.len() as u64, |op, l| {
        let op = op as u16;
        let o = &sp.ops[op as usize];
        let full = |rd: i64, rs1: i64, rs2: i64, imm: i32| Rep { ok: true, err: 254, op, rd, rs1, rs2, himm: true, imm, fmt: o.fmt, compressed: o.width == 16 };
        let mut name = Vec::new();
        let mut b = Buf::new();
        if write!(b, "{}", op_make(op)).is_ok() {
            name.extend_from_slice(b.text());
        }
        let want = |r: &Rep| {
            let mut t = name.clone();
            if !o.tpl.is_empty() {
                t.push(b' ');
            }
            sp.operands(r, &mut t).map(|()| t)
        };
        // Only where the text of ordinary operands is as documented (that is C16 and C19).
        let plain = full(10, 11, 12, 8);
        if std::panic::catch_unwind(|| text_of(&build(&plain))).ok().flatten() != want(&plain) {
            return;
        }
        let regs: Vec<i64> = (0..32).collect();
        let mut rng = Rng(run.seed ^ u64::from(op) << 20);
        let mut all = Vec::new();
        for &m in &imms {
            for _ in 0..8 * deep {
                all.push(full(rng.below(32) as i64, rng.below(32) as i64, rng.below(32) as i64, m));
            }
        }
        for &a in &regs {
            for &b in &regs {
                all.push(full(a, b, rng.below(32) as i64, 8));
                all.push(full(a, rng.below(32) as i64, b, 8));
                all.push(full(rng.below(32) as i64, a, b, 8));
            }
        }
        for _ in 0..20_000 * deep {
            all.push(full(rng.below(32) as i64, rng.below(32) as i64, rng.below(32) as i64, rng.next() as i32 >> rng.below(31)));
        }
        if o.zicsr {
            for c in 0..4096 {
                all.push(full(rng.below(32) as i64, rng.below(32) as i64, c, rng.below(32) as i32));
            }
        }
        for r in all {
            let r = hide(&r, rng.next());
            l.counts[1] += 1;
            let t = text_of(&build(&r));
            let want = want(&r);
            if want.is_some() && t != want {
                l.bad(0, u64::from(op), 2, || {
                    let s = |x: &Option<Vec<u8>>| x.as_ref().map(|x| String::from_utf8_lossy(x).into_owned());
                    format!("{} built by hand prints {:?}, specified {:?}", show(&r), s(&t), s(&want))
                });
            }
        }
    });
}

/// Calls generated and answered by TLC, replayed into the crate: the part of the reply the
/// property is about.
pub fn replay(sp: &Spec, run: &Run, p: &str, vs: &[Vector]) {
    let asm = crate::asm::Assembler::new(sp);
    run.each("vectors_replayed", 0, vs.len() as u64, |i, l| {
        let v = &vs[i as usize];
        if v.dev || matches!(p, "C01" | "C02" | "C03" | "C04") && v.width != 32 || matches!(p, "C05" | "C06" | "C07") && v.width != 16 {
            return;
        }
        let d = decode(v.width, v.w, v.isa);
        let (g, a) = (rep(&d), v.rep);
        let accepted = g.ok && a.ok;
        let text = || d.as_ref().map(ToString::to_string).unwrap_or_default();
        let same_op = accepted && g.op == a.op;
        let good = match p {
            "C01" => g.ok == a.ok,
            "C02" => !accepted || g.op == a.op,
            "C03" | "C06" => !accepted || (g.rd, g.rs1, g.rs2) == (a.rd, a.rs1, a.rs2),
            "C04" | "C07" => !accepted || (g.himm, g.imm) == (a.himm, a.imm),
            "C05" => g.ok == a.ok && g.op == a.op,
            "C10" => g.ok || a.ok || g.err == a.err,
            "C11" => !accepted || g.compressed == a.compressed,
            "C12" => v.isa == 0 || (v.w & 3 == 3) != (v.width == 32) || rep(&raki::Instruction::try_from(v.w as usize)) == g,
            "C14" => !same_op || g.fmt == a.fmt,
            "C15" => !g.ok || !text().is_empty(),
            "C16" => !same_op || text().split(' ').next() == v.text.split(' ').next(),
            "C20" => {
                if a.ok && v.width == 16 {
                    // TLC's own expansion.
                    let long = v.long;
                    let want = sp.ops[a.op as usize].expand.as_ref().map(|e| e.apply(&g));
                    let x = get(32, long, v.isa);
                    !same_op || want.is_some_and(|n| x.ok && (x.op, x.rd, x.rs1, x.rs2, x.himm, x.imm) == (n.op, n.rd, n.rs1, n.rs2, n.himm, n.imm))
                } else {
                    true
                }
            }
            "C21" => g != a || !g.ok || d == Ok(build(&a)),
            "C22" => g != a || !g.ok || build(&a).to_string() == text(),
            "C23" => g != a || !g.ok || crate::more::same_fields(&format!("{:?}", build(&a)), &v.debug),
            "C26" => !accepted || asm.stands_for(text().as_bytes(), v.width, v.w, v.isa, UNKNOWN),
            "C24" => !accepted || sp.ops[a.op as usize].span[v.isa].admits(&a),
            "C19" => g != a || text().split_once(' ').map(|t| t.1) == v.text.split_once(' ').map(|t| t.1),
            _ => true,
        };
        l.counts[6] += 1;
        if !good {
            l.bad(v.width, u64::from(v.w), v.isa, || {
                format!("gave {} {:?}, TLC computed {} {:?}", show(&g), text(), show(&a), v.text)
            });
        }
    });

}
