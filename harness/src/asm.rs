//! Reading printed text as assembly, as spec/Assembler.tla does.

use crate::api::*;
use crate::check::{pool32, show, Buf};
use crate::run::*;
use crate::spec::*;
use std::collections::HashMap;
use std::fmt::Write as _;

#[derive(Clone, Copy, PartialEq)]
enum Slot {
    Rd,
    Rs1,
    Rs2,
    Csr,
    Imm,
}
enum Want {
    Word(Vec<u8>),
    Slot(Slot),
}

pub struct Assembler<'a> {
    sp: &'a Spec,
    names: HashMap<Vec<u8>, u16>,
    lower: Vec<Vec<u8>>,
    want: Vec<Vec<Want>>,
    hidden: Vec<[u32; 2]>,
    regs: HashMap<Vec<u8>, i64>,
}

fn cut(c: u8) -> bool {
    matches!(c, b' ' | b',' | b':' | b'(' | b')' | b'{' | b'}')
}
fn words(s: &[u8]) -> impl Iterator<Item = &[u8]> {
    s.split(|c| cut(*c)).filter(|w| !w.is_empty())
}

fn digits(s: &[u8], base: i64, max: usize) -> Option<i64> {
    if s.is_empty() || s.len() > max {
        return None;
    }
    s.iter().try_fold(0i64, |n, c| {
        let d = match c {
            b'0'..=b'9' => c - b'0',
            b'a'..=b'f' => c - b'a' + 10,
            _ => 99,
        };
        (i64::from(d) < base).then_some(n * base + i64::from(d))
    })
}
fn number(s: &[u8]) -> Option<i64> {
    if let Some(h) = s.strip_prefix(b"0x") {
        digits(h, 16, 8).map(|n| i64::from(n as u32 as i32))
    } else if let Some(n) = s.strip_prefix(b"-") {
        digits(n, 10, 9).map(|n| -n)
    } else {
        digits(s, 10, 9)
    }
}

impl<'a> Assembler<'a> {
    pub fn new(sp: &'a Spec) -> Self {
        let lower: Vec<Vec<u8>> = sp.ops.iter().map(|o| o.mn.to_ascii_lowercase().into_bytes()).collect();
        let want: Vec<Vec<Want>> = sp
            .ops
            .iter()
            .map(|o| {
                let mut v = Vec::new();
                for t in &o.tpl {
                    let slot = match t {
                        Tok::Lit(s) => {
                            v.extend(words(s.as_bytes()).map(|w| Want::Word(w.to_vec())));
                            continue;
                        }
                        Tok::Rd => Slot::Rd,
                        Tok::Rs1 => Slot::Rs1,
                        Tok::Rs2 => Slot::Rs2,
                        Tok::CsrX | Tok::CsrD => Slot::Csr,
                        Tok::Imm | Tok::ImmX => Slot::Imm,
                    };
                    v.push(Want::Slot(slot));
                }
                v
            })
            .collect();
        let hidden = sp
            .ops
            .iter()
            .zip(&want)
            .map(|(o, want)| {
                [0, 1].map(|k| {
                    let r = &o.rows[k];
                    let mut told = r.m;
                    for w in want {
                        told |= match w {
                            Want::Word(_) => 0,
                            Want::Slot(Slot::Rd) => r.rd.mask(),
                            Want::Slot(Slot::Rs1) => r.rs1.mask(),
                            Want::Slot(Slot::Rs2 | Slot::Csr) => r.rs2.mask(),
                            Want::Slot(Slot::Imm) => r.pairs.iter().fold(0, |m, p| m | 1 << p.0),
                        };
                    }
                    !told & if r.width == 16 { 0xffff } else { u32::MAX }
                })
            })
            .collect();
        let mut regs: HashMap<Vec<u8>, i64> = (0..32).map(|i| (format!("x{i}").into_bytes(), i)).collect();
        regs.extend(sp.abi.iter().enumerate().map(|(i, n)| (n.clone().into_bytes(), i as i64)));
        regs.insert(b"fp".to_vec(), 8);
        let names = lower.iter().enumerate().map(|(i, n)| (n.clone(), i as u16)).collect();
        Assembler { sp, names, lower, want, hidden, regs }
    }

    /// Opcode and word of a line; `guess` is only a hint.
    fn assemble(&self, text: &[u8], isa: usize, guess: u16) -> Option<(u16, u32)> {
        let mut ws = words(text);
        let name = ws.next()?;
        let op = match self.lower.get(guess as usize) {
            Some(n) if n.eq_ignore_ascii_case(name) => guess,
            _ => *self.names.get(&name.to_ascii_lowercase())?,
        };
        let o = &self.sp.ops[op as usize];
        if !o.own[isa] {
            return None;
        }
        let r = &o.rows[isa];
        let mut w = r.v;
        let mut seen: [Option<i64>; 4] = [None; 4];
        for want in &self.want[op as usize] {
            let s = ws.next()?;
            let (at, v) = match want {
                Want::Word(l) => {
                    if s != &l[..] {
                        return None;
                    }
                    continue;
                }
                Want::Slot(Slot::Imm) => (3, number(s)?),
                Want::Slot(Slot::Csr) => (2, number(s)?),
                Want::Slot(x) => (*x as usize, *self.regs.get(s)?),
            };
            if seen[at].is_some_and(|x| x != v) {
                return None;
            }
            seen[at] = Some(v);
            if at == 3 {
                let imm = i32::try_from(v).ok()?;
                if !o.span[isa].takes(v) {
                    return None;
                }
                for &(s, t) in &r.pairs {
                    w |= ((imm as u32 >> t) & 1) << s;
                }
            } else {
                if !o.regs[at].admits(v) {
                    return None;
                }
                w |= [r.rd, r.rs1, r.rs2][at].put(v)?;
            }
        }
        ws.next().is_none().then_some((op, w))
    }

    /// Does the text stand for this word?
    pub fn stands_for(&self, text: &[u8], width: u8, w: u32, isa: usize, guess: u16) -> bool {
        self.assemble(text, isa, guess).is_some_and(|(op, x)| self.sp.ops[op as usize].width == width && x == w & !self.hidden[op as usize][isa])
    }
}

/// C26: the text of every decoded word, assembled, is the word.
pub fn check(sp: &Spec, run: &Run, deep: usize) {
    let asm = Assembler::new(sp);
    run.add("assembler", self_test(sp, &asm, run.seed, deep));
    let judge = |width: u8, w: u32, k: usize, l: &mut Local| {
        let d = decode(width, w, k);
        let Ok(i) = &d else { return };
        if matches!(sp.leaf(width, w, k), Leaf::Dev(_)) {
            return;
        }
        l.counts[0] += 1;
        let mut b = Buf::new();
        let ok = write!(b, "{i}").is_ok();
        if !ok || !asm.stands_for(b.text(), width, w, k, op_index(&i.opc)) {
            l.bad(width, u64::from(w), k, || format!("{} prints {:?}, which is not an assembly of the word", show(&rep(&d)), b.string()));
        }
    };
    for width in [16u8, 32] {
        let n = if width == 32 { 1 << 32 } else { 1 << 16 };
        run.each(if width == 32 { "words32" } else { "words16" }, width, n, |w, l| {
            for k in 0..2 {
                judge(width, w as u32, k, l);
            }
        });
    }
}

/// Reading what the specification prints gives the word back, and nothing else.
fn self_test(sp: &Spec, asm: &Assembler, seed: u64, deep: usize) -> u64 {
    let mut n = 0;
    for w in pool32(sp, seed, 10 * deep, 5000) {
        for k in 0..2 {
            let a = sp.reply(32, w, k);
            if !a.ok || matches!(sp.leaf(32, w, k), Leaf::Dev(_)) {
                continue;
            }
            let o = &sp.ops[a.op as usize];
            let mut t = o.mn.clone().into_bytes();
            if !o.tpl.is_empty() {
                t.push(b' ');
                sp.operands(&a, &mut t);
            }
            let hidden = asm.hidden[a.op as usize][k];
            assert!(asm.stands_for(&t, 32, w, k, UNKNOWN), "{} {w:#x}", String::from_utf8_lossy(&t));
            for b in 0..32 {
                let same = asm.stands_for(&t, 32, w ^ 1 << b, k, 0);
                assert_eq!(same, hidden >> b & 1 == 1, "{} {w:#x} bit {b}", String::from_utf8_lossy(&t));
            }
            n += 1;
        }
    }
    n
}
