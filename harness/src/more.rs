//! Debug texts, operand ranges, and printing into a writer with limited room.

use crate::api::*;
use crate::check::{changed, pool32, show, Buf};
use crate::json::quote;
use crate::run::*;
use crate::spec::*;
use crate::trace::Log;
use std::fmt::Write as _;
use std::panic::catch_unwind;
use std::sync::atomic::{AtomicU64, Ordering::Relaxed};

/// Debug texts of instructions with the same fields, in whichever order.
pub fn same_fields(a: &str, b: &str) -> bool {
    fn fields(s: &str) -> Option<Vec<&str>> {
        let mut v: Vec<&str> = s.strip_prefix("Instruction { ")?.strip_suffix(" }")?.split(", ").collect();
        v.sort_unstable();
        Some(v)
    }
    a == b || fields(a).is_some() && fields(a) == fields(b)
}

/// `{:#?}` on one line.
fn flat(s: &str) -> String {
    let mut t: String = s.chars().filter(|c| !c.is_whitespace()).collect();
    while let Some(i) = t.find(",)").or_else(|| t.find(",}")) {
        t.remove(i);
    }
    t.replace("Instruction{", "Instruction { ").replace('}', " }").replace(',', ", ").replace(':', ": ")
}

fn hash(w: u64) -> u64 {
    let h = w.wrapping_mul(0x9e37_79b9_7f4a_7c15);
    h ^ h >> 31
}

/// C23.
pub fn debug(sp: &Spec, run: &Run, deep: usize) {
    // Formatting options: some text and no panic (which counts as a violation of its own).
    fn with_options(l: &mut Local, width: u8, w: u64, x: &dyn std::fmt::Debug) {
        let mut t = String::new();
        for how in 0..8 {
            t.clear();
            let ok = match how {
                0 => write!(t, "{x:5?}"),
                1 => write!(t, "{x:x?}"),
                2 => write!(t, "{x:+.20?}"),
                3 => write!(t, "{x:->70?}"),
                4 => write!(t, "{x:#08X?}"),
                5 => write!(t, "{x:#^300.200?}"),
                6 => write!(t, "{x:1?}"),
                _ => write!(t, "{x:#.9?}"),
            };
            if ok.is_err() || t.is_empty() {
                l.bad(width, w, 2, || format!("{x:?} with formatting options ({how}) has the debug text {t:?}"));
            }
        }
    }
    let names = |l: &mut Local, what: &str, got: [String; 2], want: &str| {
        l.counts[1] += 1;
        if got[0] != want || flat(&got[1]) != want {
            l.bad(0, 0, 2, || format!("Debug of {what} is {:?} and {:?}", got[0], got[1]));
        }
    };
    run.each("opcodes", 0, OPS.len() as u64, |op, l| {
        let o = op_make(op as u16);
        names(l, op_name(op as u16), [format!("{o:?}"), format!("{o:#?}")], &sp.ops[op as usize].debug);
        with_options(l, 0, op, &o);
        let [_, short, long] = op_bare(op as u16);
        let name = op_name(op as u16);
        names(l, &format!("bare {name}"), [short, long], name.split_once('.').unwrap().1);
    });
    run.each("formats", 0, FMTS.len() as u64, |f, l| {
        let x = fmt_make(f as u8);
        names(l, fmt_name(f as u8), [format!("{x:?}"), format!("{x:#?}")], fmt_name(f as u8));
        with_options(l, 0, f, &x);
    });
    run.each("errors", 0, ERRS.len() as u64, |e, l| {
        let x = err_make(e as u8);
        names(l, err_name(e as u8), [format!("{x:?}"), format!("{x:#?}")], err_name(e as u8));
        with_options(l, 0, e, &x);
    });
    let judge = |width: u8, w: u64, k: usize, i: &raki::Instruction, g: &Rep, l: &mut Local| {
        if g.op == UNKNOWN || g.fmt == 255 {
            return;
        }
        l.counts[0] += 1;
        let mut b = Buf::new();
        let ok = write!(b, "{i:?}").is_ok();
        let mut want = Vec::with_capacity(160);
        sp.debug(g, &mut want);
        if !ok || b.text() != want && !same_fields(&b.string(), &String::from_utf8_lossy(&want)) {
            l.bad(width, w, k, || format!("{} has the debug text {:?}", show(g), b.string()));
        }
    };
    let long = |width: u8, w: u64, i: &raki::Instruction, g: &Rep, l: &mut Local| {
        if g.op == UNKNOWN || g.fmt == 255 {
            return;
        }
        l.counts[2] += 1;
        let mut want = Vec::new();
        sp.debug(g, &mut want);
        let t = format!("{i:#?}");
        if !same_fields(&flat(&t), &String::from_utf8_lossy(&want)) {
            l.bad(width, w, 2, || format!("{} has the long debug text {t:?}", show(g)));
        }
        with_options(l, width, w, i);
    };
    // Every word.
    for width in [32u8, 16] {
        let n = if width == 32 { 1 << 32 } else { 1 << 16 };
        run.each(if width == 32 { "words32" } else { "words16" }, width, n, |w, l| {
            let mut last = None;
            for k in [1, 0] {
                let d = decode(width, w as u32, k);
                let g = rep(&d);
                if let Ok(i) = &d {
                    if last != Some(g) {
                        judge(width, w, k, i, &g, l);
                        if width == 16 {
                            long(width, w, i, &g, l);
                        }
                    }
                    last = Some(g);
                }
            }
        });
    }
    // Structured words, and instructions that differ from them in one field.
    let pool = pool32(sp, run.seed, 40 * deep, 20_000);
    run.each("pool32", 32, pool.len() as u64, |i, l| {
        let w = pool[i as usize];
        for k in 0..2 {
            let d = decode(32, w, k);
            let g = rep(&d);
            let Ok(ins) = &d else { continue };
            judge(32, u64::from(w), k, ins, &g, l);
            long(32, u64::from(w), ins, &g, l);
            if g.op == UNKNOWN || g.fmt == 255 {
                continue;
            }
            for n in 0..16 {
                let c = changed(&g, n + 8 * (hash(u64::from(w) + n) >> 8));
                judge(0, u64::from(w), 2, &build(&c), &c, l);
            }
        }
    });
    run.each("imms", 0, OPS.len() as u64, |op, l| {
        let o = &sp.ops[op as usize];
        for imm in [0, 1, -1, 9, 10, 99, 100, 2047, -2048, 4096, i32::MAX, i32::MIN, i32::MIN + 1] {
            for reg in [NONE, 0, 9, 10, 31, 32, 4095, 1 << 40, i64::MAX] {
                let r = Rep { ok: true, err: 254, op: op as u16, rd: reg, rs1: reg, rs2: reg, himm: true, imm, fmt: o.fmt, compressed: imm & 1 == 0 };
                judge(0, op, 2, &build(&r), &r, l);
            }
        }
    });
}

/// The values seen of one operand.
struct Seen(Vec<AtomicU64>);
impl Seen {
    fn new(n: usize) -> Self {
        Seen((0..n.div_ceil(64)).map(|_| AtomicU64::new(0)).collect())
    }
    #[inline]
    fn set(&self, i: usize) {
        let (w, b) = (&self.0[i >> 6], 1u64 << (i & 63));
        if w.load(Relaxed) & b == 0 {
            w.fetch_or(b, Relaxed);
        }
    }
    fn has(&self, i: usize) -> bool {
        self.0[i >> 6].load(Relaxed) >> (i & 63) & 1 == 1
    }
}

/// C24: operands stay in their ranges, and take every value of them.
pub fn ranges(sp: &Spec, run: &Run) {
    let seen: Vec<[Seen; 8]> = sp
        .ops
        .iter()
        .map(|o| {
            let r = |i: usize| Seen::new(o.regs[i].0.len());
            let m = |k: usize| Seen::new(if o.span[k].has { o.span[k].values() } else { 0 });
            [r(0), r(1), r(2), m(0), r(0), r(1), r(2), m(1)]
        })
        .collect();
    for width in [32u8, 16] {
        let n = if width == 32 { 1 << 32 } else { 1 << 16 };
        run.each(if width == 32 { "words32" } else { "words16" }, width, n, |w, l| {
            for k in 0..2 {
                let g = rep(&decode(width, w as u32, k));
                if !g.ok || g.op == UNKNOWN || matches!(sp.leaf(width, w as u32, k), Leaf::Dev(_)) {
                    continue;
                }
                l.counts[0] += 1;
                let o = &sp.ops[g.op as usize];
                let regs = [g.rd, g.rs1, g.rs2];
                let mut good = true;
                for i in 0..3 {
                    if !o.regs[i].admits(regs[i]) {
                        good = false;
                    } else if regs[i] != NONE {
                        seen[g.op as usize][4 * k + i].set(regs[i] as usize);
                    }
                }
                if !o.span[k].admits(&g) {
                    good = false;
                } else if g.himm {
                    seen[g.op as usize][4 * k + 3].set(o.span[k].index(g.imm));
                }
                if !good {
                    l.bad(width, w, k, || format!("{}: an operand outside its range", show(&g)));
                }
            }
        });
    }
    if run.all.lock().unwrap().total > 0 {
        return;
    }
    run.each("opcodes", 0, OPS.len() as u64, |op, l| {
        let o = &sp.ops[op as usize];
        let s = &seen[op as usize];
        for k in (0..2).filter(|&k| o.own[k]) {
            for i in 0..3 {
                for (v, _) in o.regs[i].0.iter().enumerate().filter(|x| *x.1) {
                    l.counts[1] += 1;
                    if !s[4 * k + i].has(v) {
                        l.bad(0, op, k, || format!("no word gives {} with {} = {v}", op_name(op as u16), PARTS[i]));
                    }
                }
            }
            if o.span[k].has {
                for i in 0..o.span[k].values() {
                    let v = o.span[k].value(i);
                    l.counts[1] += 1;
                    if !s[4 * k + 3].has(i) && (v != 0 || o.span[k].zero) {
                        l.bad(0, op, k, || format!("no word gives {} with immediate {v}", op_name(op as u16)));
                    }
                }
            }
        }
    });
}

/// A writer that takes `room` bytes and then refuses.
struct Room<'a> {
    room: usize,
    got: Buf,
    refused: bool,
    late: usize,
    pieces: Option<&'a mut Vec<(String, bool)>>,
}
impl std::fmt::Write for Room<'_> {
    fn write_str(&mut self, s: &str) -> std::fmt::Result {
        if !s.is_empty() {
            self.late += usize::from(self.refused);
            let fit = s.len().min(self.room - self.got.n);
            let n = self.got.n;
            self.got.b[n..n + fit].copy_from_slice(&s.as_bytes()[..fit]);
            self.got.n += fit;
            self.refused |= fit < s.len();
        }
        let ok = s.is_empty() || !self.refused;
        if let Some(p) = &mut self.pieces {
            p.push((s.to_string(), ok));
        }
        ok.then_some(()).ok_or(std::fmt::Error)
    }
}

fn rooms(width: u8, w: u64, what: &dyn std::fmt::Display, all: bool, l: &mut Local) {
    let mut b = Buf::new();
    if write!(b, "{what}").is_err() {
        l.bad(width, w, 2, || "printing into a writer with enough room failed".into());
        return;
    }
    let len = b.n;
    let one = hash(w) as usize % (len + 1);
    for room in if all { 0..=len + 1 } else { one..=one } {
        l.counts[1] += 1;
        let mut r = Room { room, got: Buf::new(), refused: false, late: 0, pieces: None };
        let ok = write!(r, "{what}").is_ok();
        if ok != (len <= room) || r.got.text() != &b.text()[..len.min(room)] || r.late > 0 {
            l.bad(width, w, 2, || {
                format!("{:?} into room for {room}: {}, wrote {:?}, {} pieces after the first refusal", b.string(), if ok { "success" } else { "failure" }, r.got.string(), r.late)
            });
            return;
        }
    }
}

/// C25.
pub fn room(sp: &Spec, run: &Run, deep: usize) {
    run.each("opcodes", 0, OPS.len() as u64, |op, l| rooms(0, op, &op_make(op as u16), true, l));
    run.each("words16", 16, 1 << 16, |w, l| {
        for k in 0..2 {
            if let Ok(i) = decode(16, w as u32, k) {
                l.counts[0] += 1;
                rooms(16, w, &i, true, l);
            }
        }
    });
    let pool = pool32(sp, run.seed, 40 * deep, 20_000);
    run.each("pool32", 32, pool.len() as u64, |i, l| {
        let w = pool[i as usize];
        for k in 0..2 {
            if let Ok(ins) = decode(32, w, k) {
                l.counts[0] += 1;
                rooms(32, u64::from(w), &ins, true, l);
            }
        }
    });
    // One room for a part of all words.
    let part = if deep > 1 { 0 } else { 7 };
    run.each("words32", 32, 1 << 32, |w, l| {
        if (hash(w) >> 7 ^ run.seed) & part == 0 {
            if let Ok(ins) = decode(32, w as u32, 1) {
                l.counts[0] += 1;
                rooms(32, w, &ins, false, l);
            }
        }
    });
}

/// Printing into limited writers, piece by piece.
pub fn writers(sp: &Spec, seed: u64, deep: usize) -> Log {
    let mut log = Log::default();
    let mut rng = Rng(seed ^ 0x3117);
    let mut record = |what: &dyn std::fmt::Display, every: bool| {
        let Ok(Ok(text)) = catch_unwind(std::panic::AssertUnwindSafe(|| {
            let mut b = Buf::new();
            write!(b, "{what}").map(|()| b.string())
        })) else {
            return;
        };
        let n = text.len();
        let list: Vec<usize> = if every { (0..=n + 1).collect() } else { vec![rng.below(n + 2), n, n - 1] };
        for room in list {
            let mut pieces = Vec::new();
            let mut r = Room { room, got: Buf::new(), refused: false, late: 0, pieces: Some(&mut pieces) };
            let Ok(ok) = catch_unwind(std::panic::AssertUnwindSafe(|| write!(r, "{what}").is_ok())) else { return };
            let got = r.got.string();
            log.lines.push(format!("{{\"ev\":\"open\",\"text\":{},\"room\":{room}}}", quote(&text)));
            for (s, ok) in pieces {
                log.lines.push(format!("{{\"ev\":\"piece\",\"s\":{},\"ok\":{ok}}}", quote(&s)));
            }
            log.lines.push(format!("{{\"ev\":\"close\",\"ok\":{ok},\"got\":{}}}", quote(&got)));
            log.episodes += 1;
        }
    };
    for op in 0..OPS.len() as u16 {
        record(&op_make(op), false);
    }
    for (i, r) in sp.rows.iter().enumerate() {
        for j in 0..2 * deep {
            let w = r.v | (hash((i * 1000 + j) as u64 ^ seed << 20) as u32 & !r.m);
            if let Ok(Ok(ins)) = catch_unwind(|| decode(r.width, w & if r.width == 16 { 0xffff } else { u32::MAX }, 1)) {
                record(&ins, j == 0);
            }
        }
    }
    log
}
