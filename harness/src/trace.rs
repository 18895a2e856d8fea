//! Records runs of the crate as traces for TLC: one line per call and one per return.

use crate::api::*;
use crate::check::{pool32, show, Buf};
use crate::json::{quote, J};
use crate::pure::digest;
use crate::run::Rng;
use crate::spec::*;
use std::collections::HashMap;
use std::fmt::Write as _;
use std::panic::catch_unwind;
use std::sync::Mutex;

fn ins_json(r: &Rep) -> String {
    let c = |x: i64| x.clamp(-1, 0x7fff_ffff);
    format!(
        "{{\"op\":{},\"rd\":{},\"rs1\":{},\"rs2\":{},\"himm\":{},\"imm\":{},\"fmt\":{},\"compressed\":{}}}",
        quote(if r.ok { op_name(r.op) } else { "" }),
        c(r.rd),
        c(r.rs1),
        c(r.rs2),
        r.himm,
        r.imm,
        quote(if r.ok { fmt_name(r.fmt) } else { "" }),
        r.compressed
    )
}

#[derive(Clone)]
pub struct Req {
    pub k: &'static str,
    pub width: u8,
    pub w: u32,
    pub isa: usize,
    op: Option<u16>,
    q: u64,
    pub ins: Rep,
    other: Rep,
}

impl Rep {
    fn fields(&self) -> [i64; 10] {
        [
            self.ok as i64,
            self.err as i64,
            self.op as i64,
            self.rd,
            self.rs1,
            self.rs2,
            self.himm as i64,
            self.imm as i64,
            self.fmt as i64,
            self.compressed as i64,
        ]
    }
    fn of(f: &[i64]) -> Rep {
        Rep {
            ok: f[0] == 1,
            err: f[1] as u8,
            op: f[2] as u16,
            rd: f[3],
            rs1: f[4],
            rs2: f[5],
            himm: f[6] == 1,
            imm: f[7] as i32,
            fmt: f[8] as u8,
            compressed: f[9] == 1,
        }
    }
    fn of_json(j: &J) -> Rep {
        let (op, fmt) = (j.get("op").str(), j.get("fmt").str());
        if op.is_empty() {
            return REFUSED;
        }
        Rep {
            ok: true,
            err: REFUSED.err,
            op: OPS.iter().position(|x| *x == op).expect("opcode") as u16,
            rd: j.get("rd").num(),
            rs1: j.get("rs1").num(),
            rs2: j.get("rs2").num(),
            himm: j.get("himm").bool(),
            imm: j.get("imm").num() as i32,
            fmt: FMTS.iter().position(|x| *x == fmt).expect("format") as u8,
            compressed: j.get("compressed").bool(),
        }
    }
}

const KINDS: [&str; 16] = ["pretty", "debug", "debugop", "decode", "opcode", "rd", "rs1", "rs2", "imm", "convert", "print", "eqins", "eqop", "eqfmt", "name", "format"];
fn kind(k: &str) -> &'static str {
    KINDS.iter().find(|x| **x == k).expect("kind")
}

impl Req {
    /// The request as one word of text, for a command line.
    pub fn line(&self) -> String {
        let mut s = format!("{},{},{},{},{},{}", self.k, self.width, self.w, self.isa, self.op.map_or(-1, i64::from), self.q);
        for x in self.ins.fields().iter().chain(&self.other.fields()) {
            s.push_str(&format!(",{x}"));
        }
        s
    }
    pub fn of_line(s: &str) -> Req {
        let p: Vec<&str> = s.split(',').collect();
        let n: Vec<i64> = p[6..].iter().map(|x| x.parse().expect("number")).collect();
        let op: i64 = p[4].parse().expect("opcode");
        Req {
            k: kind(p[0]),
            width: p[1].parse().expect("width"),
            w: p[2].parse().expect("word"),
            isa: p[3].parse().expect("isa"),
            op: u16::try_from(op).ok(),
            q: p[5].parse().expect("integer"),
            ins: Rep::of(&n[..10]),
            other: Rep::of(&n[10..]),
        }
    }
    /// A request written by TLC.
    pub fn of_json(j: &J) -> Req {
        let halves = |j: &J| j.arr().iter().fold(0u64, |a, h| a << 16 | h.num() as u64);
        let op = j.get("op").str();
        Req {
            k: kind(j.get("k").str()),
            width: j.get("width").num() as u8,
            w: halves(j.get("w")) as u32,
            isa: usize::from(j.get("isa").num() == 64),
            op: OPS.iter().position(|x| *x == op).map(|x| x as u16),
            q: halves(j.get("q")),
            ins: Rep::of_json(j.get("ins")),
            other: Rep::of_json(j.get("other")),
        }
    }
    pub fn say(&self) -> String {
        match self.k {
            "decode" | "opcode" => format!("{} {:#x}/{} on {}", self.k, self.w, self.width, ["Rv32", "Rv64"][self.isa]),
            "convert" => format!("convert {:#x}", self.q),
            "print" | "debug" | "pretty" => format!("{} {}", self.k, show(&self.ins)),
            "eqins" | "eqop" | "eqfmt" => format!("{} {} and {}", self.k, show(&self.ins), show(&self.other)),
            "name" | "format" | "debugop" => format!("{} {}", self.k, op_name(self.op.unwrap())),
            _ => format!("{} of {:#x}/{} as {} on {}", self.k, self.w, self.width, op_name(self.op.unwrap()), ["Rv32", "Rv64"][self.isa]),
        }
    }
    fn json(&self) -> String {
        format!(
            "{{\"k\":{},\"width\":{},\"w\":[{},{}],\"isa\":{},\"op\":{},\"q\":[{},{},{},{}],\"ins\":{},\"other\":{}}}",
            quote(self.k),
            self.width,
            self.w >> 16,
            self.w & 0xffff,
            if self.isa == 0 { 32 } else { 64 },
            quote(self.op.map_or("", op_name)),
            self.q >> 48,
            self.q >> 32 & 0xffff,
            self.q >> 16 & 0xffff,
            self.q & 0xffff,
            ins_json(&self.ins),
            ins_json(&self.other)
        )
    }
}

const REQ0: Req = Req { k: "none", width: 32, w: 0, isa: 1, op: None, q: 0, ins: REFUSED, other: REFUSED };

pub fn decode_req(width: u8, w: u32, isa: usize) -> Req {
    Req { k: "decode", width, w, isa, ..REQ0 }
}
pub fn opcode_req(width: u8, w: u32, isa: usize) -> Req {
    Req { k: "opcode", width, w, isa, ..REQ0 }
}
pub fn part_req(part: usize, width: u8, w: u32, isa: usize, op: u16) -> Req {
    Req { k: PARTS[part], width, w, isa, op: Some(op), ..REQ0 }
}
pub fn convert_req(q: u64) -> Req {
    Req { k: "convert", q, ..REQ0 }
}
pub fn print_req(ins: Rep) -> Req {
    Req { k: "print", ins, ..REQ0 }
}
pub fn debug_req(ins: Rep) -> Req {
    Req { k: "debug", ins, ..REQ0 }
}
pub fn pretty_req(ins: Rep) -> Req {
    Req { k: "pretty", ins, ..REQ0 }
}
pub fn debugop_req(op: u16) -> Req {
    Req { k: "debugop", op: Some(op), ..REQ0 }
}
pub fn equal_req(k: &'static str, ins: Rep, other: Rep) -> Req {
    Req { k, ins, other, ..REQ0 }
}
pub fn name_req(op: u16) -> Req {
    Req { k: "name", op: Some(op), ..REQ0 }
}
pub fn format_req(op: u16) -> Req {
    Req { k: "format", op: Some(op), ..REQ0 }
}

/// What the crate replied.
#[derive(Clone, PartialEq)]
pub struct Got {
    panic: bool,
    ok: bool,
    e: String,
    v: Rep,
    has: bool,
    n: i64,
    s: String,
}
const GOT0: Got = Got { panic: false, ok: true, e: String::new(), v: REFUSED, has: false, n: 0, s: String::new() };

impl Got {
    /// The reply as one line of text.
    pub fn line(&self) -> String {
        format!("{}{}{} {} {:?} {} {}", u8::from(self.panic), u8::from(self.ok), u8::from(self.has), self.e, self.v.fields(), self.n, self.s.escape_debug())
    }
    fn json(&self) -> String {
        format!(
            "{{\"ok\":{},\"e\":{},\"v\":{},\"has\":{},\"n\":{},\"s\":{},\"panic\":{}}}",
            self.ok,
            quote(&self.e),
            ins_json(&self.v),
            self.has,
            self.n.clamp(-0x8000_0000, 0x7fff_ffff),
            quote(&self.s),
            self.panic
        )
    }
    fn err(e: u8) -> Got {
        Got { ok: false, e: err_name(e).into(), ..GOT0 }
    }
    fn ins(r: Rep) -> Got {
        if r.ok {
            Got { v: r, ..GOT0 }
        } else {
            Got::err(r.err)
        }
    }
}

/// The instruction printed is decoded again from `from`, or built from its fields.
pub fn call(r: &Req, from: Option<(u8, u32, usize)>) -> Got {
    let r = r.clone();
    catch_unwind(move || match r.k {
        "decode" => Got::ins(rep(&decode(r.width, r.w, r.isa))),
        "opcode" => match parse_opcode(r.width, r.w, r.isa) {
            Ok(o) => Got { s: op_name(op_index(&o)).into(), ..GOT0 },
            Err(e) => Got::err(err_index(&e)),
        },
        "convert" => Got::ins(rep(&raki::Instruction::try_from(r.q as usize))),
        "print" | "debug" | "pretty" => {
            let mut b = String::new();
            let ins = match from {
                Some((width, w, k)) => decode(width, w, k).unwrap(),
                None => build(&r.ins),
            };
            let ok = match r.k {
                "print" => write!(b, "{ins}"),
                "debug" => write!(b, "{ins:?}"),
                _ => write!(b, "{ins:#?}"),
            }
            .is_ok();
            Got { ok, s: b, ..GOT0 }
        }
        "debugop" => Got { s: format!("{:?}", op_make(r.op.unwrap())), ..GOT0 },
        "eqins" => Got { has: build(&r.ins) == build(&r.other), ..GOT0 },
        "eqop" => Got { has: op_make(r.ins.op) == op_make(r.other.op), ..GOT0 },
        "eqfmt" => Got { has: fmt_make(r.ins.fmt) == fmt_make(r.other.fmt), ..GOT0 },
        "name" => {
            let mut b = Buf::new();
            let ok = write!(b, "{}", op_make(r.op.unwrap())).is_ok();
            Got { ok, s: b.string(), ..GOT0 }
        }
        "format" => Got { s: fmt_name(fmt_index(&op_make(r.op.unwrap()).get_format())).into(), ..GOT0 },
        p => {
            let part = PARTS.iter().position(|x| *x == p).unwrap();
            match parse_part(part, r.width, r.w, r.isa, &op_make(r.op.unwrap())) {
                Ok(v) => Got { has: v.is_some(), n: v.unwrap_or(0), ..GOT0 },
                Err(e) => Got::err(err_index(&e)),
            }
        }
    })
    .unwrap_or(Got { panic: true, ok: false, ..GOT0 })
}

#[derive(Default)]
pub struct Log {
    pub lines: Vec<String>,
    /// Words (or streams, or requests) the log is about.
    pub episodes: usize,
}

impl Log {
    /// One sequential call; returns its line number and the reply.
    fn call(&mut self, r: &Req, from: Option<(u8, u32, usize)>, refs: &[usize]) -> (usize, Got) {
        self.lines.push(format!("{{\"ev\":\"inv\",\"t\":0,\"req\":{}}}", r.json()));
        let g = call(r, from);
        let inv = self.lines.len();
        self.lines.push(format!("{{\"ev\":\"ret\",\"t\":0,\"inv\":{inv},\"rep\":{},\"refs\":{:?}}}", g.json(), refs));
        (self.lines.len(), g)
    }
    pub fn write(&self, path: &str) {
        let mut t = self.lines.join("\n");
        t.push('\n');
        std::fs::write(path, t).expect("trace");
    }
    pub fn len(&self) -> usize {
        self.lines.len()
    }
}

fn deviates(sp: &Spec, width: u8, w: u32) -> bool {
    (0..2).any(|k| matches!(sp.leaf(width, w, k), Leaf::Dev(_)))
}

/// Words for a trace: per listing row, one-bit neighbours of them, random words.
fn words(sp: &Spec, seed: u64, per_row: usize, random: usize) -> Vec<(u8, u32)> {
    let mut rng = Rng(seed ^ 0xbeef);
    let mut v = Vec::new();
    for r in &sp.rows {
        let cut = |w: u32| if r.width == 16 { w & 0xffff } else { w };
        for j in 0..per_row {
            let x = match j {
                0 => rng.next() as u32,
                1 => u32::MAX,
                2 => 0,
                _ => rng.next() as u32,
            };
            let w = cut(r.v | (x & !r.m));
            v.push((r.width, w));
            v.push((r.width, cut(w ^ 1 << rng.below(r.width as usize))));
        }
    }
    for _ in 0..random {
        v.push((32, rng.next() as u32));
        v.push((16, rng.next() as u32 & 0xffff));
    }
    v.push((16, 0));
    v.push((32, 0));
    v.retain(|&(width, w)| !deviates(sp, width, w));
    v.dedup();
    v
}

/// A sequential session exercising what property `p` talks about.
pub fn session(sp: &Spec, p: &str, seed: u64, deep: usize) -> Log {
    let mut log = Log::default();
    let mut rng = Rng(seed ^ 0x7ace);
    let mut names: HashMap<u16, usize> = HashMap::new();
    let mut formats: HashMap<u16, usize> = HashMap::new();
    let nops = OPS.len();
    if matches!(p, "C15" | "C16" | "C19" | "C14") {
        for op in 0..nops as u16 {
            let (n, _) = log.call(&name_req(op), None, &[]);
            names.insert(op, n);
            let (n, _) = log.call(&format_req(op), None, &[]);
            formats.insert(op, n);
        }
    }
    if p == "C23" {
        for op in 0..nops as u16 {
            log.call(&debugop_req(op), None, &[]);
        }
    }
    let only = match p {
        "C01" | "C02" | "C03" | "C04" => 32,
        "C05" | "C06" | "C07" | "C20" => 16,
        _ => 0,
    };
    let light = only != 0 || matches!(p, "C08" | "C11" | "C12" | "C14");
    let per_row = if light { 6 } else { 3 } * deep;
    for (width, w) in words(sp, seed, per_row, 150 * deep) {
        if only != 0 && width != only {
            continue;
        }
        log.episodes += 1;
        match p {
            "C18" => {
                // A word and all its neighbours, each against the word.
                if rng.below(6) != 0 {
                    log.episodes -= 1;
                    continue;
                }
                for k in 0..2 {
                    let (base, g) = log.call(&decode_req(width, w, k), None, &[]);
                    if g.ok {
                        for b in 0..u32::from(width) {
                            if !deviates(sp, width, w ^ 1 << b) {
                                log.call(&decode_req(width, w ^ 1 << b, k), None, &[base]);
                            }
                        }
                    }
                }
            }
            "C09" | "C10" | "C13" => {
                let k = rng.below(2);
                let mut refs = Vec::new();
                let (n, o) = log.call(&opcode_req(width, w, k), None, &[]);
                refs.push(n);
                if let Some(op) = OPS.iter().position(|x| *x == o.s) {
                    for part in 0..4 {
                        refs.push(log.call(&part_req(part, width, w, k, op as u16), None, &[]).0);
                    }
                    refs.push(log.call(&format_req(op as u16), None, &[]).0);
                }
                log.call(&decode_req(width, w, k), None, &refs);
                log.call(&part_req(rng.below(4), width, w, k, rng.below(nops) as u16), None, &[]);
                if p != "C13" {
                    log.call(&convert_req(rng.next() << 32 | u64::from(w)), None, &[]);
                }
            }
            "C15" | "C16" | "C19" => {
                let k = rng.below(2);
                let (_, g) = log.call(&decode_req(width, w, k), None, &[]);
                if !g.panic && g.ok && g.v.op != UNKNOWN {
                    log.call(&print_req(g.v), Some((width, w, k)), &[names[&g.v.op]]);
                }
            }
            "C26" => {
                let k = rng.below(2);
                let (n, g) = log.call(&decode_req(width, w, k), None, &[]);
                if !g.panic && g.ok && g.v.op != UNKNOWN {
                    log.call(&print_req(g.v), Some((width, w, k)), &[n]);
                }
            }
            "C20" => {
                let k = rng.below(2);
                let (n, g) = log.call(&decode_req(16, w, k), None, &[]);
                let a = sp.reply(16, w, k);
                if let (true, Some(long)) = (g.ok && a.ok, a.ok.then(|| sp.expand_word(&a, k)).flatten()) {
                    log.call(&decode_req(32, long, k), None, &[n]);
                }
            }
            "C21" => {
                let Ok(g) = catch_unwind(|| rep(&decode(width, w, 1))) else { continue };
                if !g.ok || g.op == UNKNOWN || g.fmt == 255 {
                    log.episodes -= 1;
                    continue;
                }
                log.call(&equal_req("eqins", g, g), None, &[]);
                for n in 0..8 {
                    log.call(&equal_req("eqins", g, crate::check::changed(&g, n + 8 * (rng.next() >> 8))), None, &[]);
                }
                let o = Rep { op: rng.below(nops) as u16, fmt: rng.below(FMTS.len()) as u8, ..g };
                log.call(&equal_req("eqop", g, o), None, &[]);
                log.call(&equal_req("eqfmt", g, o), None, &[]);
            }
            "C22" => {
                let Ok(g) = catch_unwind(|| rep(&decode(width, w, 1))) else { continue };
                if !g.ok || g.op == UNKNOWN || g.fmt != sp.ops[g.op as usize].fmt {
                    log.episodes -= 1;
                    continue;
                }
                let (n, _) = log.call(&print_req(g), Some((width, w, 1)), &[]);
                log.call(&print_req(g), None, &[n]);
                for _ in 0..3 {
                    let mut c = g;
                    c.imm = if g.himm { rng.next() as i32 >> rng.below(31) } else { 0 };
                    c.compressed = rng.below(2) == 0;
                    c.rd = if g.rd == NONE { NONE } else { rng.below(32) as i64 };
                    // TLC's integers have no such number to negate.
                    if c.imm != i32::MIN {
                        log.call(&print_req(c), None, &[n]);
                    }
                }
            }
            "C23" => {
                let Ok(g) = catch_unwind(|| rep(&decode(width, w, 1))) else { continue };
                if !g.ok || g.op == UNKNOWN || g.fmt == 255 {
                    log.episodes -= 1;
                    continue;
                }
                log.call(&debug_req(g), Some((width, w, 1)), &[]);
                let pretty = rng.below(16) == 0;
                if pretty {
                    log.call(&pretty_req(g), Some((width, w, 1)), &[]);
                }
                for n in 0..3 {
                    let c = crate::check::changed(&g, n + 8 * (rng.next() >> 8));
                    if c.imm != i32::MIN && [c.rd, c.rs1, c.rs2].iter().all(|r| *r < 1 << 31) {
                        log.call(&debug_req(c), None, &[]);
                        if pretty {
                            log.call(&pretty_req(c), None, &[]);
                        }
                    }
                }
            }
            "C12" => {
                let (n, _) = log.call(&decode_req(width, w, 1), None, &[]);
                if (w & 3 == 3) == (width == 32) {
                    log.call(&convert_req(u64::from(w)), None, &[n]);
                }
                log.call(&convert_req(u64::from(w) | 1 << (32 + rng.below(32))), None, &[]);
                if w & 3 != 3 {
                    log.call(&convert_req(u64::from(w) | 1 << (16 + rng.below(48))), None, &[]);
                }
            }
            _ => {
                let (n, _) = log.call(&decode_req(width, w, 0), None, &[]);
                log.call(&decode_req(width, w, 1), None, &[n]);
            }
        }
    }
    log
}

/// C17: calls from several threads, overlapping as they happen to; every return refers to the
/// first return of the same request.
pub fn threads(sp: &Spec, seed: u64, deep: usize) -> Log {
    let pool: Vec<(u8, u32)> = {
        let mut rng = Rng(seed ^ 0xfeed);
        let all = words(sp, seed, 1, 10);
        (0..40).map(|_| all[rng.below(all.len())]).collect()
    };
    type Ev = (usize, bool, String, Option<Got>);
    let events: Mutex<Vec<Ev>> = Mutex::new(Vec::new());
    std::thread::scope(|s| {
        for t in 0..8usize {
            let (pool, events) = (&pool, &events);
            s.spawn(move || {
                let mut rng = Rng(seed ^ (t as u64) << 32);
                for _ in 0..200 * deep {
                    let (width, w) = pool[rng.below(pool.len())];
                    let k = rng.below(2);
                    let mut from = None;
                    let r = match rng.below(8) {
                        0 | 1 => decode_req(width, w, k),
                        2 => opcode_req(width, w, k),
                        3 => part_req(rng.below(4), width, w, k, rng.below(OPS.len()) as u16),
                        4 => convert_req(u64::from(w) | u64::from(rng.below(4) == 0) << 40),
                        5 => name_req(rng.below(OPS.len()) as u16),
                        6 => format_req(rng.below(OPS.len()) as u16),
                        _ => match catch_unwind(|| rep(&decode(width, w, k))) {
                            Ok(g) if g.ok => {
                                from = Some((width, w, k));
                                print_req(g)
                            }
                            _ => decode_req(width, w, k),
                        },
                    };
                    let text = r.json();
                    events.lock().unwrap().push((t, true, text.clone(), None));
                    let g = call(&r, from);
                    events.lock().unwrap().push((t, false, text, Some(g)));
                }
            });
        }
    });
    let mut log = Log::default();
    let mut first: HashMap<String, usize> = HashMap::new();
    let mut at = [0; 8];
    for (t, inv, req, got) in events.into_inner().unwrap() {
        if inv {
            log.lines.push(format!("{{\"ev\":\"inv\",\"t\":{t},\"req\":{req}}}"));
            at[t] = log.lines.len();
        } else {
            let refs: Vec<usize> = first.get(&req).copied().into_iter().collect();
            log.lines.push(format!(
                "{{\"ev\":\"ret\",\"t\":{t},\"inv\":{},\"rep\":{},\"refs\":{refs:?}}}",
                at[t],
                got.unwrap().json()
            ));
            let n = log.lines.len();
            first.entry(req).or_insert(n);
        }
    }
    log.episodes = first.len();
    log
}

/// A memory of halfwords: instructions of the listing, refused words, noise.
fn memory(sp: &Spec, rng: &mut Rng, pool: &[u32]) -> Vec<u16> {
    let mut m = Vec::new();
    let n = 1 + rng.below(12);
    for _ in 0..n {
        match rng.below(6) {
            0 => m.push(rng.next() as u16),
            1 | 2 => {
                let w = pool[rng.below(pool.len())];
                m.push(w as u16);
                m.push((w >> 16) as u16);
            }
            _ => {
                let r = &sp.rows[rng.below(sp.rows.len())];
                let w = r.v | (rng.next() as u32 & !r.m);
                m.push(w as u16);
                if r.width == 32 {
                    m.push((w >> 16) as u16);
                }
            }
        }
    }
    m
}

struct Step {
    at: usize,
    len: usize,
    ok: bool,
    compressed: bool,
    dig: u64,
}

/// Walks by what the crate says: whichever width decodes; low bits only for refused words.
fn walk(m: &[u16], k: usize) -> Vec<Step> {
    let mut v = Vec::new();
    let mut p = 0;
    while p < m.len() {
        let short = rep(&decode(16, u32::from(m[p]), k));
        let long = (p + 1 < m.len()).then(|| rep(&decode(32, u32::from(m[p + 1]) << 16 | u32::from(m[p]), k)));
        let r = if short.ok {
            short
        } else if long.is_some_and(|l| l.ok) {
            long.unwrap()
        } else if m[p] & 3 != 3 {
            short
        } else if let Some(l) = long {
            l
        } else {
            break;
        };
        let len = if r.ok {
            if r.compressed {
                1
            } else {
                2
            }
        } else if m[p] & 3 == 3 {
            2
        } else {
            1
        };
        v.push(Step { at: p, len, ok: r.ok, compressed: r.compressed, dig: digest(&r) >> 40 });
        p += len;
    }
    v
}

/// The digest of a position decoded on its own, by its low bits.
fn alone(m: &[u16], p: usize, k: usize) -> u64 {
    let r = if m[p] & 3 == 3 {
        if p + 1 >= m.len() {
            return 0;
        }
        rep(&decode(32, u32::from(m[p + 1]) << 16 | u32::from(m[p]), k))
    } else {
        rep(&decode(16, u32::from(m[p]), k))
    };
    digest(&r) >> 40
}

pub fn streams(sp: &Spec, seed: u64, n: usize) -> Log {
    let mut log = Log::default();
    let mut rng = Rng(seed ^ 0x57e4);
    let pool = pool32(sp, seed, 4, 500);
    for _ in 0..n {
        let m = memory(sp, &mut rng, &pool);
        let k = rng.below(2);
        let Ok(steps) = catch_unwind(|| walk(&m, k)) else { continue };
        let single: Vec<u64> = {
            let mut v: Vec<(usize, u64)> = (0..m.len()).rev().map(|p| (p, alone(&m, p, k))).collect();
            v.reverse();
            v.into_iter().map(|x| x.1).collect()
        };
        log.lines.push(format!("{{\"ev\":\"start\",\"mem\":{m:?},\"isa\":{}}}", [32, 64][k]));
        for s in &steps {
            log.lines.push(format!(
                "{{\"ev\":\"step\",\"at\":{},\"len\":{},\"ok\":{},\"compressed\":{},\"dig\":{},\"alone\":{}}}",
                s.at + 1,
                s.len,
                s.ok,
                s.compressed,
                s.dig,
                single[s.at]
            ));
        }
        log.lines.push("{\"ev\":\"end\"}".into());
        log.episodes += 1;
    }
    log
}

/// The same walks, many more of them, judged here.
pub fn stream_sweep(sp: &Spec, run: &crate::run::Run, n: u64) {
    let pool = pool32(sp, run.seed, 40, 5000);
    run.each("streams", 0, n, |i, l| {
        let mut rng = Rng(run.seed ^ i.wrapping_mul(0x1234_5678_9abc_def1));
        let m = memory(sp, &mut rng, &pool);
        for k in 0..2 {
            let steps = walk(&m, k);
            let mut p = 0;
            for s in &steps {
                l.counts[1] += 1;
                let len = if m[p] & 3 == 3 { 2 } else { 1 };
                if s.at != p || s.len != len || (s.ok && s.compressed != (len == 1)) || s.dig != alone(&m, p, k) {
                    l.bad(0, i, k, || format!("stream {m:04x?}: step at {} has length {}, expected {len}", s.at, s.len));
                    break;
                }
                p += len;
            }
        }
    });
}
