//! The tables exported from the TLA+ specification, and their evaluation.
//! Everything here is data from TLC plus a direct reading of it; `check_vectors` compares that
//! reading with replies TLC computed itself.

use crate::api::*;
use crate::json::{self, J};
use std::collections::HashMap;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Leaf {
    Op(u16),
    /// Listed, but the crate has no such opcode.
    Absent,
    Err(u8),
    /// Recorded deviation: index into `Spec::devs`.
    Dev(u8),
}

pub struct Deviation {
    pub id: String,
    pub ideal: Leaf,
    pub actual: Leaf,
}

enum Node {
    Sw { shift: u32, mask: u32, to: Vec<u32> },
    Leaf(Leaf),
}

pub struct Tree {
    nodes: Vec<Node>,
}

impl Tree {
    #[inline]
    pub fn walk(&self, w: u32) -> Leaf {
        let mut n = 0usize;
        loop {
            match &self.nodes[n] {
                Node::Sw { shift, mask, to } => n = to[((w >> shift) & mask) as usize] as usize,
                Node::Leaf(l) => return *l,
            }
        }
    }
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum RegSpec {
    None,
    Field { e: u32, s: u32, add: i64 },
    Const { v: i64, e: u32, s: u32 },
}

impl RegSpec {
    fn of(j: &J) -> Self {
        let n = |k: &str| j.get(k).num();
        match j.get("k").str() {
            "none" => RegSpec::None,
            "field" => RegSpec::Field { e: n("e") as u32, s: n("s") as u32, add: n("add") },
            "const" => RegSpec::Const { v: n("add"), e: n("e") as u32, s: n("s") as u32 },
            k => panic!("{k}"),
        }
    }
    #[inline]
    pub fn value(&self, w: u32) -> i64 {
        match *self {
            RegSpec::None => NONE,
            RegSpec::Field { e, s, add } => i64::from(bits(w, e, s)) + add,
            RegSpec::Const { v, .. } => v,
        }
    }
    /// Is `v` right when the operand is taken from a word that need not encode the opcode?
    #[inline]
    pub fn admits(&self, w: u32, v: i64) -> bool {
        match *self {
            RegSpec::Const { v: c, e, s } => v == c || v == i64::from(bits(w, e, s)),
            _ => v == self.value(w),
        }
    }
    /// The bits of the word that hold it.
    pub fn mask(&self) -> u32 {
        match *self {
            RegSpec::Field { e, s, .. } => bits(u32::MAX, e - s, 0) << s,
            _ => 0,
        }
    }
    pub fn put(&self, v: i64) -> Option<u32> {
        match *self {
            RegSpec::Field { e, s, add } => {
                let x = v - add;
                (x >= 0 && x < 1i64 << (e - s + 1)).then(|| (x as u32) << s)
            }
            RegSpec::None => Some(0),
            RegSpec::Const { v: c, .. } => (v == c).then_some(0),
        }
    }
}

#[inline]
pub fn bits(w: u32, e: u32, s: u32) -> u32 {
    (w >> s) & (((1u64 << (e - s + 1)) - 1) as u32)
}

#[derive(Clone)]
pub struct Row {
    pub id: String,
    pub isas: [bool; 2],
    pub width: u8,
    pub m: u32,
    pub v: u32,
    pub rd: RegSpec,
    pub rs1: RegSpec,
    pub rs2: RegSpec,
    pub himm: bool,
    pub pairs: Vec<(u32, u32)>,
    /// Runs of consecutive pairs: (source low bit, length mask, target low bit).
    runs: Vec<(u32, u32, u32)>,
    pub sg: u32,
    pub nz: Vec<u32>,
    pub ne: Vec<(u32, u32)>,
}

fn halves(j: &J) -> u32 {
    let a = j.arr();
    ((a[0].num() as u32) << 16) | a[1].num() as u32
}
fn bitset(j: &J) -> u32 {
    j.arr().iter().fold(0, |m, b| m | 1 << b.num())
}

impl Row {
    fn of(j: &J) -> Self {
        let pairs: Vec<(u32, u32)> = j
            .get("pairs")
            .arr()
            .iter()
            .map(|p| (p.arr()[0].num() as u32, p.arr()[1].num() as u32))
            .collect();
        let mut sorted = pairs.clone();
        sorted.sort_unstable();
        let mut runs: Vec<(u32, u32, u32)> = Vec::new();
        let mut len = 0;
        for (i, &(s, t)) in sorted.iter().enumerate() {
            if i > 0 && sorted[i - 1].0 + 1 == s && sorted[i - 1].1 + 1 == t {
                len += 1;
                runs.last_mut().unwrap().1 = (1 << len) - 1;
            } else {
                len = 1;
                runs.push((s, 1, t));
            }
        }
        let isas = j.get("isas").arr();
        Row {
            id: j.get("id").str().to_string(),
            isas: [isas.iter().any(|x| x.num() == 32), isas.iter().any(|x| x.num() == 64)],
            width: j.get("width").num() as u8,
            m: halves(j.get("m")),
            v: halves(j.get("v")),
            rd: RegSpec::of(j.get("rd")),
            rs1: RegSpec::of(j.get("rs1")),
            rs2: RegSpec::of(j.get("rs2")),
            himm: j.get("himm").bool(),
            pairs,
            runs,
            sg: j.get("sg").num() as u32,
            nz: j.get("nz").arr().iter().map(bitset).collect(),
            ne: j.get("ne").arr().iter().map(|q| (halves(q.get("m")), halves(q.get("v")))).collect(),
        }
    }
    pub fn claims(&self, w: u32, isa: usize) -> bool {
        self.isas[isa]
            && w & self.m == self.v
            && self.nz.iter().all(|&f| w & f != 0)
            && self.ne.iter().all(|&(m, v)| w & m != v)
    }
    #[inline]
    pub fn imm(&self, w: u32) -> i32 {
        let mut v = 0u32;
        for &(s, m, t) in &self.runs {
            v |= ((w >> s) & m) << t;
        }
        if self.sg > 0 {
            let sh = 32 - self.sg;
            ((v << sh) as i32) >> sh
        } else {
            v as i32
        }
    }
    /// The word of this row with the given operands; None if an operand does not fit.
    pub fn encode(&self, r: &Rep) -> Option<u32> {
        let mut w = self.v | self.rd.put(r.rd)? | self.rs1.put(r.rs1)? | self.rs2.put(r.rs2)?;
        if self.himm != r.himm {
            return None;
        }
        for &(s, t) in &self.pairs {
            w |= ((r.imm as u32 >> t) & 1) << s;
        }
        Some(w)
    }
}

#[derive(Clone)]
pub enum Tok {
    Lit(String),
    Rd,
    Rs1,
    Rs2,
    Imm,
    ImmX,
    CsrX,
    CsrD,
}

/// Where an operand of the 32-bit form of a compressed instruction comes from.
#[derive(Clone, Copy)]
pub enum Src {
    None,
    Const(i64),
    Rd,
    Rs1,
    Rs2,
}

impl Src {
    fn of(s: &str) -> Src {
        match s {
            "" => Src::None,
            "rd" => Src::Rd,
            "rs1" => Src::Rs1,
            "rs2" => Src::Rs2,
            n => Src::Const(n.parse().expect("register")),
        }
    }
    fn take(self, r: &Rep) -> i64 {
        match self {
            Src::None => NONE,
            Src::Const(n) => n,
            Src::Rd => r.rd,
            Src::Rs1 => r.rs1,
            Src::Rs2 => r.rs2,
        }
    }
}

pub struct Expand {
    pub to: u16,
    rd: Src,
    rs1: Src,
    rs2: Src,
    imm: String,
}

impl Expand {
    /// The 32-bit instruction that compressed instruction `r` stands for (without its format).
    pub fn apply(&self, r: &Rep) -> Rep {
        Rep {
            ok: true,
            err: 254,
            op: self.to,
            rd: self.rd.take(r),
            rs1: self.rs1.take(r),
            rs2: self.rs2.take(r),
            himm: !self.imm.is_empty(),
            imm: match self.imm.as_str() {
                "imm" => r.imm,
                "hi" => r.imm >> 12 & 0xf_ffff,
                _ => 0,
            },
            fmt: 255,
            compressed: false,
        }
    }
}

/// Values an immediate may take: lo, lo + step, .., hi; `has` false if there is none.
#[derive(Clone, Copy)]
pub struct Span {
    pub has: bool,
    pub lo: i64,
    pub hi: i64,
    pub step: i64,
    pub zero: bool,
}

impl Span {
    fn of(j: &J) -> Span {
        let n = |k: &str| j.get(k).num();
        Span { has: j.get("has").bool(), lo: n("lo"), hi: n("hi"), step: n("step"), zero: j.get("zero").bool() }
    }
    #[inline]
    pub fn admits(&self, r: &Rep) -> bool {
        r.himm == self.has && (!r.himm || self.takes(i64::from(r.imm)))
    }
    #[inline]
    pub fn takes(&self, v: i64) -> bool {
        v >= self.lo && v <= self.hi && (v - self.lo) & (self.step - 1) == 0 && (self.zero || v != 0)
    }
    pub fn values(&self) -> usize {
        ((self.hi - self.lo) / self.step) as usize + 1
    }
    pub fn value(&self, i: usize) -> i64 {
        self.lo + i as i64 * self.step
    }
    /// Which value it is.
    #[inline]
    pub fn index(&self, v: i32) -> usize {
        ((i64::from(v) - self.lo) >> self.step.trailing_zeros()) as usize
    }
}

/// Values a register operand may take; empty if there is none.
#[derive(Clone)]
pub struct Regs(pub Vec<bool>);

impl Regs {
    fn of(j: &J) -> Regs {
        let mut v = Vec::new();
        for x in j.arr() {
            let i = x.num() as usize;
            if v.len() <= i {
                v.resize(i + 1, false);
            }
            v[i] = true;
        }
        Regs(v)
    }
    #[inline]
    pub fn admits(&self, v: i64) -> bool {
        if v == NONE {
            self.0.is_empty()
        } else {
            self.0.get(v as usize).copied().unwrap_or(false)
        }
    }
}

pub struct OpInfo {
    pub expand: Option<Expand>,
    pub regs: [Regs; 3],
    pub span: [Span; 2],
    pub own: [bool; 2],
    /// As Debug prints it.
    pub debug: String,
    pub width: u8,
    pub fmt: u8,
    pub mn: String,
    pub tpl: Vec<Tok>,
    pub rows: [Row; 2],
    pub shape: [bool; 4],
    pub zicsr: bool,
}

pub struct Spec {
    pub t32: [Tree; 2],
    pub t16: [Tree; 2],
    pub devs: Vec<Deviation>,
    pub rows: Vec<Row>,
    pub ops: Vec<OpInfo>,
    pub abi: Vec<String>,
}

struct Builder<'a> {
    ix: &'a HashMap<String, u16>,
    devs: &'a mut Vec<Deviation>,
}

impl Builder<'_> {
    fn leaf(&self, j: &J) -> Leaf {
        match j.get("k").str() {
            "op" => match self.ix.get(j.get("id").str()) {
                Some(&i) => Leaf::Op(i),
                None => Leaf::Absent,
            },
            "err" => Leaf::Err(ERRS.iter().position(|e| *e == j.get("id").str()).expect("error name") as u8),
            k => panic!("not a leaf: {k}"),
        }
    }
    /// Follows single-valued structure below a deviation; it must end in a leaf.
    fn settle(&self, j: &J, known: &[(u32, u32, u32)]) -> Leaf {
        if j.get("k").str() == "sw" {
            let (e, s) = (j.get("e").num() as u32, j.get("s").num() as u32);
            let v = known.iter().find(|k| (k.0, k.1) == (e, s)).expect("deviation not settled").2;
            for a in j.get("arms").arr() {
                if a.arr()[0].num() as u32 == v {
                    return self.settle(&a.arr()[1], known);
                }
            }
            return self.settle(j.get("dflt"), known);
        }
        self.leaf(j)
    }
    fn build(&mut self, j: &J, isa: usize, nodes: &mut Vec<Node>, known: &mut Vec<(u32, u32, u32)>) -> u32 {
        match j.get("k").str() {
            "isa" => self.build(j.get(if isa == 0 { "n32" } else { "n64" }), isa, nodes, known),
            "sw" => {
                let (e, s) = (j.get("e").num() as u32, j.get("s").num() as u32);
                let me = nodes.len();
                nodes.push(Node::Leaf(Leaf::Err(0)));
                let n = 1usize << (e - s + 1);
                let d = self.build(j.get("dflt"), isa, nodes, known);
                let mut to = vec![d; n];
                for a in j.get("arms").arr() {
                    let v = a.arr()[0].num() as u32;
                    known.push((e, s, v));
                    to[v as usize] = self.build(&a.arr()[1], isa, nodes, known);
                    known.pop();
                }
                nodes[me] = Node::Sw { shift: s, mask: (n - 1) as u32, to };
                me as u32
            }
            "dev" => {
                let id = j.get("id").str();
                let ideal = self.settle(j.get("ideal"), known);
                let actual = self.settle(j.get("actual"), known);
                let k = self.devs.iter().position(|d| d.id == id).unwrap_or_else(|| {
                    self.devs.push(Deviation { id: id.to_string(), ideal, actual });
                    self.devs.len() - 1
                });
                nodes.push(Node::Leaf(Leaf::Dev(k as u8)));
                nodes.len() as u32 - 1
            }
            _ => {
                let l = self.leaf(j);
                nodes.push(Node::Leaf(l));
                nodes.len() as u32 - 1
            }
        }
    }
}

impl Spec {
    pub fn load(dir: &str) -> Spec {
        let text = std::fs::read_to_string(format!("{dir}/spec.json")).expect("spec.json");
        let j = json::parse(&text);
        let ix: HashMap<String, u16> = OPS.iter().enumerate().map(|(i, n)| ((*n).to_string(), i as u16)).collect();
        let mut infos: Vec<Option<OpInfo>> = (0..OPS.len()).map(|_| None).collect();
        for o in j.get("ops").arr() {
            let id = o.get("id").str();
            let Some(&i) = ix.get(id) else {
                assert!(o.get("absent").bool(), "opcode {id} unknown to the harness");
                continue;
            };
            let rows = [Row::of(o.get("row32")), Row::of(o.get("row64"))];
            let r = &rows[1];
            let shape = [r.rd != RegSpec::None, r.rs1 != RegSpec::None, r.rs2 != RegSpec::None, r.himm];
            let expand = o.get("expand").arr().first().map(|x| Expand {
                to: ix[x.get("to").str()],
                rd: Src::of(x.get("rd").str()),
                rs1: Src::of(x.get("rs1").str()),
                rs2: Src::of(x.get("rs2").str()),
                imm: x.get("imm").str().to_string(),
            });
            let own = o.get("own").arr();
            infos[i as usize] = Some(OpInfo {
                expand,
                regs: [Regs::of(o.get("rds")), Regs::of(o.get("rs1s")), Regs::of(o.get("rs2s"))],
                span: [Span::of(o.get("span32")), Span::of(o.get("span64"))],
                own: [own.iter().any(|x| x.num() == 32), own.iter().any(|x| x.num() == 64)],
                debug: o.get("debug").str().to_string(),
                width: o.get("width").num() as u8,
                fmt: FMTS.iter().position(|f| *f == o.get("fmt").str()).expect("format") as u8,
                mn: o.get("mn").str().to_string(),
                tpl: o
                    .get("tpl")
                    .arr()
                    .iter()
                    .map(|t| match t.get("t").str() {
                        "lit" => Tok::Lit(t.get("s").str().to_string()),
                        "rd" => Tok::Rd,
                        "rs1" => Tok::Rs1,
                        "rs2" => Tok::Rs2,
                        "imm" => Tok::Imm,
                        "immx" => Tok::ImmX,
                        "csrx" => Tok::CsrX,
                        "csrd" => Tok::CsrD,
                        k => panic!("{k}"),
                    })
                    .collect(),
                rows,
                shape,
                zicsr: id.starts_with("Zicsr."),
            });
        }
        let mut devs = Vec::new();
        let mut tree = |name: &str, isa: usize| {
            let mut nodes = Vec::new();
            let mut b = Builder { ix: &ix, devs: &mut devs };
            let root = b.build(j.get(name), isa, &mut nodes, &mut Vec::new());
            assert!(root == 0);
            Tree { nodes }
        };
        let t32 = [tree("tree32", 0), tree("tree32", 1)];
        let t16 = [tree("tree16", 0), tree("tree16", 1)];
        Spec {
            t32,
            t16,
            devs,
            rows: j.get("rows").arr().iter().map(Row::of).collect(),
            ops: infos
                .into_iter()
                .enumerate()
                .map(|(i, o)| o.unwrap_or_else(|| panic!("opcode {} not in the listing", OPS[i])))
                .collect(),
            abi: j.get("abi").arr().iter().map(|a| a.str().to_string()).collect(),
        }
    }

    /// parse_opcode.
    #[inline]
    pub fn opcode(&self, width: u8, w: u32, isa: usize) -> Leaf {
        if width == 32 {
            self.t32[isa].walk(w)
        } else {
            self.t16[isa].walk(w)
        }
    }
    /// decode: as `opcode`, but the all-zero halfword is illegal.
    #[inline]
    pub fn leaf(&self, width: u8, w: u32, isa: usize) -> Leaf {
        if width == 16 && w == 0 {
            return Leaf::Err(8);
        }
        self.opcode(width, w, isa)
    }
    #[inline]
    pub fn actual(&self, l: Leaf) -> Leaf {
        match l {
            Leaf::Dev(k) => self.devs[k as usize].actual,
            l => l,
        }
    }
    /// The specified decode reply, for the crate's side of deviations.
    pub fn reply(&self, width: u8, w: u32, isa: usize) -> Rep {
        match self.actual(self.leaf(width, w, isa)) {
            Leaf::Err(e) => Rep { err: e, ..REFUSED },
            Leaf::Op(op) => self.decoded(op, w, isa),
            l => panic!("{l:?}"),
        }
    }
    #[inline]
    pub fn decoded(&self, op: u16, w: u32, isa: usize) -> Rep {
        let o = &self.ops[op as usize];
        let r = &o.rows[isa];
        Rep {
            ok: true,
            err: 254,
            op,
            rd: r.rd.value(w),
            rs1: r.rs1.value(w),
            rs2: r.rs2.value(w),
            himm: r.himm,
            imm: if r.himm { r.imm(w) } else { 0 },
            fmt: o.fmt,
            compressed: o.width == 16,
        }
    }

    /// The word of the 32-bit instruction that compressed instruction `r` stands for.
    pub fn expand_word(&self, r: &Rep, isa: usize) -> Option<u32> {
        let e = self.ops[r.op as usize].expand.as_ref()?;
        self.ops[e.to as usize].rows[isa].encode(&e.apply(r))
    }

    /// The operands of `r` as text, or None if one that is displayed is missing.
    #[inline]
    pub fn operands(&self, r: &Rep, out: &mut Vec<u8>) -> Option<()> {
        for t in &self.ops[r.op as usize].tpl {
            let reg = |n: i64| self.abi.get(usize::try_from(n).ok()?).map(String::as_bytes);
            match t {
                Tok::Lit(s) => out.extend_from_slice(s.as_bytes()),
                Tok::Rd => out.extend_from_slice(reg(r.rd)?),
                Tok::Rs1 => out.extend_from_slice(reg(r.rs1)?),
                Tok::Rs2 => out.extend_from_slice(reg(r.rs2)?),
                Tok::Imm if r.himm => dec(i64::from(r.imm), out),
                Tok::ImmX if r.himm => hex(r.imm as u32, out),
                Tok::CsrX if (0..4096).contains(&r.rs2) => hex(r.rs2 as u32, out),
                Tok::CsrD if (0..4096).contains(&r.rs2) => dec(r.rs2, out),
                _ => return None,
            }
        }
        Some(())
    }
}

impl Spec {
    /// What `{:?}` prints.
    pub fn debug(&self, r: &Rep, out: &mut Vec<u8>) {
        fn option(name: &str, has: bool, v: i64, out: &mut Vec<u8>) {
            out.extend_from_slice(name.as_bytes());
            if has {
                out.extend_from_slice(b"Some(");
                dec(v, out);
                out.push(b')');
            } else {
                out.extend_from_slice(b"None");
            }
        }
        out.extend_from_slice(b"Instruction { opc: ");
        out.extend_from_slice(self.ops[r.op as usize].debug.as_bytes());
        option(", rd: ", r.rd != NONE, r.rd, out);
        option(", rs1: ", r.rs1 != NONE, r.rs1, out);
        option(", rs2: ", r.rs2 != NONE, r.rs2, out);
        option(", imm: ", r.himm, i64::from(r.imm), out);
        out.extend_from_slice(b", inst_format: ");
        out.extend_from_slice(fmt_name(r.fmt).as_bytes());
        out.extend_from_slice(if r.compressed { b", is_compressed: true }" } else { b", is_compressed: false }" });
    }
}

fn dec(n: i64, out: &mut Vec<u8>) {
    let mut b = [0u8; 20];
    let mut k = 20;
    let mut v = n.unsigned_abs();
    loop {
        k -= 1;
        b[k] = b'0' + (v % 10) as u8;
        v /= 10;
        if v == 0 {
            break;
        }
    }
    if n < 0 {
        k -= 1;
        b[k] = b'-';
    }
    out.extend_from_slice(&b[k..]);
}

fn hex(n: u32, out: &mut Vec<u8>) {
    out.extend_from_slice(b"0x");
    let digits = ((35 - n.leading_zeros()) / 4).max(1);
    for d in (0..digits).rev() {
        out.push(b"0123456789abcdef"[((n >> (4 * d)) & 15) as usize]);
    }
}

/// One complete call as TLC evaluated it.
pub struct Vector {
    pub width: u8,
    pub w: u32,
    pub isa: usize,
    pub rep: Rep,
    pub text: String,
    pub debug: String,
    pub dev: bool,
    /// Word of the expansion of a compressed instruction, else 0.
    pub long: u32,
}

pub fn vectors(dir: &str) -> Vec<Vector> {
    let text = std::fs::read_to_string(format!("{dir}/vectors.ndjson")).expect("vectors.ndjson");
    text.lines()
        .filter(|l| !l.trim().is_empty())
        .map(|l| {
            let j = json::parse(l);
            let v = j.get("v");
            let ok = j.get("ok").bool();
            Vector {
                width: j.get("width").num() as u8,
                w: halves(j.get("w")),
                isa: usize::from(j.get("isa").num() == 64),
                rep: if ok {
                    Rep {
                        ok,
                        err: 254,
                        op: OPS.iter().position(|o| *o == v.get("op").str()).expect("op") as u16,
                        rd: v.get("rd").num(),
                        rs1: v.get("rs1").num(),
                        rs2: v.get("rs2").num(),
                        himm: v.get("himm").bool(),
                        imm: v.get("imm").num() as i32,
                        fmt: FMTS.iter().position(|f| *f == v.get("fmt").str()).expect("fmt") as u8,
                        compressed: v.get("compressed").bool(),
                    }
                } else {
                    Rep {
                        err: ERRS.iter().position(|e| *e == j.get("e").str()).expect("err") as u8,
                        ..REFUSED
                    }
                },
                text: j.get("text").str().to_string(),
                debug: j.get("debug").str().to_string(),
                dev: j.get("dev").bool(),
                long: halves(j.get("long")),
            }
        })
        .collect()
}

/// Our reading of the tables against TLC's own evaluation. Any difference is an error of the harness.
pub fn check_vectors(sp: &Spec, vs: &[Vector]) -> Result<(), String> {
    for v in vs {
        let r = sp.reply(v.width, v.w, v.isa);
        if r != v.rep {
            return Err(format!("tables read differently from TLC on {:#x}/{}: {r:?} / {:?}", v.w, v.width, v.rep));
        }
        let dev = matches!(sp.leaf(v.width, v.w, v.isa), Leaf::Dev(_));
        if dev != v.dev {
            return Err(format!("deviation differs on {:#x}", v.w));
        }
        if r.ok && v.width == 16 && sp.expand_word(&r, v.isa) != Some(v.long) {
            return Err(format!("expansion of {:#x} differs from TLC's {:#x}", v.w, v.long));
        }
        if r.ok {
            let mut t = sp.ops[r.op as usize].mn.clone().into_bytes();
            let n = t.len();
            t.push(b' ');
            sp.operands(&r, &mut t).ok_or("operand missing")?;
            if sp.ops[r.op as usize].tpl.is_empty() {
                t.truncate(n);
            }
            if t != v.text.as_bytes() {
                return Err(format!("text {:?} / {:?}", String::from_utf8_lossy(&t), v.text));
            }
            t.clear();
            sp.debug(&r, &mut t);
            if t != v.debug.as_bytes() {
                return Err(format!("debug text {:?} / {:?}", String::from_utf8_lossy(&t), v.debug));
            }
        }
    }
    Ok(())
}
