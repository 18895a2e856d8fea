//! The crate under test, seen through its public API only, with plain numbers for opcodes,
//! formats and errors.

use raki::*;

macro_rules! ops {
    ($($ext:ident $ty:ident { $($v:ident)* })*) => {
        /// Names of all opcodes, `Extension.VARIANT`, as in the specification.
        pub const OPS: &[&str] = &[$($(concat!(stringify!($ext), ".", stringify!($v)),)*)*];

        #[allow(non_camel_case_types, non_snake_case, clippy::upper_case_acronyms)]
        mod ids {
            $(pub mod $ext {
                #[repr(u16)]
                #[derive(Clone, Copy)]
                pub enum L { $($v,)* LAST }
            })*
        }

        /// Number of an opcode, or `UNKNOWN` for one the specification does not list.
        #[inline]
        #[allow(unreachable_patterns, unused_assignments)]
        pub fn op_index(o: &OpcodeKind) -> u16 {
            let mut base = 0u16;
            $(
                if let OpcodeKind::$ext(v) = o {
                    return match v {
                        $($ty::$v => base + ids::$ext::L::$v as u16,)*
                        _ => UNKNOWN,
                    };
                }
                base += ids::$ext::L::LAST as u16;
            )*
            UNKNOWN
        }

        /// The opcode with a given number.
        #[allow(unused_assignments)]
        pub fn op_make(i: u16) -> OpcodeKind {
            let mut base = 0u16;
            $(
                $(if i == base + ids::$ext::L::$v as u16 { return OpcodeKind::$ext($ty::$v); })*
                base += ids::$ext::L::LAST as u16;
            )*
            panic!("no opcode {i}")
        }

        /// Texts of an opcode outside the `OpcodeKind` it is wrapped in: `{}`, `{:?}` and `{:#?}`.
        #[allow(unused_assignments)]
        pub fn op_bare(i: u16) -> [String; 3] {
            let mut base = 0u16;
            $(
                $(if i == base + ids::$ext::L::$v as u16 {
                    let o = $ty::$v;
                    return [format!("{o}"), format!("{o:?}"), format!("{o:#?}")];
                })*
                base += ids::$ext::L::LAST as u16;
            )*
            panic!("no opcode {i}")
        }

        /// Hands the opcode outside its `OpcodeKind` to `f`.
        #[allow(unused_assignments)]
        pub fn with_bare<R>(i: u16, f: impl FnOnce(&dyn std::fmt::Display) -> R) -> R {
            let mut base = 0u16;
            $(
                $(if i == base + ids::$ext::L::$v as u16 {
                    return f(&$ty::$v);
                })*
                base += ids::$ext::L::LAST as u16;
            )*
            panic!("no opcode {i}")
        }
    };
}

pub const UNKNOWN: u16 = 0xffff;

ops! {
    BaseI BaseIOpcode {
        LUI AUIPC JAL JALR BEQ BNE BLT BGE BLTU BGEU LB LH LW LBU LHU SB SH SW
        ADDI SLTI SLTIU XORI ORI ANDI SLLI SRLI SRAI
        ADD SUB SLL SLT SLTU XOR SRL SRA OR AND ECALL EBREAK
        LWU LD SD ADDIW SLLIW SRLIW SRAIW ADDW SUBW SLLW SRLW SRAW
    }
    M MOpcode { MUL MULH MULHSU MULHU DIV DIVU REM REMU MULW DIVW DIVUW REMW REMUW }
    A AOpcode {
        LR_W SC_W AMOSWAP_W AMOADD_W AMOXOR_W AMOAND_W AMOOR_W AMOMIN_W AMOMAX_W AMOMINU_W AMOMAXU_W
        LR_D SC_D AMOSWAP_D AMOADD_D AMOXOR_D AMOAND_D AMOOR_D AMOMIN_D AMOMAX_D AMOMINU_D AMOMAXU_D
    }
    C COpcode {
        ADDI4SPN LW SW NOP ADDI JAL LI ADDI16SP LUI SRLI SRAI ANDI SUB XOR OR AND J BEQZ BNEZ
        SLLI LWSP JR MV EBREAK JALR ADD SWSP LD SD ADDIW SUBW ADDW LDSP SDSP
    }
    Zifencei ZifenceiOpcode { FENCE }
    Zicboz ZicbozOpcode { CBO_ZERO }
    Zicsr ZicsrOpcode { CSRRW CSRRS CSRRC CSRRWI CSRRSI CSRRCI }
    Zicfiss ZicfissOpcode { SSPUSH C_SSPUSH SSPOPCHK C_SSPOPCHK SSRDP SSAMOSWAP_W SSAMOSWAP_D }
    Zicntr ZicntrOpcode { RDCYCLE_H RDTIME_H RDINSTRET_H RDCYCLE RDTIME RDINSTRET }
    Priv PrivOpcode { MRET SRET WFI SFENCE_VMA }
}

pub const ERRS: &[&str] = &[
    "Not16BitInst",
    "Not32BitInst",
    "InvalidFunct3",
    "InvalidFunct5",
    "InvalidFunct6",
    "InvalidFunct7",
    "InvalidOpcode",
    "UnknownExtension",
    "IllegalInstruction",
    "OnlyRv64Inst",
];

#[inline]
#[allow(unreachable_patterns)]
pub fn err_index(e: &DecodingError) -> u8 {
    match e {
        DecodingError::Not16BitInst => 0,
        DecodingError::Not32BitInst => 1,
        DecodingError::InvalidFunct3 => 2,
        DecodingError::InvalidFunct5 => 3,
        DecodingError::InvalidFunct6 => 4,
        DecodingError::InvalidFunct7 => 5,
        DecodingError::InvalidOpcode => 6,
        DecodingError::UnknownExtension => 7,
        DecodingError::IllegalInstruction => 8,
        DecodingError::OnlyRv64Inst => 9,
        _ => 255,
    }
}

/// The error with a given number.
pub fn err_make(i: u8) -> DecodingError {
    match i {
        0 => DecodingError::Not16BitInst,
        1 => DecodingError::Not32BitInst,
        2 => DecodingError::InvalidFunct3,
        3 => DecodingError::InvalidFunct5,
        4 => DecodingError::InvalidFunct6,
        5 => DecodingError::InvalidFunct7,
        6 => DecodingError::InvalidOpcode,
        7 => DecodingError::UnknownExtension,
        8 => DecodingError::IllegalInstruction,
        9 => DecodingError::OnlyRv64Inst,
        _ => panic!("no error {i}"),
    }
}

pub fn err_name(i: u8) -> &'static str {
    ERRS.get(i as usize).copied().unwrap_or("?")
}

macro_rules! fmts {
    ($($f:ident)*) => {
        pub const FMTS: &[&str] = &[$(stringify!($f),)*];
        mod fid { #[repr(u8)] #[allow(clippy::enum_variant_names)] pub enum F { $($f,)* } }
        #[inline]
        #[allow(unreachable_patterns)]
        pub fn fmt_index(f: &InstFormat) -> u8 {
            match f { $(InstFormat::$f => fid::F::$f as u8,)* _ => 255 }
        }
        /// The format with a given number.
        pub fn fmt_make(i: u8) -> InstFormat {
            $(if i == fid::F::$f as u8 { return InstFormat::$f; })*
            panic!("no format {i}")
        }
    };
}
fmts! {
    RFormat RShamtFormat IFormat SFormat BFormat UFormat JFormat
    CrFormat CiFormat CssFormat CiwFormat ClFormat CsFormat CaFormat CbFormat CjFormat
    CsrFormat CsrUiFormat MFormat AFormat ALrFormat NoOperand OnlyRd OnlyRs1 OnlyRs2
}

pub fn op_name(i: u16) -> &'static str {
    OPS.get(i as usize).copied().unwrap_or("?")
}
pub fn fmt_name(i: u8) -> &'static str {
    FMTS.get(i as usize).copied().unwrap_or("?")
}

/// 0 = Rv32, 1 = Rv64.
#[inline]
pub fn isa(i: usize) -> Isa {
    if i == 0 {
        Isa::Rv32
    } else {
        Isa::Rv64
    }
}

pub const NONE: i64 = -1;

/// Register operand as a number; absent is -1.
#[inline]
pub fn reg(o: Option<usize>) -> i64 {
    match o {
        None => NONE,
        Some(v) => i64::try_from(v).unwrap_or(i64::MAX),
    }
}

/// A decode reply in plain numbers.
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub struct Rep {
    pub ok: bool,
    pub err: u8,
    pub op: u16,
    pub rd: i64,
    pub rs1: i64,
    pub rs2: i64,
    pub himm: bool,
    pub imm: i32,
    pub fmt: u8,
    pub compressed: bool,
}

pub const REFUSED: Rep = Rep {
    ok: false,
    err: 254,
    op: UNKNOWN,
    rd: NONE,
    rs1: NONE,
    rs2: NONE,
    himm: false,
    imm: 0,
    fmt: 255,
    compressed: false,
};

#[inline]
pub fn rep(r: &Result<Instruction, DecodingError>) -> Rep {
    match r {
        Err(e) => Rep {
            err: err_index(e),
            ..REFUSED
        },
        Ok(i) => Rep {
            ok: true,
            err: 254,
            op: op_index(&i.opc),
            rd: reg(i.rd),
            rs1: reg(i.rs1),
            rs2: reg(i.rs2),
            himm: i.imm.is_some(),
            imm: i.imm.unwrap_or(0),
            fmt: fmt_index(&i.inst_format),
            compressed: i.is_compressed,
        },
    }
}

/// An instruction put together from its public fields.
#[inline]
pub fn build(r: &Rep) -> Instruction {
    let o = |v: i64| usize::try_from(v).ok();
    Instruction {
        opc: op_make(r.op),
        rd: o(r.rd),
        rs1: o(r.rs1),
        rs2: o(r.rs2),
        imm: r.himm.then_some(r.imm),
        inst_format: fmt_make(r.fmt),
        is_compressed: r.compressed,
    }
}

#[inline]
pub fn decode(width: u8, w: u32, k: usize) -> Result<Instruction, DecodingError> {
    if width == 32 {
        w.decode(isa(k))
    } else {
        (w as u16).decode(isa(k))
    }
}
#[inline]
pub fn parse_opcode(width: u8, w: u32, k: usize) -> Result<OpcodeKind, DecodingError> {
    if width == 32 {
        w.parse_opcode(isa(k))
    } else {
        (w as u16).parse_opcode(isa(k))
    }
}

/// The operand parsers: 0 rd, 1 rs1, 2 rs2, 3 imm. `Ok(None)` absent.
pub const PARTS: [&str; 4] = ["rd", "rs1", "rs2", "imm"];
#[inline]
pub fn parse_part(part: usize, width: u8, w: u32, k: usize, op: &OpcodeKind) -> Result<Option<i64>, DecodingError> {
    fn r(x: Result<Option<usize>, DecodingError>) -> Result<Option<i64>, DecodingError> {
        x.map(|o| o.map(|v| i64::try_from(v).unwrap_or(i64::MAX)))
    }
    if width == 32 {
        match part {
            0 => r(w.parse_rd(op)),
            1 => r(w.parse_rs1(op)),
            2 => r(w.parse_rs2(op)),
            _ => w.parse_imm(op, isa(k)).map(|o| o.map(i64::from)),
        }
    } else {
        let w = w as u16;
        match part {
            0 => r(w.parse_rd(op)),
            1 => r(w.parse_rs1(op)),
            2 => r(w.parse_rs2(op)),
            _ => w.parse_imm(op, isa(k)).map(|o| o.map(i64::from)),
        }
    }
}
