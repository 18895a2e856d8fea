#!/usr/bin/env python3
"""Writes properties.jsonl (kept as code so the long lines stay readable)."""
import json, os
D32 = ["src/decode/inst_32.rs", "src/decode/base_i.rs", "src/decode/m_extension.rs", "src/decode/a_extension.rs",
       "src/decode/zicsr_extension.rs", "src/decode/zicntr_extension.rs", "src/decode/zicfiss_extension.rs",
       "src/decode/zicboz_extension.rs", "src/decode/zifencei_extension.rs", "src/decode/priv_extension.rs"]
D16 = ["src/decode/inst_16.rs", "src/decode/c_extension.rs", "src/decode/zicfiss_extension.rs"]
INS = ["src/instruction.rs", "src/instruction/base_i.rs", "src/instruction/m_extension.rs", "src/instruction/a_extension.rs",
       "src/instruction/c_extension.rs", "src/instruction/zicsr_extension.rs", "src/instruction/zicntr_extension.rs",
       "src/instruction/zicfiss_extension.rs", "src/instruction/zicboz_extension.rs",
       "src/instruction/zifencei_extension.rs", "src/instruction/priv_extension.rs"]
P = []
def p(id, title, statement, over, text, why, files, mech, observe):
    assert len(title) <= 80, (id, len(title))
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
              "anchors": {"files": files,
                          "mechanism": [{"name": n, "where": w} for n, w in mech],
                          "observe_at": observe, "hook_needed": None}})

p("C01", "A 32-bit word is accepted exactly when it encodes a supported instruction",
  "Decoding a 32-bit word for a target ISA succeeds if and only if the RISC-V manual assigns that word to an instruction of a supported extension (I, M, A, Zicsr, Zifencei, Zicntr, Zicfiss, Zicboz, mret/sret/wfi/sfence.vma) on that ISA. Reserved encodings, words of unsupported extensions and fixed fields with a wrong value are refused with an error; nothing else is refused.",
  ["inputs", "configurations"], "every one of the 2^32 words, for Rv32 and Rv64",
  "The unit tests decode about 40 hand-picked valid words on Rv64 only and hardly any invalid word; acceptance is a statement about all 2^33 (word, ISA) pairs.",
  D32, [("extension dispatch", "src/decode/inst_32.rs parse_extension"), ("per-extension opcode match", "src/decode/*.rs bit_32::parse_opcode")],
  ["Decode::decode for u32"])
p("C02", "An accepted 32-bit word is identified as the instruction the ISA assigns to it",
  "For every 32-bit word and ISA that decodes successfully, the reported extension and opcode are those the RISC-V manual assigns to that word. Reads of the cycle, time and instret counters are reported as counter instructions only in their exact form (csrrs with rs1 = x0, the upper halves only on Rv32) and as plain CSR instructions otherwise.",
  ["inputs", "configurations"], "every accepted 32-bit word, for Rv32 and Rv64",
  "Tests sample one or two words of roughly a third of the opcodes; a confusion between neighbours (sub/add, lr/sc, csr numbers) for some field value is invisible to them.",
  D32, [("opcode match tables", "src/decode/*.rs bit_32::parse_opcode")], ["Decode::decode for u32", "Decode::parse_opcode for u32"])
p("C03", "Register and CSR operands of 32-bit instructions are the encoded fields",
  "For every accepted 32-bit word, each register operand the instruction has (destination, first source, second source) equals the corresponding 5-bit field of the word, and for CSR instructions the second-source operand equals the full 12-bit CSR number. Operands the instruction does not have are absent; shadow-stack push and pop-check report the implied zero registers.",
  ["inputs", "configurations"], "every accepted 32-bit word, for Rv32 and Rv64",
  "Operands are checked for about 40 words; a wrong slice or a missing opcode in one of the operand lists shows only for particular opcodes or field values.",
  D32, [("operand extraction", "src/decode/*.rs bit_32::parse_rd/parse_rs1/parse_rs2"), ("bit slicing", "src/decode/inst_32.rs slice")],
  ["Decode::decode for u32"])
p("C04", "Immediates of 32-bit instructions are reassembled exactly",
  "For every accepted 32-bit word the immediate equals the value the RISC-V manual defines for the instruction's format: sign-extended I, S, B and J immediates with the B/J bits unscrambled, the raw 20-bit upper immediate for lui/auipc, the unsigned shift amount (5 bits, or 6 bits for non-word shifts on Rv64), the 5-bit zero-extended CSR immediate, the 12 fence bits and the two ordering bits of atomics. Instructions without an immediate report none.",
  ["inputs", "configurations"], "every accepted 32-bit word, for Rv32 and Rv64",
  "A dozen immediates are sampled, none at the extremes; a swapped bit or a wrong sign boundary is wrong for half of all words and right for the samples.",
  D32 + ["src/decode.rs"], [("immediate extraction", "src/decode/base_i.rs parse_imm and the other bit_32::parse_imm"), ("sign extension", "src/decode.rs to_signed_nbit"), ("bit scatter", "src/decode/inst_32.rs set")],
  ["Decode::decode for u32"])
p("C05", "Compressed words are accepted and identified exactly as the C extension says",
  "Decoding a 16-bit word for a target ISA succeeds if and only if the manual assigns it to an instruction of the C extension or to a compressed shadow-stack instruction on that ISA, and then the reported opcode is that instruction. Reserved code points (zero immediates or zero registers where the manual demands non-zero, shift amounts of 32 or more on Rv32) are refused; hints are decoded as the instruction they are a hint form of.",
  ["inputs", "configurations"], "every one of the 2^16 words, for Rv32 and Rv64",
  "12 words are tested, all on Rv64 and all valid; the encoding is dense with special register and immediate values that are never tried.",
  D16, [("quadrant tables", "src/decode/c_extension.rs quadrant0/1/2"), ("shadow-stack dispatch", "src/decode/inst_16.rs parse_extension")],
  ["Decode::decode for u16", "Decode::parse_opcode for u16"])
p("C06", "Register operands of compressed instructions are the encoded registers",
  "For every accepted 16-bit word, each register operand reported equals the register the encoding names: the full 5-bit field, or 8 plus the 3-bit field for the narrow formats, with two-address forms reporting the same register as destination and first source. Operands the instruction form does not carry are absent.",
  ["inputs", "configurations"], "every accepted 16-bit word, for Rv32 and Rv64",
  "12 words are tested; wide and narrow register fields and destination/source roles differ per opcode.",
  D16, [("operand extraction", "src/decode/c_extension.rs parse_rd/parse_rs1/parse_rs2")], ["Decode::decode for u16"])
p("C07", "Immediates of compressed instructions are reassembled exactly",
  "For every accepted 16-bit word the immediate equals the value the C extension defines: every scrambled bit in its place, scaled offsets in bytes, sign extension exactly for the signed forms, and the upper immediate already in bits 17 to 12. Instructions without an immediate report none.",
  ["inputs", "configurations"], "every accepted 16-bit word, for Rv32 and Rv64",
  "Each of the 14 scrambled layouts is sampled at most once; most bits of most layouts are zero in the samples.",
  D16 + ["src/decode.rs"], [("immediate extraction", "src/decode/c_extension.rs parse_imm"), ("bit scatter", "src/decode/inst_16.rs set"), ("sign extension", "src/decode.rs to_signed_nbit")],
  ["Decode::decode for u16"])
p("C08", "The target ISA decides exactly the XLEN-dependent instructions",
  "A word that is an Rv64-only instruction on Rv64 (and is not some other instruction on Rv32) is refused on Rv32 with the Rv64-only error, and that error is returned in no other case, in particular never on Rv64. Every other word gives identical results on both ISAs, except the XLEN-dependent forms: immediate shifts (a 6-bit amount below funct6 on Rv64, a 5-bit amount below funct7 on Rv32, so amounts with bit 5 set are refused there), the compressed jal/addiw code points, and reads of the upper counter halves, which are counter instructions only on Rv32.",
  ["inputs", "configurations"], "every 32-bit and 16-bit word, compared across Rv32 and Rv64",
  "No unit test decodes on Rv32 at all (one doc example does); the relation compares two configurations over all words.",
  D32 + D16 + ["src/decode.rs"], [("Rv64-only gate", "src/decode.rs only_rv64"), ("ISA-dependent matches", "src/decode/base_i.rs, src/decode/c_extension.rs")],
  ["Decode::decode for u32 and u16"])
p("C09", "Decoding and operand parsing never panic",
  "For every word, every ISA and every opcode value, decoding and each of the piecewise parsers return a value or an error: they never panic, overflow, abort or fail to terminate. This holds with arithmetic overflow checks enabled as well as without.",
  ["inputs", "configurations"], "every 32-bit and 16-bit word, both ISAs; the piecewise operand parsers with every opcode value, also one that does not belong to the word",
  "Tests never feed invalid words or mismatched opcodes; slices, conversions and unreachable arms panic only on particular bit patterns.",
  D32 + D16 + ["src/decode.rs"], [("bit slicing and checked conversions", "src/decode/inst_32.rs, src/decode/inst_16.rs slice"), ("unreachable arms", "src/decode/zicfiss_extension.rs, src/decode/c_extension.rs")],
  ["Decode trait methods for u32 and u16"])
p("C10", "A refused word is reported with the error that names what disqualified it",
  "The error of every refused word is determined by the first part of the encoding that fits no supported instruction: the major opcode, the extension selected below it, funct3, then funct7/funct6/funct5; reserved register or immediate values of an otherwise known instruction, and the all-zero 16-bit word, are illegal instructions. Rv64-only instructions on Rv32 and words of the wrong length have their own errors.",
  ["inputs", "configurations"], "every refused 32-bit and 16-bit word, both ISAs, and out-of-range integers",
  "Only two error results appear in the tests (doc examples); callers that turn errors into traps depend on all of them.",
  D32 + D16 + ["src/decode.rs", "src/lib.rs"], [("error arms of the opcode matches", "src/decode/*.rs parse_opcode, src/decode/inst_32.rs parse_extension")],
  ["Decode::decode for u32 and u16", "Instruction::try_from"])
p("C11", "Instruction length follows from the two low bits alone, also in a stream",
  "A 32-bit decode never succeeds on a word whose two low bits are not 11 and a 16-bit decode never succeeds on one whose low bits are 11; the compressed flag of a decoded instruction is set exactly for 16-bit words. Walking any halfword stream by the decoded lengths therefore consumes each halfword exactly once, never desynchronises, and yields the same instructions as decoding each position on its own.",
  ["inputs", "histories"], "every word of both widths; every mixed stream of 16- and 32-bit instructions, valid or not",
  "Tests decode isolated words of the right width; the flag is asserted for two words and no stream is ever decoded.",
  ["src/decode/inst_32.rs", "src/decode/inst_16.rs", "src/lib.rs"], [("width dispatch", "src/decode/inst_32.rs, src/decode/inst_16.rs decode"), ("low-bit test", "src/lib.rs try_from")],
  ["Decode::decode for u32 and u16", "Instruction::is_compressed"])
p("C12", "Converting an integer decodes it as an Rv64 instruction of the right width",
  "Converting a machine-size integer to an instruction gives exactly the Rv64 decoding of the 32-bit word when the two low bits are 11, and of the 16-bit word otherwise, errors included. Integers that do not fit that width yield an error; the conversion never panics and never silently drops bits.",
  ["inputs"], "every machine-size integer",
  "Four integers are tested, none out of range.",
  ["src/lib.rs"], [("TryFrom<usize>", "src/lib.rs")], ["Instruction::try_from(usize)"])
p("C13", "The piecewise parsers and the whole decode agree",
  "For every word and ISA, decoding equals the composition of the separately callable opcode, register, immediate and format steps: same success or failure, same error, same parts (the all-zero 16-bit word is the one exception: decode calls it illegal). For any opcode value of the word's own width an operand parser extracts what that opcode prescribes, whether or not the word encodes it, and for an opcode of the other width every operand parser returns the wrong-length error.",
  ["inputs", "configurations"], "every word of both widths and both ISAs, combined with every opcode value",
  "Tests call the pieces only with the opcode obtained from the same word and never compare with decode.",
  D32 + D16, [("decode as composition", "src/decode/inst_32.rs, src/decode/inst_16.rs decode")], ["Decode trait methods", "OpcodeKind::get_format"])
p("C14", "The opcode alone determines format and operand shape",
  "Every decoded instruction carries the format of its opcode, and which of destination, sources and immediate are present depends only on the opcode, never on field values or ISA. Present register operands are always between 0 and 31 (CSR numbers below 4096), and every operand the format displays is present.",
  ["inputs", "configurations"], "every accepted word of both widths, both ISAs; every opcode value for the format query",
  "Format is asserted for three words and operand presence for about 55.",
  D32 + D16 + INS, [("get_format tables", "src/instruction/*.rs"), ("operand lists", "src/decode/*.rs")], ["Instruction fields", "OpcodeKind::get_format"])
p("C15", "Every decoded instruction can be printed",
  "Formatting any successfully decoded instruction, or any opcode value, as text succeeds and yields a non-empty single line; it never panics, whatever formatting options are given, and passes on the error of a writer that fails.",
  ["inputs", "configurations"], "every accepted word of both widths, both ISAs",
  "No test formats an instruction; the formatter unwraps operands and has unreachable arms for opcode/format combinations.",
  INS, [("Display for Instruction", "src/instruction.rs fmt")], ["Display for Instruction and OpcodeKind"])
p("C16", "Printed text starts with the instruction's own mnemonic",
  "The text of an opcode is its assembly mnemonic (lower case, with the C. prefix for the C extension and c. for compressed shadow-stack instructions), no two opcodes share one, and the text of a decoded instruction is that mnemonic followed either by nothing or by one space and the operands.",
  ["inputs"], "every opcode value and every accepted word",
  "Mnemonics are never tested (the misspelt mulhsu shipped).",
  INS, [("Display for the opcode enums", "src/instruction/*.rs")], ["Display for OpcodeKind and Instruction"])
p("C17", "Decoding is a pure function of word and ISA",
  "The result of decoding, parsing, converting or printing depends only on its arguments: not on what was decoded before, how often, on which ISA, from which thread, or whether earlier calls failed. Repeating a call gives an equal result.",
  ["histories", "schedules", "inputs"], "every sequence and every interleaving of calls from any number of threads",
  "Each test makes one call on one thread; hidden state shows only over particular histories.",
  ["src/decode.rs", "src/lib.rs"] + D32 + D16 + INS, [("no mutable state in the crate", "src/")], ["all public functions"])
p("C18", "Decoding loses no information about the word",
  "Two different words of the same width that both decode on the same ISA never give equal instructions, except that the ordering bits of shadow-stack atomic swaps are not reported. Hence the original word can be rebuilt from the decoded opcode and operands.",
  ["inputs", "configurations"], "every pair of accepted words of the same width, both ISAs",
  "A relation over pairs of words; tests look at single words.",
  D32 + D16 + ["src/instruction.rs"], [("operand extraction", "src/decode/*.rs"), ("equality of instructions", "src/instruction.rs derive(PartialEq)")],
  ["Decode::decode", "PartialEq for Instruction"])
p("C19", "Printed operands are the decoded operands in the order of the format",
  "The text of a decoded instruction lists, after the mnemonic, exactly the operands of its format in the documented order: registers by ABI name, stores as source, offset(base), branches as the two sources then the offset, immediates and shift amounts as signed decimal, except upper immediates, jal targets and c.addi4spn in 0x-hexadecimal and CSR numbers as printed for their format. Hence instructions of one opcode that differ in a displayed operand never print the same text.",
  ["inputs", "configurations"], "every accepted word of both widths, both ISAs",
  "Only one printed line appears in the documentation, as a comment; no test asserts any text.",
  INS, [("Display for Instruction", "src/instruction.rs fmt"), ("register names", "src/instruction.rs reg2str")], ["Display for Instruction"])
p("C20", "A compressed word and its 32-bit expansion decode to the same operation",
  "Every compressed instruction abbreviates one 32-bit instruction. For every 16-bit word that encodes an instruction (c.lui with zero immediate, reserved, aside) and every ISA it exists on, the 32-bit word the RISC-V manual gives as its expansion decodes on the same ISA to the expanded opcode, with the register operands the compressed decoding reports (or the implied x0, ra, sp) and the same immediate; c.lui's immediate is the upper immediate shifted left by 12.",
  ["inputs", "configurations"], "every accepted 16-bit word on both ISAs, paired with its expansion",
  "The tests never relate the two decoders: a compressed word and its expansion are decoded by different tables and different immediate code.",
  D16 + ["src/decode/base_i.rs", "src/decode/inst_32.rs"], [("compressed operand extraction", "src/decode/c_extension.rs bit_16"), ("base operand extraction", "src/decode/base_i.rs bit_32")],
  ["Decode::decode for u16 and u32"])
p("C21", "Instructions are equal exactly when all their parts are equal",
  "Two instructions compare equal if and only if opcode, the three register operands, immediate, format and compressed flag are all equal, an absent operand being equal only to an absent one; == is symmetric and != its negation. The same holds for opcodes, formats and errors by identity, and for decoding results: an error equals only the same error. So decoding a word twice gives equal instructions, and changing any single part makes them unequal.",
  ["inputs"], "every pair of instructions, decoded or assembled from the public fields; every pair of opcodes, formats and errors",
  "assert_eq! in the tests can only fail by inequality: an equality that ignores a part makes every test pass more easily.",
  INS + ["src/decode.rs"], [("derived equality", "src/instruction.rs, src/instruction/*.rs, src/decode.rs derive(PartialEq)")],
  ["PartialEq for Instruction, OpcodeKind, the opcode enums, InstFormat and DecodingError"])
p("C22", "An instruction assembled from its fields prints like a decoded one",
  "The text of an instruction with its opcode's own format depends only on the opcode and the operands that format displays. An instruction put together by hand from the public fields therefore prints exactly as the equal decoded instruction does, operands that are not displayed and the compressed flag make no difference whether present or absent, and every register 0 to 31, every CSR number below 4096 and every 32-bit immediate is printed, also values no word encodes; printing never panics for these.",
  ["inputs", "configurations"], "every decodable instruction with arbitrary hidden fields; every opcode with every register, CSR number and 32-bit immediate",
  "No test prints anything, let alone an instruction that did not come from a decode; dependence on a hidden field or on immediate size shows only there.",
  INS, [("Display for Instruction", "src/instruction.rs fmt"), ("register names", "src/instruction.rs reg2str")], ["Display for Instruction", "Instruction fields"])
p("C23", "Debug output names the type and shows every field with its value",
  "The debug text of an instruction names the type and each of the seven public fields once with its value: the opcode as extension and variant, operands as Some with the decimal number or None, the format and error by variant name, the flag as true or false. Two instructions therefore have the same debug text only if they are equal, for decoded instructions and for any assembled from the fields, and the multi-line form shows the same fields. Debug printing never panics.",
  ["inputs"], "every decodable word on both ISAs; every opcode, format and error; instructions assembled with arbitrary field values",
  "Debug output only appears in the message of a failing test, so no passing test ever looks at it.",
  INS + ["src/decode.rs"], [("derived Debug", "src/instruction.rs, src/instruction/*.rs, src/decode.rs derive(Debug)")],
  ["Debug for Instruction, OpcodeKind, InstFormat and DecodingError"])
p("C24", "Operands take all values of their documented range and no others",
  "Every operand of a decoded instruction lies in the range the manual gives for its opcode: branch offsets are even and within 4 KiB, compressed stack offsets multiples of the access size, shift amounts below the word or register width, three-bit register fields x8 to x15, excluded registers and zero immediates absent (c.lui with a zero immediate aside), and so on. Conversely every value of that range is produced by some word, on every ISA that has the opcode.",
  ["inputs", "configurations"], "every decodable 32-bit and 16-bit word on Rv32 and Rv64; every operand value of every opcode",
  "Tests show one or two values per operand; neither the ends of a range nor the absence of values outside it are visible in examples.",
  D32 + D16, [("immediate parsers", "src/decode/*.rs parse_imm"), ("register parsers", "src/decode/*.rs parse_rd, parse_rs1, parse_rs2")],
  ["Decode::decode", "Instruction fields"])
p("C25", "Printing into a full writer fails cleanly",
  "Printing an instruction or an opcode succeeds exactly if the writer accepts the whole text. If the writer runs out of room, printing returns its error, everything written up to then is the beginning of the full text, and nothing more is handed to the writer after the first refusal.",
  ["inputs", "fault_sequences"], "every printable instruction and opcode; every amount of room from none to more than enough",
  "The tests never print, and a String never refuses, so no error from the writer ever reaches the code.",
  INS, [("Display for Instruction", "src/instruction.rs fmt"), ("Display for opcodes", "src/instruction/*.rs fmt")], ["Display for Instruction and OpcodeKind"])
p("C26", "Printed text, assembled again, is the word it came from",
  "The text of every decoded instruction, read as assembly for the same ISA (mnemonic, registers by name, numbers in decimal or 0x-hexadecimal, operands in the order of the format), encodes to the word it was decoded from (c.lui with a zero immediate aside). Only bits of operands no text shows may differ: those of fence, the ordering bits of atomics other than lr.w, and the immediate of c.nop.",
  ["inputs", "configurations"], "every decodable 32-bit and 16-bit word on Rv32 and Rv64",
  "The tests look at decoded fields only and never at a text, so nothing ties what is printed to the word.",
  INS + D32 + D16, [("Display for Instruction", "src/instruction.rs fmt"), ("operand parsers", "src/decode/*.rs parse_*")],
  ["Decode::decode", "Display for Instruction"])
with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "properties.jsonl"), "w") as f:
    for x in P: f.write(json.dumps(x) + "\n")
