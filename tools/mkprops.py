#!/usr/bin/env python3
"""Regenerates properties.jsonl (the single place where property texts live)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, state=None, obs=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if obs: a["observe_at"] = obs
    a["hook_needed"] = None
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

prop("C01", "SNES-to-cartridge address translation is exact",
 "For every 24-bit SNES address and each of the three cartridge mappings (LoROM, HiROM, ExHiROM), the translation yields exactly the file offset the cartridge hardware decodes, and yields an error exactly for work RAM (banks $7e-$7f), for the low half of the system banks ($00-$3f and $80-$bf), and for the low half of every LoROM bank. LoROM: bank bits 0-6 above the low 15 address bits; HiROM: low 22 address bits; ExHiROM: low 22 bits plus $400000 exactly when address bit 23 is clear.",
 ["inputs", "configurations"], "all 2^24 addresses x 3 mappings",
 "No test exercises rom.cc at all; the quantifier is 50 million (address, mapping) pairs, with the wrong ones confined to particular bank ranges.",
 ["nsasm/rom.cc", "nsasm/rom.h", "nsasm/address.h"], [("SnesToROMAddress", "nsasm/rom.cc")], obs=["return value of SnesToROMAddress"])
prop("C02", "ROM reads return exactly the requested bytes or an error",
 "Reading n bytes at an address returns exactly n bytes, the i-th being the ROM byte that the i-th address (advancing inside the bank, wrapping from $ffff to $0000 of the same bank) translates to; the read fails if and only if n is negative or one of those addresses does not translate or lies past the end of the ROM image. A zero-length read succeeds with no bytes.",
 ["inputs", "configurations"], "every mapping, address, length, image size and image content",
 "Untested; failures need a bank wrap, a hole between two mapped halves, or the last byte of an image.",
 ["nsasm/rom.cc", "nsasm/rom.h"], [("Rom::Read", "nsasm/rom.cc"), ("SnesToROMAddress", "nsasm/rom.cc")],
 state=[("data_", "ROM image bytes", "nsasm/rom.h")], obs=["return value of Rom::Read"])
prop("C03", "Byte, word and long reads are little-endian and wrap in the bank",
 "Reading a byte, word or long at an address returns the 1, 2 or 3 bytes at that address and the next ones within the bank (wrapping at $ffff) combined little-endian as a non-negative value, and returns the source's error whenever the underlying read fails, whichever input source is behind it.",
 ["inputs"], "every address, every byte content, every failure of the underlying source",
 "Untested; needs bytes >= $80 and bank-crossing positions.",
 ["nsasm/memory.cc", "nsasm/memory.h", "nsasm/rom.cc"], [("InputSource::ReadByte/ReadWord/ReadLong", "nsasm/memory.cc")])
prop("C04", "Overwriting a ROM changes exactly the written bytes",
 "After any sequence of writes through the ROM overwriter, the saved file is the original header followed by the original image with exactly the successfully addressed bytes replaced (last write wins, addresses advancing inside the bank with wrap), and its size is unchanged. A write that reaches an address that does not translate or lies past the end of the image returns an error and never touches memory outside the image.",
 ["histories", "inputs"], "every image, header, mapping and sequence of writes",
 "Untested; off-by-one at the end of the image and aliasing through mirrored banks only show for particular addresses.",
 ["nsasm/rom.cc", "nsasm/rom.h"], [("RomOverwriter::Write", "nsasm/rom.cc"), ("RomOverwriter::CreateFile", "nsasm/rom.cc")],
 state=[("data_", "image copy that receives writes", "nsasm/rom.h")], obs=["bytes passed to fwrite by CreateFile", "return value of Write"])
prop("C05", "The identity sink accepts exactly what the ROM already contains",
 "A write to the identity-checking sink succeeds if and only if every byte written is readable from the ROM at its (bank-wrapping) address and equals the byte there; in particular any single differing byte and any unmapped or past-the-end address makes it fail.",
 ["inputs"], "every image, mapping, address and data of any length",
 "Untested; a comparison that skips a byte or a direction is invisible unless exactly that byte differs.",
 ["nsasm/rom.cc"], [("RomIdentityTest::Write", "nsasm/rom.cc")])
prop("C06", "Loading a ROM file strips the header and detects the mapping",
 "A file loads if and only if every I/O step succeeds, its size is a multiple of $1000, optionally plus a $200-byte header, its payload is at least $10000 bytes, and exactly one of the LoROM ($7fdc-$7fdf) and HiROM ($ffdc-$ffdf) checksum/complement pairs is complementary; otherwise an error is returned and nothing crashes. The loaded image is byte-for-byte the payload with the header kept apart, mapped LoROM, HiROM (payload up to 4 MB) or ExHiROM (larger) accordingly, and the file is closed on every path.",
 ["inputs", "fault_sequences"], "every file size, content and I/O failure pattern",
 "Untested; the environment (open, seek, tell, short read) fails at will and sizes sit at boundaries.",
 ["nsasm/rom.cc"], [("LoadRomFile", "nsasm/rom.cc"), ("CheckSnesHeader", "nsasm/rom.cc")], obs=["LoadRomFile result", "fopen/fseek/ftell/fread/fclose calls"])
prop("C07", "A data range is an exact set of addresses",
 "After any history of claims, an address is contained in a data range if and only if some claim covered it; a claim by location and length covers exactly the length addresses from the location on, wrapping inside the bank. The exposed chunks are non-empty, in increasing order, disjoint, non-adjacent and cover exactly the contained addresses.",
 ["histories", "inputs"], "every history of claims, of any addresses and lengths",
 "ranges_test samples a few dozen fixed claims; merging is wrong only for particular orders of overlapping and touching chunks.",
 ["nsasm/ranges.cc", "nsasm/ranges.h"], [("DataRange::ClaimBytes", "nsasm/ranges.cc"), ("DataRange::Contains", "nsasm/ranges.cc")],
 state=[("ranges_", "sorted vector of merged chunks", "nsasm/ranges.h")])
prop("C08", "A claim reports a conflict exactly when bytes were already claimed",
 "Claiming bytes returns true if and only if none of the claimed addresses was contained in the range before (and the claim does not cover an address twice); touching but not overlapping neighbours never count as a conflict. The bytes are contained afterwards in either case.",
 ["histories", "inputs"], "every history of claims, of any addresses and lengths",
 "Overlap with the left neighbour, the right neighbour, several neighbours or a wrapped part are distinct cases; tests sample a few of them.",
 ["nsasm/ranges.cc"], [("DataRange::ClaimBytes", "nsasm/ranges.cc")])
prop("C09", "Range map inserts all or nothing and looks up the owner",
 "Inserting a data range into a range map succeeds if and only if it overlaps no earlier successful insertion, and a failed insertion changes nothing. Looking up an address yields the value of the unique successful insertion covering it, and nothing if there is none; the containment query always agrees with lookup.",
 ["histories", "inputs"], "every history of insertions and every address",
 "The test inserts a handful of fixed ranges; partial insertion on conflict and boundary addresses need specific histories.",
 ["nsasm/ranges.h", "nsasm/ranges.cc"], [("RangeMap::Insert", "nsasm/ranges.h"), ("RangeMap::Lookup", "nsasm/ranges.h")],
 state=[("used_/mapping_", "occupied set and chunk->value map", "nsasm/ranges.h")])
prop("C10", "Address arithmetic wraps and subtracts as the program counter does",
 "Advancing an address by any offset keeps its bank and adds modulo 65536; the difference of two addresses of one bank is the unique value in -32768..32767 that leads from the second back to the first, and addresses of different banks have no difference (an error). Bank/in-bank parts recompose the address, ordering is numeric order, and the textual form is '$' plus exactly six lower-case hex digits of it.",
 ["inputs"], "all addresses, all 32-bit offsets, all address pairs",
 "No direct test; sign handling fails only at $8000 distance or across $ffff.",
 ["nsasm/address.h"], [("Address::AddWrapped, SubtractWrapped, ToString", "nsasm/address.h")])
prop("C11", "Numeric coercion picks the unique representative of its type",
 "Coercing any integer to a byte, word or long (signed or unsigned) yields the unique value of that type's range congruent to it modulo 2^8, 2^16 or 2^24, leaves values already in range unchanged, and leaves untyped values alone; label values coerce the same way. Combining two operand types is commutative, associative and idempotent, with the untyped operand neutral, the width the wider of the two, and signed if either is.",
 ["inputs"], "all 2^32 integers x all types; all pairs and triples of types",
 "No direct test; negative inputs and sign boundaries matter.",
 ["nsasm/numeric_type.h", "nsasm/address.h"], [("CastTo, ArtihmeticConversion", "nsasm/numeric_type.h"), ("LabelValue::ToNumber", "nsasm/address.h")])
prop("C12", "Mnemonic, suffix and directive names round-trip",
 "Every mnemonic, pseudo-instruction, suffix and directive has a distinct non-empty printed name; parsing a text, in any letter case, succeeds if and only if it spells one of those names, and returns exactly the value bearing it; printing then parsing any value is the identity.",
 ["inputs"], "every value, and every text up to the length bound in any letter case",
 "mnemonic_test checks fixed spellings; a swapped, missing or extra entry, or a text that is wrongly accepted, needs the right string.",
 ["nsasm/mnemonic.cc", "nsasm/mnemonic.h"], [("ToString/ToMnemonic/ToSuffix/ToDirectiveName", "nsasm/mnemonic.cc")])
prop("C14", "Error locations combine without losing information",
 "Updating an error's location with a path, a line or an address replaces exactly the component given and keeps the others, in any order and number of updates; the printed form is the bare message if no path is known, else path, then ':' and the decimal line or the six-digit hexadecimal address when one is known, then ': ' and the message. An error-or-value holds exactly one of the two and copies, moves and compares as its content does.",
 ["histories", "inputs"], "every sequence of updates and every content",
 "No test; order-dependent loss only appears for particular sequences.",
 ["nsasm/location.h", "nsasm/error.h", "nsasm/error.cc"], [("Location::Update/ToString", "nsasm/location.h"), ("ErrorOr", "nsasm/error.h")])
prop("C15", "The byte-checking test sink accepts exactly the expected writes",
 "The expectation-checking output sink rejects a write exactly when it touches an address already written, and its final check succeeds if and only if the set of (address, byte) pairs written equals the set expected, addresses advancing inside the bank with wrap.",
 ["histories", "inputs"], "every history of writes and every expectation list",
 "It is the oracle of the other tests and has no test of its own.",
 ["test/test_sink.cc"], [("TestSink::Write/Check", "test/test_sink.cc")])
prop("C16", "The dump tool prints the ROM's data or a clean error",
 "For every argument list and ROM, the dump tool either prints a usage or error line, or prints an origin line followed by data directives that, read in order, list exactly the requested number of little-endian 1-, 2- or 3-byte values from the start address on, at most the requested number per line; it never crashes.",
 ["inputs"], "every start, count, stride and per-line value, every ROM including unmapped reads",
 "A command-line tool with no test at all; the error path runs only for unmapped or past-the-end reads.",
 ["util/quick_dump.cc"], [("main", "util/quick_dump.cc")])
prop("C20", "The opcode table is the 65816 instruction set",
 "Each of the 256 opcode bytes maps to exactly the 65816 mnemonic and addressing mode (with accumulator-sized or index-sized immediates where the processor has them), and encoding that mnemonic and mode gives back the byte; a mnemonic/mode pair is legal if and only if some opcode has it, and instruction lengths follow the processor for each accumulator/index width.",
 ["inputs"], "all 256 opcodes, all mnemonic/addressing-mode pairs, all flag states",
 "The table tests compare the table with itself and a few samples.",
 ["nsasm/opcode_map.cc", "nsasm/opcode_map.h", "nsasm/addressing_mode.h"], [("DecodeOpcode/EncodeOpcode tables", "nsasm/opcode_map.cc")])
prop("C21", "Decoding then assembling reproduces the bytes",
 "For every instruction byte sequence and every known accumulator/index width, decoding yields an instruction of the processor's length for that opcode and width, or an error exactly when the width is needed but unknown or bytes run out; assembling the decoded instruction at the same address emits exactly the bytes decoded.",
 ["inputs"], "all opcode and operand bytes x all known flag states x all addresses",
 "The decode tests use a few byte strings; 2^32 byte sequences and 9 flag states cannot be sampled exhaustively.",
 ["nsasm/decode.cc", "nsasm/instruction.cc", "nsasm/opcode_map.cc"], [("Decode", "nsasm/decode.cc"), ("Instruction::Assemble", "nsasm/instruction.cc")])
prop("C22", "Every accepted instruction assembles to its declared size",
 "A mnemonic and operand form is accepted exactly when the 65816 has that instruction in an addressing mode of that form and operand width (and, for width-dependent immediates and suffixes, when the flag states allow it). Any mnemonic, suffix and operand combination accepted by the assembler's checks assembles without internal error, emits exactly as many bytes as were reserved for it when the layout was computed, and those bytes are the little-endian encoding the 65816 defines for the operand value; an operand that does not fit its field is truncated to it or rejected, never spilled into a neighbouring byte.",
 ["inputs"], "every mnemonic x addressing mode x operand type and value",
 "Tests assemble a few hundred fixed lines.",
 ["nsasm/instruction.cc", "nsasm/addressing_mode.cc", "nsasm/statement.cc"], [("Instruction::SerializedSize/Assemble/CheckConsistency", "nsasm/instruction.cc"), ("DeduceMode", "nsasm/addressing_mode.cc")])
prop("C23", "Branches encode the signed distance or are rejected",
 "An 8- or 16-bit relative branch to any target assembles to the displacement that makes the processor land on the target (within the bank, wrapping), if and only if the target is in the branching bank and the displacement fits the field; otherwise an error is returned and no bytes are written.",
 ["inputs"], "every instruction address and every target",
 "Range ends and bank wrap are single points among 2^48 pairs.",
 ["nsasm/instruction.cc", "nsasm/address.h"], [("Instruction::Assemble relative modes", "nsasm/instruction.cc")])
prop("C24", "Tracked processor flags are sound",
 "If the assembler or disassembler claims to know the emulation, accumulator-width or index-width flag (or that it still has its value at entry) after a sequence of instructions, then the flag has that value after executing the sequence on a 65816 from any concrete state consistent with what was known before (calls honouring their declared convention, memory stores through addresses leaving the pushed bytes alone, and the stack being in page 1 whenever emulation mode is entered).",
 ["programs", "inputs"], "every instruction sequence up to the bound and every concrete machine state",
 "Tests run fixed sequences; a wrong transfer function matters only for some (instruction, operand, prior state).",
 ["nsasm/execution_state.h", "nsasm/execution_state.cc", "nsasm/instruction.cc"], [("Instruction::Execute/ExecuteBranch", "nsasm/instruction.cc"), ("ExecutionState, StatusFlags", "nsasm/execution_state.h")])
prop("C25", "Merging processor states never invents knowledge",
 "The merge of two execution states describes every machine state that either of them describes, is commutative, idempotent and monotone in what it knows, and so control-flow joins terminate; a flag keeps a known value only if both sides know it equal.",
 ["inputs"], "all pairs and triples of flag states and short stacks",
 "Tests merge a handful of pairs.",
 ["nsasm/execution_state.h", "nsasm/execution_state.cc"], [("operator|= / operator| on states", "nsasm/execution_state.h")])
prop("C26", "Flag-state names round-trip and mean what they say",
 "Every flag state a name denotes prints to a name that parses back to the same state, a name is accepted if and only if it is one of the documented mode names, and the widths it implies are those in the name.",
 ["inputs"], "every flag state and every text up to the bound",
 "Tests sample names.",
 ["nsasm/execution_state.h", "nsasm/execution_state.cc"], [("StatusFlags::FromName/ToName", "nsasm/execution_state.cc")])
prop("C27", "The tokenizer never crashes and reads literals exactly",
 "Splitting any line of text into tokens terminates with a token list or an error and never crashes; hexadecimal, binary and decimal literals yield their exact value and the type implied by their digit count (one too large for the value type, 24 bits for hexadecimal and binary and 31 for decimal, is an error), identifiers, keywords and punctuation are separated exactly where the language says, and everything after a comment mark is ignored.",
 ["inputs"], "every line up to the length bound",
 "Fixed sample lines.",
 ["nsasm/token.cc", "nsasm/token.h"], [("Tokenize", "nsasm/token.cc")])
prop("C28", "Parsing never crashes and drops nothing silently",
 "Parsing any sequence of tokens terminates with statements or an error and never crashes, a line outside the grammar is refused, and an accepted line yields exactly the labels and statements written on it, each with the operands, addressing form, size suffix and return annotation written, none silently dropped.",
 ["inputs"], "every token sequence up to the length bound",
 "Fixed sample lines.",
 ["nsasm/parse.cc", "nsasm/token.h"], [("Parse", "nsasm/parse.cc")])
prop("C29", "Expressions evaluate with the documented precedence",
 "An accepted arithmetic expression evaluates to the value of the usual precedence and left associativity (multiplication and division before addition and subtraction, unary operators binding tightest, parentheses overriding) computed exactly on its operands, literals reduced to their type, with division by zero and results that do not fit in 32 bits errors; evaluation never crashes.",
 ["inputs"], "every expression shape up to the bound and all operand values and types",
 "Tests evaluate a few constants.",
 ["nsasm/expression.h", "nsasm/expression.cc", "nsasm/parse.cc"], [("BinaryExpression/UnaryExpression::Evaluate", "nsasm/expression.h")])
prop("C30", "Assembled output is the program laid out at its addresses",
 "Assembling a module emits each statement's bytes at the address following the previous statement's (from the last origin, wrapping in the bank), a label's value is the address of the statement it names, references resolve to the innermost visible definition or to a module's exported name, undefined and duplicate names, labels on nothing, unreachable code, execution into data and cyclic constants are errors, no two statements' bytes overlap without an error, and afterwards the assembler reports exactly the written bytes as contained and for each address a global name of that value if there is one.",
 ["programs"], "every program of the bounded shapes, all operand and origin values",
 "Tests assemble fixed programs.",
 ["nsasm/module.cc", "nsasm/assembler.cc", "nsasm/parse.cc"], [("Module::RunFirstPass/RunSecondPass/Assemble", "nsasm/module.cc"), ("Assembler::Assemble", "nsasm/assembler.cc")])
prop("C31", "Disassembly lists what executes and reassembles to the same bytes",
 "Starting from an address and flag state, the disassembler either reports an error and changes nothing, which it never does where every byte executed can be read and all paths reach each instruction with the same known widths, or lists every instruction that execution from there can reach, decoded with the operand widths in force there, under flags true of every path that reaches it, with a size suffix exactly where the width is known, each local branch naming the label of its target, and each call or jump out of the routine reported with flags true of it. After any further disassemblies this still holds for all of them, entry points are marked and labelled, and the listing, printed and assembled at the same addresses, gives back exactly the bytes it covers.",
 ["inputs", "histories"], "every memory of the bounded shapes, every starting place and flag state, every sequence of two disassemblies, every execution",
 "One fixed disassembly test.",
 ["nsasm/disassemble.cc", "nsasm/decode.cc", "nsasm/instruction.cc"], [("Disassembler::Disassemble/Cleanup", "nsasm/disassemble.cc")])
prop("C32", "Data and layout directives emit what they list",
 "Byte, word and long data directives emit exactly their operands in order, each little-endian in 1, 2 or 3 bytes; origin, equate and mode directives emit nothing and the reserved size always equals the size emitted.",
 ["inputs"], "all operand values and operand counts up to the bound",
 "Tests sample a few values.",
 ["nsasm/directive.cc", "nsasm/directive.h"], [("Directive::SerializedSize/Assemble", "nsasm/directive.cc")])
prop("C33", "Assembled operand widths match the processor on every path",
 "Whenever a program is accepted, then whatever path execution takes from an entry point declared for the processor's state, every instruction reached is one the program lists and its immediate operand has the width the processor's m and x flags select at that moment; a program for which this cannot be guaranteed is refused, and the analysis always ends.",
 ["programs", "histories"], "every program of the bounded shapes, every execution of it from every state its entry admits",
 "Tests assemble straight-line code once and never execute it.",
 ["nsasm/module.cc", "nsasm/execution_state.h", "nsasm/instruction.cc"], [("Module::RunFirstPass", "nsasm/module.cc"), ("ExecutionState::operator|=", "nsasm/execution_state.h")])
prop("C34", "Printed statements read back as the same statement",
 "Every instruction, directive or label whose operands are literals or names prints as a line that is accepted again and yields the same statement: the same mnemonic or directive, size suffix, addressing mode, operand values, types and names, flag state and return convention.",
 ["inputs"], "every single-statement line whose operands have no operators, every operand value",
 "Tests print a few statements and compare text; nothing reads the text back, and a lost part shows only for the directive or form it belongs to.",
 ["nsasm/instruction.cc", "nsasm/directive.cc", "nsasm/addressing_mode.cc", "nsasm/expression.cc", "nsasm/calling_convention.cc", "nsasm/parse.cc"],
 [("Instruction::ToString", "nsasm/instruction.cc"), ("Directive::ToString", "nsasm/directive.cc"), ("ArgsToString", "nsasm/addressing_mode.cc"), ("Literal::ToString", "nsasm/expression.cc")])
prop("C35", "Jumps out of the assembled program are reported truthfully",
 "After assembly the reported jump targets are exactly the places that a call or jump of the program names by a constant or a .remote directive declares and at which no byte was assembled, each with flags true of every execution that reaches it and of every declaration of it; the reported return conventions are exactly those that .entry and .remote directives declare for their places.",
 ["programs", "histories"], "every program of the bounded shapes in one or two modules, every execution of it",
 "Nothing tests the reports; a wrong one needs two jumps to one place in different states, or two modules.",
 ["nsasm/assembler.cc", "nsasm/module.cc", "nsasm/instruction.cc"], [("Assembler::JumpTargets", "nsasm/assembler.cc"), ("Module::Assemble", "nsasm/module.cc"), ("Instruction::FarBranchTarget", "nsasm/instruction.cc")])
prop("C36", "The disassembly tool's listing assembles back to the ROM",
 "For any arguments, mode names, start addresses and ROM file quick_disassemble ends with a usage text, with an error message and a nonzero status, or with status 0 and a listing that assembles, as it stands, to exactly the ROM's bytes at the addresses in its comments, and contains every start and every routine of the ROM its calls and jumps lead to unless it prints that one as an error.",
 ["programs", "inputs", "fault_sequences"], "every ROM of the bounded shapes, every argument text of the bounded length, one I/O failure anywhere",
 "No test runs the tool; what it prints is nowhere read back.",
 ["util/quick_disassemble.cc", "nsasm/disassemble.cc", "nsasm/rom.cc", "nsasm/assembler.cc"], [("main", "util/quick_disassemble.cc"), ("Disassembler::Disassemble/Cleanup", "nsasm/disassemble.cc")])
prop("C37", "Disassembling further from verified sources gives code that assembles",
 "disassemble_more refuses, with a message and a nonzero status, sources that cannot be read or assembled or differ from the ROM, and otherwise lists the routines of the ROM that those sources and the listing itself jump to or declare, except what the sources already contain, as text that assembles to exactly the ROM's bytes at the addresses in its comments.",
 ["programs", "inputs", "fault_sequences"], "every ROM and source of the bounded shapes, one I/O failure anywhere",
 "No test runs the tool; before its repair it crashed on every ROM with a jump target.",
 ["util/disassemble_more.cc", "nsasm/disassemble.cc", "nsasm/rom.cc", "nsasm/assembler.cc"], [("main", "util/disassemble_more.cc"), ("RomIdentityTest::Write", "nsasm/rom.cc")])
prop("C38", "The assembly tool writes the ROM with the program, or says why not",
 "quick_assemble ends with status 0 exactly when every file was read and the program is accepted and fits the ROM and, given an output path, a file was completely written that equals the input ROM file except for exactly the program's bytes, or, given '-', the program's bytes are those already in the ROM and exactly its jump targets are listed; otherwise it prints an error and, unless writing itself failed, writes no file.",
 ["programs", "inputs", "fault_sequences"], "every source and ROM of the bounded shapes, one I/O failure anywhere",
 "No test runs the tool; before its repair it reported a file it could not write as success.",
 ["util/quick_assemble.cc", "nsasm/rom.cc", "nsasm/assembler.cc"], [("main", "util/quick_assemble.cc"), ("RomOverwriter::CreateFile", "nsasm/rom.cc"), ("RomIdentityTest::Write", "nsasm/rom.cc")])
prop("C39", "Assembly errors name the offending file and line",
 "When a program is refused for one line of one source, because that line cannot be read or evaluated, is missing what it refers to, conflicts with an earlier one, is unreachable, or because its bytes cannot be written, the error begins with that file's path and that line's number in it, counting from 1; when two lines conflict it is one of them, and a name defined by two modules is reported with both places.",
 ["programs", "inputs"], "every wrong line of the bounded menu at every place of a two-file program, every failing write",
 "Tests check only that errors occur; line numbers are not asserted anywhere.",
 ["nsasm/module.cc", "nsasm/assembler.cc", "nsasm/token.cc", "nsasm/parse.cc", "nsasm/error.h"], [("Module::LoadAsmFile/RunFirstPass/Assemble", "nsasm/module.cc"), ("Assembler::FindAssemblyOrder", "nsasm/assembler.cc"), ("NSASM_RETURN_IF_ERROR_WITH_LOCATION", "nsasm/error.h")])

prop("C40", "The straight-line listing shows what the machine runs",
 "For any arguments, ROM, start and mode, unless code without an exit fills a whole bank, dumb_disassemble ends with a usage text or an error and nonzero status, or with status 0 and a listing of consecutive instructions from the start, each the one that the ROM's bytes at its address encode in the state of every execution that falls through the lines before it or, after an exit, takes the last listed branch to it; the flags it prints are true of every such execution after the instruction, it names each branch's target, goes on past an exit exactly where a listed branch leads, and refuses no complete instruction whose width that state settles.",
 ["programs", "inputs"], "every sequence of pieces from the bounded menus at both ends of a bank, every flag value, every I/O failure",
 "The tool has no tests.",
 ["util/dumb_disassemble.cc", "nsasm/decode.cc", "nsasm/instruction.cc", "nsasm/execution_state.cc", "nsasm/rom.cc"], [("main", "util/dumb_disassemble.cc"), ("Decode", "nsasm/decode.cc"), ("Instruction::Execute", "nsasm/instruction.cc")])

prop("C41", "Source files are read line by line, completely",
 "Opening a source file yields an error naming it exactly when it cannot be opened or a read of it fails; otherwise it yields its path and exactly its lines in order, that is its content split at newlines and otherwise unaltered, empty lines and an unterminated last line included.",
 ["inputs", "fault_sequences"], "every content within the bounded length, every point of failure",
 "Tests never open a file.",
 ["nsasm/file.cc", "nsasm/file.h"], [("OpenFile", "nsasm/file.cc")])

prop("C42", "The interactive parser answers every line of its input",
 "interactive_parse ends at the end of its input with status 0, having printed for each line, in order and once, either the tokenizer's or parser's error for it or the labels and statements it consists of.",
 ["inputs"], "every sequence of lines from the bounded menu, and any bytes within the bounded length among them",
 "The tool has no tests.",
 ["util/interactive_parse.cc"], [("main", "util/interactive_parse.cc")])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps(p) + "\n")
print(len(P), "properties")
