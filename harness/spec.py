"""What each property's check explores. `params` reach the harness as sx_param()."""

COMMON_ASSUMPTIONS = [
    "LLVM IR from clang 18 at -O1 stands for the source; sampled paths and every counterexample are re-run on a g++ build",
    "operator new does not fail; C++ exceptions are treated as crashes",
    "Abseil is replaced by a std-based stand-in during symbolic execution (shim/); native replays of the stable targets use the real one",
]
PROPS = {}
ROM = ["nsasm/rom.cc", "nsasm/memory.cc", "nsasm/error.cc"]
LO, HI, EX = 0, 1, 2


import os


def case(_name=None, **kw):
    meta = {k[1:]: kw.pop(k) for k in list(kw) if k.startswith("_")}
    if _name:
        meta["name"] = _name
    return dict(params=kw, **meta)


PROPS["C01"] = dict(
    harness="c01.cc", srcs=ROM, stub_format=True, cases=[case("all addresses x mappings")],
    reach=["error", "lorom", "hirom", "exhirom"],
    bounds="all 2^24 addresses and all three mappings (complete)", outside="nothing")

PROPS["C02"] = dict(
    harness="c02.cc", srcs=ROM, stub_format=True,
    cases=[case(case=0, maxlen=5, mlo=m, mhi=m, _cost=5) for m in (LO, HI, EX)]
    + [case(case=1, maxlen=0, mlo=m, mhi=m, _cost=3, _soft=True) for m in (LO, HI, EX)]
    + [case(case=2, maxlen=0, mlo=m, mhi=m, a=a, n=n, probe=pr, size=sz)
       for m, a, n, pr, sz in [(HI, 0x40ffff, 0x10001, 0x10000, 0x200000), (HI, 0x41fffe, 0x10004, 0xffff, 0x200000),
                               (EX, 0xc08000, 0x10000, 0x8000, 0x200000), (HI, 0xc10000, 0x20000, 0x1ffff, 0x20000),
                               (HI, 0xc10000, 0x20000, 0x1ffff, 0x1ffff), (LO, 0x008000, 0x8001, 0, 0x200000)]]
    + [case(case=0, maxlen=12, mlo=m, mhi=m, _cost=9, _tier="thorough") for m in (LO, HI, EX)],
    reach=["empty", "error", "ok", "wrap"],
    bounds="any address, mapping, ROM size up to 8 MB with any contents; lengths -2^31..5 (12 thorough) anywhere, 1..65536 inside a bank, and a few lengths above 64 KB",
    outside="lengths above 5 (12) that wrap in a bank, other than the listed ones")

PROPS["C03"] = dict(
    harness="c03.cc", srcs=["nsasm/memory.cc", "nsasm/error.cc"], cases=[case("any source")],
    reach=["byte", "word", "long", "error"], bounds="any source contents, any set of failing addresses, all 2^24 addresses (complete)", outside="nothing")

PROPS["C04"] = dict(
    harness="c04.cc", srcs=ROM, stub_format=True, filemock=True,
    cases=[case(mlo=m, mhi=m, n=1, writes=2, header=1, faults=0, _cost=4) for m in (LO, HI, EX)]
    + [case(mlo=m, mhi=m, n=3, writes=1, header=0, faults=0, _cost=4) for m in (LO, HI, EX)]
    + [case(mlo=HI, mhi=HI, n=1, writes=1, header=h, faults=1) for h in (0, 1)]
    + [case(mlo=m, mhi=m, n=2, writes=2, header=1, faults=0, _tier="thorough", _cost=20) for m in (LO, HI, EX)]
    + [case(mlo=m, mhi=m, n=1, writes=3, header=1, faults=0, _tier="thorough", _cost=20) for m in (LO, HI, EX)],
    reach=["written", "rejected", "saved", "header", "save-error"],
    bounds="any mapping, ROM image of 64 KB to 8 MB with any contents, with and without header; two 1-byte writes or one write of up to 3 bytes (thorough: two of 2, three of 1) at any addresses; every output operation may fail",
    outside="longer write histories; concurrent changes to the file")

PROPS["C05"] = dict(
    harness="c05.cc", srcs=ROM, stub_format=True,
    cases=[case(mlo=m, mhi=m, n=n, _cost=n) for m in (LO, HI, EX) for n in (0, 1, 2, 3)]
    + [case(mlo=m, mhi=m, n=5, _cost=5, _tier="thorough") for m in (LO, HI, EX)],
    reach=["accept", "reject", "wrap"],
    bounds="any mapping, ROM up to 8 MB with any contents, any address, writes of 0 to 3 (thorough 5) bytes", outside="longer writes")

PROPS["C06"] = dict(
    harness="c06.cc", srcs=ROM, stub_format=True, filemock=True,
    cases=[case(max=0x800200, faults=f, _cost=3) for f in (0, 1)] + [case(max=0x2000200, faults=1, _tier="thorough")],
    reach=["lorom", "hirom", "hirom-4M", "exhirom", "headered", "io-fault", "bad-size", "undetected"],
    bounds="any file of 0 to 8 MB + 512 bytes (thorough 32 MB) with any contents; each I/O call may fail or read short", outside="larger files")

RANGES = ["nsasm/ranges.cc"]
_claims = (
    [case(sorted=s, free=1, kinds=0, maxlen=0, _cost=s + 1) for s in range(5)]
    + [case(sorted=0, free=3, kinds=0, maxlen=0, _cost=4)]
    + [case(sorted=0, free=1, kinds=1, maxlen=200000, _cost=5), case(sorted=1, free=1, kinds=1, maxlen=200000, _cost=9),
       case(sorted=0, free=2, kinds=2, maxlen=0x10000, _cost=9), case(sorted=2, free=1, kinds=1, maxlen=0x10000, _cost=20, _soft=True, _timeout=200)]
    + [case(sorted=s, free=1, kinds=0, maxlen=0, _cost=30, _tier="thorough") for s in (5, 6)]
    + [case(sorted=0, free=4, kinds=0, maxlen=0, _cost=40, _tier="thorough", _timeout=700),
       case(sorted=3, free=1, kinds=1, maxlen=0x10000, _cost=50, _tier="thorough", _soft=True, _timeout=700),
       case(sorted=0, free=2, kinds=3, maxlen=0x10000, _cost=50, _tier="thorough", _soft=True, _timeout=700)])
PROPS["C07"] = dict(
    harness="c07.cc", srcs=RANGES, cases=_claims,
    reach=["inside", "outside", "inserted", "merged", "wrap"],
    bounds="every set of at most 4 (thorough 6) chunks, then any one claim by chunk; histories of 3 (4) arbitrary chunk claims; claims by length -1..200000 on sets of at most 1 chunk, up to 64 KB on sets of 2 (3); any probe address",
    outside="sets of more chunks; longer histories of arbitrary claims")
PROPS["C08"] = dict(
    harness="c07.cc", srcs=RANGES, harness_flags=["-DC08"], cases=_claims,
    reach=["free", "conflict", "wrap"], bounds=PROPS["C07"]["bounds"], outside=PROPS["C07"]["outside"])
PROPS["C09"] = dict(
    harness="c09.cc", srcs=RANGES,
    cases=[case(pre=p, ins=1, chunks=c, _cost=p * c) for p in range(4) for c in (1, 2)] + [case(pre=1, ins=2, chunks=1, _cost=3), case(pre=0, ins=1, chunks=0)]
    + [case(pre=4, ins=1, chunks=2, _cost=30, _tier="thorough"), case(pre=0, ins=3, chunks=1, _cost=20, _tier="thorough"), case(pre=0, ins=2, chunks=2, _cost=20, _tier="thorough")],
    reach=["inserted", "refused", "owned", "free"],
    bounds="any map of up to 3 (thorough 4) disjoint chunks with any ownership, then one insertion of up to 2 chunks; histories of 2 (3) further arbitrary insertions; any probe address",
    outside="maps of more chunks; value types other than int")
PROPS["C10"] = dict(
    harness="c10.cc", srcs=["nsasm/error.cc"], cases=[case(part=p) for p in range(3)],
    reach=["same-bank", "other-bank", "compared", "printed"], bounds="all pairs of addresses, all int offsets (complete)", outside="nothing")
PROPS["C11"] = dict(
    harness="c11.cc", srcs=["nsasm/error.cc"], cases=[case(part=p) for p in range(2)],
    reach=["typed", "untyped", "lattice"], bounds="all int values, all types and triples of types (complete)", outside="nothing")
PROPS["C12"] = dict(
    harness="c12.cc", srcs=["nsasm/mnemonic.cc"],
    cases=[case(kind=k, part=1, len=8) for k in range(3)] + [case(kind=k, part=0, len=n) for k in range(3) for n in range(10)]
    + [case(kind=k, part=0, len=n, _tier="thorough") for k in range(3) for n in (10, 11, 12, 16, 24)],
    reach=["accepted", "rejected", "names"], bounds="every value, every text of 0 to 9 (thorough up to 24) arbitrary bytes", outside="longer texts")
PROPS["C14"] = dict(
    harness="c14.cc", srcs=["nsasm/error.cc"],
    cases=[case(part=0, n=1, pathlen=2, maxline=9999, viaaddress=0), case(part=0, n=3, pathlen=2, maxline=99, viaaddress=0),
           case(part=0, n=2, pathlen=3, maxline=999, viaaddress=1), case(part=1, n=0, pathlen=2, maxline=99, viaaddress=0),
           case(part=2, n=0, pathlen=2, maxline=99, viaaddress=0), case(part=3, n=0, pathlen=2, maxline=99, viaaddress=1)]
    + [case(part=0, n=1, pathlen=1, maxline=2147483647, viaaddress=0, _tier="thorough", _cost=30),
       case(part=0, n=4, pathlen=1, maxline=99, viaaddress=1, _tier="thorough", _cost=30), case(part=0, n=2, pathlen=6, maxline=9999, viaaddress=0, _tier="thorough", _cost=10)],
    reach=["bare", "line", "address", "path", "value", "error"],
    bounds="up to 3 (thorough 4) updates of any kind in any order, arbitrary paths of 0 to 3 (6) bytes, any 24-bit address, line numbers up to +-9999 (thorough any int), any 2-byte message",
    outside="longer paths and messages")
PROPS["C15"] = dict(
    harness="c15.cc", srcs=["nsasm/error.cc", "nsasm/memory.cc", "test/test_sink.cc"],
    cases=[case(writes=w, wlen=l, entries=e, elen=x, _cost=w * l * e * x)
           for w, l, e, x in [(0, 0, 1, 2), (1, 2, 0, 0), (1, 2, 1, 2), (2, 1, 2, 1), (2, 2, 1, 2), (1, 3, 1, 3), (2, 2, 2, 2), (3, 1, 1, 3)]]
    + [case(writes=w, wlen=l, entries=e, elen=x, _cost=99, _tier="thorough") for w, l, e, x in [(3, 1, 3, 1), (3, 2, 1, 3), (1, 5, 1, 5), (2, 3, 2, 2)]],
    reach=["duplicate", "match", "mismatch", "wrap"],
    bounds="up to 3 writes of up to 3 bytes (at most 4 bytes in all) against up to 2 (thorough 3) runs of up to 3 expected bytes, all addresses and values",
    outside="longer histories; lists expecting one address twice; what is received of a rejected write")
PROPS["C16"] = dict(
    harness="c16.cc", srcs=ROM + ["util/quick_dump.cc"], filemock=True, src_defs={"util/quick_dump.cc": ["-Dmain=quick_dump_main"]},
    defs=["-DSX_OWN_STDOUT"],
    cases=[case(mode=0, argc=6, faults=0, lorom=l, anyfile=0, count=3, digits=6, _cost=9) for l in (0, 1)]
    + [case(mode=0, argc=n, faults=f, lorom=n & 1, anyfile=0, count=2, digits=6, _cost=5) for n in (4, 5, 6) for f in (0, 1)]
    + [case(mode=0, argc=n, faults=0, lorom=0, anyfile=0, count=1, digits=6) for n in (1, 2, 3)]
    + [case(mode=0, argc=4, faults=f, lorom=1, anyfile=1, count=1, digits=6) for f in (0, 1)]
    + [case(mode=1, argc=n, faults=0, lorom=1, anyfile=0, count=1, digits=d) for n, d in ((4, 7), (6, 8))]
    + [case(mode=2, argc=n, faults=0, lorom=0, anyfile=0, count=1, digits=d) for n, d in ((4, 0), (6, 1), (4, 2))]
    + [case(mode=0, argc=6, faults=0, lorom=l, anyfile=0, count=5, digits=6, _cost=30, _tier="thorough") for l in (0, 1)]
    + [case(mode=2, argc=n, faults=0, lorom=0, anyfile=0, count=1, digits=d, _tier="thorough") for n, d in ((5, 2), (4, 3), (4, 4))],
    reach=["dumped", "error", "long", "other-arguments", "start-too-large"],
    bounds="1 to 5 arguments; any 6-digit start, 1 to 3 (thorough 5) entries, every stride and up to 3 (5) per line, on LoROM and HiROM files of 64 and 96 KB with any contents and any I/O failure; start texts of 7 and 8 hex digits; arguments of any bytes, up to 2 (thorough 4) for the start and 1 for the numbers",
    outside="counts above 5; longer arbitrary argument texts; the exact wording of messages")

OPC = ["nsasm/opcode_map.cc", "nsasm/addressing_mode.cc", "nsasm/expression.cc", "nsasm/mnemonic.cc", "nsasm/error.cc"]
PROPS["C20"] = dict(
    harness="c20.cc", srcs=OPC, native="shim", cases=[case(part=p) for p in range(3)],
    reach=["opcode", "legal", "illegal", "mnemonic"], bounds="all 256 opcodes, all mnemonics, modes and register widths (complete)", outside="nothing")

INS = ["nsasm/" + f + ".cc" for f in ("instruction", "opcode_map", "addressing_mode", "expression", "mnemonic", "error", "execution_state", "calling_convention")]
PROPS["C21"] = dict(
    harness="c21.cc", srcs=["nsasm/decode.cc"] + INS, native="shim", stub_format=True,
    cases=[case(n=n, emulation=0, _cost=1 + 4 * n) for n in range(5)] + [case(n=4, emulation=1, _cost=20)],
    reach=["refused", "branch", "reproduced"],
    bounds="all strings of 0 to 4 bytes (an instruction has at most 4), every value of the accumulator and index width flags (on, off, original, unknown) in native, emulation and unknown mode, every address (complete)",
    outside="the wording of errors")
PROPS["C23"] = dict(
    harness="c23.cc", srcs=INS, native="shim", stub_format=True, cases=[case(wide=w) for w in (0, 1)],
    reach=["refused", "assembled"],
    bounds="all eleven relative instructions, all 2^24 instruction addresses, all 2^32 target values, defined or undefined targets (complete)",
    outside="the wording of errors")
PROPS["C22"] = dict(
    harness="c22.cc", srcs=INS, native="shim", stub_format=True,
    cases=[case(form=f, kind=0) for f in (0, 1)] + [case(form=f, kind=k, _cost=3) for f in range(2, 14) for k in range(1, 6)],
    reach=["refused", "inconsistent", "assembled", "undefined", "far"],
    bounds="all mnemonics and pseudo-instructions, all 14 operand forms, all suffixes, all width-flag states, all addresses; operands: no operand, a literal of any type and value, a plain or qualified name of any 32-bit value (or undefined), name + any literal, >name (complete for these operand shapes)",
    outside="larger operand expressions (their value is C29's); sums that overflow 32 bits; the wording of errors")
PROPS["C25"] = dict(
    harness="c25.cc", srcs=["nsasm/execution_state.cc", "nsasm/error.cc"], native="shim", stub_format=True,
    cases=[case(part=0, _cost=60), case(part=1), case(part=3, n=7, _cost=5)]
    + [case(part=2, na=a, nb=b, _cost=30 if a + b == 4 else 2) for a, b in ((0, 0), (1, 0), (1, 1), (2, 1), (1, 2), (2, 2))]
    + [case(part=3, n=n) for n in (1, 3, 5, 6)],
    reach=["flags", "register", "stack", "triple"],
    bounds="all triples of flag states the constructor and SetIncoming can produce, all triples of register values, all pairs of stacks of up to 2 pushed items and all triples of up to 1, of every kind of item; described machines: all flag values now and at entry, all register values and pushed bytes",
    outside="deeper stacks (merged item by item)")
PROPS["C24"] = dict(
    harness="c24.cc", srcs=INS, native="shim", stub_format=True,
    cases=[case(group=9, depth=0, top=0), case(group=0, depth=0, top=0, _cost=15), case(group=0, depth=1, top=2, _cost=90)]
    + [case(group=1, depth=1, top=t, _cost=3) for t in range(6)] + [case(group=1, depth=2, top=t, _cost=15) for t in range(6)]
    + [case(group=1, depth=3, top=t, _cost=90, _tier="thorough") for t in range(6)],
    reach=["start", "refused", "exit", "stepped", "branched"],
    bounds="one instruction (every mnemonic, addressing mode, operand value known or unknown, return convention, taken or not) from every flag state and every tracked stack of up to 2 (thorough 3) items, for every machine state the tracked state describes; as the result is again described, sequences of any length keep the property by induction",
    outside="deeper tracked stacks; the values of A, X, Y and the data bank, which no output depends on",
    note="Assumes, as the tool documents or must, that called routines keep their declared convention, that stores through addresses do not hit the pushed bytes, and that entering emulation mode does not move the stack.")
PROPS["C26"] = dict(
    harness="c26.cc", srcs=["nsasm/execution_state.cc", "nsasm/error.cc"], native="shim", stub_format=True,
    cases=[case(part=1)] + [case(part=0, n=n) for n in range(9)] + [case(part=0, n=n, _tier="thorough") for n in range(9, 17)],
    reach=["accepted", "refused", "state"],
    bounds="every text of up to 8 (thorough 16) arbitrary bytes and every flag state (complete)", outside="longer texts")
DIR = INS + ["nsasm/directive.cc", "nsasm/statement.cc"]
PROPS["C32"] = dict(
    harness="c32.cc", srcs=DIR, native="shim", stub_format=True,
    cases=[case(n=0, lookup=9)] + [case(n=n, lookup=k, _cost=n) for n, k in ((1, 0), (1, 9), (2, 0), (2, 1), (3, 1), (4, 9), (4, 3), (8, 9))]
    + [case(n=n, lookup=k, _cost=n, _tier="thorough") for n, k in ((16, 15), (16, 99), (3, 0))],
    reach=["emitted", "failed", "nothing"],
    bounds="all directives; lists of up to 8 (thorough 16) operands of any value, literal of any type or a name of any value or undefined; every address, sink failure and flag state",
    outside="longer lists")

PROPS["C27"] = dict(
    harness="c27.cc", srcs=["nsasm/token.cc", "nsasm/mnemonic.cc", "nsasm/error.cc"], native="shim", stub_format=True,
    cases=[case(mode=0, n=n) for n in range(3)] + [case(mode=0, n=3, _cost=13)]
    + [case(mode=1, n=n, _cost=n) for n in range(1, 7)] + [case(mode=2, n=n) for n in (1, 3, 5)]
    + [case(mode=3, n=n) for n in (1, 8, 9, 16, 17, 24, 25)] + [case(mode=4, n=n, _cost=n * 2) for n in (1, 3, 6)] + [case(mode=4, n=n, _cost=40, _soft=1, _timeout=150) for n in (8, 10)]
    + [case(mode=m, n=n, _cost=50 if m == 10 else 4) for m in (10, 11) for n in (10, 99)] + [case(mode=12, n=99)]
    + [case(mode=5, n=n) for n in (1, 2, 3, 4)] + [case(mode=6, n=n) for n in range(1, 9)]
    + [case(mode=7, n=4), case(mode=8, n=2), case(mode=8, n=3), case(mode=9, n=1), case(mode=9, n=3, _cost=2)]
    + [case(mode=1, n=n, _cost=40, _tier="thorough") for n in (7, 8)] + [case(mode=4, n=11, _cost=60, _tier="thorough")]
    + [case(mode=5, n=n, _cost=20, _soft=1, _tier="thorough") for n in (5, 6, 8)] + [case(mode=8, n=4, _cost=10, _soft=1, _tier="thorough"), case(mode=9, n=5, _cost=20, _soft=1, _tier="thorough")]
    + [case(mode=0, n=4, _cost=300, _soft=1, _tier="thorough")],
    reach=["line", "operator", "number", "huge", "dotted", "refused", "name"],
    bounds="every line of up to 3 (thorough 4) arbitrary bytes; hexadecimal literals of up to 6 (8) digits, binary ones of up to 25, decimal ones of 1, 3, 6 digits, and 8 and 10 (11) where the solver decides in time, the neighbourhood of the limits with up to 17 hexadecimal, 65 binary and 22 decimal digits; names of up to 4 (8) and dotted names of up to 8 characters, comments and runs of operators of up to 4 bytes, a name after an instruction on a line",
    outside="longer arbitrary lines; the wording of errors")

PARSE = DIR + ["nsasm/parse.cc", "nsasm/token.cc"]
PROPS["C28"] = dict(
    harness="c28.cc", srcs=PARSE, native="shim", stub_format=True,
    cases=[case(what=0, first=0, n=n, more=m, _cost=c) for n, m, c in ((0, 0, 1), (1, 2, 1), (2, 1, 8), (3, 0, 30))]
    + [case(what=1, first=999, n=n, more=m, _cost=c) for n, m, c in ((0, 0, 1), (1, 1, 1), (2, 1, 2), (3, 1, 10), (4, 0, 20))]
    + [case(what=1, first=f, n=5, more=0, _cost=16) for f in (17, 80)]
    + [case(what=1, first=17, n=4, more=1, _cost=16)]
    + [case(what=1, first=1000 + d, n=4, more=0, _cost=2) for d in range(12)] + [case(what=1, first=1001, n=5, more=0, _cost=8)]
    + [case(what=2, first=0, n=n, more=m, _cost=c) for n, m, c in ((4, 1, 2), (5, 0, 8))]
    + [case(what=0, first=0, n=3, more=1, _cost=200, _tier="thorough", _soft=1), case(what=0, first=0, n=4, more=0, _cost=400, _tier="thorough", _soft=1)]
    + [case(what=1, first=999, n=5, more=0, _cost=120, _tier="thorough", _soft=1)]
    + [case(what=1, first=f, n=6, more=0, _cost=70, _tier="thorough") for f in (17, 21, 80, 1001)] + [case(what=1, first=17, n=7, more=0, _cost=200, _tier="thorough", _soft=1)]
    + [case(what=2, first=0, n=6, more=0, _cost=45, _tier="thorough"), case(what=2, first=0, n=7, more=0, _cost=300, _tier="thorough", _soft=1)],
    reach=["refused", "illegal", "label", "directive", "instruction", "line"],
    bounds="every line of up to 3 (thorough 4) tokens of any kind, every operand of up to 4 (5) tokens after any instruction, of up to 5 (7) after LDA and JSR and of up to 4 (6) after every directive, every line of up to 5 (7) labels, separators, braces and simple statements; all mnemonics, directives, suffixes and literal types; after the first token that makes a line wrong only 0 or 1 further tokens (an end, a literal, a closing parenthesis or the same token again) are tried",
    outside="longer lines and deeper nesting (recursion on lines nested thousands deep); the wording of errors")
PROPS["C29"] = dict(
    harness="c29.cc", srcs=PARSE, native="shim", stub_format=True,
    cases=[case(n=n, bits=32, types=1, viable=0) for n in (1, 2)] + [case(n=3, bits=32, types=0, viable=0, _cost=20), case(n=3, bits=4, types=1, viable=0, _cost=55)]
    + [case(n=4, bits=4, types=0, viable=0, _cost=42), case(n=5, bits=4, types=0, viable=7, _cost=40), case(n=7, bits=3, types=0, viable=6, _cost=80)]
    + [case(n=4, bits=32, types=0, viable=0, _cost=150, _tier="thorough", _soft=1), case(n=5, bits=3, types=0, viable=0, _cost=400, _tier="thorough", _soft=1)]
    + [case(n=7, bits=3, types=0, viable=7, _cost=600, _tier="thorough", _soft=1), case(n=6, bits=2, types=0, viable=8, _cost=500, _tier="thorough", _soft=1)],
    reach=["value", "error", "refused"],
    bounds="every expression of up to 4 (thorough 5) tokens of any kind, of 5 tokens of literals, + - * / and parentheses, and of 7 of literals, + - * and parentheses (thorough: 7 with /, 6 with <); literals and names of any 32-bit value up to 3 tokens (thorough 4), of any 3- or 4-bit signed value beyond; all literal types up to 3 tokens",
    outside="longer expressions; wider operands in the longer ones; the wording of errors")

MODULE = PARSE + ["nsasm/module.cc", "nsasm/assembler.cc", "nsasm/file.cc", "nsasm/ranges.cc", "nsasm/memory.cc"]
def _prog(f0, n0, f1=None, n1=0, cost=5, **k):
    return case(files=1 if f1 is None else 2, f0=f0, n0=n0, f1=f1 or 0, n1=n1, _cost=cost, **k)
def _prog3(f, n, cost=5, **k):
    return case(files=3, f0=f[0], n0=n[0], f1=f[1], n1=n[1], f2=f[2], n2=n[2], _cost=cost, **k)
PROPS["C30"] = dict(
    harness="c30.cc", srcs=MODULE, native="shim", stub_format=True,
    cases=[_prog(f, n, cost=c) for f, n, c in ((0, 4, 9), (1, 4, 3), (2, 4, 6), (3, 4, 10), (4, 4, 40), (5, 4, 28), (6, 3, 2), (7, 4, 35), (12, 4, 9), (13, 4, 9), (14, 4, 10), (15, 4, 7), (19, 4, 25), (20, 4, 14), (21, 4, 17))]
    + [_prog3(f, n, c) for f, n, c in (((16, 17, 18), (2, 2, 1), 3), ((18, 17, 16), (1, 2, 2), 3), ((17, 16, 18), (2, 2, 2), 8), ((16, 18, 17), (2, 2, 2), 8))]
    + [_prog3(f, (3, 2, 2), 60, _tier="thorough", _soft=1) for f in ((16, 17, 18), (17, 16, 18), (18, 17, 16))]
    + [_prog(f, 5, cost=80, _tier="thorough", _soft=1) for f in (12, 13, 14, 15, 19, 20, 21)]
    + [_prog(a, x, b, y, c) for a, x, b, y, c in ((0, 2, 0, 2, 4), (3, 2, 3, 2, 16), (8, 2, 9, 2, 3), (9, 2, 8, 2, 3), (10, 3, 11, 3, 24), (11, 2, 10, 2, 2), (4, 2, 7, 2, 40))]
    + [_prog(f, n, cost=c, _tier="thorough", _soft=1) for f, n, c in ((0, 5, 100), (1, 5, 20), (1, 6, 120), (2, 5, 40), (2, 6, 250), (3, 5, 80), (4, 5, 250), (5, 5, 250), (6, 4, 20), (6, 5, 200), (7, 5, 250))]
    + [_prog(a, x, b, y, c, _tier="thorough", _soft=1) for a, x, b, y, c in ((3, 3, 3, 2, 200), (8, 3, 9, 3, 80), (9, 3, 8, 3, 80), (0, 3, 0, 3, 200), (10, 4, 11, 4, 300))],
    reach=["refused", "conflict", "assembled", "empty"],
    bounds="programs of one to three files of up to 4 (thorough 6) lines each after a fixed start of up to 5 lines, every line picked from a family's menu (57 lines in 22 families: origins, data, labels, scopes, exports, constants, modules, entry points, jumps, branches, remote declarations), literals with any digits in the places left open",
    outside="longer programs, more files, lines outside the menus (single lines are C22, C27, C28, C32's)")
PROPS["C33"] = dict(
    harness="c33.cc", srcs=MODULE, native="shim", stub_format=True,
    cases=[case(menu=m, n=3, entry=e, steps=12, _cost=10) for m in range(10) for e in (0, 2, 4)] + [case(menu=m, n=3, entry=3, steps=12, _cost=10) for m in (1, 7)]
    + [case(menu=m, n=4, entry=e, steps=14, _cost=30) for m, e in ((2, 2), (3, 0))]
    + [case(menu=m, n=4, entry=e, steps=16, _cost=90, _tier="thorough", _soft=1) for m in range(10) for e in range(6)]
    + [case(menu=2, n=5, entry=2, steps=16, _cost=250, _tier="thorough", _soft=1)],
    reach=["refused", "returned", "cut"],
    bounds="programs of 3 or 4 (thorough 5) lines before a final rts, every line from a family's menu (10 families of rep, sep, xce, clc, sec, php, plp, pha, pla, phx, plx, phb, plb, immediates, stores into the stack, calls with each return convention, branches forwards and back, further entry points), labels anywhere, 6 entry states; every value of the flags, registers, caller's stack and branch outcomes, followed for 12 to 16 instructions or until a machine state repeats",
    outside="longer programs; code reached only through jumps (declared with .entry)",
    note="A routine called is assumed to keep its declared convention, and a stack-relative store to change only the bytes it addresses.")
PROPS["C34"] = dict(
    harness="c34.cc", srcs=PARSE, native="shim", stub_format=False,
    cases=[case(what=0, few=1, **{"from": a, "to": min(a + 5, 94)}, _cost=6) for a in range(0, 95, 6)]
    + [case(what=0, few=0, **{"from": a, "to": a}, _cost=10) for a in (17, 80)]
    + [case(what=1, few=1, to=n, **{"from": d}, _cost=c) for d, n, c in [(0, 0, 1), (1, 3, 8), (2, 2, 3), (3, 2, 3)] + [(d, 0, 3) for d in range(4, 12)]]
    + [case(what=1, few=0, to=1, **{"from": d}, _cost=5) for d in (1, 6, 10)]
    + [case(what=2, few=0, to=0, **{"from": 0})]
    + [case(what=0, few=0, **{"from": a, "to": a}, _cost=15, _tier="thorough", _soft=1) for a in range(95) if a not in (17, 80)]
    + [case(what=1, few=0, to=2, **{"from": d}, _cost=60, _tier="thorough", _soft=1) for d in (1, 2, 3)],
    reach=["instruction", "directive", "label", "refused"],
    bounds="every instruction with every suffix and operand form, every directive (lists of up to 3 operands), label and export; operands: literals of every type (all values for lda, jsr, .db, .equ and .org, thorough for all instructions; values spelled with decimal digits for the others), plain, far (@), global and module-qualified names; every mode name and return convention",
    outside="operands with operators, which print in a debugging form; longer lists; label names other than the menu's")
PROPS["C35"] = dict(
    harness="c35.cc", srcs=MODULE, native="shim", stub_format=True,
    cases=[case(menu=m, n=3, entry=2 * (m % 3), base=32768, second=m % 4, steps=12, named=m % 4, _cost=10) for m in range(9)]
    + [case(menu=m, n=3, entry=m % 6, base=36861, second=0, steps=12, named=m % 2, _cost=10) for m in range(9)]
    + [case(menu=m, n=3, entry=m % 2, base=0x1fffc, second=2 + m % 2, steps=12, named=4 + m % 4, _cost=10) for m in range(9)]
    + [case(menu=m, n=2, entry=m % 4, base=32768, second=4, steps=10, named=k, _cost=5) for m in (0, 2, 3, 4, 5) for k in (0, 2, 3, 9, 15)]
    + [case(menu=m, n=4, entry=(m + k) % 6, base=b, second=(m + k) % 5, steps=14, named=(5 * m + k) % 16, _cost=90, _tier="thorough", _soft=1) for m in range(9) for k, b in ((1, 32768), (3, 36861), (4, 0x18000))],
    reach=["refused", "inside", "one", "several", "called", "convention", "cut"],
    bounds="programs of 3 (thorough 4) lines before a final rts, every line from a family's menu (9 families of calls and jumps to literal, computed and named places, .remote and .entry with each return convention, width changes, branches), alone or with a second and third module, named or not, before or after it, that lie at, jump to or declare the same places, at 3 (4) origins one of which wraps around its bank, 6 entry states; every value of the flags, stack and branch outcomes for 12 (14) instructions",
    outside="longer programs; places given only by name, which the assembler does not report",
    note="A routine called is assumed to keep its declared convention.")
TOOLS = MODULE + ["nsasm/disassemble.cc", "nsasm/decode.cc", "nsasm/rom.cc"]
OPENMOCK = ["-include", os.path.dirname(os.path.abspath(__file__)) + "/openmock.h"]
def _tool(name):
    return {f"util/{name}.cc": OPENMOCK}
def _dt(n, menu, two, arg=0, faults=0, chain=0, more=0, **k):
    return case(n=n, menu=menu, two=two, arg=arg, faults=faults, chain=chain, more=more, **k)
PROPS["C36"] = dict(
    harness="c36.cc", srcs=TOOLS + ["util/quick_disassemble.cc"], native="shim", stub_format=False, filemock=True,
    src_defs=_tool("quick_disassemble"), defs=["-DTOOL=0", "-DSX_OWN_STDOUT"],
    cases=[_dt(n=2, menu=m, two=t, _cost=10) for m in range(4) for t in (0, 1, 2)]
    + [_dt(n=0, menu=1, two=0, faults=1), _dt(n=1, menu=0, two=0, arg=32, faults=0), _dt(n=1, menu=2, two=3)]
    + [_dt(n=1, menu=0, two=0, arg=k, faults=0) for k in (32, 2, 16, 3)]
    + [_dt(n=2, menu=0, two=4, _cost=10), _dt(n=0, menu=0, two=4)]
    + [_dt(n=0, menu=0, two=t, chain=c) for t, c in ((0, 9), (1, 7), (0, 110))]
    + [_dt(n=3, menu=m, two=t, _cost=90, _tier="thorough", _soft=1) for m in range(4) for t in (0, 1, 2, 4)],
    reach=["complete", "partly", "unnamed-state", "error", "usage", "listed-any", "deep"],
    bounds="64 KB LoROM file with 2 (thorough 3) pieces of code at $008000, every piece from a family's menu (4 families: widths, carry, calls, jumps, branches, code outside the ROM, operand bytes of 10 values), three routines it may lead to; 5 modes, alone or with a second start given directly, by reference or on a bank's last byte; 1 to 3 arguments, every start text of 2 or 3 bytes, every mode text of 2 bytes, no or one I/O failure anywhere",
    outside="longer code; HiROM files and copier headers (C01); listings whose entry state has no name ('either mode, 8-bit registers' prints as unk) are not assembled; the errors reported as comments are not judged",
    note="The tool's main is executed with its own formatting; files are opened by a stand-in.")
PROPS["C37"] = dict(
    harness="c36.cc", srcs=TOOLS + ["util/disassemble_more.cc"], native="shim", stub_format=False, filemock=True,
    src_defs=_tool("disassemble_more"), defs=["-DTOOL=1", "-DSX_OWN_STDOUT"],
    cases=[_dt(n=2, menu=m, two=0, _cost=10) for m in range(4)]
    + [_dt(n=0, menu=1, two=0, faults=1), _dt(n=1, menu=0, two=0, arg=32, faults=0)]
    + [_dt(n=1, menu=0, two=0, more=k) for k in (1, 2)] + [_dt(n=0, menu=0, two=0, more=3), _dt(n=0, menu=0, two=0, chain=5), _dt(n=0, menu=0, two=0, chain=105)]
    + [_dt(n=3, menu=m, two=0, _cost=90, _tier="thorough", _soft=1) for m in range(4)] + [_dt(n=2, menu=m, two=0, more=2, _cost=90, _tier="thorough", _soft=1) for m in range(4)],
    reach=["complete", "partly", "error", "usage", "deep"],
    bounds="64 KB LoROM file with 2 (thorough 3) pieces of code at $008000 from the 4 families of C36 and three routines; 6 sources, five of them in the ROM or not and leading to the program by JSR, JMP and .remote with each return convention; a missing source; 1 to 2 arguments; no or one I/O failure anywhere",
    outside="longer code and sources; HiROM files (C01); the errors reported as comments are not judged",
    note="The tool's main is executed with its own formatting; files are opened by a stand-in.")
def _dd(n, menu, end=0, arg=0, faults=0, mid=0, **k):
    return case(n=n, menu=menu, end=end, arg=arg, faults=faults, mid=mid, **k)
PROPS["C40"] = dict(
    harness="c40.cc", srcs=TOOLS + ["util/dumb_disassemble.cc"], native="shim", stub_format=False, filemock=True,
    src_defs=_tool("dumb_disassemble"), defs=["-DSX_OWN_STDOUT"],
    cases=[_dd(2, m, mid=x, _cost=10) for m in range(4) for x in (0, 1)] + [_dd(1, m, mid=x, _cost=10) for m in range(4) for x in (2, 3)] + [_dd(2, m, 1, _cost=5) for m in range(4)]
    + [_dd(1, 0, faults=1), _dd(1, 0, arg=32), _dd(0, 0, 1), _dd(1, 0, arg=2), _dd(1, 0, arg=3), _dd(1, 0, arg=16)]
    + [_dd(4, m, e, _cost=90, _tier="thorough", _soft=1) for m in range(4) for e in (0, 1)],
    reach=["usage", "fault", "any", "error", "listed", "branched"],
    bounds="64 KB LoROM file with 3 (thorough 4) pieces of code and an RTS at the beginning of a bank or 2 (4) up to its last byte, every piece from a family's menu (4 families: widths, carry, stack and calls, operands of every size; branches over the next pieces), one operand byte of 10 values; 6 modes; 1 to 4 arguments, every start text of 2 or 3 bytes, every mode text of 2 bytes, no or one I/O failure anywhere; every value of the flags, carry, stack and branch outcomes along the lines",
    outside="longer code; HiROM files and copier headers (C01), where code without an exit may fill a bank; whether an error for an unknown width was avoidable after an exit",
    note="The tool's main is executed with its own formatting. A routine called is assumed to preserve e, m and x.")
def _qa(what, n, faults=0, lorom=1, header=0, rom=0, flow=0, both=0, **k):
    return case(what=what, n=n, faults=faults, lorom=lorom, header=header, rom=rom, flow=flow, both=both, **k)
PROPS["C38"] = dict(
    harness="c38.cc", srcs=MODULE + ["nsasm/rom.cc", "util/quick_assemble.cc"], native="shim", stub_format=False, filemock=True,
    src_defs=_tool("quick_assemble"), defs=["-DSX_OWN_STDOUT"],
    cases=[_qa(0, 1, 1, lorom=1, header=512, rom=1, both=1, _cost=5), _qa(0, 1, 1, lorom=0, flow=1, _cost=5)]
    + [_qa(0, 2, lorom=l, header=h, flow=f, both=b, _cost=10) for l, h, f, b in ((1, 0, 0, 0), (0, 512, 0, 0), (1, 512, 1, 1), (0, 0, 1, 0), (1, 0, 0, 1))]
    + [_qa(1, 2, lorom=l, header=h, rom=1, flow=f, both=b, _cost=10) for l, h, f, b in ((1, 0, 0, 0), (1, 512, 1, 1), (0, 0, 0, 0))]
    + [_qa(1, 1, 1, rom=1, _cost=5), _qa(2, 1), _qa(3, 0, 1), _qa(4, 0, 1)]
    + [_qa(5, 1, rom=1, header=512 * (l % 2), len=l) for l in (1, 2, 3, 4, 5)]
    + [_qa(w, 3, lorom=l, header=h, rom=w, flow=f, both=1, _cost=80, _tier="thorough", _soft=1) for w in (0, 1) for l, h, f in ((1, 0, 0), (0, 512, 1), (1, 512, 1))],
    reach=["assembled", "nothing", "refused", "outside", "fault", "identical", "different", "misuse", "dash", "source", "name"],
    bounds="64 KB LoROM or HiROM file with or without a copier header, sources of 2 (thorough 3) lines from a 14-line menu (data, code, origins inside and outside the ROM and across a bank, errors, a reference to the second source) with or without a second source; the ROM's bytes at the program's start in 4 alignments with one byte of any value, three bytes elsewhere in it and three of the header of any value; output paths of 1 to 5 characters; no or one I/O failure at any operation; 1 to 4 arguments",
    outside="longer sources (C30 judges the bytes a source means); other image sizes (C01, C04)",
    note="The tool's main is executed with its own formatting; source files are opened by a stand-in.")
PROPS["C39"] = dict(
    harness="c39.cc", srcs=MODULE, native="shim", stub_format=False,
    cases=[case(what=w, file=f, pad=0, _cost=10) for w in range(4) for f in (0, 1)] + [case(what=w, file=0, pad=w > 4) for w in (4, 5, 6)]
    + [case(what=7, file=f, pad=0) for f in (0, 1)]
    + [case(what=w, file=f, pad=1, _cost=100, _tier="thorough", _soft=1) for w in range(4) for f in (0, 1)],
    reach=["named", "write", "two-modules", "accepted", "missing", "overlap"],
    bounds="a program of two modules in two files in either order, with one of 34 wrong lines (with symbolic digits) inserted at any place, one of 13 lines missing, any byte put twice, one name defined by two modules of one name, or any of its writes failing",
    outside="other programs; several errors at once; errors of no one line (modules writing to the same memory, execution past the end of a file, constants of other modules that are undefined or depend on each other); the wording")
STREAMS = ["-include", os.path.dirname(os.path.abspath(__file__)) + "/streammock.h"]
PROPS["C41"] = dict(
    harness="c41.cc", srcs=["nsasm/file.cc", "nsasm/error.cc"], native="shim", src_defs={"nsasm/file.cc": STREAMS},
    cases=[case(before=b, n=n, fault=f) for b, n in ((0, 0), (0, 1), (0, 2), (0, 3), (0, 6), (4, 4), (40, 1)) for f in (0, 1, 2)]
    + [case(before=b, n=n, fault=f, _cost=30, _tier="thorough", _soft=1) for b, n in ((0, 9), (0, 11), (3, 9), (300, 3)) for f in (0, 2)],
    reach=["failed", "read"],
    bounds="every content of up to 6 (thorough 11) bytes, also after 4 or 40 (300) complete lines; a file that cannot be opened, reading that fails at any byte",
    outside="longer free content; the operating system's file buffering: std::ifstream is replaced by a model of its line reading (natively, by real files)")
PROPS["C42"] = dict(
    harness="c42.cc", srcs=PARSE + ["util/interactive_parse.cc"], native="shim", tool_main=True, stub_format=False, src_defs={"util/interactive_parse.cc": STREAMS}, defs=["-DSX_OWN_STDOUT"],
    cases=[case(n=n, any=0) for n in (0, 1, 2)] + [case(n=n, any=a) for n, a in ((0, 1), (0, 2), (1, 2), (0, 3))]
    + [case(n=n, any=a, _cost=60, _tier="thorough", _soft=1) for n, a in ((3, 0), (1, 3), (0, 4))],
    reach=["unread", "refused", "shown"],
    bounds="inputs of up to 2 (thorough 3) lines from an 11-line menu and one line of up to 3 (4) bytes of any value among them, with or without a newline at the end",
    outside="longer inputs; what a line means and how a statement prints (C27, C28, C34)",
    note="std::cin and std::cout are replaced by models (natively, by string streams).")
def _dis(menu, n, entry, second=9, steps=10, base=0x18000, all=1, inside=0, conv=0, text=1, **k):
    return case(menu=menu, n=n, entry=entry, second=second, steps=steps, base=base, all=all, inside=inside, conv=conv, text=text, **k)
PROPS["C31"] = dict(
    harness="c31.cc", srcs=MODULE + ["nsasm/disassemble.cc", "nsasm/decode.cc"], native="shim", stub_format=False,
    cases=[_dis(m, 3, e, _cost=c) for m, e, c in ((0, 0, 22), (1, 0, 20), (2, 2, 27), (4, 1, 38), (5, 3, 34), (7, 0, 22))]
    + [_dis(6, 3, 0, inside=1, _cost=48), _dis(3, 2, 1, _cost=5), _dis(3, 2, 1, conv=1, _cost=5), _dis(3, 2, 1, conv=2, _cost=5)]
    + [_dis(m, 2, e, s, steps=6, _cost=7) for m, e, s in ((0, 4, 0), (1, 4, 0), (2, 4, 0), (3, 4, 2), (4, 4, 5), (5, 4, 0), (7, 4, 5), (2, 0, 2))]
    + [_dis(0, 2, 0, 3, inside=1, _cost=10), _dis(6, 2, 4, 5, inside=1, steps=6, _cost=8), _dis(3, 2, 2, 1, conv=1, steps=6, _cost=9)]
    + [_dis(0, 3, 0, all=0, _cost=3), _dis(0, 2, 2, 5, all=0, _cost=1), _dis(0, 3, 4, base=0x1fffd, text=0, _cost=3), _dis(4, 2, 3, 0, base=0x1fffd, text=0, _cost=2), _dis(3, 2, 5, 0, base=0x1fffd, conv=1, text=0, _cost=2)]
    + [_dis(5, 3, 3, 2, text=0, _cost=38), _dis(0, 3, 2, 0, steps=6, text=0, _cost=21)]
    + [_dis(2, 3, 0, 2, text=0, _cost=80, _tier="thorough", _soft=1)]
    + [_dis(m, 3, e, _cost=60, _tier="thorough", _soft=1) for m in range(8) for e in (0, 1, 2, 4, 5)]
    + [_dis(m, 3, e, s, steps=8, _cost=200, _tier="thorough", _soft=1) for m in (0, 1, 2, 4, 7) for e, s in ((4, 0), (0, 1))]
    + [_dis(m, 4, e, steps=12, _cost=300, _tier="thorough", _soft=1) for m, e in ((0, 0), (1, 0), (2, 2), (4, 1), (7, 0))],
    reach=["refused", "returned", "cut", "no-listing", "again", "plain"],
    bounds="memory of 2 or 3 (thorough 4) pieces of code before RTS, every piece from a family's menu (8 families: widths, carry and folding, stack, calls with each return convention, block moves and PER, operands of every size, code within code), every branch between pieces or into one; disassembled from one or from two places in 6 entry states, at any address of a bank and across its end; every operand byte where no listing is made, 10 values each (spelled with decimal digits) where one is; every value of the flags, carry, stack and branch outcomes, followed for 6 to 12 instructions",
    outside="longer code; a listing is assembled as a whole only where instructions do not overlap or wrap around the bank and where the entry states have names ('either mode, 8-bit registers' has none), elsewhere instruction by instruction",
    note="A routine called is assumed to keep its declared convention, and a stack-relative store to change only the bytes it addresses.")
