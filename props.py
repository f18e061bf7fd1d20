X="/usr/%s/include"
def C(name, arch, macro, triple, cc, qemu="", cflags=(), defs=(), inc=None, ccflags=()):
    return name, dict(arch=arch, macro=macro, triple=triple, cc=cc, qemu=qemu, cflags=list(cflags), defs=list(defs), ccflags=list(ccflags), inc=["-isystem", inc or X % triple])
CONFIGS = dict([
 C("x86_64", "x86_64", "X86_64", "x86_64-linux-gnu", "gcc", inc="/usr/include/x86_64-linux-gnu"),
 C("x86_64_prot", "x86_64", "X86_64", "x86_64-linux-gnu", "gcc", inc="/usr/include/x86_64-linux-gnu", defs=["-DSLJIT_PROT_EXECUTABLE_ALLOCATOR=1"]),
 C("x86_64_wx", "x86_64", "X86_64", "x86_64-linux-gnu", "gcc", inc="/usr/include/x86_64-linux-gnu", defs=["-DSLJIT_WX_EXECUTABLE_ALLOCATOR=1"]),
 C("x86_32", "x86_32", "X86_32", "i686-linux-gnu", "i686-linux-gnu-gcc"),
 C("aarch64", "aarch64", "ARM_64", "aarch64-linux-gnu", "aarch64-linux-gnu-gcc", "qemu-aarch64"),
 C("aarch64_lse", "aarch64", "ARM_64", "aarch64-linux-gnu", "aarch64-linux-gnu-gcc", "qemu-aarch64", cflags=["-march=armv8.1-a"], ccflags=["-march=armv8.1-a"]),
 C("armv7", "armv7", "ARM_V7", "arm-linux-gnueabihf", "arm-linux-gnueabihf-gcc", "qemu-arm", ccflags=["-marm"]),
 C("armt2", "armt2", "ARM_THUMB2", "arm-linux-gnueabihf", "arm-linux-gnueabihf-gcc", "qemu-arm", ccflags=["-mthumb"]),
 C("riscv64", "riscv64", "RISCV_64", "riscv64-linux-gnu", "riscv64-linux-gnu-gcc", "qemu-riscv64", cflags=["-march=rv64g", "-mabi=lp64d"], ccflags=["-march=rv64g"]),
 C("riscv64c", "riscv64c", "RISCV_64", "riscv64-linux-gnu", "riscv64-linux-gnu-gcc", "qemu-riscv64", cflags=["-march=rv64gc", "-mabi=lp64d"], ccflags=["-march=rv64gc"]),
 C("riscv64_ext", "riscv64_ext", "RISCV_64", "riscv64-linux-gnu", "riscv64-linux-gnu-gcc", "qemu-riscv64", cflags=["-march=rv64gv_zba_zbb", "-mabi=lp64d"], ccflags=["-march=rv64gv_zba_zbb"]),
 C("armv6", "armv6", "ARM_V6", "arm-linux-gnueabihf", "arm-linux-gnueabihf-gcc", "qemu-arm", ccflags=["-marm"]),
 C("s390x", "s390x", "S390X", "s390x-linux-gnu", "s390x-linux-gnu-gcc", "qemu-s390x", cflags=["-march=z13"], ccflags=["-march=z13"]),
 C("loongarch64", "loongarch64", "LOONGARCH_64", "loongarch64-linux-gnu", "loongarch64-linux-gnu-gcc-14", "qemu-loongarch64", ccflags=["-march=la464"]),
 C("ppc64le", "ppc64le", "PPC_64", "powerpc64le-linux-gnu", "powerpc64le-linux-gnu-gcc", "qemu-ppc64le"),
 C("ppc32", "ppc32", "PPC_32", "powerpc-linux-gnu", "powerpc-linux-gnu-gcc", "qemu-ppc"),
 C("mips32el", "mips32el", "MIPS_32", "mipsel-linux-gnu", "mipsel-linux-gnu-gcc", "qemu-mipsel"),
 C("mips64el", "mips64el", "MIPS_64", "mips64el-linux-gnuabi64", "mips64el-linux-gnuabi64-gcc", "qemu-mips64el"),
])
CONFIGS["aarch64_lse"]["variant"] = "lse"; CONFIGS["x86_64_prot"]["variant"] = "prot"; CONFIGS["x86_64_wx"]["variant"] = "wx"
def MEMCFG(base, var, name=None, rdefs=(), defs=()):
    c = dict(CONFIGS[base]); c.update(variant=var, bcdefs=["-DHZ_REALALLOC"], rsrc="mem.c", rdefs=["-DMEMREPLAY"] + list(rdefs), defs=c["defs"] + list(defs)); CONFIGS[(name or base) + "-mem"] = c
MEMCFG("x86_64", "core", rdefs=["-DSTACKS"]); MEMCFG("x86_32", "core", rdefs=["-DSTACKS"]); MEMCFG("ppc32", "core", rdefs=["-DSTACKS"])
MEMCFG("x86_64_prot", "prot", rdefs=["-DPROTALLOC"]); MEMCFG("x86_64_wx", "wx", rdefs=["-DWXALLOC"]); MEMCFG("x86_64", "simple", "x86_64_simple", rdefs=["-DSTACKS", "-DSIMPLE"], defs=["-DSLJIT_UTIL_SIMPLE_STACK_ALLOCATION=1"])
def RXCFG(base): c = dict(CONFIGS[base]); c.update(bcdefs=["-DHZ_REGEX"], rsrc="regex.c"); CONFIGS[base + "-re"] = c
RXCFGS = ["x86_64", "aarch64", "riscv64", "x86_32"]; [RXCFG(x) for x in RXCFGS]
ISAS = ["aarch64", "riscv64", "riscv64c", "riscv64_ext", "x86_64", "x86_32"]
TRUST = ["clang -O1 bitcode of sljitLir.c (with the target's macros) is the code under check; clang, Z3 and the engine's term simplifier are trusted",
         "the instruction-set simulators in engine/isa_*.cpp define what the target does; they are cross-checked by replaying solver models on the real code (natively or under qemu)",
         "user memory is disjoint from the stack frame and the generated code unless a task says otherwise; addresses are aligned where the target needs it",
         "floating point arithmetic is an uninterpreted function of its operand bits (comparisons, moves and bit operations are exact)"]
EX = "Each task runs the real emitter symbolically on one instruction sequence whose immediates, displacements and shift amounts are symbolic, then runs the produced bytes in a symbolic machine from a symbolic register file and memory, and asks Z3 whether any value of all these symbols makes a register, memory byte, access, condition or address differ from the documented semantics; a model is replayed on the real library (qemu for foreign targets) before it is reported. "
def P(groups, what, bounds, **k): return dict(groups=groups, level="model_checking", explain=EX + what, bounds=bounds, assumptions=TRUST, **k)
PROPS = {
 "C01": P([("int", ISAS)], "Every op0/op1/op2/op2r/shift_into form with register, immediate and memory operands, operand aliasing and virtual registers.", "operation sequences of 1-3 instructions; immediates full width for the main forms, 9-18 bits in the address forms (quick); paths per task 400; no loops."),
 "C02": P([("mem", ISAS)], "Loads, stores, pair/unaligned/update forms and local base for every addressing mode.", "displacements up to full word width in the wide tasks, 9-18 bits elsewhere; 120-400 paths per task."),
 "C03": P([("flags", ISAS)], "Every flag producer followed by flag consumers, carry chains, compare-with-zero and select.", "sequences of up to 6 instructions; immediates 10 bits (quick) or 33 bits (thorough) plus boundary constants."),
 "C04": P([("abi", ISAS)], "Whole functions are run from a symbolic state at the entry (argument registers, stack arguments, callee-saved registers, memory) to the return, under the platform's calling convention: argument placement, results of every type and source, callee-saved integer and floating point registers, stack pointer, writes outside the frame, extent of the local area, return address.", "argument lists of 0-4 arguments of all types, register counts and local sizes from a list up to 512 KB (hashed combinations, about 1300 shapes per target; 6000 in the thorough tier); all register and memory contents symbolic."),
 "C05": P([("call", ISAS)], "Functions making direct, indirect, tail, register-argument and fast calls; the callee is a stub that checks the arguments and the stack alignment, and returns with every caller-saved register, flag and outgoing stack slot replaced by a fresh symbol; results, saved registers and locals are compared after the call.", "0-4 arguments, one or two calls per function, fast calls nested up to 2 levels, recursion up to depth 3; about 1900 call shapes per target (6500 thorough); all register and memory contents symbolic."),
 "C06": P([("ctl", ISAS + ["x86_64_prot"]), ("tgt", ISAS)], "Jumps, calls and address loads with symbolic absolute targets and code at four bases; compare-and-jump, forward/backward/rewritable jumps at boundary distances, label addresses, indirect jumps, aligned labels and read buffers.", "jump distances from a boundary list up to 1 MB + 4; loops up to 3 iterations; 40-400 paths per task."),
 "C07": P([("patch", ISAS + ["x86_64_prot", "x86_64_wx"])], "Code with rewritable jumps, calls and constants is generated, then patched (zero to three times, several sites) with symbolic targets or values and run: the new target/value must be used, nothing else may change, modified instructions must be flushed from the instruction cache, and with the write-xor-execute allocator every write happens while the page is writable and the code is executable afterwards.", "up to 3 sites and 3 patches; targets any address up to 47 bits (32 on 32-bit targets) outside of the program's own memory; constants full word width; code at four bases; 12-200 paths per task.", cweight=dict(x86_64=1.5, x86_64_prot=.5, x86_64_wx=.5)),
 "C11": P([("fp", ISAS)], "Moves, negation, absolute value, arithmetic, copysign, conversions, bit copies, immediates, comparisons with every condition and its uses, selects, unaligned and updating accesses, and short sequences, over registers and every addressing form.", "sequences of 1-5 instructions; displacements 10-14 bits (33 bits thorough), absolute addresses and integer immediates full width on x86 and in dedicated tasks elsewhere; conversions to integers only for values in range; relations of NaN operands only through the ordered/unordered conditions."),
}
ALL = [c for c in CONFIGS if not c.endswith(("_prot", "_wx", "_lse", "-mem", "-re"))]
GRP = ["int", "mem", "flags", "ctl", "abi", "call"]
GW = dict(int=1.5, mem=2, flags=1, ctl=2, abi=.6, call=.5); CW = dict(aarch64=4, mips64el=3, armv7=2.5, armt2=1.5, riscv64=1.3, loongarch64=1.3)
GW.update(fp=1, simd=.4, atomic=.1)
def GM(mode, what, bounds, cw=CW, more=(), **k): return P([(mode + "." + g, ALL) for g in GRP + list(more)], what, bounds, weight={mode + "." + g: GW[g] for g in GRP + list(more)}, cweight=cw, changed_wall=130, wall=75, **k)
GMB = "the instruction sequences of C01-C06 (1-6 instructions plus prologue, whole functions with calls) with the same symbolic immediates, displacements, jump distances and sizes; 300 paths per task; "
PROPS.update({
 "C15": GM("gen", "The same symbolic programs are compiled for every target (no execution needed): every load and store of the compiler is checked against the live heap blocks and the executable block, the generated size against the allocation, all label, jump and constant addresses, patching with symbolic values, code generation into a caller supplied buffer of symbolic size, refusal of further calls, and release of all memory.", GMB + "buffers up to 16 KB.", more=("fp", "simd", "atomic")),
 "C10": GM("fail", "One allocation (malloc, executable memory), chosen by a symbolic index, fails during creation, emission or generation, alone or with all later ones, or the user sets the memory error at a symbolic call; each later call must report the same error, no code is generated, the failure stays when memory is available again, and freeing the compiler releases everything. Unsupported requests must leave the error state and the code size unchanged.", GMB + "one initial failure point per path, every point enumerated by the symbolic index up to the path limit.", more=("fp", "simd", "atomic")),
 "C08": GM("ser", "The program is compiled twice: directly, and with serialize + deserialize (once or twice) before a symbolic call index; the bytes of the code as functions of the symbolic immediates, the code size and every label, jump and constant address must be identical. Truncated buffers, foreign headers and failing allocations during deserialization must be refused without leak; the buffer is copied to a block of exactly its size first, so that reads outside it are seen.", GMB + "up to 12 serialization points per program (all in the thorough tier), error variants at a quarter of them; truncation at about 8 word positions.", cw={}),
})
MEMX = "The real allocator code (clang bitcode of sljitLir.c with the real allocator and stack sources) is executed symbolically; sizes are symbolic, the memory it manages is a symbolic-address memory, and every system call is a model that checks its arguments and may fail at every point. "
def MP(groups, what, bounds, **k): return dict(groups=groups, level="model_checking", explain=MEMX + what, bounds=bounds, assumptions=["clang -O1 bitcode of the allocator and stack sources for Linux is the code under check; clang, Z3 and the engine's simplifier and linear arithmetic procedure (variable elimination with integer tightening; what it cannot refute goes to Z3) are trusted", "the system call models in engine/tasks_memory.cpp (mmap, munmap, mprotect, madvise, open, mkostemp, unlink, ftruncate, close, stat, malloc) describe Linux; solver models are replayed on the real code with wrapped system calls", "one thread runs; locking is checked as a discipline (every access of the shared state while the lock is held, released on return)"], **k)
PROPS.update({
 "C09": MP([("alloc", ["x86_64-mem", "x86_32-mem", "ppc32-mem", "x86_64_prot-mem", "x86_64_wx-mem"])], "Histories of allocations, frees and unused-memory releases: every block is aligned, large enough, inside mapped memory of the right permissions and disjoint from every live block, the allocator never touches live blocks or unmapped memory, nothing that is still used is unmapped, failures leave nothing behind, totals are exact, gaps are reused and unused chunks are released.", "histories of up to 9 operations over up to 5 blocks (listed sequences; all sequences of 6 operations in the thorough tier); sizes up to 256 KB (or beyond the address space) in 8 classes, symbolic in steps of 8 with a fixed remainder per task; at most 2 failing system calls; mappings far apart, adjacent ascending or adjacent descending; temporary directory names of 16 lengths; 400 paths per task; the Apple, BSD and Windows allocators are not compiled on this system.", weight={"alloc": 1}, cweight={"x86_64-mem": 1.5, "x86_64_prot-mem": 1.5, "x86_64_wx-mem": .7, "ppc32-mem": .7}),
 "C13": MP([("stack", ["x86_64-mem", "x86_32-mem", "ppc32-mem", "x86_64_simple-mem"])], "A stack is created with symbolic start and maximum size, resized with symbolic new start addresses inside or outside of the limits, and freed: limits, alignment, acceptance and refusal, discarded ranges, failing mappings and leaks are checked.", "all start and maximum sizes and all new start values of the machine word; up to 3 resizes (5 in the thorough tier); 1500 paths per task; the Windows code path is not compiled on this system.", weight={"stack": 1}, cweight={"x86_64-mem": 3}),
})
PROPS["C12"] = P([("simd", ["aarch64", "x86_64", "x86_32"]), ("atomic", ["aarch64", "aarch64_lse", "x86_64", "x86_32", "riscv64"])],
 "SIMD: moves, replicate, lane moves, lane replicate, extend, sign extraction, and/or/xor and shuffle for every valid element and register size, over vector registers (all vector registers are compared byte by byte), general registers, immediates and memory operands of every addressing form and alignment. Atomics: load, store and load-modify-store programs; one half of the pair also runs alone, with arbitrary memory, so that both outcomes of the store are decided; the update of memory must be one indivisible instruction (a store under an exclusive reservation, or a locked compare and exchange).",
 "sequences of 1-5 instructions; displacements 9-12 bits; 60 paths per task; the reservation is only lost by the program itself; no memory ordering model; other targets with SIMD or atomics (s390x, arm, loongarch, ppc, mips) have no instruction-set simulator here.", weight=dict(simd=1, atomic=.5), cweight=dict(aarch64=3))
RXX = "The real regular expression compiler and its library functions (clang bitcode of regexJIT.c and sljitLir.c) are executed symbolically, the machine code it generates runs in the instruction-set simulator, and Z3 compares begin, end, id and the finished flag after every chunk with an independent reference: a recursive-descent parser whose language semantics is a matrix of (begin, end) formulas over the same symbolic characters. Any difference, out-of-bounds access, use after free, undecodable instruction, leak or failed assertion is a violation, and its model is replayed on the real library. "
PROPS["C14"] = dict(groups=[("regex", [c + "-re" for c in RXCFGS])], level="model_checking", weight=dict(regex=1), cweight={}, explain=RXX + "Patterns cover every construct (characters, classes, ranges, escapes, iterators, groups, alternatives, ids, newline anchors, malformed texts); some characters of patterns are symbolic; flags take all 16 combinations; an allocation chosen by a symbolic index fails.",
 bounds="input strings up to 5 (6 for some patterns) unconstrained 8-bit characters; the input is one, two or character-sized chunks, and a second match after a reset; fixed pattern texts plus texts with 1-3 symbolic characters; 500 paths per task (quick), 4000 (thorough); only the 8-bit character build (REGEX_USE_8BIT_CHARS) is checked, REGEX_MATCH_VERBOSE is not",
 assumptions=["clang -O1 bitcode of regexJIT.c is the code under check; clang, Z3 and the engine's simplifier are trusted", "the reference semantics follows regexJIT.h: earliest begin, then longest (non greedy: shortest) end, then the highest id; where the documentation is silent (empty alternatives, characters after ^ with iterators) the accepted syntax of the parser is taken"])
_W = "machinery not built: "
NOT_APPLICABLE = {}
