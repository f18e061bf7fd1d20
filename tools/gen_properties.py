"""Writes properties.jsonl (the committed file is the output of this script)."""
import json, os
L = "sljit_src/sljitLir.c"; H = "sljit_src/sljitLir.h"
BK = ["sljit_src/sljitNativeX86_common.c", "sljit_src/sljitNativeARM_64.c", "sljit_src/sljitNativeARM_32.c", "sljit_src/sljitNativeARM_T2_32.c", "sljit_src/sljitNativeRISCV_common.c", "sljit_src/sljitNativeMIPS_common.c", "sljit_src/sljitNativePPC_common.c", "sljit_src/sljitNativeS390X.c", "sljit_src/sljitNativeLOONGARCH_64.c"]
P = []
def p(id, title, st, over, q, why, files, mech, obs=None, state=None):
    a = dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech])
    if state: a["state"] = [dict(name=n, meaning=m) for n, m in state]
    if obs: a["observe_at"] = obs
    P.append(dict(id=id, title=title, statement=st, quantifier=dict(over=over, text=q), why_tests_cant=why, anchors=a))
T = "The tests run each operation with a few constants, operands and registers on the machine they run on; "
p("C01", "Integer operations compute their documented results",
  "For every integer operation that sljit can emit, every combination of register, immediate and memory operands and every operand value, executing the generated code gives the destination exactly the value the operation is documented to produce, and changes no other register, local or memory byte. This covers moves with extension, add/sub with and without carry, multiplication, division, logic, shifts, rotates, shift-into, multiply-add, leading/trailing zero counts and byte reversal, in word and 32 bit form.",
  ["inputs", "programs", "configurations"], "all values of registers, memory and immediates; all operand kinds including operands that share registers (destination equal to a source, to a base or to an index); each supported target",
  T + "a wrong result for one immediate range, one register overlap or one boundary value stays unseen.",
  [L, H] + BK, [("operation emission", "sljit_emit_op0/op1/op2/op2r/shift_into in sljit_src/sljitNative*.c"), ("operand loading", "emit_op, getput_arg, emit_op_mem, load_immediate in sljit_src/sljitNative*.c")], ["values of all registers, locals and memory after the generated code ran"])
p("C02", "Memory operands access exactly the addressed bytes",
  "A memory operand written as absolute address, base plus displacement, base plus shifted index or stack local reads or writes exactly the addressed bytes, for every displacement, address and access size, in plain accesses, in register pair and unaligned accesses and in accesses that update their base register. No other byte is read or written, base and index registers keep their values unless an update was requested, and an update leaves the documented address in the base.",
  ["inputs", "programs", "configurations"], "all displacements of the machine word, all base and index values, all access sizes and alignments the operation declares, integer and floating point; each supported target",
  T + "displacements are split differently at every encoding boundary of every instruction set, and the tests only touch a few of them.",
  [L, H] + BK, [("addressing", "emit_op_mem, getput_arg, emit_x86_instruction, sljit_emit_mem, sljit_emit_mem_update, sljit_emit_fmem in sljit_src/sljitNative*.c")], ["memory bytes accessed by the generated code"])
p("C03", "Status flags and conditional results match the documented conditions",
  "After an operation that requests the zero flag or a carry, overflow or comparison flag, every later use of that flag (a 0/1 result, a combined result, a conditional select, a conditional jump or a following add/subtract with carry) sees exactly the documented condition, for all operand values and operand kinds. Instructions documented to keep the flags do not disturb them.",
  ["inputs", "programs", "configurations"], "all operand values, all flag types and their negations, all flag consumers, instructions in between; word and 32 bit operations; each supported target",
  T + "a flag that is wrong only when operands overlap, at one boundary value or after one form of move is not sampled.",
  [L, H] + BK, [("flag production and consumption", "sljit_emit_op2/op2u, sljit_emit_op_flags, sljit_emit_select, get_cc / get_jump_instruction in sljit_src/sljitNative*.c")], ["registers and branch directions after the flag use"], [("status flag state", "which flag the last operation defined and where the target keeps it")])
p("C04", "Functions obey the calling convention of the platform",
  "A generated function receives its arguments in the requested registers, leaves its result where the platform's calling convention expects it, returns to its caller with the stack pointer restored, and preserves every register the calling convention requires to be preserved. It writes nothing above its own stack frame except areas the convention reserves for it, and the local area it offers lies inside its frame.",
  ["inputs", "programs", "configurations"], "all argument values and argument type lists, all numbers of scratch, saved and floating point registers, all local sizes and enter options; each supported target",
  T + "prologues and epilogues differ for every combination of register counts, local size and options, of which the tests use a few dozen.",
  [L, H] + BK, [("prologue and epilogue", "sljit_emit_enter, sljit_set_context, sljit_emit_return*, emit_stack_frame_release in sljit_src/sljitNative*.c")], ["machine state at function entry and after return"])
p("C05", "Calls pass arguments, results and control correctly",
  "A direct, indirect, tail, register-argument or fast call emitted by sljit reaches its target with each argument in the place the called convention expects and the stack aligned as the platform requires, and execution continues after the call with the result in the result register and all saved registers, locals and saved floating point registers unchanged. A tail call restores the caller's frame first, and a fast call returns to the instruction after it.",
  ["inputs", "programs", "configurations"], "all argument and result type lists, register contents, target operand kinds (registers, memory, immediates, labels), any values left by the callee in caller-saved registers; each supported target",
  T + "argument shuffles and target loading depend on which registers overlap; only a few call shapes are tested.",
  [L, H] + BK, [("call emission", "sljit_emit_call, sljit_emit_icall, call_with_args, sljit_emit_op_dst/op_src fast enter and return in sljit_src/sljitNative*.c")], ["machine state at the call target and after the return"])
p("C06", "Jumps, compares, labels and taken addresses lead where they should",
  "Every conditional or unconditional jump, compare-and-jump, indirect jump and address-of-label value in generated code transfers control exactly to the instruction its label or target marks, and a conditional one is taken exactly when its documented condition holds. This holds for any distance and direction between jump and label and after the code generator has shortened or extended jump sequences; aligned labels have the requested alignment and read buffers reserved with them are addressable.",
  ["inputs", "programs", "configurations"], "all operand values of compares, jump directions and distances across the size classes of each target, multiple jumps and labels, each supported target",
  T + "jump sizes change with the distance to the label, and the tests do not place labels at every boundary.",
  [L, H] + BK, [("jump size reduction and patching", "reduce_code_size, detect_jump_type, generate_jump_or_mov_addr, sljit_generate_code in sljit_src/sljitNative*.c")], ["machine program counter and registers"])
p("C07", "Runtime patching changes exactly the chosen target or constant",
  "After generated code is patched at run time, a rewritable jump or call leads to the new target and a patchable constant yields the new value, for every new value the operation accepts, while everything else the code does stays the same. The address reported for the patch site stays valid for repeated patching, modified instructions are flushed from the instruction cache, and page protections are restored after the modification.",
  ["inputs", "histories", "programs", "configurations"], "all initial and new values, repeated patching, word, 32 bit and byte constants, each supported target",
  T + "instruction sequences that hold a constant have several forms, and only some values are patched in tests.",
  [L, H] + BK, [("patching", "sljit_set_jump_addr, sljit_set_const, sljit_emit_const in sljit_src/sljitNative*.c")], ["result of the patched code"])
p("C08", "Serialization preserves the compiler state",
  "Serializing a compiler and deserializing the buffer gives a compiler that goes on exactly as the original would: the code generated from it, labels, jumps, constants and their order, and later emitted instructions behave identically. A buffer with a foreign signature, byte order or version, or one that is truncated, is rejected, a failed allocation is reported, and nothing is leaked or read outside the buffer.",
  ["programs", "inputs", "configurations"], "programs with labels, jumps, patchable constants, taken addresses and open flag state, all immediate values; every call of the program as the point of serialization; foreign headers, truncated buffers, failing allocations",
  T + "one serialized program per test is executed, and only with intact buffers of the same build.",
  ["sljit_src/sljitSerialize.c", H], [("serialization", "sljit_serialize_compiler, sljit_deserialize_compiler in sljit_src/sljitSerialize.c")], ["code generated from the deserialized compiler"])
p("C09", "The executable allocator hands out disjoint, usable, reusable memory",
  "Every sequence of executable memory allocations, frees and unused-memory releases yields blocks that are large enough, suitably aligned, inside memory mapped with the required permissions and disjoint from every live block, and a failed mapping is reported and leaves the allocator usable. Freed memory is merged and reused, its totals stay exact, and chunks without live blocks are unmapped when unused memory is released.",
  ["histories", "inputs", "fault_sequences", "configurations"], "all request sizes and orders of allocation and release up to a bounded number of operations, mapping failures; the chained, dual-mapping and write-xor-execute allocators",
  "The allocator test performs one fixed pattern; fragmentation bugs need particular sizes and orders.",
  ["sljit_src/allocator_src/sljitExecAllocatorCore.c", "sljit_src/allocator_src/sljitExecAllocatorPosix.c", "sljit_src/allocator_src/sljitProtExecAllocatorPosix.c", "sljit_src/allocator_src/sljitWXExecAllocatorPosix.c"], [("free list and chunk handling", "sljit_malloc_exec, sljit_free_exec, sljit_free_unused_memory_exec, alloc_chunk, sljit_insert_free_block in sljit_src/allocator_src")], ["returned blocks and mapped memory"], [("free list", "blocks available for reuse"), ("allocated_size, total_size", "bytes in use and bytes mapped")])
p("C10", "Errors are reported, sticky and harmless",
  "When any memory allocation fails during emission or code generation, or the user marks the compiler as failed, the failure is reported by the failing call and by every later call with the same error code, code generation returns no code, and no memory is corrupted or leaked once the compiler is freed. A request the target cannot perform is reported as unsupported and emits nothing.",
  ["fault_sequences", "programs", "configurations"], "failure of every single allocation during a program and all later calls; each supported target",
  "Tests run without allocation failures, so the error paths after each allocation are not executed.",
  [L, H] + BK, [("error propagation", "CHECK_ERROR, FAIL_IF, ensure_buf, ensure_abuf in sljit_src/sljitLir.c and backends")], ["error codes, returned pointers, heap state"], [("compiler error", "first error seen")])
p("C11", "Floating point operations follow IEEE semantics on the right operands",
  "Floating point moves, negation, absolute value, copysign, arithmetic, conversions, bit copies, constants, comparisons and selects apply the documented single or double precision operation to exactly the given operands and put the result, or the documented comparison including the unordered cases, exactly in the given destination. No other register or memory byte changes.",
  ["inputs", "programs", "configurations"], "all bit patterns of operands, all operand kinds and overlaps, comparison types and precisions; each supported target",
  T + "NaNs, signed zeros, register overlaps and operand kinds combine to far more cases than the constants tested.",
  [L, H] + BK, [("floating point emission", "sljit_emit_fop1/fop2/fop2r, fset, fcopy, sljit_emit_fselect in sljit_src/sljitNative*.c")], ["floating point registers and memory after the generated code ran"])
p("C12", "Vector and atomic operations do what they document",
  "Vector moves, replication, lane moves, lane replication, extension, sign collection and bitwise operations produce in every lane the documented value for the given element size and register size, and change nothing else. An atomic load/store pair writes the new value, in one indivisible step, only if the memory location was not changed in between, and reports success exactly when it wrote.",
  ["inputs", "programs", "configurations", "schedules"], "all register and memory contents, element sizes, register sizes, lane indices and operand overlaps; targets with vector or atomic support",
  T + "lane index, element size, overlap and memory form combinations are sampled sparsely.",
  [L, H, "sljit_src/sljitNativeX86_common.c", "sljit_src/sljitNativeARM_64.c"], [("vector and atomic emission", "sljit_emit_simd_*, sljit_emit_atomic_load/store in sljit_src/sljitNative*.c")], ["vector registers, memory and the success flag"])
p("C13", "The stack utility keeps its bounds and contents",
  "A stack created by the stack utility has its start, end and limits ordered and page aligned as documented, every resize inside the limits succeeds with memory between start and end usable and earlier contents kept, and every request outside the limits or a failed mapping is refused without changing the stack. Freeing releases the whole reservation.",
  ["inputs", "histories", "fault_sequences"], "all start and maximum sizes, all resize requests, failing system calls",
  "The single stack test uses one pair of sizes.",
  ["sljit_src/sljitUtils.c", H], [("stack handling", "sljit_allocate_stack, sljit_stack_resize, sljit_free_stack in sljit_src/sljitUtils.c")], ["fields of the stack structure and the mapping calls"])
p("C14", "The regular expression compiler matches exactly the language of the pattern",
  "For every supported pattern and every input string, the matcher built by the regular expression library reports the match positions and the match identifier that the pattern defines, under every combination of its flags, no matter how the input is split into chunks. A malformed pattern or an allocation failure is reported with an error code and releases everything.",
  ["inputs", "programs", "fault_sequences"], "all input strings up to a bounded length over the full character range, patterns built from all supported constructs, all splits into chunks",
  "Tests match a fixed list of pattern and string pairs.",
  ["regex_src/regexJIT.c", "regex_src/regexJIT.h"], [("regex compilation", "regex_compile, parse, generate_transitions, compile_* in regex_src/regexJIT.c"), ("matching", "regex_continue_match, regex_get_result")], ["reported match begin, end and id"])
p("C15", "The compiler itself stays inside its memory and its declared code size",
  "For every valid sequence of emitted instructions and every immediate value, the compiler reads and writes only its own live memory, generates no more bytes than it allocated for the code, reports the size it generated, and frees everything it allocated when it is freed. Instruction sequences are complete: every executed instruction is one the target defines and control never runs past the reported end.",
  ["inputs", "programs", "configurations"], "all operand values and forms of every emit function, programs with labels, jumps, constants and data; each supported target",
  "Overruns of the code buffer by a few bytes and leaks do not fail a test.",
  [L] + BK, [("instruction buffer", "ensure_buf, sljit_generate_code, reduce_code_size in sljit_src"), ("compiler lifetime", "sljit_create_compiler, sljit_free_compiler in sljit_src/sljitLir.c")], ["memory accesses of the compiler, generated size"])
if __name__ == "__main__":
    with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl"), "w") as f:
        for x in P:
            assert len(x["title"]) <= 80, x["title"]
            f.write(json.dumps(x) + "\n")
