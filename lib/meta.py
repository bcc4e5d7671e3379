"""The properties: text of properties.jsonl and of MANIFEST.json."""

IN = "m68000/src/interpreter.rs"
FAST = "m68000/src/interpreter_fast.rs"
DISI = "m68000/src/interpreter_disassembler.rs"
AM = "m68000/src/addressing_modes.rs"
EXC = "m68000/src/exception.rs"
INS = "m68000/src/instruction.rs"
MEM = "m68000/src/memory_access.rs"
SR = "m68000/src/status_register.rs"
LIB = "m68000/src/lib.rs"
CPU = "m68000/src/cpu_details.rs"
MC = "m68000/src/cpu_details/mc68000.rs"
SCC = "m68000/src/cpu_details/scc68070.rs"
FFI = "m68000-ffi/src/lib.rs"


def M(pid, title, statement, over, text, why, files, mechanism, observe):
    kinds = []
    for o in over:
        k = ("fault_sequences" if "refuse" in o or "callback" in o else "configurations" if "CPU model" in o or "slice lengths" in o else
             "histories" if "pending" in o or "orders" in o or "events" in o else "programs" if "opcodes" in o or "extension" in o or "mnemonics" in o or "programs" in o else "inputs")
        if k not in kinds:
            kinds.append(k)
    over = kinds
    return {"id": pid, "title": title, "statement": statement, "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
            "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mechanism], "observe_at": observe, "hook_needed": None}}


STEP = ["registers, status register and memory after one interpreter call, and the vector it returns"]
ONE_OVER = ["opcodes", "register and status values", "memory contents", "extension words"]

META = [
    M("C01", "Every opcode is decoded to the instruction the 68000 manual gives it",
      "Each of the 65536 opcode words is recognised as exactly the instruction the M68000 Programmer's Reference Manual assigns to it, and every word the manual leaves unassigned (including forbidden addressing modes and sizes) is reported as no instruction.",
      ["opcodes"], "for all 65536 opcode words", "The tests decode only the opcodes of a test program and of assembled samples; a wrong entry of the 65536-way table is reached by one opcode only.",
      ["m68000/src/decoder.rs", "m68000/src/isa.rs"], [("decoder table and conversion from opcode to instruction name", "m68000/src/decoder.rs DECODER, m68000/src/isa.rs")], ["instruction name returned by the decoder"]),
    M("C02", "A decoded instruction has the operands and length the encoding defines",
      "Decoding an instruction from memory yields exactly the operands encoded in its opcode and extension words (registers, sizes, directions, conditions, addressing modes with their displacements, index registers and absolute addresses, immediates, register lists), and consumes exactly its extension words. The address it reports for program-counter relative modes is that of the extension word.",
      ONE_OVER[:1] + ["extension words", "addresses"], "for every valid opcode, every value of its extension words and every address", "Operand tests sample a handful of opcodes; every field of every format must be right for all values, sign and size boundaries included.",
      [INS, AM], [("operand decoding of each instruction format", INS), ("effective address decoding", AM)], ["the decoded instruction and the address after it"]),
    M("C03", "The two interpreters agree on every instruction",
      "From any state, the fast interpreter and the disassembling interpreter leave the same registers, memory, stopped state and pending exceptions, take the same number of cycles and report the same exception; the latter also reports the address of the instruction it executed.",
      ONE_OVER + ["CPU model"], "for every opcode, state, memory contents and CPU model", "No test runs both interpreters; a divergence in one of the hundreds of duplicated entry points shows only for its own opcode and operands.",
      [FAST, DISI], [("table of executors of the fast interpreter", FAST), ("table of executors of the disassembling interpreter", DISI)], ["state after one call of each interpreter"]),
    M("C04", "Integer arithmetic gives the manual's results and flags",
      "Addition, subtraction, negation, comparison, multiplication, division, extension, clearing and testing write exactly the result the manual defines, of the size and to the destination the opcode selects, and set X, N, Z, V and C as the manual defines, for all operand values. Nothing else of the state changes, except for what the addressing mode does.",
      ONE_OVER, "for all opcodes of the class, operands, sizes, addressing modes and flags", "The tests sample few operand pairs per instruction; carries, overflows, extended flags and aliasing of registers depend on all operand values.",
      [IN], [("execution of each arithmetic instruction", IN), ("flag helpers", "m68000/src/utils.rs")], STEP),
    M("C05", "Logic and bit instructions give the manual's results and flags",
      "AND, OR, EOR, NOT, their immediate and condition-code forms, bit tests and changes, test-and-set, conditional set and swap write exactly the result the manual defines to the destination the opcode selects and set the condition codes as defined, for all operand values. Nothing else of the state changes, except for what the addressing mode does.",
      ONE_OVER, "for all opcodes of the class, operands, sizes, bit numbers, addressing modes and flags", "Tests sample a few operands; bit numbers beyond the operand size and unaffected flags need all values.",
      [IN], [("execution of each logic and bit instruction", IN)], STEP),
    M("C06", "Shifts and rotates give the manual's results and flags",
      "Arithmetic shifts, logical shifts, rotates and rotates through X, of registers by any count from 0 to 63 and of memory by one, give the manual's result and X, N, Z, V and C flags for every value and size, counts of zero and counts beyond the operand size included.",
      ONE_OVER + ["shift counts"], "for every opcode of the class, value, count, size and flags", "Tests use a few values and counts; the flag rules change with count 0, count equal to and beyond the size, and with the value of X.",
      [IN], [("execution of shifts and rotates", IN)], STEP),
    M("C07", "Decimal arithmetic is correct for every pair of decimal operands",
      "ABCD, SBCD and NBCD give the decimal sum, difference and negation of every pair of valid two-digit decimal operands with every value of X, set C and X to the decimal carry or borrow, and clear Z only for a non-zero result; with invalid digits they change nothing but the destination and the flags.",
      ONE_OVER, "for all operands, X and Z, in registers and in memory", "Tests sample few decimal operands; digit carries and borrows depend on all of the 100 x 100 x 2 combinations.",
      [IN], [("execution of ABCD, SBCD and NBCD", IN)], STEP),
    M("C08", "Data movement copies exactly the selected data",
      "MOVE, MOVEA, MOVEQ, MOVEM, MOVEP, EXG, LEA, PEA, LINK, UNLK and the moves of the status and condition codes copy exactly the selected data, of the selected size and sign extension, to the selected place, with the manual's order of memory effects and flags, and change nothing else.",
      ONE_OVER + ["register lists"], "for every opcode of the class, register contents, memory contents and extension words; register lists within the stated bound", "Tests sample few source and destination combinations; overlapping operands and registers used as both address and data need all combinations.",
      [IN], [("execution of the data movement instructions", IN)], STEP),
    M("C09", "Control flow goes to the address the manual defines",
      "Branches, jumps, subroutine calls and returns, decrement-and-branch, traps, bound checks and illegal or unimplemented opcodes continue at the address, push the return address and raise the exception that the manual defines, for every condition, displacement and operand.",
      ONE_OVER, "for every opcode of the class, condition codes, displacement, operand and stack contents", "Tests run few branches; all 16 conditions with all flag values and the extreme displacements need all inputs.",
      [IN], [("execution of the control flow instructions", IN), ("conditions", SR)], STEP),
    M("C10", "Privileged instructions act in supervisor mode only",
      "In user mode every privileged instruction raises the privilege violation exception and changes no register, no memory and no part of the status register; in supervisor mode it does what the manual defines, including the switch of the active stack pointer when the mode bit changes.",
      ONE_OVER, "for every privileged opcode, mode, operand and state", "No test executes privileged instructions in user mode over all states.",
      [IN], [("privilege check of each privileged instruction", IN)], STEP),
    M("C11", "User programs cannot enter supervisor mode or change its state",
      "An instruction executed in user mode never sets the supervisor bit, never changes the trace bit, the interrupt mask or the supervisor stack pointer, never stops the CPU and never activates the reset line; the only way to supervisor mode is to take an exception.",
      ONE_OVER + ["refused memory accesses"], "for every opcode, state and set of refused memory accesses", "It is a statement about all 65536 opcodes and all states, and it has no test.",
      [IN, FAST, LIB], [("privilege check of each privileged instruction", IN), ("selection of the stack pointer", LIB)], STEP),
    M("C12", "Odd word and long accesses raise an address error and never reach memory",
      "A word or long access to an odd address, by an operand, the stack, an exception frame, a vector or an instruction fetch, always raises an address error, and no word access with an odd address is ever passed to the memory; byte accesses are never refused for their address.",
      ONE_OVER, "for every opcode, every address of every operand, and every stack pointer", "Tests do not exercise misaligned operands of each instruction; each of the access sites needs every address.",
      [IN, MEM, EXC], [("alignment check of the accesses", "m68000/src/memory_access.rs"), ("operand access", IN)], ["addresses received by the memory, vector returned"]),
    M("C13", "A refused memory access always becomes an access error",
      "When the memory refuses any operand, stack or instruction access, the call reports an access error and the host program goes on; when it refuses none the call does not report one. No refused read is ever replaced by invented data and no instruction completes as if it had succeeded.",
      ONE_OVER + ["sets of refused addresses"], "for every opcode, state, and every set of word addresses that refuse reads and of those that refuse writes", "The tests use memories that refuse nothing; the fault has to be injected at each access of each instruction.",
      [IN, MEM, AM], [("propagation of the refused access", IN), ("address error and access error", MEM)], ["vector returned by one interpreter call"]),
    M("C14", "Executing anything never crashes the host program",
      "Whatever the opcode, the registers, the memory contents and the accesses the memory refuses, one step of either interpreter returns to the caller on every CPU model, without panic, arithmetic overflow or out-of-range index.",
      ONE_OVER + ["refused memory accesses", "CPU model"], "for every opcode word (assigned or not), state, memory contents and set of refused data accesses, both interpreters and both CPU models", "Panics hide behind particular operand values (shift counts, displacements, divisors, wrap-around addresses) that samples miss.",
      [IN, FAST, DISI, AM, INS], [("wrapping arithmetic and error propagation", IN)], ["return of the interpreter call"]),
    M("C15", "Taking an exception builds the documented stack frame and context",
      "For every vector, the exception saves the old status register and program counter in the stack frame format of the CPU model on the supervisor stack, clears trace, sets supervisor mode, raises the mask for interrupts, loads the program counter from the vector table, and changes nothing else.",
      ["vectors", "register and status values", "memory contents", "CPU model"], "for all 256 vectors, all states and both CPU models", "No test processes exceptions from arbitrary states.",
      [EXC], [("exception processing", EXC)], ["registers and memory after the exception has been taken"]),
    M("C16", "No pending exception is lost, duplicated or taken in the wrong order",
      "Each requested exception stays pending until taken and is taken exactly once; masked interrupts wait and level 7 is never masked; among those taken together the one of highest priority is the one whose handler runs first, with the others' frames below; a reset discards all the others.",
      ["sets of pending exceptions", "interrupt masks", "orders of request"], "for every pair and triple of requested vectors, in every order, and every interrupt mask", "No test requests several exceptions; loss and order depend on the combination of vectors and mask.",
      [EXC], [("set of pending exceptions and their priorities", EXC)], ["stack frames and program counter after the exceptions have been taken"]),
    M("C17", "Return from exception restores the interrupted context",
      "After any exception whose frame the return instruction accepts, executing it with the frame untouched restores the program counter, the status register and both stack pointers to what they were, for every CPU model.",
      ["vectors", "register and status values", "CPU model"], "for every vector whose frame the CPU model can return from, status register, program counter and stack pointers", "A round trip over all states; tests sample none.",
      [EXC, IN], [("exception processing", EXC), ("RTE", IN)], ["registers before the exception and after the return"]),
    M("C18", "A stopped CPU does nothing until a reset, trace or unmasked interrupt",
      "Once STOP has executed, calls execute no instruction, take no cycles and touch neither registers nor memory until an exception that the manual lets end the stopped state is requested; that request ends it, and a masked interrupt or another exception does not.",
      ["vectors", "interrupt masks", "register values"], "for all 256 vectors, all masks, and exceptions requested before and after STOP", "No test combines STOP with masks and pending interrupts.",
      [EXC, FAST, IN], [("stopped state", EXC), ("STOP", IN)], ["state after calls on a stopped CPU"]),
    M("C19", "Status register conversions and condition tests are exact",
      "Converting the status register from and to its 16-bit form keeps exactly the implemented bits, setting the condition codes changes only them, the bitwise operators equal those of the 16-bit form, and each of the 16 conditions equals its formula over the flags.",
      ["16-bit values", "flags", "conditions"], "for all 65536 values, pairs of values and 16 conditions", "Tests sample few words; one wrong bit shows for half of the values at most.",
      [SR], [("conversions and conditions", SR)], ["the status register and its 16-bit form"]),
    M("C20", "Assembled instructions decode back to what was asked",
      "Every instruction the assembler builds from valid arguments is decoded to the same instruction with the same operands and the same length, and arguments that the instruction does not allow are refused.",
      ["mnemonics", "registers", "sizes", "addressing modes", "immediates"], "for every assembler function and every value of its arguments", "The assembler tests encode one or two samples of each instruction.",
      ["m68000/src/assembler.rs", AM], [("encoders", "m68000/src/assembler.rs")], ["words returned by the assembler and their decoding"]),
    M("C21", "The provided memories behave as big-endian memory within their bounds",
      "The byte-slice and word-slice memories return what was last written at each address in big-endian order, change only the addressed bytes, and refuse exactly the accesses that go beyond the slice, without panic; the read-only ones never change anything (a write to them panics, as documented).",
      ["addresses", "slice lengths", "values"], "for every address, value, access size and slice length within the stated bound", "Tests access few addresses; the ends of the slice and every alignment matter.",
      [MEM], [("implementations of the memory trait for slices", MEM)], ["values read and the slice contents"]),
    M("C22", "Instruction timing is the sum of the documented times",
      "The number of cycles reported for an instruction that completes is the CPU model's documented execution time for its form, size, operands and outcome plus the time of its addressing modes, each counted once; an instruction that traps counts only the time the manual adds to that of the exception, and each exception taken counts its documented processing time once.",
      ONE_OVER + ["CPU model"], "for every opcode, state, pair of exception vectors and CPU model", "Timings are tested for no instruction; each depends on size, mode, count and outcome.",
      [IN, CPU, MC, SCC], [("cycle counts returned by the executors", IN), ("tables of times", MC)], ["cycles returned by one interpreter call"]),
    M("C23", "The C interface does what the Rust interface does",
      "Each function of the C interface leaves the core and the memory in the same state and returns the same values as the Rust operation it wraps, and a memory callback that reports failure is seen by the core as a refused access.",
      ["opcodes", "register values", "callback results"], "for every function, state and callback answer", "The C interface has no test beyond its benchmarks.",
      [FFI], [("wrappers and callbacks", FFI)], ["core state and values returned"]),
    M("C24", "Run loops execute the requested cycles and stop at the right event",
      "Running for a number of cycles executes whole steps until at least that many have elapsed or the CPU stops; running until an exception returns the first exception that occurs and the exact cycles spent, and executes nothing after it.",
      ["programs", "requested cycles", "events"], "for every requested number of cycles and every sequence of up to three steps", "Tests run one program; the boundary conditions depend on every mix of cycle counts and events.",
      [FAST, DISI], [("run loops", FAST)], ["cycles returned, number of steps executed"]),
    M("C25", "Disassembly shows the operands of the instruction",
      "The text of a decoded instruction names the instruction the opcode denotes with its size suffix, and shows each of its operands in source to destination order with its registers, displacements, immediates and condition; operands, sizes and directions alone have the same text, in each of their forms.",
      ["opcodes", "extension words"], "for every opcode and extension word", "Tests compare the text of few instructions.",
      ["m68000/src/disassembler.rs", AM], [("disassembler of each instruction", "m68000/src/disassembler.rs")], ["text of the instruction"]),
    M("C26", "A new core and the register accessors are what their documentation says",
      "A new core has zeroed registers, the status register of a reset and only the reset vector pending (or nothing); the register accessors read and write the selected part of the selected register, the active stack pointer for A7; the word and long readers return the data at the program counter, advance it only on success (not at all when peeking) and report odd and refused addresses.",
      ["register values", "memory contents", "refused addresses"], "for every register number, value, state, program counter and set of refused addresses", "Tests use accessors with few values; A7 in both modes and refused words need all states.",
      [LIB], [("core construction, register accessors and instruction stream readers", LIB)], ["registers and values returned"]),
    M("C27", "The public helpers compute exactly what they are documented to",
      "The helpers of the library (bit fields, evenness, big-endian words, additions and subtractions with carry and borrow of each size and sign, sizes and their encodings, addressing mode predicates and validation, brief extension words, privileged instructions, exceptions and their total order) return the documented value for every argument.",
      ["operand values", "opcodes", "vectors"], "for every argument, in the documented domain", "Tests sample a few values; carries, overflows, full-width bit ranges and the laws of an order need all values.",
      ["m68000/src/utils.rs", INS, AM, EXC, "m68000/src/isa.rs"], [("integer helpers", "m68000/src/utils.rs"), ("predicates of the addressing modes", AM), ("order of the exceptions", EXC)], ["values returned"]),
    M("C28", "An exception raised by an instruction is taken before the next one",
      "With the interpreters that handle exceptions themselves, an exception or a trace raised by an instruction, or by the fetch of its opcode, is taken by the next call before anything else and whatever inhibited interrupt is pending (which stays pending), with the frame, the saved program counter and status and the handler that the manual defines for the exception and the instruction; when none is raised, none is taken.",
      ONE_OVER, "for every opcode, register and status values, memory contents and extension words", "It combines each instruction's outcome (trap, bound, zero divide, privilege, unimplemented, trace) with exception processing; tests run none of these pairs.",
      [FAST, DISI, EXC, IN], [("interpreters that keep the exception", FAST), ("exception processing", EXC)], ["state after the two calls"]),
    M("C29", "What a step does depends only on the visible state",
      "The result of executing an instruction (registers, memory, memory accesses, cycles, exception, address) depends only on the registers, the stopped state, the pending exceptions and the memory at that moment: not on the instructions the core has executed before, at the same address or elsewhere, nor on the interpreter that executed them. Self-modified code and edited registers are taken into account at once.",
      ["instruction executed before and its operands", "opcodes", "registers and memory"], "for every state, after every instruction of a representative set with any operands and address, and every opcode", "Tests execute one instruction on a new core; state left over by an earlier one shows in sequences only.",
      [FAST, DISI, LIB, AM], [("interpreter step", FAST), ("disassembling interpreter step", DISI)], ["state after the instruction, against a new core in the same visible state"]),
    M("C30", "An instruction accesses the memory no more than its operands require",
      "An executed instruction reads each of its words and source operands once and writes each destination once: no access is repeated, dropped or added (a read before the write of CLR, Scc and MOVE from SR, as the processor does, is admitted). Memory-mapped devices see each access once.",
      ONE_OVER, "for every opcode, registers, memory contents and extension words", "Tests look at the final memory: a repeated or superfluous access leaves it unchanged.",
      [IN, MEM, AM], [("operand accesses", MEM), ("instructions", IN)], ["number of accesses the memory sees"]),
]

TECH = "symbolic execution of the compiled code (LLVM IR) with an SMT solver (z3), against a reference model; counterexamples replayed natively"
NOTE = ("Every assertion on every symbolic path is decided for all values within the bounds in the evidence file. Trusts rustc/LLVM, the IR semantics of the engine in /verif/engine "
        "(validated on every run by replaying models of explored paths natively), z3, and the reference model in /verif/harness.")
PENDING = {}
