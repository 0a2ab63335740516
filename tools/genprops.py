import json
P=[]
def p(id,title,st,over,qt,why,files,mech,**kw):
    d=dict(id=id,title=title,statement=st,quantifier=dict(over=over,text=qt),why_tests_cant=why,anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech]))
    d['anchors'].update(kw); P.append(d)
p("P01","C++ LRU cache is free of data races",
 "Every public operation of the shared C++ LRU cache may be called from any number of threads: each access to the cache's shared bookkeeping happens while that cache instance's exclusive lock is held, every exit of an operation releases the lock exactly once, and no operation acquires the lock while already holding it. No operation hands out a reference or pointer into the cache, so a value returned to a caller cannot be changed by a later operation of another thread.",
 ["schedules","histories"],"All interleavings of any number of threads calling any mix of the public operations, for every key/value type and capacity.",
 "The seven cache tests are single threaded and look at a handful of call sequences; a missing or shared lock is invisible to them.",
 ["cpp/common/lru_cache.h"],[("scoped lock at the start of Get/InsertOrAssign/Clear","cpp/common/lru_cache.h"),("results returned by value","cpp/common/lru_cache.h")])
p("P02","C++ LRU cache keeps index, recency list and capacity consistent",
 "After any sequence of operations the cache holds at most its capacity of entries, every key maps to the value most recently assigned to it, and no lookup for one key ever returns another key's value. A lookup that hits and an insertion of a new key make that entry the most recently used one and keep the relative order of all others; inserting a new key into a full cache removes exactly the least recently used entry, and into a non-full cache removes nothing; clearing leaves an empty, usable cache.",
 ["histories","inputs"],"All operation sequences over all keys and values, for every capacity of at least two.",
 "Tests drive capacities 2 and 32 through sequences of at most four operations; list corruption appears only for particular positions of the touched entry (middle, tail) combined with a later eviction.",
 ["cpp/common/lru_cache.h"],[("moving an entry to the front","cpp/common/lru_cache.h Touch"),("recycling the tail entry","cpp/common/lru_cache.h GetNewHead"),("rebuilding the list","cpp/common/lru_cache.h Clear")])
p("P03","Fixed-size byte hashing reads exactly its key and uses every byte",
 "For every key length the C++ byte hash reads only bytes of the key it was given, never beyond its end, and every byte of the key can influence the hash. The hash depends on nothing but the key bytes, so equal keys always have equal hashes.",
 ["inputs"],"All key lengths and all key contents.",
 "There is no functional test of the hash at all (only a benchmark, for one length); a dropped trailing byte only degrades distribution and an over-read needs a particular length.",
 ["cpp/common/hash_utils.h"],[("word part plus remainder part","cpp/common/hash_utils.h HashBytes")])
p("P04","Opcode numbers and mnemonics agree with the EVM in every language",
 "Each EVM mnemonic denotes the same byte in the Go, C++ and Rust opcode definitions, namely the one assigned by the Ethereum specification up to Cancun, and printing a byte yields the mnemonic assigned to it. No two assigned bytes share a mnemonic, no assigned byte is missing, and an unassigned byte is never printed as an assigned mnemonic.",
 ["inputs","configurations"],"All 256 byte values in each of the implementations.",
 "Tests compare counts of opcodes and that printing yields no numeric fallback; swapping two values or names keeps them green, and the C++ and Rust tables are not compared with the Go one.",
 ["go/tosca/vm/opcodes.go","cpp/vm/evmzero/opcodes.inc","cpp/vm/evmzero/opcodes.h","rust/src/types/opcode.rs","go/interpreter/lfvm/opcode.go"],
 [("Go constants and String","go/tosca/vm/opcodes.go"),("X-macro table","cpp/vm/evmzero/opcodes.inc"),("Rust constants","rust/src/types/opcode.rs"),("lfvm opcode aliases","go/interpreter/lfvm/opcode.go")])
p("P05","Opcode classification predicates are exact for all 256 bytes",
 "The predicates and enumerations that classify opcodes (is it a valid instruction, the list of valid instructions, the same list without the pushes, its encoded length, is it used, does it call or create another contract, does it read or change the host's state without calling another contract) give for every one of the 256 byte values the answer the Ethereum specification gives for the Cancun instruction set. The enumerations list every member exactly once and nothing else.",
 ["inputs"],"All 256 byte values and each predicate.",
 "Tests check a total count and a few properties; exchanging a member for a non-member keeps the count.",
 ["go/tosca/vm/opcodes.go","cpp/vm/evmzero/opcodes.h","cpp/vm/evmzero/opcodes.inc"],
 [("IsValid / ValidOpCodesNoPush","go/tosca/vm/opcodes.go"),("IsUsedOpCode, IsCallOpCode, IsExternalOpCode","cpp/vm/evmzero/opcodes.h")])
p("P06","Jump-destination analysis marks exactly the JUMPDEST instructions",
 "For every code, of every length and content, the code analyses of the interpreters and of the conformance tests classify a position as a valid jump destination if and only if it holds the JUMPDEST byte and is reached as an instruction when sweeping the code linearly from its start, skipping the immediate data of PUSH1 to PUSH32 (and of no other instruction). The analysis result covers every position of the code and the analysis never reads outside the code, also when the code ends inside immediate data.",
 ["inputs","programs"],"All byte codes of all lengths.",
 "Tests sample a few hand-written codes; the number of codes is unbounded and truncated push data at the end of code is easily missed.",
 ["cpp/vm/evmzero/opcodes.cc","go/ct/st/code.go","go/interpreter/lfvm/converter.go","rust/src/types/opcode.rs","rust/src/types/code_analysis.rs"],
 [("CalculateValidJumpTargets","cpp/vm/evmzero/opcodes.cc"),("code/data bitmap","go/ct/st/code.go"),("conversion sweep","go/interpreter/lfvm/converter.go")])
p("P07","Declared instruction metadata matches the EVM and the siblings",
 "For each instruction the number of stack elements it requires and produces, the fork that introduced it, whether static calls forbid it, its constant gas charge per fork, and its encoded length, as declared in the interpreters' instruction tables, are those of the Ethereum specification, and so agree across interpreters.",
 ["inputs","configurations"],"Every instruction in every supported fork and every interpreter's table.",
 "Interpreter tests sample one or two forks per instruction and need enough stack anyway; a wrong minimum stack size only shows for one exact stack height.",
 ["cpp/vm/evmzero/interpreter.cc","go/interpreter/lfvm/stack_usage.go","go/interpreter/lfvm/gas.go","rust/src/interpreter.rs"],
 [("kInfo per instruction","cpp/vm/evmzero/interpreter.cc"),("computeStackUsage","go/interpreter/lfvm/stack_usage.go"),("static gas tables","go/interpreter/lfvm/gas.go")])
p("P08","lfvm never modifies state in a static context",
 "While executing in a static (read-only) frame no instruction of the long-form Go interpreter, plain or fused, requests a state modification of its host: no store to persistent or transient storage, no log, no creation, no self-destruction and no call of the plain CALL kind, with or without value; an instruction that would have to do so fails the frame instead. A CALL without value made from a static frame is passed on as a static call.",
 ["programs","inputs","configurations"],"All instructions, forks, operands, memory contents and host answers.",
 "Tests set the flag for single instructions and compare the resulting status only, with a few operand sets.",
 ["go/interpreter/lfvm/instructions.go","go/interpreter/lfvm/interpreter.go","go/interpreter/lfvm/super_instructions.go"],
 [("static checks before each writing instruction","go/interpreter/lfvm/instructions.go"),("call kind in static frames","go/interpreter/lfvm/instructions.go")])
p("P09","No lfvm instruction takes effect before its gas has been charged",
 "In the long-form Go interpreter an instruction emits a log, destroys the account, writes transient storage, or hands control to another contract or a creation only if the frame does not then fail for lack of gas (or any other reason) in that instruction; the only state request a failing instruction may have made is the storage write of SSTORE, whose charge depends on the host's answer. The frame's memory is grown only after the fee for the growth has been deducted.",
 ["programs","inputs"],"All instructions, all gas amounts, all forks.",
 "Running out of gas must be probed at each exact amount; tests use plentiful or zero gas.",
 ["go/interpreter/lfvm/instructions.go","go/interpreter/lfvm/memory.go","go/interpreter/lfvm/gas.go"],
 [("useGas before effects","go/interpreter/lfvm/instructions.go"),("memory expansion charging","go/interpreter/lfvm/memory.go")])
p("P10","Stack accesses stay within the checked bounds",
 "No instruction of the long-form interpreter accesses the operand stack below the number of elements its bounds check guarantees or beyond the check's growth allowance, and every instruction is preceded by that check. This holds for ordinary and for fused instructions.",
 ["programs","inputs"],"All instructions and all stack heights between 0 and 1024.",
 "Only exact boundary heights per instruction expose a mismatch between the bounds table and the implementation; the table and the implementations are separate code.",
 ["go/interpreter/lfvm/stack_usage.go","go/interpreter/lfvm/interpreter.go","go/interpreter/lfvm/instructions.go","go/interpreter/lfvm/super_instructions.go","go/interpreter/lfvm/stack.go"],
 [("computeStackUsage","go/interpreter/lfvm/stack_usage.go"),("checkStackLimits","go/interpreter/lfvm/interpreter.go")])
p("P11","Fused instructions behave like the sequence they replace",
 "Executing a fused (super) instruction of the long-form interpreter leaves the same stack, memory, program position and status as executing the sequence of plain instructions it stands for, and is charged the sum of their constant gas costs.",
 ["programs","inputs"],"All fused instructions and all operand values.",
 "Tests run each fused instruction on one or two operand sets; error cases such as oversized jump destinations are missed.",
 ["go/interpreter/lfvm/super_instructions.go","go/interpreter/lfvm/instructions.go","go/interpreter/lfvm/gas.go"],
 [("super-instruction implementations","go/interpreter/lfvm/super_instructions.go"),("decompose table","go/interpreter/lfvm/opcode.go")])
p("P12","Outcomes and enumerations keep their meaning at every boundary",
 "Wherever an execution outcome crosses a component boundary of the Go code (status of the long-form interpreter's loop, its result, results received from EVMC libraries and from geth, results and calls handed to geth), success, revert and failure keep their meaning: a successful frame reports success with its remaining gas, refund and output, a reverted one no success but its remaining gas and output, and a failed one no success, no gas, no refund and no output. Only errors of an interpreter itself are reported as errors. Call kinds, forks, storage and access statuses and test-state statuses are translated name by name, and an outermost geth frame leaves the artificial refund and the call depth as it found them.",
 ["inputs","configurations"],"All statuses, error codes, call kinds, forks, storage and access statuses on all these boundaries, for any gas, refund and output.",
 "Tests cover the common statuses; rarely used codes and default branches are not exercised, and the EVMC and geth sides need libraries.",
 ["go/interpreter/lfvm/interpreter.go","go/interpreter/lfvm/ct.go","go/interpreter/evmc/evmc_interpreter.go","go/interpreter/evmc/evmc_steppable_interpreter.go","go/geth_adapter/adapter.go","go/interpreter/geth/geth.go","cpp/vm/evmzero/evmzero.cc"],
 [("generateResult","go/interpreter/lfvm/interpreter.go"),("gethToVMErrors","go/geth_adapter/adapter.go"),("status switch","go/interpreter/evmc/evmc_interpreter.go")])
p("P13","Interpreter and processor registries are race free and never overwrite",
 "Registering and looking up interpreters or processors is safe from any number of threads: each access to the registry happens under its lock and the lock is released on every exit. A name is matched irrespective of letter case, a second registration under an already used name and a nil factory are rejected without changing the registry, and a snapshot handed to a caller is independent of the registry.",
 ["schedules","histories","inputs"],"All interleavings of registrations and lookups and all names.",
 "Tests are sequential and use lower-case names on at least one side.",
 ["go/tosca/interpreter_registry.go","go/tosca/processor_registry.go"],
 [("registry lock","go/tosca/interpreter_registry.go"),("registry lock","go/tosca/processor_registry.go")])
p("P14","Textual encodings of enumerations round-trip",
 "Every value of the enumerations that have a textual form (EVM revision, call kind, storage status, test execution status) prints to a name of its own and decoding the encoded name restores the value. The name of one value, in whatever spelling the decoder accepts, never decodes to another value; values outside the enumeration are never encoded under a declared value's name; and a text that is neither a name nor the documented numeric form of a revision is refused.",
 ["inputs"],"All values of each enumeration and all names.",
 "Tests spot-check members; a new or swapped entry in one direction only is not noticed.",
 ["go/tosca/interpreter.go","go/tosca/types.go","go/ct/st/state.go"],
 [("String/MarshalJSON/UnmarshalJSON","go/tosca/interpreter.go"),("GetAllStorageStatuses","go/tosca/types.go")])
p("P15","Storage status classification matches the net-gas-metering table",
 "For every original, current and new storage value the computed storage status is the one the EVMC/EIP-2200 table prescribes: unchanged or otherwise-dirty slots are 'assigned' and each of the eight change patterns has its own status. The classification depends only on which of the three values are zero and which are equal.",
 ["inputs"],"All triples of 256-bit values.",
 "Tests sample one triple per status; the partition has fifteen classes and misclassification shows only in refunds.",
 ["go/tosca/utils.go","go/tosca/types.go","go/tosca/world_state.go"],
 [("GetStorageStatus","go/tosca/utils.go")])
p("P16","256-bit amounts are added, subtracted and compared exactly",
 "Adding and subtracting 256-bit amounts propagates the carry or borrow through all four 64-bit limbs in order of significance, so that results are exact modulo 2^256 and addition and subtraction undo each other. Constructing an amount from words places each word in its position, and comparison orders amounts as unsigned big-endian numbers.",
 ["inputs"],"All pairs of 256-bit amounts.",
 "Tests add a few small numbers; a carry crossing a particular limb is one case in 2^64.",
 ["go/tosca/types.go"],[("Add/Sub/NewValue/Cmp","go/tosca/types.go")])
p("P17","Shared caches and pools of the Go interpreters are race free",
 "Data shared between concurrently running interpreter instances in Go (hash caches, code conversion caches, object pools) is accessed only under the lock that protects it or through a thread-safe container, locks are released on every exit, and an object returned to a pool is not used afterwards.",
 ["schedules","histories"],"All interleavings of concurrent executions.",
 "Tests are sequential or short; a value read after unlocking needs an eviction at the right moment.",
 ["go/interpreter/lfvm/hash_cache.go","go/interpreter/lfvm/stack.go","go/interpreter/lfvm/interpreter.go","go/interpreter/lfvm/converter.go","go/ct/st/stack.go"],
 [("hash cache mutex","go/interpreter/lfvm/hash_cache.go"),("stack pool","go/interpreter/lfvm/stack.go")])
p("P18","Failed calls leave no trace in the transaction state",
 "In the native transaction processor every call or creation that ends unsuccessfully after state was changed on its behalf restores the snapshot taken at its start before returning, and one that succeeds never does. Each restore uses the snapshot of its own frame, whatever the reason of the failure (transfer, precompiled or state contract, interpreter outcome, rules for deployed code).",
 ["histories","fault_sequences","inputs"],"All call kinds, nesting depths and failure causes.",
 "Failure after a successful sub-execution needs particular combinations (oversized code, 0xEF prefix, missing deposit gas) that tests check only for the returned status.",
 ["go/processor/floria/run_context.go","go/processor/floria/processor.go"],
 [("CreateSnapshot/RestoreSnapshot pairing","go/processor/floria/run_context.go")])
p("P19","Value transfers neither create nor destroy balance",
 "A value transfer in the native transaction processor changes at most the sender's and the recipient's balance, by exactly the transferred amount in opposite directions, and only if the sender's balance suffices and the recipient's does not overflow; a rejected transfer changes nothing. A transfer from an account to itself leaves its balance unchanged.",
 ["inputs","histories"],"All balances and amounts, including sender equal to recipient.",
 "Tests use distinct accounts and small amounts.",
 ["go/processor/floria/run_context.go"],[("transferValue","go/processor/floria/run_context.go")])
p("P20","Refund and gas-charge rules of the transaction processor",
 "After a transaction the remaining gas is the unused gas less the mandatory share kept for internal transactions where it applies, plus the refund only if the execution succeeded, and the refund never exceeds half (before London) or a fifth (from London) of the gas used. The sender is credited for exactly the remaining gas and the receipt's gas used is the gas limit less the remaining gas.",
 ["inputs","configurations"],"All gas amounts, outcomes and forks.",
 "Tests sample a few amounts in one fork.",
 ["go/processor/floria/processor.go","go/processor/opera/processor.go"],
 [("calculateGasLeft","go/processor/floria/processor.go"),("refundGas","go/processor/floria/processor.go")])
p("P21","Call depth and static mode are inherited by nested calls",
 "In the native transaction processor each nested call or creation runs one level deeper than its caller and is rejected beyond 1024 levels before having any effect, and a call made from a static frame or as a static call runs in a static frame. Mode and depth of the caller are what they were before once the nested call returned, whatever its outcome.",
 ["programs","histories"],"All call trees and outcomes.",
 "Tests nest at most two levels.",
 ["go/processor/floria/run_context.go"],[("depth and static fields of the run context","go/processor/floria/run_context.go")])
p("P22","Conformance-test states are cloned, compared and exported completely",
 "Cloning a conformance-test state, also onto a reused stack, yields an equal state that shares no mutable data with the original, exporting and importing it restores every component, and its text encodings and code hashes determine what they stand for. Comparing two states takes every component into account, apart from the documented exceptions: two failed states are equal, the internal state of terminated states and the result of running ones are ignored, and a storage slot that is absent counts as zero. Whenever two states are unequal the reported differences name the component, each under a text of its own.",
 ["inputs","histories"],"All states and all components, including components added later.",
 "Tests modify each known component once; a component forgotten in one of clone, equality, difference reporting or export silently weakens all conformance tests.",
 ["go/ct/st/state.go","go/ct/st/stack.go","go/ct/st/memory.go","go/ct/st/storage.go","go/ct/st/accounts.go","go/ct/st/logs.go","go/ct/st/call_journal.go","go/ct/st/transient_storage.go","go/ct/st/transaction_context.go","go/ct/st/serialization.go","go/ct/st/code.go"],
 [("State.Clone, Eq, Diff","go/ct/st/state.go"),("NewStackWithSize","go/ct/st/stack.go"),("Storage","go/ct/st/storage.go"),("ImportStateJSON, ExportStateJSON","go/ct/st/serialization.go")])
p("P23","Buffers crossing the foreign-function boundary have one owner",
 "Every buffer and object handed across the C boundary by the C++ and Rust interpreters is allocated, if at all, by the allocator its release function uses, is released exactly once by that function, and is not read or released by its former owner afterwards. Null pointers from the caller never reach a dereference.",
 ["inputs","fault_sequences","histories"],"All execution outcomes, output sizes and call sequences.",
 "Needs the foreign interface and leak detection; tests only look at returned data.",
 ["cpp/vm/evmzero/evmzero.cc","rust/src/ffi/evmc_vm.rs","rust/src/ffi/steppable_evmc_vm.rs"],
 [("release callbacks","cpp/vm/evmzero/evmzero.cc")])
p("P24","All interpreters compute the same results for all programs",
 "For every program, input and state, all interpreters of the project produce the same outcome, remaining gas, refund, output and state changes.",
 ["programs","inputs"],"All programs and states.",
 "The conformance tests sample; equality over all programs is undecidable.",
 ["go/interpreter","cpp/vm/evmzero","rust/src"],[("conformance tests","go/ct")])
p("P25","Every lfvm instruction computes the specified result",
 "In the long-form Go interpreter (lfvm) every EVM instruction, in every supported fork and in static and non-static mode, leaves exactly the operand stack, memory content and size, program position, return data and execution status that the Ethereum specification prescribes, for all operands, memory contents and host answers. It fails exactly when the specification makes the instruction fail (invalid jump, return data out of bounds, forbidden in static mode, not available in the fork, oversized init code and so on), and no instruction panics.",
 ["inputs","programs","configurations"],"All instructions, forks, modes, operand values, stack and memory contents, call data, code and host answers.",
 "Operands are 256 bit wide and instructions depend on memory, return data and host answers; tests sample a few operands per instruction, while wrong behaviour hides at boundary values (offsets past the end, sizes above 64 bit, shift amounts of 256, exactly exhausted data).",
 ["go/interpreter/lfvm/instructions.go","go/interpreter/lfvm/interpreter.go","go/interpreter/lfvm/memory.go","go/interpreter/lfvm/stack.go"],
 [("instruction implementations","go/interpreter/lfvm/instructions.go"),("step function","go/interpreter/lfvm/interpreter.go"),("memory","go/interpreter/lfvm/memory.go")])
p("P26","The conformance specification is complete and unambiguous",
 "For every reachable test state at least one specification rule applies, and all rules that apply to a state produce the same successor state.",
 ["inputs","histories"],"All test states.","The rule conditions quantify over runtime values; tests sample states.",
 ["go/ct/spc/specification.go","go/ct/rlz"],[("rule set","go/ct/spc/specification.go")])
p("P27","Stepwise and complete execution agree",
 "Executing a program step by step through the stepping interface, with the state exported and re-imported between the steps, ends in the same state as executing it in one go.",
 ["programs","inputs"],"All programs and step sizes.","Tests sample; equality of runtime states.",
 ["go/interpreter/lfvm/ct.go","cpp/vm/evmzero/evmzero.cc","rust/src/ffi/steppable_evmc_vm.rs"],[("StepN","cpp/vm/evmzero/evmzero.cc")])
p("P28","Test-state generators only produce states satisfying their constraints",
 "Whenever a generator of the conformance tests returns a state it satisfies all constraints it was given, and it reports unsatisfiability only for unsatisfiable constraints.",
 ["inputs"],"All constraint sets and seeds.","Random generation; tests sample.",
 ["go/ct/gen"],[("solvers","go/ct/gen")])
p("P29","Every lfvm instruction charges the specified gas and refund",
 "In the long-form Go interpreter every EVM instruction, in every supported fork, is charged exactly the gas the Ethereum specification prescribes (constant part, memory expansion, copied or hashed words, account and slot access, storage transitions, calls and creations) and changes the refund counter exactly as prescribed, whatever its operands, memory size and host answers are. It runs out of gas exactly if the charge exceeds the gas left, and gas handed to a nested call is deducted once and what the call returns is added back once.",
 ["inputs","programs","configurations"],"All instructions, forks, operand values, gas amounts, memory sizes and host answers.",
 "Charges depend on fork, access status, memory growth and operand sizes in combination; tests check selected combinations with round amounts of gas.",
 ["go/interpreter/lfvm/gas.go","go/interpreter/lfvm/instructions.go","go/interpreter/lfvm/memory.go","go/interpreter/lfvm/interpreter.go"],
 [("static gas tables","go/interpreter/lfvm/gas.go"),("dynamic costs","go/interpreter/lfvm/instructions.go"),("memory expansion costs","go/interpreter/lfvm/memory.go")])
p("P30","Every lfvm instruction makes exactly the specified host requests",
 "In the long-form Go interpreter every EVM instruction that reads or changes state outside the frame (storage, transient storage, accounts, logs, self-destruction, nested calls and creations) does so through exactly the requests to its host that the Ethereum specification prescribes, with the prescribed addresses, keys, values, topics, data, call kinds and gas amounts, and each state change is requested at most once. An instruction that fails requests no log, creation, call or self-destruction.",
 ["inputs","programs","configurations"],"All instructions, forks, modes, operand values and host answers.",
 "The requests' parameters are computed from operands, memory and frame parameters; tests with mocks match a few concrete values and often accept any argument.",
 ["go/interpreter/lfvm/instructions.go","go/interpreter/lfvm/gas.go"],
 [("state accessing instructions","go/interpreter/lfvm/instructions.go"),("calls and creations","go/interpreter/lfvm/instructions.go")])
p("P31","Transactions are admitted, charged and set up as specified",
 "The transaction processors execute a transaction only if its nonce equals the sender's (and can be increased), the sender has no code, its balance covers gas limit times gas price without overflow, the limit covers the intrinsic gas and the init code is not too large; a transaction rejected for other reasons than its intrinsic gas changes nothing. An executed transaction is charged exactly gas limit times price beforehand, its sender's nonce is increased exactly once, its access list is filled from Berlin on, and its call receives the transaction's fields and the limit less the intrinsic gas.",
 ["inputs","configurations"],"All transactions, sender accounts and forks.",
 "Tests check each rule at one or two values; boundary nonces, overflowing costs and combinations of two violated rules are not sampled.",
 ["go/processor/floria/processor.go","go/processor/opera/processor.go"],
 [("Run, buyGas, calculateSetupGas, nonce and sender checks","go/processor/floria/processor.go"),("Run, buyGas, nonceCheck, eoaCheck","go/processor/opera/processor.go")])
p("P32","Frames are set up and their outcomes reported as specified",
 "In the native transaction processor every nested call or creation gives the interpreter exactly its kind, gas, addresses, input, value, the code and code hash of its code address and the block and transaction parameters, or runs the precompiled contract its code address denotes in the fork. Creations obey the rules for addresses, collisions, nonces, code size, 0xEF prefix and deposit gas, and the gas left, refund, output, created address and success reported to the caller are those the rules prescribe for each outcome.",
 ["inputs","fault_sequences","configurations"],"All call kinds, forks, depths, values, balances, gas amounts and outcomes of the execution.",
 "Tests mock the interpreter with one outcome at a time and rarely check gas, refund and the parameters handed over together.",
 ["go/processor/floria/run_context.go","go/processor/floria/precompiled.go"],
 [("Calls and Creates","go/processor/floria/run_context.go"),("precompiled contracts","go/processor/floria/precompiled.go")])
p("P34","Adapters hand every request and parameter on unchanged",
 "Whatever interpreter, processor and host are combined, the adapters between them ask the host exactly what they were asked (same accounts, keys, values, topics, data, call kinds and amounts), hand its answers back unchanged, and give the foreign interpreter every parameter of the execution, including static mode, depth, code, input, value and block data. What an adapter keeps itself (refunds per snapshot, beneficiary, read-only mode encoded in the gas) survives nested calls and snapshots.",
 ["inputs","histories","configurations"],"All requests, arguments, answers, executions and snapshot histories.",
 "Unit tests mock a few methods with one argument each; most forwarding methods of the adapters have no test, and swapped arguments of equal type compile.",
 ["go/interpreter/evmc/evmc_interpreter.go","go/interpreter/geth/geth.go","go/interpreter/geth/ct.go","go/geth_adapter/adapter.go","go/ct/utils/adapter.go"],
 [("hostContext","go/interpreter/evmc/evmc_interpreter.go"),("stateDbAdapter","go/interpreter/geth/geth.go"),("callInterceptor","go/interpreter/geth/ct.go"),("runContextAdapter and Run","go/geth_adapter/adapter.go"),("ctRunContext and ToVmParameters","go/ct/utils/adapter.go")])
p("P33","The state contract changes what its driver asks for, and nothing else",
 "The state contract of the transaction processors accepts calls of the driver contract only, with one of its five methods and arguments of exactly that method's length; it then charges the method's gas (per byte of code where code is copied or swapped) and changes exactly the balance, code, storage slot or nonce named. Nonces grow by 1 to 255, the balance and nonce of the transaction's origin are protected. Every other call, and every call in static mode, fails, consumes all its gas and changes nothing.",
 ["inputs","histories"],"All callers, origins, inputs, gas amounts, balances, nonces and code sizes.",
 "Tests call each method with one well-formed input; truncated or oversized arguments, gas one unit short, and huge increments are combinations they do not enumerate.",
 ["go/processor/floria/state_contract.go","go/processor/opera/processor.go"],
 [("handleStateContract and its methods","go/processor/floria/state_contract.go"),("preCompiledStateContract","go/processor/opera/processor.go")])
p("P35","The C++ interpreter executes every instruction as specified",
 "In the C++ interpreter every EVM instruction, in every supported fork, maps the stack, memory, program counter, gas, refund and return data to what the Ethereum specification prescribes, makes exactly the prescribed host requests with the prescribed parameters, and fails exactly where it prescribes a failure (stack bounds, gas, jump targets, static mode, fork). It never reads or writes outside its stack, memory, code, input and return data, and never uses a reference into memory that has been resized since.",
 ["inputs","programs","configurations"],"All instructions, forks, modes, operand values, gas amounts, memory sizes and host answers.",
 "Tests of the interpreter run chosen programs with small operands; overflow of offsets, sizes and gas, and memory references kept across growth, need specific 256-bit operands.",
 ["cpp/vm/evmzero/interpreter.cc","cpp/vm/evmzero/interpreter.h","cpp/vm/evmzero/memory.h","cpp/vm/evmzero/stack.h","cpp/vm/evmzero/uint256.h"],
 [("Impl<OpCode>::Run and Invoke","cpp/vm/evmzero/interpreter.cc"),("Memory","cpp/vm/evmzero/memory.h"),("Stack","cpp/vm/evmzero/stack.h")])
p("P36","Conversion to long form keeps the program and its jump destinations",
 "The long form of a contract's code contains the instructions of the code in their order with the operands they push, zero-extended where the code ends early, and has a jump destination exactly at the positions at which the code has one. Fillers and fused instructions never hide, move or invent an instruction: from each instruction execution reaches the next one of the code, whatever the code's length, and the position maps of the conformance tests are inverse to each other.",
 ["inputs","programs"],"All codes, of any length, with and without fused instructions.",
 "Tests convert chosen and random codes and compare op codes; truncated operands, fused candidates split by a jump destination and positions beyond 16 bits are combinations they do not enumerate.",
 ["go/interpreter/lfvm/converter.go","go/interpreter/lfvm/ct.go","go/interpreter/lfvm/instructions.go"],
 [("Converter.Convert","go/interpreter/lfvm/converter.go"),("genPcMap","go/interpreter/lfvm/ct.go"),("opJumpTo","go/interpreter/lfvm/instructions.go")])
p("P37","Logged, profiled and stepped runs execute the plain program",
 "In the long-form Go interpreter a run with a logger or a statistics collector attached, and a run driven one instruction at a time, executes the same instructions from the same machine state to the same outcome as a plain run. Observers leave the machine alone and report every executed instruction exactly once and in order: one log line with instruction, gas and stack top, and exact counts of single instructions and of sequences of two, three and four, which add up over runs until they are reset. The stepping interface of the conformance tests starts from the given state, executes at most the requested number of instructions, and shows the machine's state as the result.",
 ["programs","inputs","histories"],"All instructions, outcomes of instructions and machine states; schedules of up to eight steps for observers.",
 "Tests log or count one chosen program and compare final results; they do not compare complete with stepwise runs for every instruction and outcome.",
 ["go/interpreter/lfvm/interpreter.go","go/interpreter/lfvm/instruction_logger.go","go/interpreter/lfvm/instruction_statistics.go","go/interpreter/lfvm/ct.go"],
 [("steps","go/interpreter/lfvm/interpreter.go"),("loggingRunner.run","go/interpreter/lfvm/instruction_logger.go"),("statisticRunner, statsCollector","go/interpreter/lfvm/instruction_statistics.go"),("ctAdapter.StepN","go/interpreter/lfvm/ct.go")])
p("P38","evmzero's EVMC entry points run what was asked and report what came of it",
 "Every execution or stepping request reaches evmzero's interpreter once, with the padded code and jump destinations of exactly the requested code, the requested message, host, revision and, when stepping, the given machine state and number of steps; an analysis is shared only between requests naming the same non-zero code hash. The result reports the status class, gas, refund, output and machine state the interpreter left, in buffers of its own that stay valid until they are released, each exactly once. Each option sets what it names and nothing else, other names and values are refused, and logging, profiling and caches are used as the options say and never change what is executed; printing and resetting the profile concern the profile being recorded.",
 ["inputs","histories"],"All option combinations, code hashes absent, zero and arbitrary, all outcomes of the interpreter, all buffer sizes; stacks of selected heights.",
 "Tests call the interpreter below these entry points; the entry points themselves, with their buffers crossing the language border, are exercised by few runs that look at success and output.",
 ["cpp/vm/evmzero/evmzero.cc","cpp/vm/evmzero/memory.cc","cpp/vm/evmzero/stack.cc"],
 [("VM::Execute, VM::StepN, VM::SetOption","cpp/vm/evmzero/evmzero.cc"),("evmc_create_evmzero, VMSteppable","cpp/vm/evmzero/evmzero.cc")])
p("P39","Watching an evmzero run changes nothing, and the record is what happened",
 "A run of evmzero under a profiler or the logger ends exactly as the same run without one: same status, gas, refund, return data and requests to the host, for every code and frame, and it is a run of the requested code with the requested message, host and revision. The observer is told once before and once after each instruction that is dispatched; the log shows its name, the gas and the stack top before it, and the profile grows by its executions and by the time between the two, without the time of runs nested in it. Merging profiles adds them, resetting clears everything, runs count only at depth zero, and the external profile counts exactly the instructions that reach outside the interpreter.",
 ["inputs","programs","histories"],"All instructions, frames and paths under each observer; profiler sequences over all opcodes at call depths 0, 1, 2, 511, 1023 and 1024 with arbitrary earlier records and time stamps.",
 "Observed runs are compared with plain ones on no program, and the profiler's tests record a few opcodes at depth zero; a state update that leaks from the observer's view into the run shows only at some instruction and frame.",
 ["cpp/vm/evmzero/interpreter.cc","cpp/vm/evmzero/profiler.h","cpp/vm/evmzero/logger.h","cpp/vm/evmzero/opcodes.h"],
 [("RunInterpreter, Interpret","cpp/vm/evmzero/interpreter.cc"),("Profiler, Profile","cpp/vm/evmzero/profiler.h"),("Logger","cpp/vm/evmzero/logger.h")])
with open('/verif/properties.jsonl','w') as f:
    for d in P: f.write(json.dumps(d)+"\n")
import collections
for d in P:
    assert len(d['title'])<=80,(d['id'],len(d['title']))
    assert d['statement'].count('. ')<=2,d['id']
print(len(P))
