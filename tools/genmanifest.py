import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ABS = "abstract interpretation"
C = {
 "P01": ("lockset analysis over all paths of the compiled cache operations (LLVM IR abstract interpretation with lock events)", "Covers every path, normal and exceptional, of every operation on every abstract shape of the cache; trusts the lock primitives and the documented contract of the index container. Synchronisation by atomics alone is reported as undecided."),
 "P02": ("shape analysis of the linked recency list and abstract map (LLVM IR abstract interpretation)", "Inductive: each operation maps every shape satisfying the representation invariant to the specified shape and result. Capacities 2, 3, 4 exactly and a large capacity with opaque list parts; trusts the documented contract of the index container; exceptions are not considered."),
 "P03": ("bit-level dependency and access analysis of the compiled hash (LLVM IR)", "Per key length (quick 0-40 and typical larger ones, thorough 0-512): all accesses inside the key, result depends on every byte and only on the key. Dependency, not avalanche quality."),
 "P04": ("constant propagation over the opcode tables of Go (SSA), C++ (LLVM IR) and Rust against the EVM assignment", "Complete for all 256 byte values of each implementation that compiles from the tree."),
 "P05": ("constant propagation of the predicates over all 256 byte values (Go SSA, LLVM IR)", "Complete for all 256 byte values."),
 "P06": ("abstract interpretation of one sweep iteration in product with the instruction/data automaton", "Inductive over positions, so all codes of all lengths below 2^32; loop variables must be affine in the position or finite valued, otherwise reported as undecided."),
 "P13": ("lockset and path analysis over the SSA of the registries, including everything they call", "Every path of registration and lookup, normal and panicking: the table is touched only under its lock, existing entries are never replaced, keys are normalised the same way on both sides. Key normalisation is decided as a data-flow relation, not as string equality."),
 "P14": ("constant propagation of every declared value through encoding and decoding, path analysis with symbolic text", "Complete over the declared values; arbitrary texts are covered through the path conditions of the decoder. The JSON string codec and regexp matching are trusted."),
 "P15": ("path analysis over all equality relations of the arguments", "Complete: the classification depends only on coincidences among original, current, new and zero, and all 15 are enumerated."),
 "P16": ("symbolic term normalisation of the amount operations (Go SSA)", "Complete for the forms recognised (64-bit limbs with carries, byte-wise ripple, uint256 calls); other forms are reported as undecided."),
 "P17": ("lockset and typestate analysis over all paths, plus pointer-origin (escape) analysis of everything reachable from concurrently used entry points (Go SSA)", "Covers every type embedding a mutex, every use of object pools and every write reachable from Run/StepN/Convert in the Go interpreters; trusts sync and the LRU container. Writes through pointers stored in third-party containers are only tracked one level deep."),
}
C["P10"] = ("interval and affine-offset analysis of every instruction's step (Go SSA abstract interpretation) against the stack effects of the specification", "Complete over op codes, revisions and modes: stack height, program counter, gas and operands are opaque. Covers the long-form interpreter's plain and fused instructions; NOOP and DATA, which valid code never reaches, only for bounds.")
C["P11"] = ("abstract interpretation of the converter on symbolic bytes and of both encodings from one opaque state, compared by term normal forms", "All 20 fused instructions; immediates, stack, memory, gas and position are opaque. The 256-bit library is trusted by name.")
T25 = "abstract interpretation of every instruction's step (Go SSA) against reference semantics, compared by term normal forms"
C["P25"] = (T25, "All instructions, forks and modes from an opaque state. A difference of terms is reported only if a valuation satisfying the path condition separates them (random interpretation of terms), so subtle differences without a separating valuation stay unreported. CALL-like instructions: forks Istanbul and Cancun in the quick tier. The 256-bit library is trusted by name.")
C["P29"] = (T25 + " of the gas and refund counters", C["P25"][1])
C["P30"] = (T25 + " of the sequence of host requests and their arguments", C["P25"][1])
C["P08"] = ("effect analysis of every instruction's step in static mode (Go SSA abstract interpretation)", "All plain, fused and internal op codes, all forks (CALL-like: Istanbul and Cancun in the quick tier); opaque operands, memory, gas and host. Long-form interpreter only.")
C["P09"] = ("effect-order analysis of every instruction's step (Go SSA abstract interpretation)", "All op codes, forks and modes from an opaque state, as P25. Long-form interpreter only.")
C["P12"] = ("path analysis of every translating function (Go SSA abstract interpretation) for each value of the source enumeration", "Gas, refund, output and operands are opaque. go-ethereum and the EVMC bindings enter as declarations; errors.Is is modelled as identity of error values. The C++ status conversion is read from its source text.")
FP = "path analysis (Go SSA abstract interpretation) of the native processor's nested call from an opaque frame"
C["P18"] = (FP + " with snapshot and restore events", "All call kinds, forks and failure causes from an opaque frame and an opaque interpreter outcome. The frame of the native processor only (opera leaves frames to go-ethereum).")
C["P19"] = (FP + ", evaluated for valuations around every boundary of balances and amounts", "All paths; amounts are compared by valuations that separate the boundary cases, so a deviation confined to a value outside the grid stays unreported.")
C["P20"] = ("path analysis (Go SSA abstract interpretation) of the processors' Run with an arbitrary nested outcome, evaluated around every boundary of the refund rules", "Both processors, all forks. Valuations of gas and refund at the boundaries of the rules; formulas that agree on all of them are accepted.")
C["P21"] = (FP + " with opaque depth and mode", "All call kinds; frames by value or by pointer. Native processor only.")
C["P31"] = ("path analysis (Go SSA abstract interpretation) of the processors' Run up to the nested call, evaluated around every boundary of the admission rules", "Both processors, all forks, several shapes of input and access list. Which paths are feasible is decided by evaluating their conditions for valuations at the boundaries.")
C["P32"] = (FP + "; hand-over and outcome compared for valuations around every boundary", "All call kinds and forks, opaque frame and interpreter outcome. Precompiled contracts and address derivation are go-ethereum's and trusted by name.")
C["P34"] = ("path analysis (Go SSA abstract interpretation) of every adapter method with opaque arguments and answers; requests made and values returned compared as terms", "All forwarding methods of the five adapters and the set-up of executions. Libraries behind the adapters enter as declarations; lists (topics, blob hashes, access lists) are analysed for a few lengths.")
C["P33"] = ("path analysis (Go SSA abstract interpretation) of the state contract with opaque arguments, evaluated around every boundary", "Both processors, all methods and several argument lengths around the required one; the method identifiers are followed from the package initialiser. Outcomes compared for valuations at the boundaries of gas, increments and coinciding accounts. go-ethereum's ABI parser and integer library are trusted by name.")
C["P35"] = ("abstract interpretation of every instruction's compiled step (LLVM IR) against reference semantics, outcomes compared by random interpretation", "All 256 op codes from an opaque frame, once as a step and once as a one-instruction execution. A difference is reported only if a valuation satisfying the path condition separates it (grid of boundary operands plus generated ones, gas at each of its boundaries). EVMC, intx and ethash enter as stubs and are trusted by name.")
C["P22"] = ("aliasing and completeness analysis of the state's operations: Go SSA abstract interpretation on states built from the declared types with one distinguishable value per component", "Every component reachable in the declared types, each varied alone, containers of a few elements; operations of either copy with the keys the state holds. JSON coding enters as a model of the library that interprets the types' own methods and tags.")
C["P37"] = ("path equivalence by abstract interpretation (Go SSA): the step loop interpreted as a whole and step by step with open instruction effects; runners and the stepping adapter interpreted against schedules of steps", "Programs in which every instruction precedes, follows and repeats another; each instruction's effect on registers and its outcome are open. Observers and the adapter on enumerated schedules, stack heights and memory sizes.")
C["P36"] = ("abstract interpretation of the converter (Go SSA) over an enumeration of code situations; the long form is read with the interpreter's own step function", "Every instruction, push width and truncation, every fused sequence split and cut at each place, mixtures, and positions beyond 16 bits. Assumes that an instruction is converted from at most eight bytes and its operand.")
C["P38"] = ("abstract interpretation of the EVMC entry points (LLVM IR) with the interpreter, code analysis and cache open; requests and results compared by random interpretation of the paths' terms", "All option combinations, code hashes absent, zero and arbitrary, all interpreter outcomes, opaque sizes and contents. The cache is a stand-in that always computes (P02, P03, P06 decide the real one); EVMC, intx and ethash enter as stubs.")
C["P39"] = ("abstract interpretation of the observed interpreter loops (LLVM IR), path by path against the unobserved loop; of Interpret around an open run; and of the profilers with open time stamps", "Every instruction from an opaque frame (for the logger split by stack height), one instruction and the one after it; profiler sequences at six call depths with arbitrary earlier records. Time conversion and the printed profile's format are not decided.")
NA = {}
exec(open(os.path.join(V, "tools/manifest_more.py")).read())
props = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
m = {"version": 1, "setup_cmd": "python3 tools/setup.py",
     "checks": [{"property": p, "quick_cmd": "python3 check.py %s quick" % p, "thorough_cmd": "python3 check.py %s thorough" % p,
                 "evidence_file": "evidence/%s.json" % p, "technique": C[p][0], "level": "other", "level_note": C[p][1]} for p in props if p in C],
     "not_applicable": [{"property": p, "reason": NA[p]} for p in props if p not in C]}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1); open(os.path.join(V, "MANIFEST.json"), "a").write("\n")
