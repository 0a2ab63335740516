NA["P07"] = "the per-instruction facts (stack effect, fork, static rule, gas, length) are decided where they take effect, by P05, P08, P10, P25 and P29; as a property of declarations alone it has no observable meaning of its own, and the tables of the C++ and Rust interpreters are internal"
NA["P23"] = "the Rust side cannot be compiled to an analysable form without its crates (evmc-vm, bindgen output), and the ownership hand-over happens in macros expanded from them; deciding only the C++ half would not decide the property"
NA["P24"] = "equality of results over all programs quantifies over unbounded executions of four interpreters; per instruction it is decided for lfvm (P25, P29, P30) against the specification"
NA["P26"] = "completeness and non-ambiguity of several hundred rules whose conditions are runtime objects over 256-bit quantities is a satisfiability question over their conjunctions, which no static argument of this family decides"
NA["P27"] = "state export and re-import pass through cgo and serialised buffers of unbounded size; the part inside the long-form interpreter is decided by P37, single instructions by P25, P29 and P35"
NA["P28"] = "the generators are randomised constraint searches; that a returned state satisfies its constraints depends on runtime values of unbounded containers"
for p in ["P%02d" % i for i in range(7, 40)]:
    if p not in C and p not in NA: NA[p] = "not claimed: no analysis in reach decides it for this code base"
for p in list(NA):
    if p in C: del NA[p]
