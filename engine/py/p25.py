"""P25: every instruction of the long-form interpreter leaves the stack, memory, program counter, return data and status
the Ethereum specification defines, and fails exactly when the specification says so."""
import lfrun
def main(rep):
    lfrun.run(rep, ("result",), "as specified")
    rep.assumptions += ["the 256-bit integer library computes what its method names say", "host queries return arbitrary values", "converted code consists of complete instructions (P06, P11)"]
    return ("Abstract interpretation of the step function of the long-form interpreter from an opaque state (stack, memory, gas, position, operands, host answers), for every instruction, revision and mode; "
            "every feasible path is compared with the reference semantics of the instruction by term normal forms; terms without a common normal form are only reported when a valuation of the path's facts distinguishes them.",
            "every path of an instruction ends with the stack, memory, position, return data and status of the specification; failing paths are exactly those the specification makes fail")
