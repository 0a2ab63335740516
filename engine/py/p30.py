"""P30: the requests every instruction of the long-form interpreter makes of its host are those the
Ethereum specification asks for, with these arguments."""
import lfrun
def main(rep):
    lfrun.run(rep, ("host",), "requested as specified")
    rep.assumptions += ["the 256-bit integer library computes what its method names say", "host queries return arbitrary values", "converted code consists of complete instructions (P06, P11)"]
    return ("Abstract interpretation of the step function of the long-form interpreter from an opaque state (stack, memory, gas, position, operands, host answers), for every instruction, revision and mode; "
            "every feasible path is compared with the reference semantics of the instruction by term normal forms; terms without a common normal form are only reported when a valuation of the path's facts distinguishes them.",
            "every path of an instruction makes exactly the state changing requests, access-list touches, calls and logs of the specification, with the specified arguments")
