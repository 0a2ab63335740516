"""P29: gas charge, refund and memory fee of every instruction of the long-form interpreter are those of the
Ethereum specification of the revision."""
import lfrun
def main(rep):
    lfrun.run(rep, ("gas",), "charged as specified")
    rep.assumptions += ["the 256-bit integer library computes what its method names say", "host queries return arbitrary values", "converted code consists of complete instructions (P06, P11)"]
    return ("Abstract interpretation of the step function of the long-form interpreter from an opaque state (stack, memory, gas, position, operands, host answers), for every instruction, revision and mode; "
            "every feasible path is compared with the reference semantics of the instruction by term normal forms; terms without a common normal form are only reported when a valuation of the path's facts distinguishes them.",
            "every path of an instruction charges the gas and changes the refund by the amounts of the specification; it fails for lack of gas exactly when the gas does not cover the charge")
