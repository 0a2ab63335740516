"""P08: in static mode no instruction of the long-form interpreter requests a state change, and calls it makes are static."""
import lfrun
def main(rep):
    lfrun.run(rep, ("static",), "in static mode", modes=(True,))
    lfrun.fused(rep, "in static mode")
    rep.assumptions += ["nested calls of kind DELEGATECALL and CALLCODE inherit the mode from the frame they are made from (P21)", "converted code consists of complete instructions (P06, P11)"]
    return ("Abstract interpretation of the step function of the long-form interpreter in static mode for every instruction (plain, fused and internal) and revision, from an opaque state; all host requests of every path are examined.",
            "no feasible path in static mode requests a storage write, transient storage write, log, self-destruction, creation or a call of kind CALL; static calls carry no value")
