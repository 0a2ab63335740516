"""P09: no instruction of the long-form interpreter takes effect before its gas has been charged."""
import lfrun
def main(rep):
    lfrun.run(rep, ("order",), "before charging")
    rep.assumptions += ["a storage write requested by a failing SSTORE is undone with the frame (P18)", "converted code consists of complete instructions (P06, P11)"]
    return ("Abstract interpretation of the step function of the long-form interpreter for every instruction, revision and mode from an opaque state; on every failing path the host requests are examined, on every path growing the memory the gas at that point is compared with the specified charge.",
            "failing paths request no transient storage write, log, creation, call or self-destruction (and no storage write other than the one SSTORE's charge depends on); memory grows only after the gas was reduced by the specified fee")
