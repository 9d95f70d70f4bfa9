"""R03 retransmission decision"""
import proc
EXPLANATION = ("Path-sensitive typestate of the flattened processor thread, with the retransmission lookup split into its three "
               "answers (received, failed, unknown).")


def check(chk):
    chk.rule = ("a retransmission whose original is recorded as received is neither stored nor queued; otherwise complete "
                "products are processed; incomplete ones are recorded as failed, stored ones as received")
    proc.run(chk, "R03")
