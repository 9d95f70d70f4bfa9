"""R02 stored before announced"""
import proc
EXPLANATION = ("Path-sensitive typestate of the flattened processor thread: every path from the dequeuing of a product to the "
               "next one is followed with the results of the storage calls split into success and failure.")


def check(chk):
    chk.rule = ("spool index, queues and the 'received' record are only reached on paths on which every storage step of the "
                "product succeeded")
    proc.run(chk, "R02")
