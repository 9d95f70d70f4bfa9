"""M02 the daemon's memory is released exactly once, on every path, and not used afterwards"""
from checks import m01
EXPLANATION = ("Bottom-up ownership analysis of every function of nbspd, all paths: each block of memory that is obtained, directly or by a "
               "called function, is freed, handed to the caller, or stored where it stays reachable, before the function returns; "
               "none is freed twice or used after it was freed.")


def check(chk):
    chk.rule = "every block obtained is freed exactly once, or handed over, and not used afterwards"
    m01.report(chk, ("heap",), 40)
