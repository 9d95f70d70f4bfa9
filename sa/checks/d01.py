"""D01 privileges are dropped before anything else is done"""
import startup
EXPLANATION = ("main() and what it registered with atexit() are interpreted as one history, for every combination of configured user and group and every failing call: "
               "the automaton keeps which of group, supplementary groups and user were changed and what is done before or in spite of a failure.")


def check(chk):
    chk.rule = "group, supplementary groups, then user; nothing is created, started or executed before, or after a failure of these"
    startup.report(chk, "priv")
