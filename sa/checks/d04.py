"""D04 one instance: the pid file"""
import startup
EXPLANATION = ("main() and what it registered with atexit() are interpreted as one history with every failing call: the automaton keeps whether this process created the pid file, "
               "what it wrote to it, and whether it removes only what is its own.")


def check(chk):
    chk.rule = "create the pid file exclusively, before any thread; remove it, and the fifo, only if this process created it"
    startup.report(chk, "inst")
