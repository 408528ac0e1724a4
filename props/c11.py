from common import *
import lang, calls


def check(run):
    s = Snippets(run, "calls")
    r = rng(run)
    lang.lang_programs(s, r, N(400, 8000), {"call": 3}, "calls: arguments, results and frames", 24)
    lang.lang_programs(s, r, N(100, 2000), {"call": 4, "loop": 3, "closure": 2}, "calls: arguments, results and frames", 60)
    calls.call_programs(s, r, N(40, 800))
    s.execute()
    units = run_harnesses(run, misc_tus("call", "ret"))
    return finish(run, units, "proof",
                  "The instructions that start a call, enter a function (missing arguments filled with undef, surplus ones dropped) and return from it with any number of results "
                  "are proved for their arities, for arguments of all basic kinds, from any loop depth; the code the compiler emits around them, native functions and methods are executed "
                  "in random programs against an interpreter written for the purpose.", [A_STATE, A_FRAMES, A_PRINT, A_LONGJMP, A_MACH], TRUSTED)
