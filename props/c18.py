from common import *
import calls


def check(run):
    s = Snippets(run, "limits")
    calls.limit_programs(s, rng(run))
    s.execute(secs=20)
    units = run_harnesses(run, misc_tus("full", "end", "for"))
    return finish(run, units, "proof", "Every instruction that pushes is proved to throw a stack-overflow error on a full stack, calls on a full array of frames, and unknown instructions to end "
                  "the program with an error; programs that reach each limit from different sides are executed under AddressSanitizer.",
                  [A_STATE, A_FRAMES, A_PRINT, A_LONGJMP, A_MACH], TRUSTED)
