from common import *
import conts


def check(run):
    s = Snippets(run, "indexing")
    r = rng(run)
    conts.index_programs(s, r, N(60, 1200))
    conts.strindex_programs(s, r, N(60, 1200))
    s.execute()
    units = run_harnesses(run, misc_tus("iter", "slice", "for") + list_tus("slice", "iter"))
    return finish(run, units, "proof",
                  "The instructions for slices of strings and lists, iteration over strings and lists and the entering and leaving of loops are proved, those on lists for every "
                  "length; heap strings in slices and iteration up to a bound. Indexing (methods `__get`, `__set` of lists and strings), iteration over tables and sets and comprehensions are executed "
                  "against Python's sequences.", [A_MALLOC, A_STATE, A_FRAMES, A_PRINT, A_LONGJMP, A_MACH, A_TARGET], TRUSTED)
