from common import *
import conts

_F = "data-structures/YASL_String.c: "


def inv(assigns, *clauses):
    return "__CPROVER_assigns(%s) " % assigns + " ".join("__CPROVER_loop_invariant(%s)" % c for c in clauses)


def ws(at):
    c = "yv_a[yv_st + %s]" % at
    return "(%s == 32 || %s == 9 || %s == 10 || %s == 11 || %s == 13)" % (c, c, c, c, c)


PW = ws("yv_p")
ANNOT = [
    ("str_find_index", 0, inv("i, yv_bad", "i <= haystack_len - needle_len + 1", "!(yv_p < i) || !yv_occ", "!yv_bad")),
    ("YASL_String_count", 0, inv("i, count, yv_bad, yv_cnt, yv_pos", "i >= 0 && (size_t)i == yv_pos && yv_pos <= yv_H", "count == yv_cnt && yv_cnt >= 0 && (size_t)yv_cnt <= yv_pos", "!yv_bad")),
    ("YASL_String_split_fast", 0, inv("start, end, yv_bad, yv_next, yv_subs, yv_apps, yv_s1, yv_e1, yv_last",
                                      "start >= 0 && start <= end && (size_t)end <= yv_H && yv_next == (size_t)start", "yv_subs == yv_apps && !yv_bad && !yv_last",
                                      "!((size_t)start <= yv_p && yv_p < (size_t)end) || !yv_occ")),
    ("YASL_String_split_default", 0, inv("start, end, yv_bad, yv_next, yv_subs, yv_apps, yv_s1, yv_e1, yv_last",
                                         "end <= yv_H && yv_next == end && !yv_bad && yv_subs == yv_apps && yv_subs <= end",
                                         "!(yv_subs > 0 && end < yv_H) || " + ws("end"))),
    ("YASL_String_split_default", 1, inv("end", "yv_next <= end && end <= yv_H", "!(yv_next <= yv_p && yv_p < end) || " + PW,
                                         "!(yv_subs > 0 && end == yv_next && end < yv_H) || " + ws("end"))),
    ("YASL_String_split_default", 2, inv("end", "start <= end && end <= yv_H", "!(start <= yv_p && yv_p < end) || !" + PW, "!(end == start) || !" + ws("end"))),
    ("YASL_String_ltrim_default", 0, inv("start", "start >= 0 && (size_t)start <= yv_H", "!(yv_p < (size_t)start) || " + PW)),
    ("YASL_String_rtrim_default", 0, inv("end", "end >= 0 && (size_t)end <= yv_H", "!(yv_p >= (size_t)end && yv_p < yv_H) || " + PW)),
    ("YASL_String_trim_default", 0, inv("start", "start >= 0 && (size_t)start <= yv_H", "!(yv_p < (size_t)start) || " + PW)),
    ("YASL_String_trim_default", 1, inv("end", "end >= start && (size_t)end <= yv_H", "!(yv_p >= (size_t)end && yv_p < yv_H) || " + PW)),
    ("YASL_String_ltrim", 0, inv("start, yv_bad, yv_pos, yv_end, yv_lstop, yv_rstop", "start >= 0 && (size_t)start == yv_pos && yv_pos <= yv_H && yv_end == yv_H && !yv_lstop && !yv_bad")),
    ("YASL_String_rtrim", 0, inv("end, yv_bad, yv_pos, yv_end, yv_lstop, yv_rstop", "end <= yv_H && end == yv_end && yv_pos == 0 && yv_lstop && !yv_rstop && !yv_bad")),
    ("YASL_String_trim", 0, inv("start, yv_bad, yv_pos, yv_end, yv_lstop, yv_rstop", "start >= 0 && (size_t)start == yv_pos && yv_pos <= yv_H && yv_end == yv_H && !yv_lstop && !yv_rstop && !yv_bad")),
    ("YASL_String_trim", 1, inv("end, yv_bad, yv_pos, yv_end, yv_lstop, yv_rstop", "end <= yv_H && end == yv_end && end >= (size_t)start && yv_pos == (size_t)start && !yv_rstop && !yv_bad",
                                "yv_lstop || yv_N == 0 || yv_H - yv_pos < yv_N")),
    ("YASL_String_replace_fast_default", 0, inv("i, yv_bad, yv_pos, yv_pend, yv_cnt", "i <= yv_H && i == yv_pos && !yv_bad && yv_pend == 0")),
    ("YASL_String_replace_fast", 0, inv("i, max, yv_bad, yv_pos, yv_pend, yv_cnt", "i <= yv_H && i == yv_pos && !yv_bad && yv_pend == 0", "yv_cnt >= 0 && yv_cnt <= yv_max && (max < 0 ? yv_max == 0 : max == yv_max - yv_cnt)")),
    ("YASL_String_startswith", 0, inv("i", "i <= yv_N", "!(yv_p < i) || yv_a[yv_st + yv_p] == yv_n.str[yv_n.start + yv_p]")),
    ("YASL_String_endswith", 0, inv("i", "i <= yv_N", "!(yv_p < i) || yv_a[yv_st + yv_H - yv_N + yv_p] == yv_n.str[yv_n.start + yv_p]")),
    ("YASL_String_toupper", 0, inv("i, curr, __CPROVER_object_whole(ptr)", "i <= yv_H", "!(yv_p < i) || ptr[yv_p] == (yv_a[yv_st + yv_p] >= 97 && yv_a[yv_st + yv_p] <= 122 ? yv_a[yv_st + yv_p] - 32 : yv_a[yv_st + yv_p])")),
    ("YASL_String_tolower", 0, inv("i, curr, __CPROVER_object_whole(ptr)", "i <= yv_H", "!(yv_p < i) || ptr[yv_p] == (yv_a[yv_st + yv_p] >= 65 && yv_a[yv_st + yv_p] <= 90 ? yv_a[yv_st + yv_p] + 32 : yv_a[yv_st + yv_p])")),
]
FN = {"find": "str_find_index", "count": "YASL_String_count", "split": "YASL_String_split_fast", "splitd": "YASL_String_split_default", "cmp": "YASL_String_cmp",
      "replace": "YASL_String_replace_fast_default", "replace_max": "YASL_String_replace_fast", "startswith_part": "YASL_String_startswith", "endswith_part": "YASL_String_endswith",
      "ltrimd": "YASL_String_ltrim_default", "rtrimd": "YASL_String_rtrim_default", "trimd": "YASL_String_trim_default"}


def check(run):
    tu = TU("str.c", links=["interpreter/YASL_Object.c"], native=False, annot=ANNOT)
    for n in "find count split splitd ltrimd rtrimd trimd ltrim rtrim trim replace replace_max cmp startswith endswith startswith_part endswith_part toupper tolower".split():
        f = FN.get(n, "YASL_String_" + n)
        tu.unit(n, contract=f, replace=["YASL_String_new_substring"] if "split" in n or "trim" in n else [], solvers=("minisat", "z3"), timeout=200, about=_F + f, native=False)
    tb = TU("strb.c", links=["interpreter/YASL_Object.c"], native_links=native_sources(exclude=["data-structures/YASL_String.c"]))
    tb.unit("substring", about=_F + "YASL_String_new_substring", native=False)
    for n in "isal isnum isalnum isspace".split():
        tb.unit(n, about=_F + "YASL_String_" + n, unwind=18, bounded="strings of up to 3 bytes", solvers=("minisat", "z3"))
    tb.unit("rep", about=_F + "YASL_String_rep_fast", unwind=18, bounded="3 times 3 bytes", solvers=("z3", "minisat"))
    for n in "nfind ncount ntrim nreplace nreplace_max nsplit nsplitd".split():
        tb.unit(n, prove=False, about=_F + "algorithms on random strings (" + n[1:] + ")")
    s = Snippets(run, "strings")
    r = rng(run)
    conts.string_programs(s, r, N(120, 3000))
    conts.string_errors(s)
    s.execute()
    units = run_harnesses(run, [tu, tb])
    return finish(run, units, "proof",
                  "Searching, counting, splitting, trimming, replacing, comparing, prefixes and suffixes and changing the case are proved for strings of every length and contents, "
                  "against left-to-right specifications with an arbitrary witness position; classes of characters and repetition up to a length. The methods of programs around "
                  "them are compared with Python's byte strings.",
                  [A_MALLOC, A_MACH, "memcmp and memcpy of libc behave as specified (memcmp is a stub that says at an arbitrary witness position whether the needle occurs there)",
                   "the byte buffer appends what it is given (proved for C10)", "strings shorter than 2^30 bytes", "C locale; letters are those of ASCII",
                   "the needle of count, split and replace is not empty (the methods refuse it; executed)"], TRUSTED)
