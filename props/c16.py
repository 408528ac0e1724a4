from common import *
import lexing

P = "yv_pos < (1ul << 30) && (yv_k >= yv_pos || (yv_pkth >= 0 && yv_pkth < 256)) && "
K = "yv_pos < (1ul << 30) && (yv_k >= yv_cnt || (yv_kth >= 0 && yv_kth < 256)) && "
G = "yv_pos, yv_nl, yv_cnt, yv_kth, yv_pkth, yv_eof, __CPROVER_object_whole(yv_first)"
BLANK = ("lex_eatwhitespace", 0, "__CPROVER_assigns(lex->c, lex->line, lex->type, " + G + ")"
         " __CPROVER_loop_invariant(lex->type == __CPROVER_loop_entry(lex->type) && lex->line + (!yv_eof && lex->c == '\\n') == yv_line0 + yv_nl && (!yv_ends || yv_nl == (!yv_eof && lex->c == '\\n')))")
COMMENT = ("lex_eatinlinecomments", 0, "__CPROVER_assigns(lex->c, " + G + ") __CPROVER_loop_invariant(yv_nl == 0)")
RAW = ("lex_eatrawstring", 0, "__CPROVER_assigns(lex->c, lex->line, lex->val_len, yv_app, yv_appk, " + G + ") __CPROVER_loop_invariant(" + P + "lex->val_len == yv_app && yv_app + !yv_eof == yv_pos && "
       "lex->line + (!yv_eof && lex->c == '\\n') == yv_line0 + yv_nl && (yv_k >= yv_app || yv_appk == yv_pkth) && (yv_eof || yv_k != yv_app || lex->c == (char)yv_pkth))")
STR = "__CPROVER_assigns(lex->c, lex->line, lex->val_len, lex->value, lex->val_cap, lex->type, lex->status, yv_app, yv_appk, yv_sought, yv_cmd, " + G + ") __CPROVER_loop_invariant(" + P + "lex->val_len == yv_app && yv_app + !yv_eof == yv_pos && lex->status == 0 && lex->value == __CPROVER_loop_entry(lex->value) && lex->type == __CPROVER_loop_entry(lex->type) && (yv_k >= yv_app || yv_appk == yv_pkth) && (yv_eof || yv_k != yv_app || lex->c == (char)yv_pkth) && (yv_eof || lex->c != 92) && lex->line == yv_line0 && yv_nl == (!yv_eof && lex->c == 10))"
STRINGS = [("lex_eatstring", 0, STR), ("lex_eatinterpstring_fill", 0, STR)]
BLOCK = ("lex_eatcommentsandwhitespace", 1, "__CPROVER_assigns(c1, c2, addsemi, lex->line, yv_last, yv_pairs, " + G + ") __CPROVER_loop_invariant(yv_nl <= yv_pos && yv_pos >= 1 && yv_pos < (1ul << 30) && (yv_eof || (yv_pos >= 3 && c2 == yv_last && yv_pairs == (c1 == '*' && c2 == '/'))) && "
         "yv_first[0] == '*' && (yv_eof || (lex->line + (c1 == 10) + (c2 == 10) == yv_line0 + yv_nl && (!addsemi || yv_nl > 0) && (addsemi || yv_nl == (c1 == 10) + (c2 == 10)))))")
AROUND = ("lex_eatcommentsandwhitespace", 0, "__CPROVER_assigns(lex->c, lex->line, lex->type, lex->status, lex->value, lex->val_len, lex->val_cap, yv_sought, yv_cmd, yv_last, yv_pairs, " + G + ") __CPROVER_loop_invariant(yv_pos < (1ul << 30) && lex->type == __CPROVER_loop_entry(lex->type) && "
          "lex->value == __CPROVER_loop_entry(lex->value) && lex->status == 0 && !yv_eof && ((lex->c == '/' && yv_pos == 0 && lex->line == yv_line0 && yv_nl == 0 && yv_last == 0 && yv_pairs == 0) || "
          "((lex->c == ' ' || lex->c == 'x') && yv_pos > 0 && yv_first[0] == '*' && yv_pairs == 1 && yv_last == '/' && lex->line == yv_line0 + yv_nl && !(yv_ends && yv_nl > 0))))")
CUR = "cur == (long)yv_pos - !yv_eof"
UNDER = ("lex_eatnumber_fill", 0, "__CPROVER_assigns(cur, lex->c, " + G + ") __CPROVER_loop_invariant(" + K + CUR + " && yv_pos >= 1 && yv_cnt == yv_app + !(yv_eof || lex->c == '_') && (yv_k >= yv_app || yv_appk == yv_kth) && "
         "(yv_eof || lex->c == '_' || yv_k != yv_app || lex->c == (char)yv_kth))")
DIGITS = ("lex_eatnumber_fill", 1, "__CPROVER_assigns(cur, lex->c, lex->val_len, yv_app, yv_appk, " + G + ") __CPROVER_loop_invariant(" + K + "!yv_eof && yv_pos >= 1 && yv_cnt == yv_app + 1 && (yv_k >= yv_app || yv_appk == yv_kth) && "
          "(yv_k != yv_app || lex->c == (char)yv_kth))")
NAME = ("lex_eatid_fill", 0, "__CPROVER_assigns(cur, lex->c, lex->val_len, yv_app, yv_appk, " + G + ") __CPROVER_loop_invariant(" + P + "!yv_eof && yv_pos == yv_app + 1 && (yv_k >= yv_app || yv_appk == yv_pkth) && "
        "(yv_k != yv_app || lex->c == (char)yv_pkth))")


def lexer_tu():
    m, l = TU("lexer.c", native=False), TU("lexer.c", annot=[BLANK, COMMENT], native=False, tag="l")
    L = "compiler/lexer.c: "
    for n, f in (("tok1", "YASLToken_OneChar"), ("tok2", "YASLToken_TwoChars"), ("tok3", "YASLToken_ThreeChars")):
        m.unit(n, contract=f, about=L + f, unwind=70)
    m.unit("word", contract="YASLKeywords", replace=["lex_print_err"], about=L + "YASLKeywords", unwind=45)
    for n in ("room", "full"):
        m.unit("append_" + n, contract="lex_val_append", about=L + "lex_val_append", timeout=150)
    l.unit("blank", contract="lex_eatwhitespace", about=L + "lex_eatwhitespace", unwind=14)
    l.unit("comment", contract="lex_eatinlinecomments", about=L + "lex_eatinlinecomments", unwind=14)
    for n in ("escape", "escape_unknown", "escape_hex"):
        m.unit(n, contract="handle_escapes", replace=["lex_print_err"], about=L + "handle_escapes", unwind=14)
    m.unit("op", contract="lex_eatop", about=L + "lex_eatop", unwind=70)
    g = TU("lexer.c", defs=["YV_LOG"], annot=[RAW, UNDER, DIGITS, NAME], native=False, tag="g")
    h = TU("lexer.c", defs=["YV_LOG"], annot=STRINGS, native=False, tag="h", sub=[(r"lex_print_err\((\w+),[^;]*\);", r"yv_print(\1);")])
    g.unit("raw", contract="lex_eatrawstring", replace=["lex_val_append", "lex_print_err"], about=L + "lex_eatrawstring", unwind=14)
    h.unit("plain", contract="lex_eatstring", replace=["lex_val_append", "handle_escapes"], about=L + "lex_eatstring, without escapes", unwind=28)
    h.unit("part", contract="lex_eatinterpstringbody", replace=["lex_val_append", "handle_escapes"], about=L + "lex_eatinterpstring_fill, without escapes", unwind=28)
    for n in ("dec", "bin", "hex"):
        g.unit("digits_" + n, contract="lex_eatnumber_fill", replace=["lex_val_append"], about=L + "lex_eatnumber_fill", unwind=14)
    g.unit("id", contract="lex_eatid_fill", replace=["lex_val_append"], about=L + "lex_eatid_fill", unwind=14)
    b = TU("lexer.c", defs=["YV_CMT"], annot=[AROUND, BLOCK], native=False, tag="b", sub=h.sub)
    b.unit("block", contract="lex_eatcommentsandwhitespace", replace=["lex_eatwhitespace", "lex_eatinlinecomments"], about=L + "lex_eatcommentsandwhitespace", unwind=60)
    return [m, l, g, h, b]


def check(run):
    s = Snippets(run, "lexing")
    lexing.lex_programs(s, rng(run), N(3000, 40000))
    s.execute()
    units = run_harnesses(run, lexer_tu())
    return finish(run, units, "proof",
                  "The parts of the lexer are proved for texts of any length: every operator of one, two and three characters and the choice of the longest one, every keyword and reserved word, blanks, newlines and "
                  "comments, block comments among them (what ends a statement, how lines are counted), every escape, raw strings, strings and parts of interpolated strings without escapes, the digits of numbers with underscores, and names, character by character. Programs that spell and lay out the same "
                  "tokens in many ways are executed and their output compared.",
                  ["the text is read through stubs of lxgetc, lxtell, lxseek and lxeof: any bytes, less than 2^30 of them", "strcmp, strtol and the functions of ctype.h as C defines them in the C locale",
                   "in the loops over texts lex_val_append is a log of what is appended, as proved of it (append_*)",
                   "the values of numbers (strtoll, strtod), strings with several escapes and the expressions of interpolated strings are executed in programs only (bounded)", A_PRINT, A_MALLOC, A_MACH], TRUSTED)
