/* The contracts of inc_ref and dec_ref where the value is no reference, or one of at least two references to an object of the
 * harness: proved of the code by refcount.c, and used by the units that replace the calls (vmh.h). */
#ifndef REFS_H_
#define REFS_H_
#define YV_IS(v, i) ((v)->type == Y_STR && (v)->value.sval == &yv_s[i])
#define YV_ISUD(v) (((v)->type == Y_LIST || (v)->type == Y_TABLE || (v)->type == Y_USERDATA) && (v)->value.uval == &yv_ud)
#define YV_NOREF(v) ((v)->type == Y_UNDEF || (v)->type == Y_INT || (v)->type == Y_FLOAT || (v)->type == Y_BOOL || (v)->type == Y_FN || (v)->type == Y_END || (v)->type == Y_USERPTR)
void inc_ref(struct YASL_Object *v)
	YV_REQUIRES(YV_NOREF(v) || YV_IS(v, 0) || YV_IS(v, 1) || YV_ISUD(v))
	YV_ASSIGNS(yv_s[0].rc.refs, yv_s[1].rc.refs, yv_ud.rc.refs)
	YV_ENSURES(yv_s[0].rc.refs == __CPROVER_old(yv_s[0].rc.refs) + (YV_IS(v, 0) ? 1 : 0))
	YV_ENSURES(yv_s[1].rc.refs == __CPROVER_old(yv_s[1].rc.refs) + (YV_IS(v, 1) ? 1 : 0))
	YV_ENSURES(yv_ud.rc.refs == __CPROVER_old(yv_ud.rc.refs) + (YV_ISUD(v) ? 1 : 0));
void dec_ref(struct YASL_Object *v)
	YV_REQUIRES(YV_NOREF(v) || (YV_IS(v, 0) && yv_s[0].rc.refs > 1) || (YV_IS(v, 1) && yv_s[1].rc.refs > 1) || (YV_ISUD(v) && yv_ud.rc.refs > 1))
	YV_ASSIGNS(yv_s[0].rc.refs, yv_s[1].rc.refs, yv_ud.rc.refs)
	YV_ENSURES(yv_s[0].rc.refs == __CPROVER_old(yv_s[0].rc.refs) - (YV_IS(v, 0) ? 1 : 0))
	YV_ENSURES(yv_s[1].rc.refs == __CPROVER_old(yv_s[1].rc.refs) - (YV_IS(v, 1) ? 1 : 0))
	YV_ENSURES(yv_ud.rc.refs == __CPROVER_old(yv_ud.rc.refs) - (YV_ISUD(v) ? 1 : 0));
#endif
