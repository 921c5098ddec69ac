/* Filters: evaluation, comparison and the stored form. */
#include "vh_value.h"
#include <rbus_buffer.h>
void rbusFilter_Encode(rbusFilter_t filter, rbusBuffer_t buff); int rbusFilter_Decode(rbusFilter_t* filter, rbusBuffer_t const buff);
static const rbusFilter_RelationOperator_t rops[] = { RBUS_FILTER_OPERATOR_GREATER_THAN, RBUS_FILTER_OPERATOR_GREATER_THAN_OR_EQUAL, RBUS_FILTER_OPERATOR_LESS_THAN, RBUS_FILTER_OPERATOR_LESS_THAN_OR_EQUAL, RBUS_FILTER_OPERATOR_EQUAL, RBUS_FILTER_OPERATOR_NOT_EQUAL };
static const rbusFilter_LogicOperator_t lops[] = { RBUS_FILTER_OPERATOR_AND, RBUS_FILTER_OPERATOR_OR, RBUS_FILTER_OPERATOR_NOT };
struct tree { int leaf, op; struct raw r; struct tree *a, *b; }; static struct tree T[16]; static int nt;
static struct tree* mk(int depth, int k) { struct tree* t = &T[nt++]; memset(t, 0, sizeof *t); t->leaf = depth == 0 || vp_choose(2, "leaf"); if (t->leaf) { static const int few[] = { 0, 4, 3 }; t->op = vp_param("few", 0) ? few[vp_choose((uint32_t)vp_param("few", 0), "relop")] : (int)vp_choose(6, "relop"); mk_raw(&t->r, k, 0, 2); } else { t->op = (int)vp_choose(3, "logop"); t->a = mk(depth - 1, k); if (t->op != 2 || (vp_param("not2", 0) && vp_choose(2, "second operand"))) t->b = mk(depth - 1, k); } return t; }
static rbusFilter_t build(struct tree* t) { rbusFilter_t f; if (t->leaf) { rbusValue_t v = rbusValue_Init(0); set_raw(v, &t->r); rbusFilter_InitRelation(&f, rops[t->op], v); rbusValue_Release(v); } else { rbusFilter_t a = build(t->a), b = t->b ? build(t->b) : NULL; rbusFilter_InitLogic(&f, lops[t->op], a, b); rbusFilter_Release(a); if (b) rbusFilter_Release(b); } return f; }
static void cmp(const struct raw* x, const struct raw* y, int* lt, int* eq) { if (x->k == K_STR) { int l = 0, live = 1; for (int i = 0; i < 4; i++) { int a = i < x->len ? x->b[i] : 0, b = i < y->len ? y->b[i] : 0; l |= live & (a < b); live &= (a == b); } *lt = l; *eq = live; return; }
  if (x->k == K_I32) { int32_t a = (int32_t)x->n, b = (int32_t)y->n; *lt = a < b; *eq = a == b; } else if (x->k == K_U32) { uint32_t a = (uint32_t)x->n, b = (uint32_t)y->n; *lt = a < b; *eq = a == b; } else { int64_t a = (int64_t)x->n, b = (int64_t)y->n; *lt = a < b; *eq = a == b; } }
static int eval(struct tree* t, struct raw* v) { if (t->leaf) { int lt, eq; cmp(v, &t->r, &lt, &eq); switch (t->op) { case 0: return (lt | eq) ^ 1; case 1: return lt ^ 1; case 2: return lt; case 3: return lt | eq; case 4: return eq; default: return eq ^ 1; } } int a = eval(t->a, v); if (t->op == 2) return a ^ 1; int b = eval(t->b, v); return t->op == 0 ? (a & b) : (a | b); }
static int same(struct tree* x, struct tree* y) { if (x->leaf != y->leaf || x->op != y->op) return 0; if (x->leaf) { int lt, eq; cmp(&x->r, &y->r, &lt, &eq); return eq; } return same(x->a, y->a) && !x->b == !y->b && (!x->b || same(x->b, y->b)); }
static const int kinds[] = { K_I32, K_STR, K_U32, K_I64 };
static void evaluate(void) { uint64_t base = vp_heap_live(); int k = kinds[vp_param("k", 0)]; struct tree* t = mk((int)vp_param("depth", 2), k); static struct raw r; mk_raw(&r, k, 0, 2); rbusFilter_t f = build(t); rbusValue_t v = rbusValue_Init(0); set_raw(v, &r);
  bool got = rbusFilter_Apply(f, v); vp_check(got == eval(t, &r), "a filter evaluates to what its expression means"); vp_check(is_raw(v, &r), "evaluating a filter leaves the value alone"); vp_observe(got); rbusFilter_Retain(f); rbusFilter_Release(f); vp_check(rbusFilter_GetType(f) == (t->leaf ? RBUS_FILTER_EXPRESSION_RELATION : RBUS_FILTER_EXPRESSION_LOGIC), "a filter keeps its kind"); rbusFilter_Release(f); rbusValue_Release(v); vp_check(vp_heap_live() == base, "filters are freed with their last reference"); vp_check(!rbusFilter_Apply(NULL, NULL), "no filter matches nothing"); vp_reach("evaluated"); }
static void stored(void) { uint64_t base = vp_heap_live(); int k = kinds[vp_param("k", 0)]; struct tree* t = mk((int)vp_param("depth", 2), k); static struct raw r; mk_raw(&r, k, 0, 2); rbusFilter_t f = build(t), g = NULL; rbusValue_t v = rbusValue_Init(0); set_raw(v, &r); rbusBuffer_t b; rbusBuffer_Create(&b); rbusFilter_Encode(f, b); { uint8_t z = 0xab; rbusBuffer_Write(b, &z, 1); };
  int rc = rbusFilter_Decode(&g, b); vp_check(rc == 0 && g, "a stored filter can be read back"); vp_check(rbusFilter_Compare(f, g) == 0, "a filter read back equals the one stored"); vp_check(rbusFilter_Apply(g, v) == eval(t, &r), "a filter read back evaluates like the one stored"); uint8_t w = 0; vp_check(rbusBuffer_Read(b, &w, 1) >= 0 && w == 0xab, "reading a filter consumes exactly its bytes"); rbusFilter_Release(f); rbusFilter_Release(g); rbusValue_Release(v); rbusBuffer_Destroy(b); vp_check(vp_heap_live() == base, "storing and reading filters leaks nothing"); vp_reach("stored"); }
static void compare(void) { int k = kinds[vp_param("k", 0)]; int d = (int)vp_param("depth", 1); struct tree *x = mk(d, k), *y = mk(d, k); rbusFilter_t f = build(x), g = build(y); int c = rbusFilter_Compare(f, g), e = rbusFilter_Compare(g, f); vp_check((c == 0) == same(x, y), "filters compare equal exactly when they are the same expression"); vp_check((c > 0) == (e < 0) && (c < 0) == (e > 0), "comparing filters the other way round flips the sign"); vp_check(rbusFilter_Compare(f, NULL) > 0 && rbusFilter_Compare(NULL, f) < 0 && rbusFilter_Compare(NULL, NULL) == 0, "a filter differs from none"); rbusFilter_Release(f); rbusFilter_Release(g); vp_reach("compared"); }
static void u32(rbusBuffer_t b, uint32_t v) { rbusBuffer_WriteUInt32TLV(b, v); }
static void any(void) { /* damaged bytes */
  uint64_t base = vp_heap_live(); rbusBuffer_t b; rbusBuffer_Create(&b); int shape = (int)vp_choose(5, "shape"); if (shape == 1) u32(b, RBUS_FILTER_EXPRESSION_RELATION); if (shape >= 2) u32(b, RBUS_FILTER_EXPRESSION_LOGIC); if (shape == 1) u32(b, vp_u32("op")); if (shape >= 2) u32(b, shape == 4 ? RBUS_FILTER_OPERATOR_NOT : shape); if (shape >= 3) { u32(b, RBUS_FILTER_EXPRESSION_RELATION); u32(b, RBUS_FILTER_OPERATOR_EQUAL); rbusBuffer_WriteInt32TLV(b, 5); }
  int n = (int)vp_choose((uint32_t)vp_param("n", 9) + 1, "n"); for (int i = 0; i < n; i++) { uint8_t z = vp_u8("b"); rbusBuffer_Write(b, &z, 1); } rbusFilter_t f = (rbusFilter_t)1; int rc = rbusFilter_Decode(&f, b); if (rc == 0) { vp_check(f != NULL && f != (rbusFilter_t)1, "accepted bytes yield a filter"); rbusValue_t v = rbusValue_InitInt32(5); rbusFilter_Apply(f, v); rbusValue_Release(v); rbusFilter_Release(f); vp_reach("accepted"); } else vp_reach("refused"); rbusBuffer_Destroy(b); vp_check(vp_heap_live() == base, "reading damaged bytes leaks nothing"); }
int main(void) { switch (vp_param("scen", 0)) { case 0: evaluate(); break; case 1: stored(); break; case 2: compare(); break; case 3: any(); break; } return 0; }
