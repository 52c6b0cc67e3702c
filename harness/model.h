/* content models with symbolic names, marks and separators */
#ifndef MODEL_H
#define MODEL_H
#include "dtd.h"
/* 'x' is a name; parentheses are lists */
static const char * const shape[] = { "(x)", "(xx)", "(xxx)", "((x))", "(x(x))", "((x)x)", "((xx))", "((xx)x)", "(x(xx))", "((x)(x))", "(x(x)x)", "((x(x)))", "((x)x(x))", "(((x)x)x)", "(x(x(x)))", "((xx)(xx))", "(x(x(xx)x)x)" };
enum { NSHAPE = sizeof (shape) / sizeof (shape[0]) };
struct model { int nn, nl; unsigned char name[8], mark[8], lmark[8], sep[8], ws; };
static int isname (int c) { return ((c >= 'a') & (c <= 'z')) | ((c >= 'A') & (c <= 'Z')) | ((c >= '0') & (c <= '9')) | (c == '-') | (c == '_') | (c == '.') | (c == ':') | (c >= 128); }
static void model_new (struct model * m, const char * s, int ws) {
	int i; memset (m, 0, sizeof *m); for (i = 0; s[i]; i++) { if (s[i] == 'x') m->nn++; if (s[i] == '(') m->nl++; }
	for (i = 0; i < m->nn; i++) { m->name[i] = sym_u8 ("name"); sym_assume (isname (m->name[i])); m->mark[i] = sym_u8 ("mark"); sym_assume ((m->mark[i] == ' ') | (m->mark[i] == '?') | (m->mark[i] == '*') | (m->mark[i] == '+')); }
	for (i = 0; i < m->nl; i++) { m->lmark[i] = sym_u8 ("list mark"); sym_assume ((m->lmark[i] == ' ') | (m->lmark[i] == '?') | (m->lmark[i] == '*') | (m->lmark[i] == '+')); m->sep[i] = sym_u8 ("separator"); sym_assume ((m->sep[i] == ',') | (m->sep[i] == '|')); }
	if (ws) { m->ws = sym_u8 ("white space"); sym_assume ((m->ws == ' ') | (m->ws == '\n') | (m->ws == '\t') | (m->ws == '\r')); }
}
static int put_ (struct model * m, const char ** s, int * x, int * l, char * p) {
	int n = 0, me = (*l)++, k = 0; (*s)++; p[n++] = '('; if (m->ws) p[n++] = m->ws;
	while (**s != ')') { if (k++) { if (m->ws) p[n++] = m->ws; p[n++] = m->sep[me]; if (m->ws) p[n++] = m->ws; } if (**s == '(') n += put_ (m, s, x, l, p + n); else { p[n++] = 'n'; p[n++] = m->name[*x]; p[n++] = m->mark[*x]; (*x)++; (*s)++; } }
	(*s)++; if (m->ws) p[n++] = m->ws; p[n++] = ')'; p[n++] = m->lmark[me]; return n;
}
static int model_put (struct model * m, const char * s, char * p) { int x = 0, l = 0; return put_ (m, &s, &x, &l, p); }
static AxlDtdTimes times_ (int c) { return c == '?' ? ZERO_OR_ONE : c == '*' ? ZERO_OR_MANY : c == '+' ? ONE_OR_MANY : ONE_AND_ONLY_ONE; }
static int items_ (const char * s) { int d = 0, k = 0, i; for (i = 0; ; i++) { if (s[i] == '(') { if (d == 1) k++; d++; } else if (s[i] == ')') { if (--d == 0) return k; } else if (d == 1) k++; } }
static void same_ (struct model * m, const char ** s, int * x, int * l, axlDtdElementList * list) {
	int me = (*l)++, k = items_ (*s), i; CHECK (list != NULL && axl_dtd_item_list_count (list) == k, "number of particles"); CHECK (axl_dtd_item_list_repeat (list) == times_ (m->lmark[me]), "repetition of the list"); CHECK (axl_dtd_item_list_type (list) == (k > 1 && m->sep[me] == '|' ? CHOICE : SEQUENCE), "sequence or choice"); (*s)++;
	for (i = 0; i < k; i++) { axlDtdElementListNode * n = axl_dtd_item_list_get_node (list, i); if (**s == '(') { CHECK (axl_dtd_item_node_get_type (n) == AXL_ELEMENT_LIST, "nested list"); CHECK (axl_dtd_item_node_get_repeat (n) == times_ (m->lmark[*l]), "repetition of the nested list"); same_ (m, s, x, l, axl_dtd_item_node_get_list (n)); }
		else { char * v = axl_dtd_item_node_get_value (n); CHECK (axl_dtd_item_node_get_type (n) == AXL_ELEMENT_NODE, "particle"); CHECK (v[0] == 'n' && (unsigned char) v[1] == m->name[*x] && v[2] == 0, "name of the particle"); CHECK (axl_dtd_item_node_get_repeat (n) == times_ (m->mark[*x]), "repetition of the particle"); (*x)++; (*s)++; } }
	(*s)++;
}
static void model_check (struct model * m, const char * s, axlDtdElementList * list) { int x = 0, l = 0; same_ (m, &s, &x, &l, list); }
/* whether two models of the same shape are the same declaration */
static int model_eq (struct model * a, struct model * b, const char * s) { int i, l = 0, r = 1; for (i = 0; i < a->nn; i++) r &= (a->name[i] == b->name[i]) & (a->mark[i] == b->mark[i]); for (i = 0; s[i]; i++) if (s[i] == '(') { r &= a->lmark[l] == b->lmark[l]; if (items_ (s + i) > 1) r &= a->sep[l] == b->sep[l]; l++; } return r; }
#endif
