/* DTD declarations are represented as written */
#include "model.h"
static axlDtd * load (char * p, int n, int file) { axlDtd * d; axlError * e = NULL; if (file) { vf_set_input (p, n, 4, file); d = axl_dtd_parse_from_file ("input.dtd", &e); } else { char * q = exact (p, n); d = axl_dtd_parse (q, n, &e); free (q); } CHECK (d != NULL && e == NULL, "declarations are accepted"); return d; }
void dtd_content (int which, int ws, int file) {
	struct model m; char p[160]; int n; axlDtd * d; axlDtdElement * x; HEAP_MARK; model_new (&m, shape[which], ws); n = sprintf (p, "<!ELEMENT%cr%c", ws ? m.ws : ' ', ws ? m.ws : ' '); n += model_put (&m, shape[which], p + n); n += sprintf (p + n, ">"); if (ws) p[n++] = m.ws;
	d = load (p, n, file); x = axl_dtd_get_element (d, "r"); CHECK (x != NULL && str_eq (axl_dtd_get_element_name (x), "r") && axl_dtd_get_element_type (x) == ELEMENT_TYPE_CHILDREN, "element"); model_check (&m, shape[which], axl_dtd_get_item_list (x)); CHECK (axl_dtd_get_root (d) == x, "root"); CHECK (axl_dtd_get_element (d, "q") == NULL && axl_dtd_get_attr (d, "r") == NULL && axl_dtd_get_attr_contraints (d, "r") == 0, "nothing else"); CHECK (axl_dtd_are_equal (d, d), "a DTD equals itself");
	axl_dtd_free (d); HEAP_CHECK; sym_reach ("end");
}
/* kinds of element, in any order */
void dtd_kinds (int ws) {
	char p[300], w[2] = { 0, 0 }; int n = 0, i, j, k[3], a[3]; axlDtd * d; axlDtdElement * x; axlDtdElementList * l; HEAP_MARK; w[0] = ' '; if (ws) { w[0] = sym_u8 ("white space"); sym_assume ((w[0] == ' ') | (w[0] == '\n') | (w[0] == '\t') | (w[0] == '\r')); }
	for (i = 0; i < 3; i++) { k[i] = sym_pick (0, 5, "kind"); a[i] = sym_u8 ("name"); sym_assume (isname (a[i])); n += sprintf (p + n, "<!ELEMENT%se", w); p[n++] = a[i]; p[n++] = '0' + i; n += sprintf (p + n, "%s", w);
		switch (k[i]) { case 0: n += sprintf (p + n, "EMPTY"); break; case 1: n += sprintf (p + n, "ANY"); break; case 2: n += sprintf (p + n, "(#PCDATA)"); break; case 3: n += sprintf (p + n, "(%s#PCDATA%s)%s", ws ? w : "", ws ? w : "", "*"); break; case 4: n += sprintf (p + n, "(#PCDATA%s|u%s|%sv%s)*", ws ? w : "", ws ? w : "", ws ? w : "", ws ? w : ""); break; default: n += sprintf (p + n, "(w,v?)"); } n += sprintf (p + n, "%s>%s", ws ? w : "", ws ? w : ""); if (i == 1) n += sprintf (p + n, "<!-- <!ELEMENT zz ANY> -->"); }
	d = load (p, n, 0); CHECK (axl_dtd_get_element (d, "zz") == NULL, "comments declare nothing");
	for (i = 0; i < 3; i++) { char nm[4] = { 'e', a[i], '0' + i, 0 }; static const AxlDtdElementType t[] = { ELEMENT_TYPE_EMPTY, ELEMENT_TYPE_ANY, ELEMENT_TYPE_PCDATA, ELEMENT_TYPE_PCDATA, ELEMENT_TYPE_MIXED, ELEMENT_TYPE_CHILDREN }; x = axl_dtd_get_element (d, nm); CHECK (x != NULL && str_eq (axl_dtd_get_element_name (x), nm), "every element is found by its name"); CHECK (axl_dtd_get_element_type (x) == t[k[i]], "kind of the element"); l = axl_dtd_get_item_list (x); if (k[i] < 2) CHECK (l == NULL, "no content model");
		if (k[i] == 2 || k[i] == 3) CHECK (axl_dtd_item_list_count (l) == 1 && str_eq (axl_dtd_item_node_get_value (axl_dtd_item_list_get_node (l, 0)), "#PCDATA"), "text only");
		if (k[i] == 4) { static const char * const v[] = { "#PCDATA", "u", "v" }; CHECK (axl_dtd_item_list_count (l) == 3 && axl_dtd_item_list_type (l) == CHOICE && axl_dtd_item_list_repeat (l) == ZERO_OR_MANY, "mixed"); for (j = 0; j < 3; j++) CHECK (str_eq (axl_dtd_item_node_get_value (axl_dtd_item_list_get_node (l, j)), v[j]), "mixed names"); }
		CHECK (axl_dtd_element_is_toplevel (d, x), "in no other element"); }
	axl_dtd_free (d); HEAP_CHECK; sym_reach ("end");
}
/* root and top level elements of any graph */
void dtd_root (int k) {
	char p[300]; int n = 0, i, j, use[4][4], perm, up[4], top = 0, last = -1; axlDtd * d; HEAP_MARK; memset (use, 0, sizeof use); perm = sym_pick (0, k - 1, "first declared");
	for (i = 0; i < k; i++) { int e = (i + perm) % k, c = 0, m = sym_pick (0, (1 << k) - 1, "children"); n += sprintf (p + n, "<!ELEMENT %c (", 'a' + e); for (j = 0; j < k; j++) if (m >> j & 1) { use[e][j] = 1; n += sprintf (p + n, "%s%c", c++ ? "|" : "", 'a' + j); } if (! c) n += sprintf (p + n, "z"); n += sprintf (p + n, ")>"); }
	d = load (p, n, 0); for (j = 0; j < k; j++) { char nm[2] = { 'a' + j, 0 }; int in = 0; up[j] = 0; for (i = 0; i < k; i++) { in |= use[i][j]; if (i != j) up[j] |= use[i][j]; } CHECK (! axl_dtd_element_is_toplevel (d, axl_dtd_get_element (d, nm)) == in, "top level if and only if no element names it"); if (! up[j]) { top++; last = j; } }
	CHECK (axl_dtd_get_root (d) != NULL, "there is a root"); if (top == 1) { int seen = 1 << last, g = 1; while (g) { g = 0; for (i = 0; i < k; i++) for (j = 0; j < k; j++) if ((seen >> i & 1) && use[i][j] && ! (seen >> j & 1)) { seen |= 1 << j; g = 1; } } if (seen == (1 << k) - 1) { sym_reach ("root"); CHECK (axl_dtd_get_element_name (axl_dtd_get_root (d))[0] == 'a' + last, "the element from which all others are reached, used by no other, is the root"); } }
	axl_dtd_free (d); HEAP_CHECK; sym_reach ("end");
}
/* entities */
void dtd_entities (int len) {
	char p[200], v[2][8]; int n = 0, i, j, ty[2], q[2], l[2]; axlDtd * d; HEAP_MARK;
	for (i = 0; i < 2; i++) { ty[i] = sym_pick (0, 1, "parameter"); q[i] = sym_pick (0, 1, "quote"); l[i] = sym_pick (0, len, "length"); n += sprintf (p + n, "<!ENTITY %se%d %c", ty[i] ? "% " : "", i, q[i] ? '"' : '\''); for (j = 0; j < l[i]; j++) { int c = sym_u8 ("value"); sym_assume ((c != 0) & (c != (q[i] ? '"' : '\''))); v[i][j] = p[n++] = c; } v[i][j] = 0; n += sprintf (p + n, "%c%s>", q[i] ? '"' : '\'', i ? " " : ""); }
	d = load (p, n, 0); for (i = 0; i < 2; i++) { char nm[3] = { 'e', '0' + i, 0 }; const char * t; CHECK (axl_dtd_entity_exists (d, nm, ty[i] ? PARAMETER_ENTITY : GENERAL_ENTITY), "declared"); CHECK (! axl_dtd_entity_exists (d, nm, ty[i] ? GENERAL_ENTITY : PARAMETER_ENTITY), "not of the other kind"); t = axl_dtd_entity_value (d, nm, ty[i] ? PARAMETER_ENTITY : GENERAL_ENTITY); CHECK (t != NULL && str_eq (t, v[i]), "value as written"); CHECK (axl_dtd_entity_value (d, nm, ty[i] ? GENERAL_ENTITY : PARAMETER_ENTITY) == NULL, "no value of the other kind"); }
	CHECK (! axl_dtd_entity_exists (d, "e2", GENERAL_ENTITY) && ! axl_dtd_entity_exists (d, "e", PARAMETER_ENTITY), "nothing else"); CHECK (axl_dtd_get_root (d) == NULL, "no root"); axl_dtd_free (d); HEAP_CHECK; sym_reach ("end");
}
/* attribute declarations counted by element */
void dtd_attrs (void) {
	static const char * const t[] = { "CDATA", "(x|y)", "NMTOKEN", "NMTOKENS", "ENTITY", "ENTITIES", "ID", "%p;" }, * const df[] = { "#REQUIRED", "#IMPLIED", "\"x\"", "#FIXED 'x'" }; char p[300]; int n, i, ids[2] = { 0, 0 }, cnt[3] = { 0, 0, 0 }, w = sym_pick (0, 1, "white space"); axlDtd * d; HEAP_MARK;
	n = sprintf (p, "<!ENTITY %% p 'CDATA'>"); for (i = 0; i < 2; i++) { int e = sym_pick (0, 1, "element"), ty = sym_pick (0, 7, "type"), a = sym_pick (1, 2, "attributes"), q = sym_pick (0, ty == 6 ? 1 : 3, "default"); if (ty == 6 && ids[e]++) sym_prune (); n += sprintf (p + n, "<!ATTLIST%s%c%sk%d %s%s%s", w ? "\n" : " ", 'a' + e, w ? "\t" : " ", i, t[ty], w ? "\n" : " ", df[q]); cnt[e]++; if (a > 1) { n += sprintf (p + n, " j%d CDATA #IMPLIED", i); cnt[e]++; } n += sprintf (p + n, "%s>", w ? "\n" : ""); }
	d = load (p, n, 0); for (i = 0; i < 3; i++) { char nm[2] = { 'a' + i, 0 }; CHECK ((axl_dtd_get_attr (d, nm) != NULL) == (cnt[i] > 0), "attribute declarations of the element"); CHECK (axl_dtd_get_attr_contraints (d, nm) == cnt[i], "how many"); } CHECK (axl_dtd_are_equal (d, d), "equals itself"); axl_dtd_free (d); HEAP_CHECK; sym_reach ("end");
}
/* equality: two models of the same shape, or of two shapes */
void dtd_equal (int w1, int w2, int one) {
	struct model a, b; char p[160]; int n, r; axlDtd * d, * f; HEAP_MARK; model_new (&a, shape[w1], 0); model_new (&b, shape[w2], 0); if (one) { struct model c = b; int i, k = sym_pick (0, 2 * (a.nn + a.nl) - 1, "difference"); b = a; i = k / 2; if (i < a.nn) { if (k & 1) b.name[i] = c.name[i]; else b.mark[i] = c.mark[i]; } else if (k & 1) b.lmark[i - a.nn] = c.lmark[i - a.nn]; else b.sep[i - a.nn] = c.sep[i - a.nn]; } n = sprintf (p, "<!ELEMENT r "); n += model_put (&a, shape[w1], p + n); n += sprintf (p + n, ">"); d = load (p, n, 0); n = sprintf (p, "<!ELEMENT  r\n"); n += model_put (&b, shape[w2], p + n); n += sprintf (p + n, " >\n"); f = load (p, n, 0); r = w1 == w2 && model_eq (&a, &b, shape[w1]);
	CHECK (! axl_dtd_are_equal (d, f) == ! r, "equal if and only if the declarations are the same"); CHECK (! axl_dtd_are_equal (f, d) == ! r, "equality is symmetric"); if (r) sym_reach ("equal"); axl_dtd_free (d); axl_dtd_free (f); HEAP_CHECK; sym_reach ("end");
}
static const char * const alt[] = { "<!ELEMENT a EMPTY>", "<!ELEMENT a ANY>", "<!ELEMENT a (#PCDATA)>", "<!ELEMENT a (#PCDATA|b)*>", "<!ELEMENT a (#PCDATA|c)*>", "<!ELEMENT b EMPTY>", "<!ELEMENT a EMPTY><!ELEMENT b EMPTY>", "<!ENTITY a 'v'>", "<!ENTITY a 'w'>", "<!ENTITY b 'v'>", "<!ENTITY % a 'v'>", "<!ENTITY a 'v'><!ENTITY b 'v'>", "<!ATTLIST a k CDATA #REQUIRED>", "<!ATTLIST a k CDATA #IMPLIED>", "<!ATTLIST a k CDATA 'v'>", "<!ATTLIST a k CDATA 'w'>", "<!ATTLIST a k CDATA #FIXED 'w'>", "<!ATTLIST a k CDATA #FIXED 'v'>", "<!ATTLIST a k (v|w) 'v'>", "<!ATTLIST a k (v|w) 'w'>", "<!ATTLIST a k (v|w) #IMPLIED>", "<!ATTLIST a k (v|x) #IMPLIED>", "<!ATTLIST a k (v) #IMPLIED>", "<!ATTLIST a l CDATA #IMPLIED>", "<!ATTLIST b k CDATA #IMPLIED>", "<!ATTLIST a k ID #IMPLIED>", "<!ATTLIST a k NMTOKEN #IMPLIED>", "<!ATTLIST a k CDATA #IMPLIED l CDATA #IMPLIED>", "<!ATTLIST a k ID #IMPLIED l IDREF #IMPLIED>", "<!ELEMENT a (b)><!ATTLIST a k CDATA #IMPLIED>", "<!ELEMENT a (b)>" };
void dtd_alts (void) { enum { N = sizeof (alt) / sizeof (alt[0]) }; int i = sym_pick (0, N - 1, "first"), j = sym_pick (0, N - 1, "second"); axlDtd * d, * f; HEAP_MARK; d = load ((char *) alt[i], strlen (alt[i]), 0); f = load ((char *) alt[j], strlen (alt[j]), 4); CHECK (! axl_dtd_are_equal (d, f) == (i != j), "equal if and only if the declarations are the same"); CHECK (! axl_dtd_are_equal (d, NULL) && ! axl_dtd_are_equal (NULL, d), "nothing equals no DTD"); axl_dtd_free (d); axl_dtd_free (f); HEAP_CHECK; sym_reach ("end"); }
/* declarations the grammar forbids */
void dtd_wrong (int which, int at) {
	static const char * const b[] = { "<!ELEMENT r (a@b)>", "<!ELEMENT r (a,b@c)>", "<!ELEMENT r (a|b@c)>", "<!ELEMENT r ((a)@b)>", "<!ELEMENT r (a@(b))>", "<!ELEMENT r (a)@>", "<!ELEMENT r (a@", "<!ELEMENT r@(a)>", "<!ELEMENT r (a,(b|c)@d)>", "<!ELEMENT r ((a|b)@c,d)>" }; int n, c = 0, i; char * p = input (b[which], &n); axlDtd * d; axlError * e = NULL, ** pe = &e; HEAP_MARK; heap_mark_--; for (i = 0; i < n; i++) if (b[which][i] == '@') c = (unsigned char) p[i]; sym_assume (! isname (c) & (c != 0) & (c != '#'));
	d = axl_dtd_parse (p, n, pe); CHECK ((d == NULL) == (e != NULL), "a DTD or an error"); i = strchr (" \t\n\r", c) != NULL;
	switch (which) { case 0: if (c == ',' || c == '|') CHECK (d != NULL, "separators"); else if (i || c == '(' || c == ')' || c == '*' || c == '+' || c == '?') CHECK (d == NULL, "a separator is required"); break;
	case 1: case 8: if (c == ',') CHECK (d != NULL, "same separator"); else if (c == '|' || i) CHECK (d == NULL, "the separators of a list are the same"); break;
	case 2: if (c == '|') CHECK (d != NULL, "same separator"); else if (c == ',' || i) CHECK (d == NULL, "the separators of a list are the same"); break;
	case 3: case 4: if (c == '|' || c == ',') CHECK (d != NULL, "separators"); else if (i || c == '(' || c == ')' || c == '*') CHECK (d == NULL, "a separator is required"); break;
	case 5: if (i || c == '*' || c == '+' || c == '?') CHECK (d != NULL, "marks"); else if (c == ')' || c == '(' || c == ',') CHECK (d == NULL, "nothing else after the model"); break;
	case 6: CHECK (d == NULL, "not finished"); break; case 7: if (i) CHECK (d != NULL, "white space"); else if (c == '>') CHECK (d == NULL, "no model"); break;
	case 9: if (c == ',') CHECK (d != NULL, "same separator"); else if (c == '|' || i || c == '*') CHECK (d == NULL, "the separators of a list are the same"); break; }
	axl_dtd_free (d); axl_error_free (e); free (p); HEAP_CHECK; sym_reach ("end"); (void) at;
}
/* long names and long content models, and many declarations */
void dtd_scale (int kind, int size) {
	char * p = malloc (size * 60 + 300), * nm; int n = 0, i, file = sym_pick (0, 1, "file") * 50; axlDtd * d; axlDtdElement * x; axlDtdElementList * l; char c; HEAP_MARK; heap_mark_--; c = sym_range ('a', 'c', "letter"); sym_concretize (c);
	switch (kind) {
	case 0: case 1: n = sprintf (p, "<!ELEMENT r ("); for (i = 0; i < size; i++) n += sprintf (p + n, "%s%c%d%s", i ? (kind ? "," : "|") : "", c, i, i % 4 == 1 ? "?" : i % 4 == 2 ? "*" : i % 4 == 3 ? "+" : ""); n += sprintf (p + n, ")>"); d = load (p, n, file); x = axl_dtd_get_element (d, "r"); CHECK (x != NULL, "element"); l = axl_dtd_get_item_list (x); CHECK (axl_dtd_item_list_count (l) == size && axl_dtd_item_list_type (l) == (kind ? SEQUENCE : CHOICE), "content model"); for (i = 0; i < size; i++) { char w[12]; static const AxlDtdTimes t[] = { ONE_AND_ONLY_ONE, ZERO_OR_ONE, ZERO_OR_MANY, ONE_OR_MANY }; sprintf (w, "%c%d", c, i); CHECK (str_eq (axl_dtd_item_node_get_value (axl_dtd_item_list_get_node (l, i)), w) && axl_dtd_item_node_get_repeat (axl_dtd_item_list_get_node (l, i)) == t[i % 4], "name and mark"); } break;
	case 2: n = sprintf (p, "<!ELEMENT "); nm = p + n; memset (nm, 'n', size); nm[size - 1] = c; n += size; n += sprintf (p + n, " ("); memcpy (p + n, nm, size); n += size; n += sprintf (p + n, "|z)>"); d = load (p, n, file); nm = malloc (size + 1); memset (nm, 'n', size); nm[size - 1] = c; nm[size] = 0; x = axl_dtd_get_element (d, nm); CHECK (x != NULL && str_eq (axl_dtd_get_element_name (x), nm), "long name"); CHECK (str_eq (axl_dtd_item_node_get_value (axl_dtd_item_list_get_node (axl_dtd_get_item_list (x), 0)), nm), "long name in a model"); free (nm); break;
	default: for (i = 0; i < size; i++) n += sprintf (p + n, "<!ELEMENT %c%d %s><!ENTITY e%d 'v%d'>\n", c, i, i % 2 ? "EMPTY" : "(#PCDATA)", i, i); d = load (p, n, file); for (i = 0; i < size; i++) { char w[12], v[12]; sprintf (w, "%c%d", c, i); CHECK ((x = axl_dtd_get_element (d, w)) != NULL && str_eq (axl_dtd_get_element_name (x), w) && axl_dtd_get_element_type (x) == (i % 2 ? ELEMENT_TYPE_EMPTY : ELEMENT_TYPE_PCDATA), "each declaration"); sprintf (w, "e%d", i); sprintf (v, "v%d", i); CHECK (axl_dtd_entity_exists (d, w, GENERAL_ENTITY) && str_eq (axl_dtd_entity_value (d, w, GENERAL_ENTITY), v), "each entity"); } break;
	}
	axl_dtd_free (d); free (p); HEAP_CHECK; sym_reach ("end");
}
