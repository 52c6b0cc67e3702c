/* text given in pieces, or through a format, is parsed as the whole text */
#include "same.h"
static char * take (const char * p, int from, int to) { char * q = malloc (to - from + 1); memcpy (q, p + from, to - from); q[to - from] = 0; return q; }
/* p: n bytes, none of them zero */
static void go (char * p, int n, int cuts) {
	int i, a, b, how, ask; char * x, * y, * z, * w, * fmt = NULL; axlDoc * d, * d2 = NULL, * d3; axlNode * m = NULL; axlError * e = NULL, * e2 = NULL; HEAP_MARK;
	for (i = 0; i < n; i++) sym_assume (p[i] != 0);
	w = take (p, 0, n); d = axl_doc_parse (w, n, &e);
	a = cuts > 0 ? sym_pick (0, n, "first cut") : n; b = cuts > 1 ? sym_pick (a, n, "second cut") : n; x = take (p, 0, a); y = take (p, a, b); z = take (p, b, n); ask = sym_pick (0, 1, "ask for the error");
	how = sym_pick (0, 4, "how");
	switch (how) {
	case 0: d2 = cuts == 0 ? axl_doc_parse_strings (ask ? &e2 : NULL, w, NULL) : cuts == 1 ? axl_doc_parse_strings (ask ? &e2 : NULL, x, y, NULL) : axl_doc_parse_strings (ask ? &e2 : NULL, x, y, z, NULL); break;
	case 1: m = cuts == 0 ? axl_node_parse_strings (ask ? &e2 : NULL, w, NULL) : cuts == 1 ? axl_node_parse_strings (ask ? &e2 : NULL, x, y, NULL) : axl_node_parse_strings (ask ? &e2 : NULL, x, y, z, NULL); break;
	case 2: m = axl_node_parse (ask ? &e2 : NULL, "%s%s%s", x, y, z); break;
	case 3: for (i = 0; i < n; i++) sym_assume (p[i] != '%'); m = axl_node_parse (ask ? &e2 : NULL, w); break;
	default: fmt = malloc (a + n - b + 3); for (i = 0; i < n; i++) sym_assume (p[i] != '%'); sprintf (fmt, "%s%%s%s", x, z); m = axl_node_parse (ask ? &e2 : NULL, fmt, y); break; /* the format around an argument */
	}
	if (d == NULL) {
		CHECK (d2 == NULL && m == NULL, "rejected as the whole text is"); if (ask) CHECK (e2 != NULL && axl_error_get_code (e2) == axl_error_get_code (e) && ! strcmp (axl_error_get (e2), axl_error_get (e)), "the error of the whole text"); else CHECK (e2 == NULL, "no error unless asked");
		sym_reach ("rejected"); }
	else {
		CHECK (e2 == NULL, "no error"); CHECK (how == 0 ? d2 != NULL : m != NULL, "accepted as the whole text is");
		if (how == 0) { CHECK (identical (axl_doc_get_root (d), axl_doc_get_root (d2)), "the tree of the whole text"); CHECK (str_eq (axl_doc_get_encoding (d), axl_doc_get_encoding (d2)) && ! axl_doc_get_standalone (d) == ! axl_doc_get_standalone (d2), "header"); }
		else { CHECK (identical (axl_doc_get_root (d), m), "the tree of the whole text"); CHECK (axl_node_get_parent (m) == NULL && axl_node_get_next (m) == NULL && axl_node_get_previous (m) == NULL, "an element of its own");
			switch (sym_pick (0, 2, "use")) { case 0: break;
			case 1: d3 = axl_doc_create (NULL, NULL, axl_false); axl_doc_set_root (d3, m); CHECK (axl_doc_get_root (d3) == m && identical (axl_doc_get_root (d), m), "as the root of a document"); axl_doc_free (d3); m = NULL; break;
			default: d3 = axl_doc_create (NULL, NULL, axl_false); { axlNode * r = axl_node_create ("r"); axl_doc_set_root (d3, r); axl_node_set_child (r, m); CHECK (axl_node_get_first_child (r) == m && axl_node_get_parent (m) == r && identical (axl_doc_get_root (d), m), "inside a document"); } axl_doc_free (d3); m = NULL; } }
		sym_reach ("accepted"); }
	axl_doc_free (d); axl_doc_free (d2); axl_node_free (m); axl_error_free (e); axl_error_free (e2); free (x); free (y); free (z); free (w); free (fmt); HEAP_CHECK; free (p); sym_reach ("end");
}
void strs_any (int n, int cuts) { char * p = malloc (n); sym_bytes (p, n, "document"); go (p, n, cuts); }
void strs_templ (int which, int cuts) { int n; char * p = input (templ[which], &n); go (p, n, cuts); }
void strs_more (int which, int cuts) { int n; char * p = input (moret[which], &n); go (p, n, cuts); }
void strs_pieces (int k, int first, int cuts) { int n; char * p = pieces_doc (k, first, &n); go (p, n, cuts); }
void strs_rich (int cuts) { int n = sizeof (rich) - 1; go (exact (rich, n), n, cuts); }
/* a number of pieces, some of them empty */
void strs_many (void) {
	axlDoc * d, * d2; axlNode * m; axlError * e = NULL; char t[12]; char v[8]; int i, n; static const char * const q[] = { "", "<a", " x='1'", ">", "t", "</a>" }; const char * s[8]; HEAP_MARK; t[0] = 0; (void) v;
	for (i = 0, n = 0; i < 6; i++) { s[i] = sym_pick (0, 1, "empty") ? "" : q[i]; n += sprintf (t, "%s", s[i]) * 0; }
	{ char all[40]; all[0] = 0; for (i = 0; i < 6; i++) strcat (all, s[i]); d = axl_doc_parse (all, -1, NULL); }
	d2 = axl_doc_parse_strings (&e, s[0], s[1], s[2], s[3], s[4], s[5], NULL); CHECK ((d == NULL) == (d2 == NULL) && (e == NULL) == (d != NULL), "the same verdict"); if (d) CHECK (identical (axl_doc_get_root (d), axl_doc_get_root (d2)), "the same tree"); axl_error_free (e); e = NULL;
	m = axl_node_parse_strings (&e, s[0], s[1], s[2], s[3], s[4], s[5], NULL); CHECK ((d == NULL) == (m == NULL) && (e == NULL) == (d != NULL), "the same verdict"); if (d) CHECK (identical (axl_doc_get_root (d), m), "the same tree"); axl_error_free (e); e = NULL;
	axl_doc_free (d); axl_doc_free (d2); axl_node_free (m);
	CHECK (axl_doc_parse_strings (&e, NULL) == NULL && e != NULL, "nothing to parse"); axl_error_free (e); e = NULL; CHECK (axl_node_parse_strings (&e, NULL) == NULL && e != NULL && axl_error_get_code (e) != 0 && axl_error_get (e)[0], "nothing to parse"); axl_error_free (e);
	CHECK (axl_doc_parse_strings (NULL, NULL) == NULL && axl_node_parse_strings (NULL, NULL) == NULL, "nothing to parse");
	HEAP_CHECK; sym_reach ("end");
}
/* a format with conversions: what the C library makes of it is what is parsed */
void strs_format (int lo, int hi) {
	int v = sym_pick (lo, hi, "number"), n = 0; char w[24], t[4], c = sym_u8 ("character"); axlNode * m; axlError * e = NULL; HEAP_MARK; sym_assume (c > 32 && c != '<' && c != '&' && c < 127); t[0] = c; t[1] = 'z'; t[2] = c; t[3] = 0; sprintf (w, "%d", v);
	m = axl_node_parse (&e, "<a n='%d'>%s%%%c<b>%s</b></a>", v, t, c, t); CHECK (m != NULL && e == NULL, "accepted"); CHECK (str_eq (axl_node_get_attribute_value (m, "n"), w), "number");
	{ char x[8]; sprintf (x, "%s%%%c", t, c); CHECK (str_eq (axl_node_get_content (m, &n), x) && n == 5, "content"); } CHECK (str_eq (axl_node_get_content (axl_node_get_first_child (m), NULL), t), "content below");
	axl_node_free (m); HEAP_CHECK; sym_reach ("end");
}
