/* serialise, parse again, compare */
#include "canon.h"
static void node_trip (axlNode * n, int pres, int order) {
	char * s = NULL, * s2 = NULL; int size = -7, size2 = -7; axlError * e = NULL; axlDoc * d;
	CHECK (axl_node_dump (n, &s, &size) && s != NULL, "an element can be serialised"); CHECK (size == (int) strlen (s), "size of the serialised element"); CHECK (axl_node_get_flat_size (n, axl_false, 0, 0) == size, "flat size of an element");
	d = axl_doc_parse (s, size, &e); CHECK (d != NULL && e == NULL, "the serialised element can be parsed"); CHECK (pres || same_tree (n, axl_doc_get_root (d), pres), "the serialised element is equal");
	if (! pres) { CHECK (axl_node_dump (axl_doc_get_root (d), &s2, &size2), "serialise again"); CHECK (size == size2 && (! order || ! strcmp (s, s2)), "the same text again"); axl_free (s2); }
	axl_free (s); axl_doc_free (d);
}
/* parsed: also the text of a second generation must be the same */
static void trip (axlDoc * d, int parsed, int order) {
	char * s = NULL, * s2 = NULL, * s3 = NULL; int size = -7, size2 = -7, size3 = -7; axlError * e = NULL; axlDoc * d2, * d3; axlNode * c;
	CHECK (axl_doc_dump (d, &s, &size) && s != NULL, "a document can be serialised"); CHECK (size == (int) strlen (s), "dump size"); CHECK (axl_doc_get_flat_size (d) == size, "flat size");
	d2 = axl_doc_parse (s, size, &e); CHECK (d2 != NULL && e == NULL, "the serialised text can be parsed"); CHECK (same_tree (axl_doc_get_root (d), axl_doc_get_root (d2), 0), "the document is equal after serialising and parsing");
	CHECK (! strcmp (axl_doc_get_encoding (d), axl_doc_get_encoding (d2)), "encoding kept"); CHECK (! axl_doc_get_standalone (d) == ! axl_doc_get_standalone (d2), "standalone kept");
	CHECK (axl_doc_dump (d2, &s2, &size2), "serialise again");
	if (parsed) { CHECK (axl_doc_are_equal_trimmed (d, d2), "reported as equal"); CHECK (size == size2 && (! order || ! strcmp (s, s2)), "the same text again"); }
	else { d3 = axl_doc_parse (s2, size2, NULL); CHECK (d3 != NULL && axl_doc_dump (d3, &s3, &size3) && size2 == size3 && ! strcmp (s2, s3), "the same text from the third generation on"); axl_free (s3); axl_doc_free (d3); }
	axl_free (s); axl_free (s2); axl_doc_free (d2);
	if (parsed) { c = axl_doc_get_root (d); node_trip (c, 0, order); c = axl_node_get_first_child (c); if (c != NULL) node_trip (c, axl_node_has_attribute (axl_doc_get_root (d), "xml:space"), order); }
}
static void go (char * p, int n) {
	int i; axlDoc * d; axlNode * r; HEAP_MARK; for (i = 0; i < n; i++) sym_assume (p[i] != 0);
	d = axl_doc_parse (p, n, NULL); if (d != NULL) { r = axl_doc_get_root (d); trip (d, 1, axl_node_num_attributes (r) <= 10); sym_reach ("trip"); }
	axl_doc_free (d); free (p); heap_mark_--; HEAP_CHECK; sym_reach ("end");
}
void rt_any (int n) { char * p = malloc (n); sym_bytes (p, n, "document"); go (p, n); }
void rt_templ (int which) { int n; char * p = input (templ[which], &n); go (p, n); }
void rt_more (int which) { int n; char * p = input (moret[which], &n); go (p, n); }
void rt_pieces (int k, int first) { int n; char * p = pieces_doc (k, first, &n); go (p, n); }
void rt_mutant (int lo, int hi, int k) { int n; char * p = mutant (lo, hi, k, &n); go (p, n); }
/* built through the API: a root with a child, every kind of item in any order */
static void text (char * b, int n, const char * not, const char * name) { int i, k; for (i = 0; i < n; i++) { b[i] = sym_u8 (name); sym_assume (b[i] != 0); for (k = 0; not[k]; k++) sym_assume (b[i] != not[k]); } b[n] = 0; }
void rt_build (int items, int len) {
	axlDoc * d; axlNode * r, * c; int i, j, depth = 0; char t[16]; HEAP_MARK;
	switch (sym_pick (0, 3, "header")) { case 0: d = axl_doc_create (NULL, NULL, axl_false); break; case 1: d = axl_doc_create ("1.0", "utf-8", axl_false); break; case 2: d = axl_doc_create ("1.0", NULL, axl_true); break; default: d = axl_doc_create ("1.0", "utf-8", axl_true); }
	r = axl_node_create ("root"); axl_doc_set_root (d, r); c = r;
	for (i = 0; i < items; i++) switch (sym_pick (0, 8, "item")) {
	case 0: text (t, len, "", "text"); axl_node_set_content (c, t, sym_pick (0, 1, "explicit") ? len : -1); break;
	case 1: text (t, len, "<>&'\"]", "cdata"); axl_node_set_cdata_content (c, t, sym_pick (0, 1, "explicit") ? len : -1); break;
	case 2: text (t, len, "->", "comment"); axl_node_set_comment (c, t, sym_pick (0, 1, "explicit") ? len : -1); break;
	case 3: axl_node_set_comment (c, "", 0); break;
	case 4: text (t, len, "?> \t\r\n", "pi"); axl_node_add_pi_target (c, "pi", sym_pick (0, 2, "content") ? t : NULL); break;
	case 5: { axlNode * x = axl_node_create ("e"); text (t, len, "", "value"); axl_node_set_attribute (x, "k", t); axl_node_set_child (c, x); break; }
	case 6: { axlNode * x = axl_node_create ("f"); axl_node_set_child (c, x); c = x; break; }
	case 7: if (c != r) c = axl_node_get_parent (c); else axl_node_set_attribute (r, "q", "it's \"x\""); break;
	case 8: { char k[3] = "a0"; for (j = 0; j < 3; j++) { k[1] = '0' + i * 3 + j; axl_node_set_attribute (c, k, "v"); } break; }
	}
	trip (d, 0, 1); sym_reach ("trip"); axl_doc_free (d); HEAP_CHECK; sym_reach ("end");
}
void rt_attrs (int lo, int hi) { /* around the switch of the attribute representation */
	int k = sym_pick (lo, hi, "attributes"), i; axlDoc * d = axl_doc_create (NULL, NULL, axl_false); axlNode * r = axl_node_create ("r"); char key[3] = "ka", v[3]; HEAP_MARK; axl_doc_set_root (d, r);
	for (i = 0; i < k; i++) { key[1] = 'a' + i; text (v, i == k - 1 ? 2 : 0, "", "value"); axl_node_set_attribute (r, key, v); }
	{ char * s, * s2; int n, n2; axlDoc * d2; CHECK (axl_doc_dump (d, &s, &n) && n == (int) strlen (s) && n == axl_doc_get_flat_size (d), "dump"); d2 = axl_doc_parse (s, n, NULL); CHECK (d2 != NULL && same_tree (r, axl_doc_get_root (d2), 0), "equal"); CHECK (axl_doc_dump (d2, &s2, &n2) && n == n2, "the same size again"); axl_free (s); axl_free (s2); axl_doc_free (d2); }
	axl_doc_free (d); sym_reach ("trip"); sym_reach ("end");
}
/* the file variants write the same text */
void rt_file (void) {
	static const char doc[] = "<a x='1'>t<b/><!-- c --><![CDATA[<]]>u</a>"; axlDoc * d = axl_doc_parse (doc, -1, NULL); char * s; int n; HEAP_MARK;
	CHECK (d != NULL && axl_doc_dump (d, &s, &n), "dump"); CHECK (axl_doc_dump_to_file (d, "out.xml"), "to file"); CHECK (vf_out_size == n && ! memcmp (vf_out, s, n), "file has the same text"); CHECK (vf_open_fds == 0, "file closed");
	axl_free (s); axl_doc_free (d); sym_reach ("trip"); sym_reach ("end");
}
void rt_scale (int kind, int lo, int hi) { int n, k = scale_of[sym_pick (lo, hi, "size")]; char * p = scale_doc (kind, k, &n); go (p, n); }
