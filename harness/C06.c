/* pretty printing keeps the content */
#include "canon.h"
static void pretty (axlDoc * d, int tab) {
	char * s = NULL, * s2; int size = -7, size2; axlError * e = NULL; axlDoc * d2; axlNode * r = axl_doc_get_root (d), * c;
	CHECK (axl_doc_dump_pretty (d, &s, &size, tab) && s != NULL, "pretty dump"); CHECK (size == (int) strlen (s), "pretty dump size"); CHECK (axl_doc_get_flat_size_pretty (d, tab) == size, "pretty flat size");
	d2 = axl_doc_parse (s, size, &e); CHECK (d2 != NULL && e == NULL, "the pretty text can be parsed"); c_loose = 1; CHECK (same_tree (r, axl_doc_get_root (d2), 0), "pretty printing keeps the content");
	CHECK (! strcmp (axl_doc_get_encoding (d), axl_doc_get_encoding (d2)) && ! axl_doc_get_standalone (d) == ! axl_doc_get_standalone (d2), "header kept");
	axl_doc_free (d2);
	CHECK (axl_node_dump_pretty (r, &s2, &size2, tab), "pretty element dump"); CHECK (size2 == (int) strlen (s2) && size2 == axl_node_get_flat_size (r, axl_true, 0, tab), "pretty element dump size");
	/* the element is written the same way as inside the document */
	CHECK (size > size2 && ! strcmp (s + size - size2, s2), "the element is written as in its document");
	d2 = axl_doc_parse (s2, size2, &e); CHECK (d2 != NULL && same_tree (r, axl_doc_get_root (d2), 0), "pretty printing an element keeps the content"); axl_doc_free (d2); axl_free (s2);
	c = axl_node_get_first_child (r); if (c != NULL && ! axl_node_has_attribute (r, "xml:space")) { CHECK (axl_node_dump_pretty (c, &s2, &size2, tab) && size2 == (int) strlen (s2), "child dump"); d2 = axl_doc_parse (s2, size2, &e); CHECK (d2 != NULL && same_tree (c, axl_doc_get_root (d2), 0), "pretty printing a child keeps the content"); axl_doc_free (d2); axl_free (s2); }
	axl_free (s); c_loose = 0; sym_reach ("pretty");
}
static void go (char * p, int n, int maxtab) {
	int i; axlDoc * d; HEAP_MARK; for (i = 0; i < n; i++) sym_assume (p[i] != 0);
	d = axl_doc_parse (p, n, NULL); if (d != NULL) pretty (d, sym_pick (0, maxtab, "indent"));
	axl_doc_free (d); free (p); heap_mark_--; HEAP_CHECK; sym_reach ("end");
}
void pp_any (int n) { char * p = malloc (n); sym_bytes (p, n, "document"); go (p, n, 2); }
void pp_templ (int which) { int n; char * p = input (templ[which], &n); go (p, n, 2); }
void pp_more (int which) { int n; char * p = input (moret[which], &n); go (p, n, 2); }
void pp_pieces (int k, int first) { int n; char * p = pieces_doc (k, first, &n); go (p, n, 5); }
void pp_mutant (int lo, int hi, int k) { int n; char * p = mutant (lo, hi, k, &n); go (p, n, 3); }
void pp_indent (int maxtab) { char * p = malloc (200); int n = sprintf (p, "<a><b>t<c k='v'>u</c><!--x--></b><d/>w<![CDATA[z]]><?p q?><e><f><g/></f></e></a>"); go (p, n, maxtab); }
/* deep trees and wide indentations */
void pp_deep (int lo, int hi) {
	static const int tabs[] = { 1, 2, 7, 16, 64, 127, 257 }; int depth = sym_pick (lo, hi, "depth"), i, tab = tabs[sym_pick (0, 6, "indent")]; char * p = calloc (2000, 1); axlDoc * d; HEAP_MARK;
	for (i = 0; i < depth; i++) strcat (p, i & 1 ? "<b>" : "<a k='v'>"); strcat (p, "t<!--x--><c/>u"); for (i = depth - 1; i >= 0; i--) { if (i % 5 == 4) strcat (p, "<d>w</d>"); strcat (p, i & 1 ? "</b>" : "</a>"); }
	d = axl_doc_parse (p, -1, NULL); CHECK (d != NULL, "parse"); pretty (d, tab); axl_doc_free (d); free (p); heap_mark_--; HEAP_CHECK; sym_reach ("end");
}
void pp_file (void) {
	static const char doc[] = "<a x='1'>t<b/><!-- c --><![CDATA[<]]><d><e>u</e></d></a>"; axlDoc * d = axl_doc_parse (doc, -1, NULL); char * s; int n, tab = sym_pick (0, 9, "indent");
	CHECK (d != NULL && axl_doc_dump_pretty (d, &s, &n, tab), "dump"); CHECK (axl_doc_dump_pretty_to_file (d, "out.xml", tab), "to file"); CHECK (vf_out_size == n && ! memcmp (vf_out, s, n), "file has the same text"); axl_free (s);
	CHECK (axl_node_dump_pretty (axl_doc_get_root (d), &s, &n, tab), "dump"); CHECK (axl_node_dump_pretty_to_file (axl_doc_get_root (d), "out.xml", tab), "to file"); CHECK (vf_out_size == n && ! memcmp (vf_out, s, n) && vf_open_fds == 0, "file has the same text");
	axl_free (s); axl_doc_free (d); sym_reach ("pretty"); sym_reach ("end");
}
void pp_scale (int kind, int lo, int hi) { int n, k = scale_of[sym_pick (lo, hi, "size")]; char * p = scale_doc (kind, k, &n); go (p, n, 2); }
