/* dumping to a file: the text of the in-memory variant, and the truth about whether it was written */
#include "parse.h"
static int to_file (int fn, axlDoc * d, axlNode * n, int tab) {
	switch (fn) { case 0: return axl_doc_dump_to_file (d, "out.xml"); case 1: return axl_doc_dump_pretty_to_file (d, "out.xml", tab); case 2: return axl_node_dump_to_file (n, "out.xml"); default: return axl_node_dump_pretty_to_file (n, "out.xml", tab); }
}
static int to_mem (int fn, axlDoc * d, axlNode * n, int tab, char ** s, int * size) {
	switch (fn) { case 0: return axl_doc_dump (d, s, size); case 1: return axl_doc_dump_pretty (d, s, size, tab); case 2: return axl_node_dump (n, s, size); default: return axl_node_dump_pretty (n, s, size, tab); }
}
static void same (const char * s, int size) { CHECK (vf_out_size == size && ! memcmp (vf_out, s, size), "the file has the text of the dump"); CHECK (vf_open_fds == 0, "the file is closed"); }
static void write_all (axlDoc * d, axlNode * n, int step) {
	int fn = sym_pick (0, 3, "function"), tab = fn & 1 ? sym_pick (0, 2, "indentation") : 0, size = -1, ok; char * s = NULL;
	CHECK (to_mem (fn, d, n, tab, &s, &size) && s != NULL && size == (int) strlen (s), "dump");
	{ HEAP_MARK;
	switch (sym_pick (0, 3, "fault")) {
	case 0: CHECK (to_file (fn, d, n, tab), "written"); same (s, size); sym_reach ("written"); break;
	case 1: vf_open_fail = 1; vf_out_size = 0; ok = to_file (fn, d, n, tab); vf_open_fail = 0; CHECK (! ok, "a file that cannot be opened is reported"); CHECK (vf_open_fds == 0, "nothing left open"); sym_reach ("no file"); break;
	default: /* the file takes only some bytes */
		vf_out_late = sym_pick (0, 1, "noticed on close"); vf_out_cap = step > 1 ? sym_pick (0, (size + step) / step, "room") * step : sym_pick (0, size + 1, "room");
		ok = to_file (fn, d, n, tab); CHECK (!! ok == (vf_out_cap >= size), "success is reported only if the whole text was written"); CHECK (vf_open_fds == 0, "the file is closed");
		CHECK (vf_out_size == (vf_out_cap < size ? vf_out_cap : size) && ! memcmp (vf_out, s, vf_out_size), "as much of the text as fits"); if (ok) sym_reach ("fits"); else sym_reach ("full");
		vf_out_cap = -1; vf_out_late = 0; }
	HEAP_CHECK;
	CHECK (to_file (fn, d, n, tab), "written afterwards"); same (s, size); HEAP_CHECK; }
	axl_free (s);
}
static void go (char * p, int n) {
	axlDoc * d; axlNode * c; int i; HEAP_MARK; for (i = 0; i < n; i++) sym_assume (p[i] != 0);
	d = axl_doc_parse (p, n, NULL); if (d != NULL) { c = axl_doc_get_root (d); if (axl_node_get_first_child (c) != NULL && sym_pick (0, 1, "child")) c = axl_node_get_first_child (c); write_all (d, c, 1); sym_reach ("parsed"); }
	axl_doc_free (d); free (p); heap_mark_--; HEAP_CHECK; sym_reach ("end");
}
void out_templ (int which) { int n; char * p = input (templ[which], &n); go (p, n); }
void out_more (int which) { int n; char * p = input (moret[which], &n); go (p, n); }
void out_pieces (int k, int first) { int n; char * p = pieces_doc (k, first, &n); go (p, n); }
/* built, with every kind of item, and a text of any length around a block of the C library */
void out_built (int lo, int hi, int step) {
	axlDoc * d; axlNode * r, * c; int n = sym_pick (lo, hi, "text"), i; char * t = malloc (n + 1); HEAP_MARK; for (i = 0; i < n; i++) t[i] = 'x'; if (n) t[n / 2] = sym_u8 ("byte"), sym_assume (t[n / 2] != 0); t[n] = 0;
	d = axl_doc_create ("1.0", "utf-8", axl_true); r = axl_node_create ("r"); axl_doc_set_root (d, r); c = axl_node_create ("c"); axl_node_set_attribute (c, "k", "<'\">"); axl_node_set_child (r, c); axl_node_set_content (c, t, -1); axl_node_set_comment (r, "k", -1); axl_node_set_cdata_content (r, "<z>", -1); axl_node_add_pi_target (r, "p", "q");
	write_all (d, sym_pick (0, 1, "child") ? c : r, step); axl_doc_free (d); HEAP_CHECK; free (t); sym_reach ("end");
}
/* what cannot be dumped: no document, no element, a document without root */
void out_nothing (void) {
	axlDoc * d; HEAP_MARK;
	vf_out_size = -5; CHECK (! axl_doc_dump_to_file (NULL, "out.xml") && ! axl_doc_dump_pretty_to_file (NULL, "out.xml", 2) && ! axl_node_dump_to_file (NULL, "out.xml") && ! axl_node_dump_pretty_to_file (NULL, "out.xml", 2), "nothing to dump"); CHECK (vf_open_fds == 0, "nothing open");
	d = axl_doc_create (NULL, NULL, axl_false); { char * s = NULL; int n = -1, a = axl_doc_dump (d, &s, &n), b = axl_doc_dump_to_file (d, "out.xml"); CHECK (!! a == !! b, "the same verdict"); if (a) same (s, n); axl_free (s); } CHECK (vf_open_fds == 0, "nothing open");
	axl_doc_free (d); HEAP_CHECK; sym_reach ("end");
}
