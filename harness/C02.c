/* result and error agree */
#include "parse.h"
static void agree (axlDoc * d, axlError * e) {
	if (d != NULL) { CHECK (e == NULL, "no error with a document"); CHECK (axl_doc_get_root (d) != NULL, "a document has a root"); CHECK (axl_error_was_ok (e), "was ok"); sym_reach ("accepted"); }
	else { CHECK (e != NULL, "an error with no document"); CHECK (axl_error_get_code (e) != 0, "error code"); CHECK (axl_error_get (e) != NULL && axl_error_get (e)[0] != 0, "error message"); CHECK (! axl_error_was_ok (e), "was ok"); sym_reach ("rejected"); }
}
static void go (char * p, int n) {
	axlError * e = NULL; axlDoc * d, * d2; HEAP_MARK; int file = sym_pick (0, 1, "file");
	if (file) { vf_set_input (p, n, 4, 4); d = axl_doc_parse_from_file ("input.xml", &e); } else d = axl_doc_parse (p, n, &e);
	agree (d, e);
	if (file) { vf_set_input (p, n, 4, 4); d2 = axl_doc_parse_from_file ("input.xml", NULL); } else d2 = axl_doc_parse (p, n, NULL);
	CHECK ((d == NULL) == (d2 == NULL), "the outcome does not depend on asking for the error");
	axl_doc_free (d); axl_doc_free (d2); axl_error_free (e); CHECK (sym_live () == heap_mark_, "exactly one error was created"); free (p); sym_reach ("end");
}
void err_any (int n) { char * p = malloc (n); sym_bytes (p, n, "document"); go (p, n); }
void err_templ (int which) { int n; char * p = input (templ[which], &n), * q = exact (p, n); free (p); go (q, n); }
void err_cut (int lo, int hi) { int n; if (hi > (int) sizeof (rich) - 1) hi = sizeof (rich) - 1; n = sym_pick (lo, hi, "cut at"); go (exact (rich, n), n); }
void err_mutant (int lo, int hi, int k) { int i, n = sizeof (rich) - 1, at; char * p = exact (rich, n); if (hi > n - k) hi = n - k; if (lo > hi) lo = hi; at = sym_pick (lo, hi, "position"); for (i = 0; i < k; i++) p[at + i] = sym_u8 ("byte"); go (p, n); }
/* sources that give nothing */
void err_sources (void) {
	axlError * e = NULL; axlDoc * d = NULL; char b[8]; HEAP_MARK;
	switch (sym_pick (0, 6, "source")) {
	case 0: d = axl_doc_parse_from_file ("missing.xml", &e); break;
	case 1: d = axl_doc_parse ("", -1, &e); break;
	case 2: d = axl_doc_parse ("<a/>", 0, &e); break;
	case 3: vf_set_input ("", 0, 0, 0); d = axl_doc_parse_from_file ("empty.xml", &e); break;
	case 4: vf_set_input ("<a>b</a>", 8, 4, 3); vf_read_error_at = sym_pick (0, 2, "failing read"); d = axl_doc_parse_from_file ("input.xml", &e); CHECK (d == NULL, "a failing read is a failure"); break;
	case 5: sym_bytes (b, 3, "document"); b[3] = 0; d = axl_doc_parse_strings (&e, "<", b, NULL); break;
	case 6: d = axl_doc_parse_strings (&e, NULL); CHECK (d == NULL, "nothing to parse"); break;
	}
	agree (d, e); axl_doc_free (d); axl_error_free (e); CHECK (vf_open_fds == 0, "descriptor closed"); CHECK (sym_live () == heap_mark_, "exactly one error was created"); sym_reach ("end");
}
