/* parsing any DTD text */
#include "dtd.h"
static void go (char * p, int n) {
	axlError * e = NULL; axlDtd * d; int k; HEAP_MARK; for (k = 0; k < n; k++) sym_assume (p[k] != 0);
	switch (k = sym_pick (0, 2, "source")) {
	case 0: d = axl_dtd_parse (p, n, &e); break;
	case 1: d = axl_dtd_parse (p, n, NULL); break;
	default: vf_set_input (p, n, 4, 3); d = axl_dtd_parse_from_file ("input.dtd", &e); CHECK (vf_open_fds == 0, "descriptor closed");
	}
	if (k != 1) { CHECK ((d == NULL) == (e != NULL), "a DTD or an error"); if (e != NULL) CHECK (axl_error_get (e) != NULL && axl_error_get_code (e) != 0, "explained"); }
	if (d != NULL) sym_reach ("accepted"); else sym_reach ("rejected");
	axl_dtd_free (d); axl_error_free (e); free (p); heap_mark_--; HEAP_CHECK; sym_reach ("end");
}
void dtd_any (int n) { char * p; n = sym_pick (0, n, "length"); p = malloc (n + 1); sym_bytes (p, n, "text"); go (p, n); }
void dtd_templ (int which) { int n; char * p = input (dtdt[which], &n), * q = exact (p, n); free (p); go (q, n); }
void dtd_cut (int lo, int hi) { int n = sizeof (drich) - 1; n = sym_pick (lo, hi < n ? hi : n, "cut at"); go (exact (drich, n), n); }
void dtd_mutant (int lo, int hi, int k) { int n; char * p = dmutant (lo, hi, k, &n); go (p, n); }
void dtd_model (int k) { char * p = malloc (k * 8 + 40), * q; int n = sprintf (p, "<!ELEMENT a (b"), i; for (i = 0; i < k; i++) n += sprintf (p + n, "%s", dpiece[sym_pick (0, 10, "piece")]); n += sprintf (p + n, ")>"); q = exact (p, n); free (p); go (q, n); }
/* declarations made of any tokens */
void dtd_tokens (int k, int first) { static const char * const t[] = { "<!ATTLIST ", "a ", "CDATA ", "(x|y)", "#REQUIRED", "'v'", ">", "%e;", "<!ENTITY % e ", "ID ", "#FIXED ", "<!ELEMENT ", "(b)", "<!-- -->", "IDREF #IMPLIED>", "<!ENTITY e SYSTEM " };
	char * p = malloc (k * 20 + 20), * q; int n = sprintf (p, "%s", t[first]), i; for (i = 0; i < k; i++) n += sprintf (p + n, "%s", t[sym_pick (0, 15, "token")]); q = exact (p, n); free (p); go (q, n); }
/* cycles in the models: any three elements naming any of the three */
void dtd_cycle (void) { char * p = malloc (100), * q; int n = sprintf (p, "<!ELEMENT a (%c,%c)><!ELEMENT b (%c|%c)><!ELEMENT c (%c)>", 'a' + sym_pick (0, 2, "x"), 'a' + sym_pick (0, 2, "x"), 'a' + sym_pick (0, 2, "x"), 'a' + sym_pick (0, 2, "x"), 'a' + sym_pick (0, 2, "x")); q = exact (p, n); free (p); go (q, n); }
/* a failing read */
void dtd_fault (int which) { int n, at; char * p = input (dtdt[which], &n); axlDtd * d; axlError * e = NULL; int i; HEAP_MARK; heap_mark_--; for (i = 0; i < n; i++) sym_assume (p[i] != 0);
	vf_set_input (p, n, 4, 5); at = sym_pick (0, n / 5, "failing read"); vf_read_error_at = at; d = axl_dtd_parse_from_file ("input.dtd", &e); CHECK (vf_open_fds == 0, "descriptor closed"); vf_read_error_at = -1;
	CHECK ((d == NULL) == (e != NULL), "a DTD or an error"); CHECK (d == NULL, "a failing read is an error"); axl_error_free (e); axl_dtd_free (d); free (p); HEAP_CHECK; sym_reach ("end"); }
