/* memory safety, termination and leaks of parsing */
#include "parse.h"
static void go (char * p, int n) {
	axlError * e = NULL; axlDoc * d; HEAP_MARK;
	switch (sym_pick (0, 2, "source")) {
	case 0: d = axl_doc_parse (p, n, &e); break;
	case 1: d = axl_doc_parse (p, n, NULL); break;
	default: vf_set_input (p, n, 4, 5); d = axl_doc_parse_from_file ("input.xml", &e); CHECK (vf_open_fds == 0, "descriptor closed");
	}
	axl_doc_free (d); axl_error_free (e); free (p); heap_mark_--; HEAP_CHECK; sym_reach ("end");
}
void parse_any (int n) { char * p = malloc (n); sym_bytes (p, n, "document"); go (p, n); }
void parse_templ (int which) { int n; char * p = input (templ[which], &n), * q = exact (p, n); free (p); go (q, n); }
void parse_cut (int lo, int hi) { int n = sym_pick (lo, hi < (int) sizeof (rich) - 1 ? hi : (int) sizeof (rich) - 1, "cut at"); go (exact (rich, n), n); }
/* the rich document with one byte (or two neighbours) replaced by anything */
void parse_mutant (int lo, int hi, int k) { int i, n = sizeof (rich) - 1, at; char * p = exact (rich, n); if (hi > n - k) hi = n - k; if (lo > hi) lo = hi; at = sym_pick (lo, hi, "position"); for (i = 0; i < k; i++) p[at + i] = sym_u8 ("byte"); go (p, n); }
/* a terminated string, with arbitrary bytes before the terminator */
void parse_string (int max) { int n = sym_pick (0, max, "size"); char * p = malloc (n + 1); axlError * e = NULL; axlDoc * d; int i; HEAP_MARK; sym_bytes (p, n, "document"); p[n] = 0; for (i = 0; i < n; i++) sym_assume (p[i] != 0);
	d = axl_doc_parse (p, -1, &e); axl_doc_free (d); axl_error_free (e); e = NULL;
	d = axl_doc_parse_strings (&e, "<a>", p, "</a>", NULL); axl_doc_free (d); axl_error_free (e);
	free (p); heap_mark_--; HEAP_CHECK; sym_reach ("end"); }
/* thresholds: many attributes, deep nesting, long names and values, the end of the first read of a file */
void parse_big (int lo, int hi) {
	int n = 0, i, k = sym_pick (lo, hi, "size"), kind = sym_pick (0, 3, "kind"); char * p = malloc (20000), * q; memset (p, 0, 20000);
	if (kind == 0) { n += sprintf (p + n, "<a"); for (i = 0; i < k; i++) { memcpy (p + n, " xx='y'", 7); p[n + 1] = 'a' + i / 26; p[n + 2] = 'a' + i % 26; n += 7; } p[n - 1] = sym_u8 ("byte"); n += sprintf (p + n, "/>"); }
	else if (kind == 1) { for (i = 0; i < k; i++) n += sprintf (p + n, "<a>"); p[n - 1] = sym_u8 ("byte"); for (i = 0; i < k; i++) n += sprintf (p + n, "</a>"); }
	else { int pad = 8185 + k; if (kind == 3) n += sprintf (p, "<r><![CDATA["); else n += sprintf (p, "<r>"); memset (p + n, 'x', pad - n); n = pad; for (i = 0; i < 3; i++) p[n++] = sym_u8 ("byte"); n += sprintf (p + n, kind == 3 ? "]]></r>" : "<b/></r>"); }
	q = exact (p, n); free (p); go (q, n);
}
void parse_scale (int kind, int lo, int hi) { int n, k = scale_of[sym_pick (lo, hi, "size")]; char * p = scale_doc (kind, k, &n); go (p, n); }
