/* the result does not depend on how the bytes arrive */
#include "same.h"
/* reads: 1 = every read returns any count up to max, 3 = the first read returns split bytes, 4 = every read returns at most max */
static void go (char * p, int n, int mode, int max) {
	axlDoc * d, * d2; axlError * e = NULL, * e2 = NULL; int i; HEAP_MARK; for (i = 0; i < n; i++) sym_assume (p[i] != 0);
	d = axl_doc_parse (p, n, &e);
	vf_set_input (p, n, mode, max); d2 = axl_doc_parse_from_file ("input.xml", &e2); CHECK (vf_open_fds == 0, "descriptor closed");
	CHECK ((d != NULL) == (d2 != NULL), "accepted from memory if and only if accepted from a file"); CHECK ((e != NULL) == (e2 != NULL), "same error report"); CHECK (identical_docs (d, d2), "the same document from memory and from a file");
	if (d != NULL) sym_reach ("accepted"); axl_doc_free (d2); axl_error_free (e2); e2 = NULL;
	{ char * q = malloc (n + 1); memcpy (q, p, n); q[n] = 0; d2 = axl_doc_parse (q, -1, &e2); CHECK ((e != NULL) == (e2 != NULL) && identical_docs (d, d2), "the same document from a terminated string"); axl_doc_free (d2); axl_error_free (e2); free (q); }
	axl_doc_free (d); axl_error_free (e); free (p); heap_mark_--; HEAP_CHECK; sym_reach ("end");
}
void in_any (int n, int max) { char * p = malloc (n); sym_bytes (p, n, "document"); go (p, n, 1, max); }
void in_templ (int which) { int n, m; char * p = input (templ[which], &n); m = sym_pick (1, n + 1, "reads of"); go (p, n, 4, m); }
void in_more (int which) { int n, m; char * p = input (moret[which], &n); m = sym_pick (1, n + 1, "reads of"); go (p, n, 4, m); }
void in_pieces (int k, int first) { int n, m; char * p = pieces_doc (k, first, &n); m = sym_pick (1, 9, "reads of"); go (p, n, 4, m); }
void in_split (int which) { int n; char * p = input (which < 36 ? templ[which] : moret[which - 36], &n); vf_split = sym_pick (1, n, "first read"); go (p, n, 3, 0); }
void in_mutant (int lo, int hi, int k) { int n, m; char * p = mutant (lo, hi, k, &n); m = sym_pick (1, 4, "reads of"); go (p, n, 4, m * m * m); }
/* one fixed document using everything: any two cuts */
void in_cuts (int lo, int hi) { int n = sizeof (rich) - 1; char * p = exact (rich, n); vf_split = sym_pick (lo, hi < n ? hi : n, "first read"); go (p, n, 3, 0); }
/* each construct across the 8192 byte buffer boundary, at any offset, with two arbitrary bytes just after it starts */
void in_big (int kind, int lo, int hi, int mode) {
	static const char * const c[] = { "<b k='v@'>@</b>", "<!--x@y@-->t", "<![CDATA[x@]@]>]]>", "<?p x@@?>", "tx@ &amp;@ t", "</a><a @='1'>@</a><a>", "<b   @= \"v@\"   />" };
	char * p = malloc (17000); int at = sym_pick (lo, hi, "offset"), n, k, i; n = sprintf (p, "<r><a>"); k = 8192 - at; memset (p + n, 'f', k - n); for (i = n + 50; i + 60 < k; i += 1000) { memcpy (p + i, "<z/>", 4); } n = k;
	for (i = 0; c[kind][i]; i++) p[n++] = c[kind][i] == '@' ? sym_u8 ("byte") : c[kind][i];
	n += sprintf (p + n, "</a></r>"); go (p, n, mode, mode == 4 ? 4096 : 0);
}
/* a read that fails is an error, never a document made of the part read before it */
void in_fault (int which, int max) {
	int n, at; char * p = input (which < 28 ? moret[which] : templ[which - 28], &n); axlDoc * d; axlError * e = NULL; int i; HEAP_MARK; heap_mark_--;
	for (i = 0; i < n; i++) sym_assume (p[i] != 0);
	vf_set_input (p, n, 4, max); at = sym_pick (0, n / max, "failing read"); vf_read_error_at = at; d = axl_doc_parse_from_file ("input.xml", &e); CHECK (vf_open_fds == 0, "descriptor closed"); vf_read_error_at = -1;
	CHECK ((d == NULL) == (e != NULL), "a failing read is a document or an error"); CHECK (d == NULL, "a document read with a failing read is not accepted"); if (d == NULL) sym_reach ("rejected");
	axl_error_free (e); axl_doc_free (d); free (p); HEAP_CHECK; sym_reach ("end");
}
/* pieces longer than the read buffer, several times: the buffer grows while data is left over in it */
void in_long (int kind, int len, int mode) {
	static const char * const open[] = { "<a>", "<!--", "<![CDATA[", "<a k='", "<?p ", "<a " }, * const close[] = { "</a>", "-->", "]]>", "'/>", "?>", "k='1'/>" };
	char * p = malloc (100000); int n = 0, i, q, m, l; n = sprintf (p, "<r>");
	for (q = 0; q < 4; q++) { l = q == 2 ? 14000 : q == 0 ? sym_pick (0, 1, "length") * 5 + 8172 : q == 1 ? len : 300; n += sprintf (p + n, "%s", open[kind]); m = n; memset (p + n, kind == 5 ? ' ' : 'f', l); n += l; if (kind != 5) { for (i = 0; i < l; i += 4096) p[m + i] = 'a' + q; if (q == 1) p[n - 1] = sym_u8 ("byte"); } n += sprintf (p + n, "%s<b/>", close[kind]); if (q == 0) for (i = 0; i < 200; i++) n += sprintf (p + n, "<c/>"); }
	for (i = 0; i < 1200; i++) n += sprintf (p + n, "<c>%d</c>", i % 10); n += sprintf (p + n, "</r>"); go (p, n, mode, mode == 4 ? 5000 : 0);
}
/* one large dimension, read in blocks of several sizes */
void in_scale (int kind, int lo, int hi) { int n, k = scale_of[sym_pick (lo, hi, "size")], m = sym_pick (0, 2, "reads of"); char * p = scale_doc (kind, k, &n); go (p, n, 4, m == 0 ? 7 : m == 1 ? k : 64); }
