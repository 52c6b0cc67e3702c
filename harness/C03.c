/* malformed documents are rejected */
#include "refxml.h"
static void go (char * p, int n) {
	int i, r; axlError * e = NULL; axlDoc * d; for (i = 0; i < n; i++) sym_assume (p[i] != 0);
	d = axl_doc_parse (p, n, &e); r = ref_read (p, n);
	if (d != NULL) { CHECK (r != 0, "a malformed document was accepted"); sym_reach ("accepted"); } else { if (r == 0) sym_reach ("rejected"); }
	axl_doc_free (d); axl_error_free (e); free (p); sym_reach ("end");
}
void wf_any (int n) { char * p = malloc (n); sym_bytes (p, n, "document"); go (p, n); }
void wf_templ (int which) { int n; char * p = input (templ[which], &n); go (p, n); }
/* every sequence of k pieces */
static const char * const wfpiece[] = { "<a>", "<b>", "</a>", "</b>", "<c/>", "t", "<!--k-->", "<a x='1' x='2'>", "<ab y='>'>", "</ab >", "<![CDATA[<]]>", "<?p q?>", "<a", "<a x=1>", "</", "<!--", "<?p", "<![CDATA[", "<a x='" };
void wf_pieces (int k, int limit, int first) { char * p = malloc (k * 16 + 1); int i, n = 0; p[0] = 0; for (i = 0; i < k; i++) { const char * s = wfpiece[i == 0 && first >= 0 ? first : sym_pick (0, limit, "wfpiece")]; memcpy (p + n, s, strlen (s) + 1); n += strlen (s); } go (p, n); }
/* proper prefixes of a well formed document are never accepted */
void wf_cut (int lo, int hi) { int n, full = strlen ("<a x='1'><b y=\"2\">t</b><!-- k --><![CDATA[<z>]]><?pi some ?><c/></a>"); if (hi > full - 1) hi = full - 1; n = sym_pick (lo, hi, "cut at"); go (exact ("<a x='1'><b y=\"2\">t</b><!-- k --><![CDATA[<z>]]><?pi some ?><c/></a>", n), n); }
void wf_mutant (int lo, int hi, int k) { int i, n = sizeof (rich) - 1, at; char * p = exact (rich, n); if (hi > n - k) hi = n - k; if (lo > hi) lo = hi; at = sym_pick (lo, hi, "position"); for (i = 0; i < k; i++) p[at + i] = sym_u8 ("byte"); go (p, n); }
/* closing tags and duplicated attributes with arbitrary names */
void wf_names (int maxl) {
	int l1 = sym_pick (1, maxl, "length"), l2 = sym_pick (1, maxl, "length"), i, n = 0, kind = sym_pick (0, 2, "kind"); char * p = malloc (80), x[8], y[8];
	for (i = 0; i < l1; i++) { x[i] = sym_u8 ("name"); sym_assume (r_nchar (x[i])); } for (i = 0; i < l2; i++) { y[i] = sym_u8 ("name"); sym_assume (r_nchar (y[i])); } x[l1] = y[l2] = 0;
	if (kind == 0) n = sprintf (p, "<%s></%s>", x, y); else if (kind == 1) n = sprintf (p, "<r><%s>t</%s></r>", x, y); else n = sprintf (p, "<r %s='1' k='2' %s='3'/>", x, y);
	{ int same = strcmp (x, y) == 0; axlDoc * d = axl_doc_parse (p, n, NULL);
	  if (kind < 2) CHECK ((d != NULL) == same, "closing tag names the open element"); else CHECK ((d == NULL) == (same | ! strcmp (x, "k") | ! strcmp (y, "k")), "duplicated attribute"); axl_doc_free (d); free (p); sym_reach ("end"); }
}
/* many attributes: a duplicate is found wherever it is */
void wf_dup (int total) { int i, a = sym_pick (0, total - 1, "duplicated"), n = 0; char * p = malloc (512); axlDoc * d; axlError * e = NULL; n += sprintf (p, "<r"); for (i = 0; i < total; i++) n += sprintf (p + n, " k%c='v'", 'a' + i); p[n] = 0; if (sym_pick (0, 1, "duplicate")) n += sprintf (p + n, " k%c='v'", 'a' + a); else a = -1; n += sprintf (p + n, "/>");
	d = axl_doc_parse (p, n, &e); CHECK ((d != NULL) == (a < 0) && (e == NULL) == (d != NULL), "duplicated attribute among many"); axl_doc_free (d); axl_error_free (e); free (p); sym_reach ("end"); }
