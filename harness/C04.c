/* the tree reproduces the document */
#include "refxml.h"
static void go (char * p, int n) {
	int i, r; axlError * e = NULL; axlDoc * d; for (i = 0; i < n; i++) sym_assume (p[i] != 0);
	d = axl_doc_parse (p, n, &e); r = ref_read (p, n);
	if (r == 2) { CHECK (d != NULL && e == NULL, "a well formed document was rejected"); compare_doc (d); sym_reach ("compared"); }
	axl_doc_free (d); axl_error_free (e); free (p); sym_reach ("end");
}
void tree_any (int n) { char * p = malloc (n); sym_bytes (p, n, "document"); go (p, n); }
void tree_templ (int which) { int n; char * p = input (templ[which], &n); go (p, n); }
void tree_more (int which) { int n; char * p = input (moret[which], &n); go (p, n); }
void tree_pieces (int k, int first) { int n; char * p = pieces_doc (k, first, &n); go (p, n); }
void tree_mutant (int lo, int hi, int k) { int n; char * p = mutant (lo, hi, k, &n); go (p, n); }
/* around internal thresholds: number of attributes, nesting, children and lengths */
void tree_big (int kind, int lo, int hi) {
	int n = 0, i, k = sym_pick (lo, hi, "size"); char * p = malloc (24000); p[0] = 0;
	switch (kind) {
	case 0: n = sprintf (p, "<r"); for (i = 0; i < k; i++) n += sprintf (p + n, " k%c='v%d'", 'a' + i, i); n += sprintf (p + n, ">t</r>"); break;
	case 1: for (i = 0; i < k; i++) n += sprintf (p + n, "<n%c>", 'a' + i); for (i = k - 1; i >= 0; i--) n += sprintf (p + n, "</n%c>", 'a' + i); break;
	case 2: n = sprintf (p, "<r>"); for (i = 0; i < k; i++) n += sprintf (p + n, "<n x='%d'/>t%d", i, i); n += sprintf (p + n, "</r>"); break;
	case 3: n = sprintf (p, "<r x='"); memset (p + n, 'v', k); n += k; n += sprintf (p + n, "'>"); memset (p + n, 't', k); n += k; n += sprintf (p + n, "<b/></r>"); break;
	case 4: n = sprintf (p, "<r><!--"); memset (p + n, 'c', k); n += k; n += sprintf (p + n, "--><![CDATA["); memset (p + n, 'd', k); n += k; n += sprintf (p + n, "]]></r>"); break;
	case 5: p[n++] = '<'; memset (p + n, 'n', k); n += k; n += sprintf (p + n, " "); memset (p + n, 'a', k); n += k; n += sprintf (p + n, "='x'></"); memset (p + n, 'n', k); n += k; n += sprintf (p + n, ">"); break;
	}
	go (p, n);
}
/* the header is reported */
void tree_header (void) {
	static const char * const enc[] = { "", " encoding='utf-8'", " encoding=\"ISO-8859-1\"" }, * const name[] = { "", "utf-8", "ISO-8859-1" }; static const char * const sa[] = { "", " standalone='yes'", " standalone=\"no\"", " standalone='yes'  " };
	int a = sym_pick (0, 2, "encoding"), b = sym_pick (0, 3, "standalone"), n; char p[128]; axlDoc * d; n = sprintf (p, "<?xml version='1.0'%s%s?><a/>", enc[a], sa[b]);
	d = axl_doc_parse (p, n, NULL); CHECK (d != NULL, "accepted"); CHECK (! strcmp (axl_doc_get_encoding (d), name[a]), "encoding"); CHECK (!! axl_doc_get_standalone (d) == (b & 1), "standalone"); axl_doc_free (d); sym_reach ("end");
}
void tree_scale (int kind, int lo, int hi) { int n, k = scale_of[sym_pick (lo, hi, "size")]; char * p = scale_doc (kind, k, &n); ref_large (); CHECK (ref_read (p, n) == 2, "harness: well formed"); go (p, n); }
