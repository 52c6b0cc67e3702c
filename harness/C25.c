/* xml:space */
#include "refxml.h"
static void go (char * p, int n) {
	int r; axlError * e = NULL; axlDoc * d; HEAP_MARK;
	d = axl_doc_parse (p, n, &e); r = ref_read (p, n); CHECK (r == 2, "the oracle knows every document of this check");
	CHECK (d != NULL && e == NULL, "accepted"); compare_doc (d); axl_doc_free (d); HEAP_CHECK; free (p); sym_reach ("end");
}
static const char * const decl[] = { "", " xml:space='preserve'", " xml:space=\"default\"", " u='1' xml:space = 'preserve'", " xml:space=\"preserve\" u='1'" };
static int nd = 3, par[8], dc[8], n, cm; static char * out;
static int put (const char * s) { int k = strlen (s); memcpy (out, s, k + 1); out += k; return k; }
static void gap (int len) { int i, c; for (i = 0; i < len; i++) { c = sym_u8 ("character"); sym_assume ((c == ' ') | (c == '\n') | (c == '\t') | (c == '\r') | ((c >= 'w') & (c <= 'z'))); *out++ = c; } *out = 0; }
static int glen;
static void text (int i) {
	int j, any = 0; char name[3]; name[0] = 'a' + i; name[1] = 0;
	put ("<"); put (name); put (decl[dc[i]]);
	for (j = i + 1; j < n; j++) if (par[j] == i) any = 1;
	if (! any && sym_pick (0, 1, "empty")) { put ("/>"); return; }
	put (">"); gap (glen); for (j = i + 1; j < n; j++) if (par[j] == i) { text (j); if (cm == 1) put ("<!---->"); if (cm == 2) put ("<![CDATA[ ]]>"); gap (glen); }
	put ("</"); put (name); put (">");
}
/* every tree of n elements, every placement of declarations, every white space or text in between */
void sp_tree (int count, int len, int extra) {
	int i; char * p = out = malloc (700); n = count; glen = len; cm = extra;
	for (i = 0; i < n; i++) { par[i] = i ? sym_pick (0, i - 1, "parent") : -1; dc[i] = sym_pick (0, nd - 1, "declaration"); }
	text (0); go (p, out - p);
}
/* declarations among other attributes */
void sp_attr (void) { nd = 5; sp_tree (2, 1, 0); }
/* long chains: declarations at two levels, white space at every level on the way down and up */
void sp_deep (int lo, int hi) {
	int k = sym_pick (lo, hi, "levels"), a = sym_pick (0, k - 1, "preserve at"), b = sym_pick (0, k - 1, "default at"), i; char * p = out = malloc (2000);
	for (i = 0; i < k; i++) { char nm[3]; nm[0] = 'a' + i % 26; nm[1] = 0; put ("<"); put (nm); if (i == b && b != a) put (decl[2]); if (i == a) put (decl[1]); put ("> "); if (i % 3 == 1) put ("<z/>\n"); if (i % 3 == 2) put ("<z xml:space='preserve'> </z> "); }
	for (i = k - 1; i >= 0; i--) { put (i % 2 ? " \t</" : " <z xml:space='default'> </z> </"); *out++ = 'a' + i % 26; put (">"); }
	go (p, out - p);
}
/* many siblings */
void sp_wide (int lo, int hi) {
	int k = sym_pick (lo, hi, "siblings"), a = sym_pick (0, k - 1, "preserve at"), b = sym_pick (0, k - 1, "default at"), top = sym_pick (0, 2, "root"), i; char * p = out = malloc (3000);
	put ("<r"); put (decl[top]); put (">"); for (i = 0; i < k; i++) { put (" <b"); if (i == a) put (decl[1]); else if (i == b) put (decl[2]); put (i % 2 ? "> </b>" : "><c> </c> </b>"); } put (" </r>"); go (p, out - p);
}
/* the value must be one of the two */
void sp_value (int len) {
	char p[64], v[16]; int i, k, ok; axlDoc * d; axlError * e = NULL; memset (v, 0, sizeof (v)); sym_bytes (v, len, "value"); for (i = 0; i < len; i++) sym_assume (v[i] != 0 && v[i] != '\'' && v[i] != '<' && v[i] != '&');
	k = sprintf (p, "<a xml:space='"); memcpy (p + k, v, len); k += len; memcpy (p + k, "'> <b/></a>", 12); k += 11; ok = ! memcmp (v, "preserve", 9) || ! memcmp (v, "default", 8);
	d = axl_doc_parse (p, k, &e); CHECK ((d != NULL) == ok && (e == NULL) == ok, "only the two values are accepted"); if (d) { CHECK (str_eq (axl_node_get_content (axl_doc_get_root (d), NULL), len == 8 ? " " : ""), "applied"); sym_reach ("good"); } axl_doc_free (d); axl_error_free (e); sym_reach ("end");
}
