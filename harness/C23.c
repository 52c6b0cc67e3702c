/* encodings */
#include "same.h"
#include <axl_babel.h>
#include "iso.h"
static int put8 (char * q, unsigned c) { if (c < 128) { q[0] = c; return 1; } if (c < 0x800) { q[0] = 0xc0 | (c >> 6); q[1] = 0x80 | (c & 63); return 2; } q[0] = 0xe0 | (c >> 12); q[1] = 0x80 | ((c >> 6) & 63); q[2] = 0x80 | (c & 63); return 3; }
static int code (int w, int b) { return b < 160 ? b : iso_tab[w][b - 160]; }
static int in_ (int v, int lo, int hi) { return (v >= lo) & (v <= hi); }
/* length of the well formed UTF-8 character at p (Unicode, table 3-7), 0 if there is none */
static int ulen (const unsigned char * p, int n) {
	if (n > 0 && p[0] < 0x80) return 1;
	if (n > 1 && in_ (p[0], 0xc2, 0xdf) && in_ (p[1], 0x80, 0xbf)) return 2;
	if (n > 2 && in_ (p[0], 0xe0, 0xef) && in_ (p[1], p[0] == 0xe0 ? 0xa0 : 0x80, p[0] == 0xed ? 0x9f : 0xbf) && in_ (p[2], 0x80, 0xbf)) return 3;
	if (n > 3 && in_ (p[0], 0xf0, 0xf4) && in_ (p[1], p[0] == 0xf0 ? 0x90 : 0x80, p[0] == 0xf4 ? 0x8f : 0xbf) && in_ (p[2], 0x80, 0xbf) && in_ (p[3], 0x80, 0xbf)) return 4;
	return 0;
}
static axlDoc * read_ (char * p, int n, int how, int max, axlError ** e) {
	axlDoc * d; char * q;
	switch (how) { case 0: return axl_doc_parse (p, n, e); case 1: vf_set_input (p, n, 0, 0); break; case 2: vf_set_input (p, n, 4, max); break; case 3: vf_split = max; vf_set_input (p, n, 3, 0); break; case 4: vf_set_input (p, n, 1, max); break; case 5: q = malloc (n + 1); memcpy (q, p, n); q[n] = 0; d = axl_doc_parse (q, -1, e); free (q); return d; }
	d = axl_doc_parse_from_file ("input.xml", e); CHECK (vf_open_fds == 0, "descriptor closed"); return d;
}
static void plain (int b) { sym_assume ((b != '<') & (b != '&') & (b != '>') & (b != '\'') & (b != ']') & (b >= 32)); }
/* what comes out of text with bytes b[0..n) in encoding w; -1 if one is undefined */
static int want (int w, const unsigned char * b, int n, char * out) { int i, k = 0; for (i = 0; i < n; i++) { int c = sym_concretize (code (w, b[i])); if (c == 0xffff) return -1; k += put8 (out + k, c); } out[k] = 0; return k; }
/* every byte of an encoding as text and in an attribute value */
void enc_text (int w, int n, int how, int max) {
	char p[160], out[40]; unsigned char b[8]; int i, k, m, len; axlDoc * d; axlError * e = NULL; HEAP_MARK; axl_babel_init (NULL);
	k = sprintf (p, "<?xml version='1.0' encoding='ISO-8859-%d' ?>", iso_k[w]); len = k; k += sprintf (p + k, "<a>x"); for (i = 0; i < n; i++) { b[i] = sym_u8 ("byte"); plain (b[i]); p[k++] = b[i]; } k += sprintf (p + k, "y</a>");
	if (how == 3) max = sym_pick (1, k - 1, "first read"); d = read_ (p, k, how, max, &e); CHECK ((d == NULL) == (e != NULL), "a document or an error");
	m = want (w, b, n, out); if (m < 0) { CHECK (d == NULL, "undefined bytes are refused"); sym_reach ("undefined"); }
	else { int s = -1; const char * t; CHECK (d != NULL, "accepted"); t = axl_node_get_content (axl_doc_get_root (d), &s); CHECK (s == m + 2 && t[0] == 'x' && ! memcmp (t + 1, out, m) && t[m + 1] == 'y' && t[m + 2] == 0, "each byte gives the character of the standard"); sym_reach ("decoded"); }
	axl_doc_free (d); axl_error_free (e); axl_babel_finish (); HEAP_CHECK; sym_reach ("end"); (void) len;
}
void enc_places (int w, int how, int max) {
	char p[200], out[16]; unsigned char b; int k, m; axlDoc * d; axlError * e = NULL; axlNode * r; HEAP_MARK; axl_babel_init (NULL); b = sym_u8 ("byte"); plain (b); sym_assume (b != ' ' && b != 'k' && b != '=' && b != '/' && b != '-' && b != '?' && b != 0x7f && b != '"');
	k = sprintf (p, "<?xml version=\"1.0\" encoding=\"iso_8859-%d\"?><!--", iso_k[w]); p[k++] = b; k += sprintf (p + k, "--><a"); p[k++] = b; k += sprintf (p + k, " k='"); p[k++] = b; k += sprintf (p + k, "' "); p[k++] = b; k += sprintf (p + k, "='1'><!--"); p[k++] = b; k += sprintf (p + k, "--><![CDATA["); p[k++] = b; k += sprintf (p + k, "]]></a"); p[k++] = b; k += sprintf (p + k, ">");
	if (how == 3) max = sym_pick (1, k - 1, "first read");
	d = read_ (p, k, how, max, &e); m = want (w, &b, 1, out + 1); if (m < 0) { CHECK (d == NULL && e != NULL, "undefined bytes are refused"); sym_reach ("undefined"); }
	else { axlItem * it; CHECK (d != NULL && e == NULL, "accepted"); r = axl_doc_get_root (d); out[0] = 'a'; CHECK (str_eq (axl_node_get_name (r), out), "name"); CHECK (str_eq (axl_node_get_attribute_value (r, "k"), out + 1), "value"); CHECK (str_eq (axl_node_get_attribute_value (r, out + 1), "1"), "attribute name"); it = axl_item_get_first_child (r); CHECK (str_eq (axl_item_get_content (it, NULL), out + 1), "comment"); it = axl_item_get_next (it); CHECK (str_eq (axl_item_get_content (it, NULL), out + 1), "CDATA"); CHECK (str_eq (axl_doc_get_encoding (d), "utf-8"), "now in UTF-8"); sym_reach ("decoded"); }
	axl_doc_free (d); axl_error_free (e); axl_babel_finish (); HEAP_CHECK; sym_reach ("end");
}
/* long texts: n bytes of filling that grow when decoded, arbitrary bytes around internal boundaries */
void enc_big (int w, int fill, int lo, int hi, int how, int max) {
	static char p[30000], out[80000]; unsigned char b[2]; int k, i, m, n = sym_pick (lo, hi, "length"), s = -1, h; char f[4]; int fk; axlDoc * d; axlError * e = NULL; const char * t; HEAP_MARK; axl_babel_init (NULL);
	h = k = sprintf (p, "<?xml version='1.0' encoding='iso-8859-%d'?><a>", iso_k[w]); fk = put8 (f, code (w, fill)); for (i = 0, m = 0; i < n; i++) { p[k++] = fill; memcpy (out + m, f, fk); m += fk; }
	for (i = 0; i < 2; i++) { b[i] = sym_u8 ("byte"); sym_assume ((b[i] >= 0xe1) & (b[i] <= 0xe2)); p[k++] = b[i]; } i = want (w, b, 2, out + m); CHECK (i > 0, "defined"); m += i; k += sprintf (p + k, "<b/>z</a>");
	d = read_ (p, k, how, max, &e); CHECK (d != NULL && e == NULL, "accepted"); t = axl_node_get_content (axl_doc_get_root (d), &s); CHECK (s == m && ! memcmp (t, out, m), "decoded"); CHECK (str_eq (axl_item_get_content (axl_item_get_last_child (axl_doc_get_root (d)), NULL), "z"), "nothing lost at the end");
	axl_doc_free (d); axl_babel_finish (); HEAP_CHECK; sym_reach ("end"); (void) h;
}
/* many elements in a long file */
void enc_many (int w, int lo, int hi, int how, int max) {
	static char p[30000]; int k, i, n = sym_pick (lo, hi, "length"), c; axlDoc * d; axlError * e = NULL; axlNode * x; char f[8]; int b = sym_range (0xe1, 0xe3, "byte"); HEAP_MARK; axl_babel_init (NULL);
	k = sprintf (p, "<?xml version='1.0' encoding='iso-8859-%d'?><a>", iso_k[w]); for (i = 0; i < n; i++) p[k++] = 'x'; for (i = 0; i < 900; i++) { memcpy (p + k, "<b>\xe9_</b>", 9); p[k + 4] = b; k += 9; } k += sprintf (p + k, "</a>");
	d = read_ (p, k, how, max, &e); CHECK (d != NULL && e == NULL, "accepted"); i = put8 (f, code (w, 0xe9)); f[i + put8 (f + i, sym_concretize (code (w, b)))] = 0; c = 0; for (x = axl_node_get_first_child (axl_doc_get_root (d)); x; x = axl_node_get_next (x)) { const char * t = axl_node_get_content (x, NULL); CHECK (str_eq (t, f), "decoded"); c++; } CHECK (c == 900, "every element");
	axl_doc_free (d); axl_babel_finish (); HEAP_CHECK; sym_reach ("end");
}
/* UTF-8 validation of any bytes */
void utf8_any (int n) {
	char * p; int i = 0, k, r, at = -7; n = sym_pick (0, n, "length"); p = malloc (n + 1); sym_bytes (p, n, "text"); while (i < n && (k = ulen ((unsigned char *) p + i, n - i)) > 0) i += k;
	r = axl_babel_check_utf8_content (p, n, &at); CHECK (!! r == (i == n), "accepted if and only if valid"); CHECK (at == (i == n ? 0 : i), "position of the first invalid character"); CHECK (!! axl_babel_check_utf8_content (p, n, NULL) == !! r, "without position");
	for (k = 0; k < n && p[k]; k++) ; if (k == n) { p[n] = 0; CHECK (!! axl_babel_check_utf8_content (p, -1, &at) == !! r, "terminated text"); } free (p); sym_reach ("end"); if (r && n == 4) sym_reach ("valid");
}
static const char * const head[] = { "", "<?xml version='1.0' ?>", "<?xml version='1.0' encoding='utf-8'?>", "\xEF\xBB\xBF", "\xEF\xBB\xBF<?xml version=\"1.0\" encoding=\"UTF-8\" ?>", " \n", "<?xml version='1.0' encoding='UTF8' standalone='yes' ?>\n" };
/* documents in UTF-8, with text of any bytes */
void utf8_doc (int which, int n, int how, int max) {
	char p[120]; int k, i = 0, at, j; axlDoc * d; axlError * e = NULL; HEAP_MARK; axl_babel_init (NULL); k = sprintf (p, "%s<a>", head[which]); at = k; for (i = 0; i < n; i++) { int b = sym_u8 ("byte"); plain (b); p[k++] = b; } k += sprintf (p + k, "</a>");
	if (how == 3) max = sym_pick (1, k - 1, "first read"); if (how == 2 && max == 0) max = sym_pick (1, 5, "reads of");
	d = read_ (p, k, how, max, &e); CHECK ((d == NULL) == (e != NULL), "a document or an error"); i = 0; while (i < n && (j = ulen ((unsigned char *) p + at + i, k - at - i)) > 0) i += j;
	CHECK ((d != NULL) == (i == n), "accepted if and only if valid"); if (d) { int s = -1; int blank = 1; const char * t = axl_node_get_content (axl_doc_get_root (d), &s); for (i = 0; i < n; i++) if (p[at + i] != ' ') blank = 0; if (! blank) CHECK (s == n && ! memcmp (t, p + at, n), "unchanged"); CHECK (str_eq (axl_doc_get_encoding (d), "utf-8"), "encoding"); sym_reach ("accepted"); }
	axl_doc_free (d); axl_error_free (e); axl_babel_finish (); HEAP_CHECK; sym_reach ("end");
}
/* the same far into a file, around the boundary of a read, or after the root */
void utf8_big (int lo, int hi, int n, int how, int max) {
	static char p[20000]; int k, i, at, j, len = sym_pick (lo, hi, "length"); axlDoc * d; axlError * e = NULL; HEAP_MARK; axl_babel_init (NULL); k = sprintf (p, "<a>"); while (k < len) p[k++] = 'x'; at = k; for (i = 0; i < n; i++) { int b = sym_u8 ("byte"); sym_assume (b >= 0x80); p[k++] = b; } p[k++] = 'q'; k += sprintf (p + k, "<b/>z</a>");
	d = read_ (p, k, how, max, &e); CHECK ((d == NULL) == (e != NULL), "a document or an error"); i = 0; while (i < n && (j = ulen ((unsigned char *) p + at + i, k - at - i)) > 0) i += j;
	CHECK ((d != NULL) == (i == n), "accepted if and only if valid"); if (d) { int s = -1; const char * t = axl_node_get_content (axl_doc_get_root (d), &s); CHECK (s == at - 3 + n + 1 && ! memcmp (t, p + 3, s), "unchanged"); sym_reach ("accepted"); }
	axl_doc_free (d); axl_error_free (e); axl_babel_finish (); HEAP_CHECK; sym_reach ("end");
}
void utf8_tail (int which, int how, int max) {
	char p[80]; int k, i; axlDoc * d; axlError * e = NULL; HEAP_MARK; axl_babel_init (NULL); k = sprintf (p, "%s<a/>", head[which]); p[k++] = '<'; p[k++] = '!'; p[k++] = '-'; p[k++] = '-'; i = sym_u8 ("byte"); plain (i); p[k++] = i; k += sprintf (p + k, "x-->"); if (how == 3) max = sym_pick (1, k - 1, "first read"); d = read_ (p, k, how, max, &e); CHECK ((d != NULL) == (i < 128) && (e == NULL) == (i < 128), "text after the root is checked as well"); axl_doc_free (d); axl_error_free (e); axl_babel_finish (); HEAP_CHECK; sym_reach ("end");
}
/* any short input: a document or an error, never neither */
void enc_any (int n, int how) { char * p; axlDoc * d; axlError * e = NULL; HEAP_MARK; axl_babel_init (NULL); n = sym_pick (1, n, "length"); p = malloc (n); sym_bytes (p, n, "document"); d = read_ (p, n, how, 2, &e); CHECK ((d == NULL) == (e != NULL), "a document or an error"); if (e) { CHECK (axl_error_get_code (e) != 0 && axl_error_get (e) != NULL, "explained"); } if (d) { int i, j; for (i = 0; i < n && (j = ulen ((unsigned char *) p + i, n - i)) > 0; i += j) ; CHECK (i == n, "only valid UTF-8 is accepted"); sym_reach ("accepted"); } axl_doc_free (d); axl_error_free (e); free (p); axl_babel_finish (); HEAP_CHECK; sym_reach ("end"); }
/* spelling of the encoding name */
void enc_names (void) {
	static const char * const nm[] = { "iso-8859-15", "ISO-8859-15", "ISO_8859-15", "iso8859-15", "ISO885915", "Iso-8859_15" }; char p[90]; int k; axlDoc * d; HEAP_MARK; axl_babel_init (NULL); k = sprintf (p, "<?xml version='1.0' encoding='%s'?><a>\xa4</a>", nm[sym_pick (0, 5, "name")]); d = axl_doc_parse (p, k, NULL); CHECK (d != NULL && str_eq (axl_node_get_content (axl_doc_get_root (d), NULL), "\xe2\x82\xac"), "euro sign"); axl_doc_free (d);
	axl_babel_finish (); d = axl_doc_parse (p, k, NULL); CHECK (d != NULL && str_eq (axl_node_get_content (axl_doc_get_root (d), NULL), "\xa4"), "nothing is decoded without encoding support"); axl_doc_free (d); HEAP_CHECK; sym_reach ("end");
}
