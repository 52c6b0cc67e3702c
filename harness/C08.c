/* escaping is lossless */
#include "same.h"
static void any (char * b, int n) { int i; sym_bytes (b, n, "text"); for (i = 0; i < n; i++) sym_assume (b[i] != 0); }
static int ent (const char * s) { return strncmp (s, "lt;", 3) == 0 ? 1 : strncmp (s, "gt;", 3) == 0 ? 1 : strncmp (s, "amp;", 4) == 0 ? 1 : strncmp (s, "apos;", 5) == 0 ? 1 : strncmp (s, "quot;", 5) == 0; }
static void clean (const char * s) { int i; for (i = 0; s[i]; i++) { CHECK (s[i] != '<' && s[i] != '>' && s[i] != '\'' && s[i] != '"', "no raw markup in the stored form"); if (s[i] == '&') CHECK (ent (s + i + 1), "no raw & in the stored form"); } }
static void expect (axlNode * n, const char * t, int k) { int size = -3; char * s = axl_node_get_content_trans (n, &size); if (k == 0) { CHECK (s == NULL || *s == 0, "empty"); axl_free (s); return; } CHECK (s != NULL && size == k && memcmp (s, t, k) == 0 && s[k] == 0, "text read back unchanged"); axl_free (s); s = axl_node_get_content_trans (n, NULL); CHECK (s != NULL && (int) strlen (s) == k && memcmp (s, t, k) == 0, "text read back unchanged without asking for the size"); axl_free (s); }
/* serialise and parse a node under a document */
static axlDoc * again (axlNode * n, axlDoc * d) { char * s; int k; axlDoc * d2; axlError * e = NULL; (void) n; CHECK (axl_doc_dump (d, &s, &k) && k == (int) strlen (s) && k == axl_doc_get_flat_size (d), "serialised"); d2 = axl_doc_parse (s, k, &e); CHECK (d2 != NULL && e == NULL, "the serialised text can be parsed"); axl_free (s); return d2; }
void esc_content (int n, int cdata) {
	int size, k = sym_pick (0, n, "length"), how = sym_pick (0, 1, "explicit size"); char * t = malloc (k + 1), * q; axlDoc * d, * d2; axlNode * r, * c; const char * s; HEAP_MARK; any (t, k); t[k] = 0;
	d = axl_doc_create (NULL, NULL, axl_false); r = axl_node_create ("a"); axl_doc_set_root (d, r); axl_node_set_attribute (r, "xml:space", "preserve");
	q = how ? exact (t, k) : t; if (cdata) axl_node_set_cdata_content (r, q, how ? k : -1); else axl_node_set_content (r, q, how ? k : -1); if (how) free (q);
	expect (r, t, k); s = axl_node_get_content (r, &size); CHECK (size == (int) strlen (s), "stored size"); if (! cdata) clean (s);
	c = axl_node_copy (r, axl_true, axl_true); expect (c, t, k); axl_node_free (c);
	d2 = again (r, d); expect (axl_doc_get_root (d2), t, k); axl_doc_free (d); d = again (NULL, d2); expect (axl_doc_get_root (d), t, k);
	axl_doc_free (d); axl_doc_free (d2); free (t); heap_mark_--; HEAP_CHECK; sym_reach ("end");
}
/* an explicit size stops before the text does */
void esc_part (int n, int cdata) {
	char * t = malloc (n + 1); int k = sym_pick (0, n, "size"); axlNode * r = axl_node_create ("a"); any (t, n); t[n] = 0;
	if (cdata) axl_node_set_cdata_content (r, t, k); else axl_node_set_content (r, t, k);
	expect (r, t, k); axl_node_free (r); free (t); sym_reach ("end");
}
/* several pieces in a row */
void esc_pieces (int n) {
	char t[32]; int i; axlDoc * d = axl_doc_create (NULL, NULL, axl_false), * d2; axlNode * r = axl_node_create ("a"); axl_doc_set_root (d, r); axl_node_set_attribute (r, "xml:space", "preserve"); any (t, n); t[n] = 0;
	for (i = 0; i < n; i++) if (sym_pick (0, 1, "cdata")) axl_node_set_cdata_content (r, t + i, 1); else axl_node_set_content (r, t + i, 1);
	expect (r, t, n); d2 = again (r, d); expect (axl_doc_get_root (d2), t, n); axl_doc_free (d); axl_doc_free (d2); sym_reach ("end");
}
static void attr (axlNode * n, const char * key, const char * t) { char * s = axl_node_get_attribute_value_trans (n, key); CHECK (s != NULL && ! strcmp (s, t), "attribute value read back unchanged"); axl_free (s); }
void esc_attr (int n) {
	int k = sym_pick (0, n, "length"); char * t = malloc (k + 1); axlDoc * d, * d2; axlNode * r, * c; HEAP_MARK; any (t, k); t[k] = 0;
	d = axl_doc_create (NULL, NULL, axl_false); r = axl_node_create ("a"); axl_doc_set_root (d, r); axl_node_set_attribute (r, "first", "x"); axl_node_set_attribute (r, "k", t);
	attr (r, "k", t); clean (axl_node_get_attribute_value (r, "k")); c = axl_node_copy (r, axl_true, axl_true); attr (c, "k", t); axl_node_free (c);
	d2 = again (r, d); attr (axl_doc_get_root (d2), "k", t); axl_doc_free (d); d = again (NULL, d2); attr (axl_doc_get_root (d), "k", t);
	axl_doc_free (d); axl_doc_free (d2); free (t); heap_mark_--; HEAP_CHECK; sym_reach ("end");
}
/* a value with an entity survives every modification of its element unchanged */
void esc_once (int lo, int hi, int steps) {
	int k = sym_pick (lo, hi, "attributes"), i, left; char doc[400], key[3] = "ka", v[3]; static const char * const val[] = { "&lt;", "&amp;", "&apos;", "&quot;", "a" }; int w = sym_pick (0, 4, "value"), n; axlDoc * d, * d2; axlNode * r, * c; HEAP_MARK;
	n = sprintf (doc, "<r z='%s'", val[w]); for (i = 0; i < k; i++) { key[1] = 'a' + i; n += sprintf (doc + n, " %s='%s'", key, val[w]); } n += sprintf (doc + n, ">%s</r>", val[w]);
	d = axl_doc_parse (doc, n, NULL); CHECK (d != NULL, "accepted"); r = axl_doc_get_root (d); left = k;
	for (i = 0; i < steps; i++) switch (sym_pick (0, 3, "step")) {
	case 0: if (left) { left--; key[1] = 'a' + left; axl_node_remove_attribute (r, key); CHECK (! axl_node_has_attribute (r, key), "removed"); } break;
	case 1: key[1] = 'a' + left; left++; axl_node_set_attribute (r, key, "<"); axl_node_remove_attribute (r, key); left--; break;
	case 2: axl_node_set_name (r, "renamed"); break;
	case 3: c = axl_node_copy (r, axl_true, axl_true); axl_node_replace (r, c, axl_true); r = c; break;
	}
	CHECK (axl_node_num_attributes (r) == left + 1, "count"); CHECK (axl_node_has_attribute_value (r, "z", val[w]), "value from the document unchanged"); for (i = 0; i < left; i++) { key[1] = 'a' + i; CHECK (axl_node_has_attribute_value (r, key, val[w]), "value from the document unchanged"); }
	CHECK (! strcmp (axl_node_get_content (r, &n), val[w]), "text from the document unchanged");
	d2 = again (r, d); CHECK (axl_node_has_attribute_value (axl_doc_get_root (d2), "z", val[w]), "not escaped again"); CHECK (! strcmp (axl_node_get_content (axl_doc_get_root (d2), NULL), val[w]), "text not escaped again"); axl_doc_free (d2);
	axl_doc_free (d); HEAP_CHECK; sym_reach ("end");
}
/* the public helpers */
void esc_helpers (int n) {
	int k = sym_pick (0, n, "length"), add = -9, size; char * t = exact ("", 0), * s, * q; free (t); t = malloc (k + 1); any (t, k); t[k] = 0; q = exact (t, k);
	{ int i, bad = 0, want = 0; for (i = 0; i < k; i++) { if (t[i] == '<' || t[i] == '>') { bad = 1; want += 3; } if (t[i] == '&') { bad = 1; want += 4; } if (t[i] == '\'' || t[i] == '"') { bad = 1; want += 5; } }
	CHECK (!! axl_node_has_invalid_chars (q, k, &add) == bad && add == want, "invalid characters counted"); CHECK (!! axl_node_has_invalid_chars (t, -1, NULL) == bad, "invalid characters detected"); }
	if (k) { s = axl_node_content_copy_and_escape (q, k, add); CHECK ((int) strlen (s) == k + add, "escaped length"); clean (s); size = strlen (s); axl_node_content_translate_defaults (s, &size); CHECK (size == k && ! strcmp (s, t), "translated back"); axl_free (s); }
	free (q); free (t); sym_reach ("end");
}
/* the CDATA helpers: only what would end the section */
void esc_cdata_helpers (int n) {
	int k = sym_pick (0, n, "length"), add = -9, i, bad = 0; char * t = malloc (k + 1), * s, * q; HEAP_MARK; any (t, k); t[k] = 0; q = exact (t, k);
	for (i = 0; i + 2 < k; i++) if (t[i] == ']' && t[i + 1] == ']' && t[i + 2] == '>') bad = 1;
	if (bad) CHECK (axl_node_has_invalid_chars_cdata (q, k, &add) && add > 0 && axl_node_has_invalid_chars_cdata (t, -1, NULL), "the end of a section is detected");
	if (axl_node_has_invalid_chars_cdata (q, k, &add)) { s = axl_node_content_copy_and_escape_cdata (q, k, add); CHECK ((int) strlen (s) == k + add, "escaped length"); { char * w = malloc (strlen (s) + 60); axlDoc * d; sprintf (w, "<a xml:space='preserve'><![CDATA[%s]]></a>", s); d = axl_doc_parse (w, -1, NULL); CHECK (d != NULL, "a section with the escaped form can be parsed"); expect (axl_doc_get_root (d), t, k); axl_doc_free (d); free (w); } axl_free (s); }
	free (q); heap_mark_--; free (t); HEAP_CHECK; sym_reach ("end");
}
/* copies and the trimmed form of the content */
static int wsp (int c) { return c == ' ' || c == '\t' || c == '\n' || c == '\r'; }
void esc_copies (int n, int kind) {
	int k = sym_pick (0, n, "length"), a, b, size = -4, size2 = -4, trimmed; char * t = malloc (k + 1), * u, * s; const char * c; axlNode * r = NULL; HEAP_MARK; r = axl_node_create ("a");
	any (t, k); t[k] = 0; if (kind == 0) axl_node_set_content (r, t, k); else if (kind == 1) axl_node_set_cdata_content (r, t, k); else { for (a = 0; a < k; a++) sym_assume (t[a] != '&' && t[a] != '<' && t[a] != '>' && t[a] != 39 && t[a] != 34); s = malloc (k + 1); memcpy (s, t, k + 1); if (kind == 2) axl_node_set_content_ref (r, s, sym_pick (0, 1, "size") ? k : -1); else axl_node_set_cdata_content (r, s, k), free (s); }
	c = axl_node_get_content (r, &size); u = malloc (size + 1); memcpy (u, c ? c : "", size + 1); if (kind >= 2) CHECK (size == k && ! memcmp (u, t, k + 1), "kept as given");
	s = axl_node_get_content_copy (r, &size2); CHECK (s != NULL && size2 == size && ! memcmp (s, u, size + 1), "copy of the content"); if (size) { s[0] ^= 1; CHECK (! memcmp (axl_node_get_content (r, NULL), u, size + 1), "the copy is independent"); } axl_free (s);
	s = axl_node_get_content_copy (r, NULL); CHECK (s != NULL && ! strcmp (s, u), "copy without size"); axl_free (s);
	for (a = 0; a < size && wsp (u[a]); a++) ; for (b = size; b > a && wsp (u[b - 1]); b--) ; trimmed = b - a;
	c = axl_node_get_content_trim (r, &size2); CHECK (c != NULL && size2 == trimmed && ! memcmp (c, u + a, trimmed) && c[trimmed] == 0, "trimmed content"); c = axl_node_get_content (r, &size2); CHECK (size2 == trimmed && ! memcmp (c ? c : "", u + a, trimmed), "the trimmed content stays"); CHECK (axl_node_get_content_trim (r, NULL) != NULL, "again");
	free (u); axl_node_free (r); HEAP_CHECK; free (t); sym_reach ("end");
}
void esc_copies_none (void) { axlNode * r = axl_node_create ("a"); char * s; int k = -3; HEAP_MARK; s = axl_node_get_content_copy (r, &k); CHECK (s != NULL && *s == 0, "no content"); axl_free (s); s = axl_node_get_content_copy (r, NULL); CHECK (s != NULL && *s == 0, "no content"); axl_free (s); k = -3; CHECK (*axl_node_get_content_trim (r, &k) == 0 && k == 0, "no content"); HEAP_CHECK; axl_node_free (r); sym_reach ("end"); }
/* long texts: filled with one kind of byte, with two arbitrary bytes at the start, in the middle or at the end */
void esc_scale (int what, int lo, int hi) {
	static const char fill[] = "a<&'>\"] "; int k = scale_of[sym_pick (lo, hi, "length")], at = sym_pick (0, 2, "where"), w = sym_pick (0, 7, "filled with"), j; char * t = malloc (k + 1); axlDoc * d, * d2; axlNode * r; HEAP_MARK; memset (t, fill[w], k); if (w == 6) for (j = 2; j < k; j += 3) t[j] = '>'; t[k] = 0;
	j = at == 0 ? 0 : at == 1 ? k / 2 : k - 2; any (t + j, 2);
	d = axl_doc_create (NULL, NULL, axl_false); r = axl_node_create ("a"); axl_doc_set_root (d, r); axl_node_set_attribute (r, "xml:space", "preserve");
	if (what == 0) { axl_node_set_content (r, t, k); expect (r, t, k); } else if (what == 1) { axl_node_set_cdata_content (r, t, k); expect (r, t, k); } else { axl_node_set_attribute (r, "k", t); attr (r, "k", t); clean (axl_node_get_attribute_value (r, "k")); }
	d2 = again (r, d); if (what < 2) expect (axl_doc_get_root (d2), t, k); else attr (axl_doc_get_root (d2), "k", t);
	axl_doc_free (d); axl_doc_free (d2); free (t); heap_mark_--; HEAP_CHECK; sym_reach ("end");
}
