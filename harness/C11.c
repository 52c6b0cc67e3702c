/* equality and copies */
#include "parse.h"
#include "same.h"
static int ws (int c) { return c == ' ' || c == '\t' || c == '\r' || c == '\n'; }
static int loose_text (const char * s, int n, const char * t, int m) { while (n && ws (s[n - 1])) n--; while (m && ws (t[m - 1])) m--; while (n && ws (*s)) { s++; n--; } while (m && ws (*t)) { t++; m--; } return n == m && ! memcmp (s, t, n); }
static int trimmed_same (axlNode * a, axlNode * b) {
	axlItem * x, * y; int n, m;
	if (strcmp (axl_node_get_name (a), axl_node_get_name (b)) || ! same_attrs (a, b)) return 0;
	for (x = axl_item_get_first_child (a), y = axl_item_get_first_child (b); x != NULL && y != NULL; x = axl_item_get_next (x), y = axl_item_get_next (y)) {
		if (axl_item_get_type (x) != axl_item_get_type (y)) return 0;
		switch (axl_item_get_type (x)) {
		case ITEM_NODE: if (! trimmed_same (axl_item_get_data (x), axl_item_get_data (y))) return 0; break;
		case ITEM_PI: if (! str_eq (axl_pi_get_name (axl_item_get_data (x)), axl_pi_get_name (axl_item_get_data (y))) || ! str_eq (axl_pi_get_content (axl_item_get_data (x)), axl_pi_get_content (axl_item_get_data (y)))) return 0; break;
		default: { char * s = axl_item_get_content (x, &n), * t = axl_item_get_content (y, &m); if (! loose_text (s, n, t, m)) return 0; }
		}
	}
	return x == NULL && y == NULL;
}
static void full (axlDoc * a, axlDoc * b, axl_bool trim, int want) {
	axlError * e = NULL; int r = !! axl_doc_are_equal_full (a, b, trim, &e); CHECK (r == want, "equality with error report"); CHECK ((e == NULL) == r, "a difference is explained, and only a difference"); if (e) { CHECK (axl_error_get (e) != NULL, "explanation"); axl_error_free (e); }
	CHECK (!! axl_doc_are_equal_full (a, b, trim, NULL) == want, "equality without error report");
}
static int kids_same (axlNode * a, axlNode * b) { return axl_node_get_child_num (a) == axl_node_get_child_num (b); }
static void nodes (axlNode * a, axlNode * b) {
	axlError * e = NULL; int r = !! axl_node_are_equal (a, b); CHECK (r == !! axl_node_are_equal (b, a), "symmetric on elements"); if (strcmp (axl_node_get_name (a), axl_node_get_name (b)) || ! same_attrs (a, b) || ! kids_same (a, b)) CHECK (! r, "elements that differ"); if (identical (a, b)) CHECK (r, "elements that agree");
	CHECK (!! axl_node_are_equal_full (a, b, &e) == r && (e == NULL) == r, "explained"); if (e) axl_error_free (e);
}
/* children at the same place, one by one (elements are compared without their content) */
static void items (axlNode * a, axlNode * b) {
	axlItem * x, * y; int t, n, m; for (x = axl_item_get_first_child (a), y = axl_item_get_first_child (b); x != NULL && y != NULL; x = axl_item_get_next (x), y = axl_item_get_next (y)) {
		if (axl_item_get_type (x) == ITEM_NODE && axl_item_get_type (y) == ITEM_NODE) { CHECK (!! axl_item_are_equal (x, y, axl_false) == !! axl_node_are_equal (axl_item_get_data (x), axl_item_get_data (y)), "items compared as their elements"); continue; }
		if (axl_item_get_type (x) != axl_item_get_type (y)) { CHECK (! axl_item_are_equal (x, y, axl_false) && ! axl_item_are_equal (y, x, axl_true), "items of different types differ"); continue; }
		if (axl_item_get_type (x) == ITEM_PI) { t = str_eq (axl_pi_get_name (axl_item_get_data (x)), axl_pi_get_name (axl_item_get_data (y))) && str_eq (axl_pi_get_content (axl_item_get_data (x)), axl_pi_get_content (axl_item_get_data (y))); CHECK (!! axl_item_are_equal (x, y, axl_false) == t && !! axl_item_are_equal (y, x, axl_true) == t, "instructions"); continue; }
		{ char * p = axl_item_get_content (x, &n), * q = axl_item_get_content (y, &m); CHECK (!! axl_item_are_equal (x, y, axl_false) == (n == m && ! memcmp (p, q, n)), "texts compared exactly"); CHECK (!! axl_item_are_equal (y, x, axl_true) == loose_text (p, n, q, m), "texts compared without surrounding white space"); }
	}
}
static void decide (axlDoc * a, axlDoc * b) {
	int same = identical (axl_doc_get_root (a), axl_doc_get_root (b)), loose = trimmed_same (axl_doc_get_root (a), axl_doc_get_root (b));
	CHECK (!! axl_doc_are_equal (a, b) == same && !! axl_doc_are_equal (b, a) == same, "equal exactly when the same");
	CHECK (!! axl_doc_are_equal_trimmed (a, b) == loose && !! axl_doc_are_equal_trimmed (b, a) == loose, "trimmed comparison ignores only surrounding white space");
	items (axl_doc_get_root (a), axl_doc_get_root (b));
	full (a, b, axl_false, same); full (b, a, axl_true, loose); nodes (axl_doc_get_root (a), axl_doc_get_root (b));
}
static axlDoc * copy_of (axlDoc * d) { axlDoc * c = axl_doc_create (NULL, NULL, axl_false); axl_doc_set_root (c, axl_node_copy (axl_doc_get_root (d), axl_true, axl_true)); return c; }
/* a document against itself, its copy and an edited copy */
static void alone (axlDoc * d, int change) {
	axlDoc * c = copy_of (d), * c2; axlNode * r = axl_doc_get_root (c), * x; char * s; int n;
	CHECK (axl_doc_are_equal (d, d) && axl_doc_are_equal_trimmed (d, d), "equal to itself"); CHECK (identical (axl_doc_get_root (d), r), "the copy has everything"); decide (d, c); c2 = copy_of (c); CHECK (axl_doc_dump (d, &s, &n), "dump");
	switch (change) {
	case 0: axl_node_set_name (r, "other"); break;
	case 1: axl_node_set_attribute (r, "new", ""); break;
	case 2: axl_node_set_content (r, "z", 1); break;
	case 3: axl_node_set_comment (r, "z", 1); break;
	case 4: axl_node_add_pi_target (r, "z", NULL); break;
	case 5: axl_node_set_child (r, axl_node_create ("z")); break;
	case 6: axl_node_set_cdata_content (r, "z", 1); break;
	case 7: x = axl_node_get_first_child (r); if (x == NULL) sym_prune (); axl_node_remove (x, axl_true); break;
	case 8: { axlItem * it = axl_item_get_last_child (r); if (it == NULL) sym_prune (); axl_item_remove (it, axl_true); break; }
	case 9: { axlItem * it = axl_item_get_first_child (r); int k; if (it == NULL || axl_item_get_type (it) != ITEM_CONTENT) sym_prune (); if (axl_item_get_content (it, &k) == NULL || k == 0) sym_prune (); axl_item_get_content (it, &k)[0] ^= 1; break; }
	case 10: x = axl_node_get_first_child (r); if (x == NULL) sym_prune (); axl_node_set_attribute (x, "new", "v"); break;
	case 11: { axlAttrCursor * k = axl_node_attr_cursor_new (r); if (! axl_node_attr_cursor_has_item (k)) sym_prune (); { char * key = axl_strdup (axl_node_attr_cursor_get_key (k)); axl_node_attr_cursor_free (k); axl_node_remove_attribute (r, key); axl_free (key); } break; }
	}
	CHECK (! axl_doc_are_equal (d, c) && ! axl_doc_are_equal (c, d) && ! axl_doc_are_equal_trimmed (d, c), "a changed copy is different"); decide (d, c); decide (d, c2);
	axl_doc_free (c); { char * t; int m; CHECK (axl_doc_dump (d, &t, &m) && n == m && ! memcmp (s, t, n), "the original is unaffected"); axl_free (t); } CHECK (axl_doc_are_equal (d, c2), "the other copy is unaffected"); axl_free (s);
	axl_doc_free (d); axl_node_get_name (axl_doc_get_root (c2)); CHECK (axl_doc_dump (c2, &s, &n), "the copy outlives the original"); axl_free (s); axl_doc_free (c2);
}
void eq_self_templ (int i) { int n; HEAP_MARK; char * p = input (i < 36 ? templ[i] : moret[i - 36], &n); axlDoc * d = axl_doc_parse (p, n, NULL); if (d) { alone (d, sym_pick (0, 11, "change")); sym_reach ("end"); } free (p); HEAP_CHECK; }
void eq_self_pieces (int k, int first) { int n; HEAP_MARK; char * p = pieces_doc (k, first, &n); axlDoc * d = axl_doc_parse (p, n, NULL); if (d) { alone (d, sym_pick (0, 11, "change")); sym_reach ("end"); } free (p); HEAP_CHECK; }
void eq_self_rich (int lo, int hi, int k) { int n; HEAP_MARK; char * p = mutant (lo, hi, k, &n); axlDoc * d = axl_doc_parse (p, n, NULL); if (d) { alone (d, sym_pick (0, 11, "change")); sym_reach ("end"); } free (p); HEAP_CHECK; }
/* two documents */
static void two (char * p, int n, char * q, int m) { axlDoc * a, * b; int i; HEAP_MARK; for (i = 0; i < n; i++) sym_assume (p[i] != 0); for (i = 0; i < m; i++) sym_assume (q[i] != 0); a = axl_doc_parse (p, n, NULL); if (! a) sym_prune (); b = axl_doc_parse (q, m, NULL); if (! b) sym_prune (); decide (a, b); axl_doc_free (a); axl_doc_free (b); HEAP_CHECK; free (p); free (q); sym_reach ("end"); }
void eq_pair_rich (int lo, int hi, int k) { int n; char * p = mutant (lo, hi, k, &n), * q = exact (rich, n); two (p, n, q, n); }
void eq_pair_pieces (int k, int first) { int n, m; char * p = pieces_doc (k, first, &n), * q = pieces_doc (k, -1, &m); two (p, n, q, m); }
static const char * const pairt[] = { "<a>@@</a>", "<a b='@' c='@'/>", "<a @='1' @='2'/>", "<@><@/></@>", "<a><b/>@@<c/></a>", "<a><![CDATA[@@]]></a>", "<a><!--@@--></a>", "<a><?@ @@?></a>", "<a><b>@</b>@</a>", "<a xml:space='preserve'>@@<b/>@</a>", "<a><@>@</@><@/></a>", "<a><b c='@'><d>@</d></b></a>", "<a>&@t;@</a>" };
void eq_pair_templ (int i) { int n, m; char * p = input (pairt[i], &n), * q = input (pairt[i], &m); two (p, n, q, m); }
/* different attribute counts and values in both representations */
void eq_attrs (int lo, int hi) {
	int k = sym_pick (lo, hi, "attributes"), w = sym_pick (0, k - 1, "which"), how = sym_pick (0, 4, "difference"), i; axlNode * a = axl_node_create ("a"), * b = axl_node_create ("a"); char key[3] = "ka", v[2] = "v"; axlDoc * d, * e; HEAP_MARK;
	for (i = 0; i < k; i++) { key[1] = 'a' + i; axl_node_set_attribute (a, key, "v"); }
	for (i = k - 1; i >= 0; i--) { v[0] = 'v'; key[1] = 'a' + i; if (i == w) { if (how == 1) { v[0] = sym_range ('a', 'z', "value"); } if (how == 2) continue; if (how == 3) key[1] = sym_pick ('A', 'C', "other name"); } axl_node_set_attribute (b, key, v); }
	if (how == 4) axl_node_set_attribute (b, "extra", "v");
	d = axl_doc_create (NULL, NULL, axl_false); e = axl_doc_create (NULL, NULL, axl_false); axl_doc_set_root (d, a); axl_doc_set_root (e, b); decide (d, e); CHECK (!! axl_doc_are_equal (d, e) == (how == 0 || (how == 1 && axl_node_has_attribute_value (b, (key[1] = 'a' + w, key), "v"))), "attributes decide"); axl_doc_free (d); axl_doc_free (e); sym_reach ("end"); (void) heap_mark_;
}
/* no root, no document */
void eq_null (void) {
	axlDoc * a = axl_doc_create (NULL, NULL, axl_false), * b = axl_doc_parse ("<a/>", -1, NULL); axlError * e = NULL;
	CHECK (! axl_doc_are_equal (a, b) && ! axl_doc_are_equal (b, a) && ! axl_doc_are_equal_trimmed (a, b), "without root"); CHECK (! axl_doc_are_equal_full (a, b, axl_false, &e) && e != NULL, "explained"); axl_error_free (e); CHECK (! axl_doc_are_equal (NULL, b) && ! axl_doc_are_equal (b, NULL), "no document");
	CHECK (! axl_node_are_equal (NULL, axl_doc_get_root (b)) && ! axl_node_are_equal (axl_doc_get_root (b), NULL), "no element"); CHECK (axl_doc_are_equal (a, a), "equal to itself");
	axl_doc_free (a); axl_doc_free (b); sym_reach ("end");
}
/* partial copies */
void eq_copy_parts (int i) {
	int n; HEAP_MARK; char * p = input (moret[i], &n); axlDoc * d = axl_doc_parse (p, n, NULL); axlNode * r, * c; if (! d) sym_prune (); r = axl_doc_get_root (d);
	c = axl_node_copy (r, axl_true, axl_false); CHECK (axl_item_get_first_child (c) == NULL && same_attrs (r, c) && str_eq (axl_node_get_name (r), axl_node_get_name (c)) && axl_node_get_parent (c) == NULL, "attributes only"); axl_node_free (c);
	c = axl_node_copy (r, axl_false, axl_true); CHECK (! axl_node_has_attributes (c) && axl_node_get_child_num (c) == axl_node_get_child_num (r), "children only"); axl_node_free (c);
	axl_doc_free (d); free (p); HEAP_CHECK; sym_reach ("end");
}
/* a processing instruction by itself */
static char * text_ (int lo, int hi, const char * nm) { int n = sym_pick (lo, hi, nm), i; char * s = malloc (n + 1); for (i = 0; i < n; i++) { s[i] = sym_u8 (nm); sym_assume (s[i] != 0); } s[n] = 0; return s; }
void pi_alone (int max) {
	char * a = text_ (1, max, "name"), * b = text_ (1, max, "other name"), * x = sym_pick (0, 1, "content") ? text_ (0, max, "text") : NULL, * y = sym_pick (0, 1, "other content") ? text_ (0, max, "other text") : NULL; axlPI * p, * q, * c; HEAP_MARK;
	p = axl_pi_create (a, x); q = axl_pi_create (b, y); c = axl_pi_copy (p); CHECK (p && q && c && c != p, "created"); CHECK (str_eq (axl_pi_get_name (p), a) && str_eq (axl_pi_get_content (p), x) && str_eq (axl_pi_get_name (c), a) && str_eq (axl_pi_get_content (c), x), "name and content, also in the copy");
	CHECK (axl_pi_get_name (p) != a && axl_pi_get_name (c) != axl_pi_get_name (p) && (x == NULL || axl_pi_get_content (c) != axl_pi_get_content (p)), "the copy has its own text"); CHECK (axl_pi_get_size (p) == (int) strlen (a) + 4 + (x ? (int) strlen (x) + 1 : 0), "size");
	CHECK (!! axl_pi_are_equal (p, q) == (str_eq (a, b) && str_eq (x, y)) && !! axl_pi_are_equal (q, p) == !! axl_pi_are_equal (p, q) && axl_pi_are_equal (p, c), "equal exactly when the same");
	axl_pi_free (p); CHECK (str_eq (axl_pi_get_name (c), a) && str_eq (axl_pi_get_content (c), x), "the copy stays"); axl_pi_free (c); axl_pi_free (q); HEAP_CHECK; free (a); free (b); free (x); free (y); sym_reach ("end");
}
/* items copied one by one */
void item_copies (int which) {
	int n; char * p = which < 28 ? input (moret[which], &n) : input (templ[which - 28], &n); int i; axlDoc * d; HEAP_MARK; for (i = 0; i < n; i++) sym_assume (p[i] != 0);
	d = axl_doc_parse (p, n, NULL); if (d != NULL) {
		axlItem * it; axlNode * r = axl_doc_get_root (d), * to = axl_node_copy (r, axl_true, axl_false); int k = 0;
		for (it = axl_item_get_first_child (r); it; it = axl_item_get_next (it)) { axlItem * c = axl_item_copy (it, to); CHECK (c != NULL && axl_item_get_type (c) == axl_item_get_type (it) && axl_item_get_parent (c) == to && axl_item_get_next (c) == NULL && axl_item_get_previous (c) == NULL, "a separate item for the given parent"); CHECK (axl_item_are_equal (it, c, axl_false) && axl_item_are_equal (c, it, axl_true), "equal to what was copied"); axl_item_set_child_ref (to, c); k++; }
		CHECK (identical (r, to), "the copies have everything"); axl_doc_free (d); for (it = axl_item_get_first_child (to); it; it = axl_item_get_next (it)) k--; CHECK (k == 0, "as many copies"); axl_node_free (to); sym_reach ("copied");
	}
	free (p); heap_mark_--; HEAP_CHECK; sym_reach ("end");
}
/* one large dimension: a document and the same with one byte changed somewhere */
void eq_scale (int kind, int lo, int hi) { int n, k = scale_of[sym_pick (lo, hi, "size")], at; char * p = scale_doc (kind, k, &n), * q; axlDoc * a, * b; HEAP_MARK; heap_mark_--; a = axl_doc_parse (p, n, NULL); CHECK (a != NULL, "accepted"); q = exact (p, n); at = sym_pick (0, 3, "changed"); if (at < 3) { at = at == 0 ? n / 3 : at == 1 ? n / 2 : n - 7; q[at] = q[at] == 'y' ? 'q' : 'y'; } b = axl_doc_parse (q, n, NULL); if (b == NULL) sym_prune (); decide (a, b); if (at == 3) CHECK (axl_doc_are_equal (a, b), "the same text"); axl_doc_free (b); b = copy_of (a); decide (a, b); axl_doc_free (b); axl_doc_free (a); free (p); free (q); HEAP_CHECK; sym_reach ("end"); }
