/* attributes behave as a map */
#include "same.h"
#define MAXN 16
typedef struct { char name[MAXN][4]; char value[MAXN][4]; int set[MAXN]; int seen[MAXN]; int n, total, bad, stop; } Map;
static int find (Map * m, const char * s) { int i; for (i = 0; i < m->n; i++) if (! strcmp (m->name[i], s)) return i; return -1; }
static axl_bool each (const char * k, const char * v, axlPointer data, axlPointer data2) {
	Map * m = data; int i = find (m, k); if (i < 0 || ! m->set[i] || strcmp (m->value[i], v) || data2 != (axlPointer) m->name) m->bad = 1; else m->seen[i]++;
	m->total++; return m->stop > 0 && m->total == m->stop;
}
static int count (Map * m) { int i, r = 0; for (i = 0; i < m->n; i++) r += m->set[i]; return r; }
static void once (Map * m) { int i; CHECK (! m->bad, "only attributes that are set, with their value"); for (i = 0; i < m->n; i++) CHECK (m->seen[i] == m->set[i], "each attribute once"); }
static void verify (axlNode * n, Map * m) {
	int i, k = count (m), j; axlAttrCursor * c; char * s;
	CHECK (axl_node_num_attributes (n) == k, "count"); CHECK (!! axl_node_has_attributes (n) == (k > 0), "has attributes");
	for (i = 0; i < m->n; i++) {
		CHECK (!! axl_node_has_attribute (n, m->name[i]) == m->set[i], "presence");
		CHECK (str_eq (axl_node_get_attribute_value (n, m->name[i]), m->set[i] ? m->value[i] : NULL), "value");
		if (m->set[i]) { CHECK (axl_node_has_attribute_value (n, m->name[i], m->value[i]) && ! axl_node_has_attribute_value (n, m->name[i], "other"), "value test"); s = axl_node_get_attribute_value_copy (n, m->name[i]); CHECK (str_eq (s, m->value[i]), "value copy"); axl_free (s); }
		else CHECK (! axl_node_has_attribute_value (n, m->name[i], m->value[i]), "value test on an attribute not set");
	}
	CHECK (! axl_node_has_attribute (n, "nothing") && axl_node_get_attribute_value (n, "nothing") == NULL, "a name never set");
	/* callback, complete and stopped */
	memset (m->seen, 0, sizeof (m->seen)); m->total = m->bad = m->stop = 0; axl_node_attr_foreach (n, each, m, m->name); once (m);
	m->stop = 2; m->total = 0; axl_node_attr_foreach (n, each, m, m->name); CHECK (m->total == (k < 2 ? k : 2), "the callback stops the iteration");
	/* cursor, twice */
	c = axl_node_attr_cursor_new (n); CHECK (c != NULL, "cursor");
	for (j = 0; j < 2; j++) {
		memset (m->seen, 0, sizeof (m->seen)); m->total = m->bad = m->stop = 0; axl_node_attr_cursor_first (c);
		while (axl_node_attr_cursor_has_item (c)) { each (axl_node_attr_cursor_get_key (c), axl_node_attr_cursor_get_value (c), m, m->name); CHECK (!! axl_node_attr_cursor_has_next (c) == (m->total < k), "has next"); CHECK (m->total <= k, "cursor ends"); axl_node_attr_cursor_next (c); }
		CHECK (! axl_node_attr_cursor_has_next (c), "nothing after the end"); once (m);
	}
	axl_node_attr_cursor_free (c);
}
static axlNode * make (int how, int k, Map * m, axlDoc ** d) {
	int i, n; axlNode * r = NULL; char doc[300]; *d = NULL;
	for (i = 0; i < k; i++) { m->set[i] = 1; strcpy (m->value[i], "v"); }
	if (how == 1) { n = sprintf (doc, "<r"); for (i = 0; i < k; i++) n += sprintf (doc + n, " %s='v'", m->name[i]); sprintf (doc + n, "/>"); *d = axl_doc_parse (doc, -1, NULL); CHECK (*d != NULL, "accepted"); return axl_doc_get_root (*d); }
	r = axl_node_create ("r"); for (i = 0; i < k; i++) if (how == 0) axl_node_set_attribute (r, m->name[i], "v"); else axl_node_set_attribute_ref (r, strdup (m->name[i]), strdup ("v"));
	return r;
}
static void step (axlNode * r, Map * m, int i, int kind, const char * v) {
	if (kind < 2) { if (kind == 0) axl_node_set_attribute (r, m->name[i], v); else axl_node_set_attribute_ref (r, strdup (m->name[i]), strdup (v)); if (! m->set[i]) { m->set[i] = 1; strcpy (m->value[i], v); } }
	else { axl_node_remove_attribute (r, m->name[i]); m->set[i] = 0; }
}
static void finish (axlNode * r, axlDoc * d, Map * m) {
	axlNode * c; Map copy;
	verify (r, m); c = axl_node_copy (r, axl_true, axl_false); verify (c, m); CHECK (axl_node_are_equal (r, c) && axl_node_are_equal (c, r), "copy is equal");
	/* independence */
	memcpy (&copy, m, sizeof (copy)); if (m->set[0]) { axl_node_remove_attribute (c, m->name[0]); copy.set[0] = 0; } else { axl_node_set_attribute (c, m->name[0], "n"); copy.set[0] = 1; strcpy (copy.value[0], "n"); }
	verify (c, &copy); verify (r, m); CHECK (! axl_node_are_equal (r, c) && ! axl_node_are_equal (c, r), "different attributes"); axl_node_free (c);
	c = axl_node_copy (r, axl_false, axl_true); CHECK (axl_node_num_attributes (c) == 0 && ! axl_node_has_attributes (c), "copy without attributes"); axl_node_free (c);
	if (d) axl_doc_free (d); else axl_node_free (r);
}
/* lo..hi attributes, then any sequence of steps over those names and two more */
void attr_history (int how, int lo, int hi, int steps) {
	static Map m; int k = sym_pick (lo, hi, "initial"), i; axlDoc * d; axlNode * r; HEAP_MARK;
	memset (&m, 0, sizeof (m)); m.n = k + 2; for (i = 0; i < m.n; i++) sprintf (m.name[i], "k%c", 'a' + i); for (i = 0; i < m.n; i++) strcpy (m.value[i], "v");
	r = make (how, k, &m, &d);
	for (i = 0; i < steps; i++) { int w = sym_pick (0, m.n > 5 ? 4 : m.n - 1, "name"); /* first, second, last, the two new ones */ if (m.n > 5) w = w == 0 ? 0 : w == 1 ? 1 : m.n - (5 - w); step (r, &m, w, sym_pick (0, 2, "step"), i & 1 ? "w" : "z"); }
	finish (r, d, &m); HEAP_CHECK; sym_reach ("end");
}
/* names and values of arbitrary bytes */
void attr_names (int names, int len, int steps) {
	static Map m; int i, j; axlNode * r; char v[3]; HEAP_MARK;
	memset (&m, 0, sizeof (m)); m.n = names;
	for (i = 0; i < names; i++) { sym_bytes (m.name[i], len, "name"); for (j = 0; j < len; j++) { char c = m.name[i][j]; sym_assume (c != '<' && c != '>' && c != '&' && c != '\'' && c != '"'); } sym_assume (m.name[i][0] != 0); for (j = 0; j < i; j++) sym_assume (strcmp (m.name[i], m.name[j]) != 0); }
	r = axl_node_create ("r");
	for (i = 0; i < steps; i++) { sym_bytes (v, 2, "value"); v[2] = 0; for (j = 0; j < 2; j++) sym_assume (v[j] != '<' && v[j] != '>' && v[j] != '&' && v[j] != '\'' && v[j] != '"'); step (r, &m, sym_pick (0, names - 1, "which"), sym_pick (0, 2, "step"), v); }
	finish (r, NULL, &m); HEAP_CHECK; sym_reach ("end");
}
/* names that collide or not in the hashed representation: many attributes plus arbitrary names */
void attr_many (int k, int steps) {
	static Map m; int i; axlDoc * d; axlNode * r; HEAP_MARK;
	memset (&m, 0, sizeof (m)); m.n = k + 2; for (i = 0; i < k; i++) sprintf (m.name[i], "k%c", 'a' + i);
	for (i = k; i < m.n; i++) { m.name[i][0] = 'q'; m.name[i][1] = 'a' + sym_pick (0, 12, "name"); m.name[i][2] = 0; } sym_assume (strcmp (m.name[k], m.name[k + 1]) != 0);
	r = make (0, k, &m, &d);
	for (i = 0; i < steps; i++) step (r, &m, k + sym_pick (0, 1, "which"), sym_pick (0, 1, "remove") * 2, "q");
	for (i = 0; i < k; i += 4) step (r, &m, i, 2, "");
	finish (r, d, &m); HEAP_CHECK; sym_reach ("end");
}
/* the value accessor that trims */
void attr_trim (int n) {
	axlNode * r = axl_node_create ("r"); char * v = malloc (n + 1); int i, a = 0, b; const char * s; sym_bytes (v, n, "value"); v[n] = 0; for (i = 0; i < n; i++) sym_assume (v[i] == ' ' || v[i] == '\t' || v[i] == '\n' || v[i] == '\r' || (v[i] >= 'a' && v[i] <= 'c'));
	axl_node_set_attribute (r, "k", v); s = axl_node_get_attribute_value_trimmed (r, "k"); b = n; while (a < b && v[a] < 'a') a++; while (b > a && v[b - 1] < 'a') b--;
	CHECK (s != NULL && (int) strlen (s) == b - a && ! memcmp (s, v + a, b - a), "trimmed value"); CHECK (axl_node_get_attribute_value_trimmed (r, "none") == NULL, "absent"); axl_node_free (r); free (v); sym_reach ("end");
}
/* many attributes: set one after the other or parsed, each second or third removed again, one of them at an arbitrary place set twice */
static int big_n, big_mod, big_bad, big_total; static char * big_seen;
static int big_in (int i) { return i < big_n && (big_mod == 0 || i % big_mod); }
static axl_bool big_each (const char * k, const char * v, axlPointer data, axlPointer data2) { int i = atoi (k + 1); if (k[0] != 'k' || ! big_in (i) || v[0] != 'v' || atoi (v + 1) != i || big_seen[i]) big_bad = 1; else big_seen[i] = 1; big_total++; return axl_false; }
static void big_check (axlNode * r) {
	int i, want = 0; char k[12], v[12]; axlAttrCursor * c; for (i = 0; i < big_n; i++) want += big_in (i);
	CHECK (axl_node_num_attributes (r) == want && !! axl_node_has_attributes (r) == (want > 0), "count"); for (i = 0; i < big_n; i++) { sprintf (k, "k%d", i); sprintf (v, "v%d", i); CHECK (!! axl_node_has_attribute (r, k) == big_in (i), "presence"); CHECK (str_eq (axl_node_get_attribute_value (r, k), big_in (i) ? v : NULL), "value"); }
	memset (big_seen, 0, big_n + 1); big_bad = big_total = 0; axl_node_attr_foreach (r, big_each, NULL, NULL); CHECK (! big_bad && big_total == want, "each attribute once");
	memset (big_seen, 0, big_n + 1); big_bad = big_total = 0; c = axl_node_attr_cursor_new (r); for (axl_node_attr_cursor_first (c); axl_node_attr_cursor_has_item (c); axl_node_attr_cursor_next (c)) { big_each (axl_node_attr_cursor_get_key (c), axl_node_attr_cursor_get_value (c), NULL, NULL); CHECK (!! axl_node_attr_cursor_has_next (c) == (big_total < want), "has next"); CHECK (big_total <= want, "cursor ends"); } CHECK (! big_bad && big_total == want, "each attribute once with a cursor"); axl_node_attr_cursor_free (c);
}
void attr_scale (int how, int size) {
	int i, n = 0, again; char k[12], v[12], * p; axlDoc * d = NULL; axlNode * r, * c; HEAP_MARK; big_n = size; big_mod = 0; big_seen = malloc (size + 1); again = sym_pick (0, 2, "again");
	if (how == 1) { p = malloc (size * 16 + 20); n = sprintf (p, "<r"); for (i = 0; i < size; i++) n += sprintf (p + n, " k%d='v%d'", i, i); n += sprintf (p + n, "/>"); d = axl_doc_parse (p, n, NULL); CHECK (d != NULL, "accepted"); free (p); r = axl_doc_get_root (d); }
	else { r = axl_node_create ("r"); for (i = 0; i < size; i++) { sprintf (k, "k%d", i); sprintf (v, "v%d", i); axl_node_set_attribute (r, k, v); } }
	if (size < 70) { char q[3] = "k?"; q[1] = sym_u8 ("digit"); CHECK (!! axl_node_has_attribute (r, q) == (q[1] >= '0' && q[1] <= '9'), "any name"); }
	big_check (r); sprintf (k, "k%d", again == 0 ? 0 : again == 1 ? size / 2 : size - 1); axl_node_set_attribute (r, k, "other"); big_check (r);
	c = axl_node_copy (r, axl_true, axl_false); big_check (c); CHECK (axl_node_are_equal (r, c) && axl_node_are_equal (c, r), "copy is equal");
	big_mod = sym_pick (1, 3, "removed"); for (i = 0; i < size; i += big_mod) { sprintf (k, "k%d", i); axl_node_remove_attribute (c, k); } big_check (c); CHECK (! axl_node_are_equal (r, c), "different attributes"); big_mod = 0; big_check (r); axl_node_free (c);
	if (d) axl_doc_free (d); else axl_node_free (r); free (big_seen); HEAP_CHECK; sym_reach ("end");
}
