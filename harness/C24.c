/* namespaces */
#include "same.h"
#include <axl_ns.h>
#define MT 5
static int n, par[MT], pfx[MT], def[MT], dec[MT], use[MT]; static char letter[MT], local_[MT], duri[MT], auri[MT], buri[MT], uletter[MT]; static axlNode * node[MT]; static axlDoc * doc;
static char nm[MT][8]; static const char uri_u[] = "U", uri_v[] = "V";
/* attributes of element i, as name/value pairs */
static char an[MT][6][12], av[MT][6][4]; static int na[MT];
static void attr (int i, const char * k, char c, const char * rest, char v) { int j = na[i]++; char * p = an[i][j]; strcpy (p, k); p += strlen (k); if (c) *p++ = c; strcpy (p, rest); av[i][j][0] = v; av[i][j][1] = v ? '1' : 0; av[i][j][2] = 0; }
static int text (char * p, int i) { int k = 0, j; p[k++] = '<'; strcpy (p + k, nm[i]); k += pfx[i] ? 3 : 1; for (j = 0; j < na[i]; j++) { p[k++] = ' '; strcpy (p + k, an[i][j]); while (p[k]) k++; p[k++] = '='; p[k++] = '\''; if (av[i][j][0]) { p[k++] = av[i][j][0]; p[k++] = '1'; } p[k++] = '\''; } p[k++] = '>'; for (j = i + 1; j < n; j++) if (par[j] == i) k += text (p + k, j); p[k++] = '<'; p[k++] = '/'; strcpy (p + k, nm[i]); k += pfx[i] ? 3 : 1; p[k++] = '>'; return k; }
static void collect (axlNode * x, int i) { int j; node[i] = x; x = axl_node_get_first_child (x); for (j = i + 1; j < n; j++) if (par[j] == i) { collect (x, j); x = axl_node_get_next (x); } }
/* what = bits of what may appear on each element: 1 default declarations, 2 prefix declarations, 4 prefixed attributes and the like */
static void make (int how, int count, int what) {
	int i, j; n = count;
	for (i = 0; i < n; i++) {
		na[i] = 0; par[i] = i ? sym_pick (0, i - 1, "parent") : -1; pfx[i] = sym_pick (0, 1, "prefixed"); letter[i] = pfx[i] ? sym_pick ('a', 'b', "prefix") : 0; local_[i] = sym_range ('x', 'y', "name");
		def[i] = what & 1 ? sym_pick (0, 2, "default declaration") : 0; dec[i] = what & 2 ? sym_pick (0, 3, "prefix declarations") : 0; use[i] = what & 4 ? sym_pick (0, 4, "attribute") : 0;
		duri[i] = def[i] == 2 ? 0 : sym_range ('U', 'V', "namespace"); auri[i] = sym_range ('U', 'V', "namespace"); buri[i] = sym_range ('U', 'V', "namespace"); uletter[i] = use[i] == 1 || use[i] == 3 ? sym_pick ('a', 'b', "prefix") : 0;
		if (pfx[i]) { nm[i][0] = letter[i]; nm[i][1] = ':'; nm[i][2] = local_[i]; nm[i][3] = 0; } else { nm[i][0] = local_[i]; nm[i][1] = 0; }
		if (use[i] == 1) attr (i, "", uletter[i], ":k", 'w'); if (use[i] == 2) attr (i, "xml:lang", 0, "", 'e'); if (use[i] == 3) attr (i, "xmlnsz", uletter[i], "", 'U'); if (use[i] == 4) attr (i, "k", 0, "", 'w');
		if (def[i]) attr (i, "xmlns", 0, "", duri[i]); if (dec[i] & 1) attr (i, "xmlns:a", 0, "", auri[i]); if (dec[i] & 2) attr (i, "xmlns:b", 0, "", buri[i]);
	}
	if (how == 0) { char p[400]; int k; axlError * e = NULL; k = text (p, 0); doc = axl_doc_parse (p, k, &e); CHECK (doc != NULL && e == NULL, "accepted"); collect (axl_doc_get_root (doc), 0); return; }
	doc = axl_doc_create (NULL, NULL, axl_false);
	for (i = 0; i < n; i++) { node[i] = axl_node_create (nm[i]); for (j = 0; j < na[i]; j++) axl_node_set_attribute (node[i], an[i][j], av[i][j]); if (i == 0) axl_doc_set_root (doc, node[0]); else { if (i == 1) axl_node_set_content (node[par[i]], "t", 1); axl_node_set_child (node[par[i]], node[i]); } }
}
/* the namespace bound to a prefix at element i, 0 if none */
static int bound (int i, char p) { for (; i >= 0; i = par[i]) { if (p == 'a') { if (dec[i] & 1) return auri[i]; } else if (dec[i] & 2) return buri[i]; } return 0; }
static int bound_def (int i) { for (; i >= 0; i = par[i]) if (def[i]) return duri[i] ? duri[i] : 1; return 0; }
static int ns_of (int i) { return pfx[i] ? bound (i, letter[i]) : bound_def (i); }
static int match (int i, int u, int l) { return (ns_of (i) == u) & (local_[i] == l); }
static int find (int i, int u, int l) { int j, r; for (j = i + 1; j < n; j++) if (par[j] == i && match (j, u, l)) return j; for (j = i + 1; j < n; j++) if (par[j] == i && (r = find (j, u, l)) >= 0) return r; return -1; }
static axlNode * at (int i) { return i < 0 ? NULL : node[i]; }
static void queries (int mode) {
	int i, j, u, r; char ns[3], name[2]; 
	for (i = 0; i < n; i++) { int pos = 7; CHECK (!! axl_ns_node_is_prefixed (node[i], &pos) == pfx[i] && pos == (pfx[i] ? 1 : -1), "prefixed"); CHECK (!! AXL_IS_PREFIXED (node[i]) == pfx[i], "prefixed"); }
	{ u = sym_range ('U', 'V', "namespace asked"); ns[0] = u; ns[1] = '1'; ns[2] = 0;
		for (i = 0; i < n; i++) { CHECK (!! axl_ns_doc_node_check (node[i], "a", ns) == (bound (i, 'a') == u) && !! axl_ns_doc_node_check (node[i], "b", ns) == (bound (i, 'b') == u), "binding of a prefix"); CHECK (! axl_ns_doc_node_check (node[i], "c", ns) && ! axl_ns_doc_node_check (node[i], "za", ns), "unknown prefix"); CHECK (!! axl_ns_doc_check_default (node[i], ns) == (bound_def (i) == u), "default namespace"); }
		if (mode != 1)
		{ name[1] = 0; name[0] = sym_range ('x', 'y', "name asked"); for (i = 0; i < n; i++) {
			CHECK (!! axl_ns_node_cmp (node[i], ns, name) == match (i, u, name[0]), "qualified name test");
			if (mode == 2) continue;
			for (r = -1, j = i + 1; j < n; j++) if (par[j] == i && match (j, u, name[0])) { r = j; break; } CHECK (axl_ns_node_get_child_called (node[i], ns, name) == at (r), "qualified child");
			r = find (i, u, name[0]); CHECK (axl_ns_node_find_called (node[i], ns, name) == at (r), "found in the subtree"); if (i == 0) CHECK (axl_ns_doc_find_called (doc, ns, name) == at (r), "found in the document");
			for (r = -1, j = i + 1; i && j < n; j++) if (par[j] == par[i] && match (j, u, name[0])) { r = j; break; } CHECK (axl_ns_node_get_next_called (node[i], ns, name) == at (r), "next");
			for (r = -1, j = i - 1; j > 0; j--) if (par[j] == par[i] && match (j, u, name[0])) { r = j; break; } CHECK (axl_ns_node_get_previous_called (node[i], ns, name) == at (r), "previous");
		} } }
	if (mode == 1) for (i = 0; i < n; i++) CHECK (!! axl_ns_doc_check_default (node[i], "") == (bound_def (i) == 1), "default namespace taken away");
}
void ns_tree (int how, int count, int what, int mode) {
	int i, ok = 1, r; axlError * e = NULL; HEAP_MARK; make (how, count, what);
	for (i = 0; i < n; i++) { if (pfx[i]) ok &= bound (i, letter[i]) != 0; if (use[i] == 1) ok &= bound (i, uletter[i]) != 0; }
	r = axl_ns_doc_validate (doc, (how == 0 && sym_pick (0, 1, "no error asked")) ? NULL : &e); CHECK (!! r == ok, "valid if and only if every prefix used is declared"); if (r) CHECK (e == NULL, "no error"); else { if (e) { CHECK (axl_error_get_code (e) != 0 && axl_error_get (e) != NULL, "explained"); sym_reach ("error"); } axl_error_free (e); }
	for (i = 0; i < n; i++) { int j; CHECK (str_eq (axl_node_get_name (node[i]), nm[i]), "names are left as they were"); CHECK (axl_node_num_attributes (node[i]) == na[i], "attributes are left as they were"); for (j = 0; j < na[i]; j++) CHECK (str_eq (axl_node_get_attribute_value (node[i], an[i][j]), av[i][j]), "attributes are left as they were"); }
	if (r) { queries (mode); sym_reach ("valid"); }
	axl_doc_free (doc); HEAP_CHECK; sym_reach ("end");
}
/* many attributes on one element */
void ns_many (int lo, int hi) {
	int c = sym_pick (lo, hi, "attributes"), d = sym_pick (0, c - 1, "declaration at"), u = sym_pick (0, c - 1, "use at"), i, ok, r; char k[20][10]; axlNode * x, * y; axlDoc * dd; axlError * e = NULL; char dp; HEAP_MARK;
	dp = sym_range ('a', 'b', "prefix"); x = axl_node_create ("p"); y = axl_node_create ("a:z"); dd = axl_doc_create (NULL, NULL, axl_false); axl_doc_set_root (dd, x); axl_node_set_child (x, y);
	for (i = 0; i < c; i++) { sprintf (k[i], "k%c", 'a' + i); if (i == u) strcpy (k[i], "a:q"); if (i == d) { strcpy (k[i], "xmlns:a"); k[i][6] = dp; } axl_node_set_attribute (x, k[i], i == d ? "U" : "v"); }
	ok = dp == 'a'; r = axl_ns_doc_validate (dd, &e); CHECK (!! r == ok && (e == NULL) == ok, "valid if and only if declared"); if (r) CHECK (axl_ns_node_cmp (y, "U", "z") && ! axl_ns_node_cmp (y, "v", "z") && ! axl_ns_node_cmp (x, "U", "p"), "resolved"); if (r) sym_reach ("valid");
	for (i = 0; i < c; i++) CHECK (str_eq (axl_node_get_attribute_value (x, k[i]), i == d ? "U" : "v"), "attributes stay"); axl_error_free (e); axl_doc_free (dd); HEAP_CHECK; sym_reach ("end");
}
/* attribute names of arbitrary bytes: which of them are declarations, which are uses */
void ns_names (int len) {
	char k[12], t[40]; int i, l = sym_pick (1, len, "length"), ok = 1, m, colon = -1; axlDoc * d; axlNode * x; axlError * e = NULL; HEAP_MARK; memset (k, 0, sizeof (k)); m = sym_pick (0, 2, "start"); strcpy (k, m == 0 ? "" : m == 1 ? "xmlns" : "xmlns:"); i = strlen (k); sym_bytes (k + i, l, "name"); l += i; for (; i < l; i++) sym_assume (((k[i] >= 'a') & (k[i] <= 'z')) | (k[i] == ':'));
	(void) t; d = axl_doc_create (NULL, NULL, axl_false); x = axl_node_create ("r"); axl_doc_set_root (d, x); axl_node_set_attribute (x, k, "U");
	for (i = l - 1; i >= 0; i--) if (k[i] == ':') colon = i;
	if (colon == 0) sym_prune (); if (colon >= 0 && (colon != 5 || memcmp (k, "xmlns", 5)) && (colon != 3 || memcmp (k, "xml", 3))) ok = 0;
	m = axl_ns_doc_validate (d, &e); CHECK (!! m == ok && (e == NULL) == ok, "only prefixed names are uses"); if (m) { CHECK (!! axl_ns_doc_check_default (x, "U") == ! strcmp (k, "xmlns"), "default declaration"); if (! memcmp (k, "xmlns:", 6) && l > 6) { CHECK (axl_ns_doc_node_check (x, k + 6, "U"), "declared"); sym_reach ("declared"); } else if (l > 6) CHECK (! axl_ns_doc_node_check (x, k + 6, "U"), "not declared"); }
	CHECK (axl_node_has_attribute (x, k), "name stays"); axl_error_free (e); axl_doc_free (d); HEAP_CHECK; sym_reach ("end");
}
void ns_empty (void) { axlError * e = NULL; axlDoc * d; HEAP_MARK; CHECK (! axl_ns_doc_validate (NULL, &e) && e != NULL, "no document"); axl_error_free (e); e = NULL; d = axl_doc_create (NULL, NULL, axl_false); CHECK (axl_ns_doc_validate (d, &e) && e == NULL, "no root"); axl_doc_free (d); HEAP_CHECK; sym_reach ("end"); }
/* many levels, each with its own declaration; the declaration used is any of three */
void ns_scale (int size, int own) {
	char * p = malloc (size * 60 + 100), u[16]; int n = 0, i, w = sym_pick (0, 2, "prefix used"), ok, c = sym_range ('a', 'z', "namespace"); axlDoc * d; axlNode * x; axlError * e = NULL; HEAP_MARK; heap_mark_--; w = w == 0 ? 0 : w == 1 ? size / 2 : size;
	for (i = 0; i < size; i++) n += own ? sprintf (p + n, "<p%d:a xmlns:p%d='u%d'>", i, i, i) : sprintf (p + n, "<q:a xmlns:q='u%d'>", i); if (own) n += sprintf (p + n, "<p%d:z/>", w); else n += sprintf (p + n, "<%s:z/>", w == size ? "w" : "q"); for (i = size - 1; i >= 0; i--) n += own ? sprintf (p + n, "</p%d:a>", i) : sprintf (p + n, "</q:a>");
	d = axl_doc_parse (p, n, &e); CHECK (d != NULL && e == NULL, "accepted"); ok = w < size; CHECK (!! axl_ns_doc_validate (d, &e) == ok && (e == NULL) == ok, "valid if and only if declared");
	if (ok) { x = axl_doc_get_root (d); for (i = 0; i < size; i++) { sprintf (u, "u%d", i); CHECK (axl_ns_node_cmp (x, u, "a") && (i % 32 || ! (u[0] = c) || !! axl_ns_node_cmp (x, u, "a") == (c == 'u')) && ! axl_ns_node_cmp (x, "u", "a"), "nearest declaration"); x = axl_node_get_first_child (x); } sprintf (u, "u%d", own ? w : size - 1); CHECK (axl_ns_node_cmp (x, u, "z"), "declaration found"); }
	axl_error_free (e); axl_doc_free (d); free (p); HEAP_CHECK; sym_reach ("end");
}
