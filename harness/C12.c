/* navigation and lookup */
#include "same.h"
#define MAXT 8
static int n, par[MAXT], kid[MAXT][MAXT], nk[MAXT]; static char name[MAXT][2]; static axlNode * node[MAXT]; static axlDoc * doc;
static int is (int i, const char * s) { return ! strcmp (name[i], s); }
static int text (char * p, int i) { int k, j; k = sprintf (p, "<%s>", name[i]); for (j = 0; j < nk[i]; j++) k += text (p + k, kid[i][j]); return k + sprintf (p + k, "</%s>", name[i]); }
static void collect (axlNode * x, int i) { axlItem * it; int j = 0; node[i] = x; for (it = axl_item_get_first_child (x); it; it = axl_item_get_next (it)) if (axl_item_get_type (it) == ITEM_NODE) { CHECK (j < nk[i], "shape"); collect (axl_item_get_data (it), kid[i][j++]); } CHECK (j == nk[i], "shape"); }
static void extra (axlNode * x) { switch (sym_pick (0, 3, "other item")) { case 1: axl_node_set_content (x, "t", 1); break; case 2: axl_node_set_comment (x, "c", 1); break; case 3: axl_node_add_pi_target (x, "p", NULL); break; } }
/* any tree of n elements named by symbolic letters; how: 0 parsed, 1 built, 2 built with other items in between */
static void make (int how, int count, int letters) {
	int i; n = count; memset (nk, 0, sizeof (nk));
	for (i = 0; i < n; i++) { name[i][0] = sym_range ('a', 'a' + letters - 1, "name"); name[i][1] = 0; if (i) { par[i] = sym_pick (0, i - 1, "parent"); kid[par[i]][nk[par[i]]++] = i; } else par[i] = -1; }
	if (how == 0) { char buf[200]; int k; for (i = 0; i < n; i++) sym_concretize (name[i][0]); k = text (buf, 0); doc = axl_doc_parse (buf, k, NULL); CHECK (doc != NULL, "accepted"); collect (axl_doc_get_root (doc), 0); return; }
	doc = axl_doc_create (NULL, NULL, axl_false);
	for (i = 0; i < n; i++) { node[i] = axl_node_create (name[i]); if (i == 0) axl_doc_set_root (doc, node[0]); else { if (how == 2) extra (node[par[i]]); axl_node_set_child (node[par[i]], node[i]); } }
	if (how == 2) extra (node[0]);
}
static int idx (int i) { int j; for (j = 0; j < nk[par[i]]; j++) if (kid[par[i]][j] == i) return j; return -1; }
static axlNode * at (int p, int j) { return j >= 0 && j < nk[p] ? node[kid[p][j]] : NULL; }
static int find_rec (int p, const char * s) { int j, r; for (j = 0; j < nk[p]; j++) if (is (kid[p][j], s)) return kid[p][j]; for (j = 0; j < nk[p]; j++) if ((r = find_rec (kid[p][j], s)) >= 0) return r; return -1; }
void nav (int how, int count, int letters) {
	int i, j, k, r; HEAP_MARK; make (how, count, letters);
	for (i = 0; i < n; i++) {
		axlNode * x = node[i]; axlList * l;
		CHECK (str_eq (axl_node_get_name (x), name[i]), "name"); CHECK (axl_node_get_parent (x) == (i ? node[par[i]] : NULL), "parent"); CHECK (axl_node_get_doc (x) == doc, "document");
		CHECK (axl_node_get_first_child (x) == at (i, 0) && axl_node_get_last_child (x) == at (i, nk[i] - 1), "first and last"); CHECK (axl_node_get_child_num (x) == nk[i] && !! axl_node_have_childs (x) == (nk[i] > 0), "counts");
		for (j = -1; j <= nk[i]; j++) CHECK (axl_node_get_child_nth (x, j) == at (i, j), "n-th");
		l = axl_node_get_childs (x); CHECK (axl_list_length (l) == nk[i], "list"); for (j = 0; j < nk[i]; j++) CHECK (axl_list_get_nth (l, j) == at (i, j), "list in order"); axl_list_free (l);
		if (i) { j = idx (i); CHECK (axl_node_get_next (x) == at (par[i], j + 1) && axl_node_get_previous (x) == at (par[i], j - 1), "siblings"); } else CHECK (axl_node_get_next (x) == NULL && axl_node_get_previous (x) == NULL, "root has no siblings");
	}
	for (k = 0; k <= letters; k++) { char q[2]; q[0] = 'a' + k; q[1] = 0;
		for (i = 0; i < n; i++) { axlNode * x = node[i];
			CHECK (!! NODE_CMP_NAME (x, q) == is (i, q), "name test");
			for (j = 0; j < nk[i] && ! is (kid[i][j], q); j++); CHECK (axl_node_get_child_called (x, q) == at (i, j), "child called");
			r = find_rec (i, q); CHECK (axl_node_find_called (x, q) == (r < 0 ? NULL : node[r]), "found in the subtree"); if (i == 0) CHECK (axl_doc_find_called (doc, q) == (r < 0 ? NULL : node[r]), "found in the document");
			if (i) { int p = par[i]; for (j = idx (i) + 1; j < nk[p] && ! is (kid[p][j], q); j++); CHECK (axl_node_get_next_called (x, q) == at (p, j), "next called"); for (j = idx (i) - 1; j >= 0 && ! is (kid[p][j], q); j--); CHECK (axl_node_get_previous_called (x, q) == at (p, j), "previous called"); }
			else CHECK (axl_node_get_next_called (x, q) == NULL && axl_node_get_previous_called (x, q) == NULL, "root has no siblings");
		} }
	axl_doc_free (doc); HEAP_CHECK; sym_reach ("end");
}
/* lookup by path: 0..3 components out of nothing, a name, another name, * */
void path (int how, int count, int depth) {
	char p[12]; int k = sym_pick (1, depth, "components"), i, len = 0, slash = sym_pick (0, 1, "trailing slash"), cur = 0, c[4], want[MAXT], nw = 0, j; axlList * l; HEAP_MARK; make (how, count, 2);
	for (i = 0; i < k; i++) { c[i] = sym_pick (i == 0 ? 0 : 1, 3, "component"); p[len++] = '/'; if (c[i] == 1) p[len++] = 'a'; if (c[i] == 2) p[len++] = 'b'; if (c[i] == 3) p[len++] = '*'; } if (c[0] == 3) sym_prune (); if (slash) { if (k == 1 && c[0] == 0) sym_prune (); if (c[k - 1] == 3) sym_prune (); p[len++] = '/'; } p[len] = 0;
	if (c[0] && ! is (0, c[0] == 1 ? "a" : "b")) cur = -1;
	for (i = 1; i < k && cur >= 0; i++) { if (c[i] == 3 && i + 1 < k) { cur = -1; break; } if (i + 1 == k) { for (j = 0; j < nk[cur]; j++) if (c[i] == 3 || is (kid[cur][j], c[i] == 1 ? "a" : "b")) want[nw++] = kid[cur][j]; cur = -2; break; } for (j = 0; j < nk[cur] && ! is (kid[cur][j], c[i] == 1 ? "a" : "b"); j++); cur = j < nk[cur] ? kid[cur][j] : -1; }
	if (cur >= 0) want[nw++] = cur;
	CHECK (axl_doc_get (doc, p) == (nw ? node[want[0]] : NULL), "element at the path");
	l = axl_doc_get_list (doc, p); CHECK ((l != NULL) == (nw > 0), "list only when something is found"); if (l) { CHECK (axl_list_length (l) == nw, "every element at the path"); for (i = 0; i < nw; i++) CHECK (axl_list_get_nth (l, i) == node[want[i]], "elements at the path in order"); axl_list_free (l); }
	{ int s = -5; const char * t = axl_doc_get_content_at (doc, p, &s); if (nw) CHECK (str_eq (t, axl_node_get_content (node[want[0]], NULL)), "content at the path"); else CHECK (t == NULL, "no content"); }
	CHECK (axl_doc_get (doc, "a") == NULL, "relative paths are refused"); axl_doc_free (doc); HEAP_CHECK; sym_reach ("end");
}
/* iteration */
static int order[MAXT], no, seen, stop_at, removed; static int gone[MAXT];
static axl_bool visit2 (axlNode * x, axlNode * p, axlDoc * d, axl_bool * was_removed, axlPointer ptr, axlPointer ptr2) {
	CHECK (seen < no, "no extra visits"); CHECK (x == node[order[seen]], "visiting order"); CHECK (p == (seen == 0 ? NULL : node[par[order[seen]]]), "parent passed"); CHECK (d == doc && ptr == (axlPointer) order && (ptr2 == NULL || ptr2 == (axlPointer) name), "pointers passed");
	if (removed == order[seen] && removed != 0) { axl_node_remove (x, axl_true); *was_removed = axl_true; }
	return ++seen != stop_at;
}
static axl_bool visit (axlNode * x, axlNode * p, axlDoc * d, axl_bool * was_removed, axlPointer ptr) { return visit2 (x, p, d, was_removed, ptr, NULL); }
static void deep (int i) { int j; order[no++] = i; if (i == removed && i) return; for (j = 0; j < nk[i]; j++) deep (kid[i][j]); }
static void wide (int i) { int j, k; order[no++] = i; for (k = 0; k < no; k++) if (! (order[k] == removed && removed)) for (j = 0; j < nk[order[k]]; j++) order[no++] = kid[order[k]][j]; }
void iterate (int how, int count) {
	int mode = sym_pick (0, 1, "mode"), api = sym_pick (0, 2, "api"), from = 0; axl_bool r; HEAP_MARK; make (how, count, 1); removed = sym_pick (0, n - 1, "removed"); no = seen = 0; if (api == 2) { from = sym_pick (0, n - 1, "from"); if (from == removed) removed = 0; }
	if (mode) deep (from); else wide (from);
	if (api == 2 && removed) { int k, f = 0; for (k = 0; k < no; k++) f |= order[k] == removed; if (! f) sym_prune (); }
	stop_at = sym_range (0, no, "stop");
	if (api == 0) r = axl_doc_iterate (doc, mode ? DEEP_ITERATION : WIDE_ITERATION, visit, order); else if (api == 1) r = axl_doc_iterate_full (doc, mode ? DEEP_ITERATION : WIDE_ITERATION, visit2, order, name); else r = axl_doc_iterate_full_from (doc, node[from], mode ? DEEP_ITERATION : WIDE_ITERATION, visit2, order, name);
	CHECK (seen == (stop_at ? stop_at : no), "all visited until stopped"); CHECK (!! r == (stop_at == 0), "tells whether it was completed"); axl_doc_free (doc); HEAP_CHECK; sym_reach ("end");
}
/* processing instructions */
void pis (int k) {
	int i, j, how = sym_pick (0, 1, "where"); char nm[5][2], ct[5][2]; axlNode * r; axlDoc * d = axl_doc_create (NULL, NULL, axl_false); axlList * l; HEAP_MARK; (void) heap_mark_; r = axl_node_create ("r"); axl_doc_set_root (d, r);
	for (i = 0; i < k; i++) { nm[i][0] = sym_range ('a', 'c', "target"); nm[i][1] = 0; ct[i][0] = sym_range ('x', 'z', "content"); ct[i][1] = 0; if (how) { axl_doc_add_pi_target (d, nm[i], ct[i]); } else { axl_node_add_pi_target (r, nm[i], ct[i]); axl_node_set_content (r, "t", 1); } }
	l = how ? axl_doc_get_pi_target_list (d) : axl_node_get_pi_target_list (r); if (k) CHECK (axl_list_length (l) == k, "all instructions"); for (i = 0; i < k; i++) { axlPI * p = axl_list_get_nth (l, i); CHECK (str_eq (axl_pi_get_name (p), nm[i]) && str_eq (axl_pi_get_content (p), ct[i]), "in order"); } if (! how && l) axl_list_free (l);
	for (j = 0; j < 4; j++) { char q[2]; q[0] = 'a' + j; q[1] = 0; for (i = 0; i < k && strcmp (nm[i], q); i++); CHECK (!! (how ? axl_doc_has_pi_target (d, q) : axl_node_has_pi_target (r, q)) == (i < k), "presence"); CHECK (str_eq (how ? axl_doc_get_pi_target_content (d, q) : axl_node_get_pi_target_content (r, q), i < k ? ct[i] : NULL), "first with that target"); }
	axl_doc_free (d); sym_reach ("end");
}
void no_root (void) { axlDoc * d = axl_doc_create (NULL, NULL, axl_false); CHECK (axl_doc_get (d, "/") == NULL && axl_doc_get (d, "/a") == NULL && axl_doc_get_list (d, "/") == NULL && axl_doc_get_list (d, "//a") == NULL && axl_doc_get_root (d) == NULL, "nothing to find"); axl_doc_free (d); sym_reach ("end"); }
/* many children, or many levels */
void nav_scale (int deep, int size, int how) {
	int i, at = sym_pick (0, 2, "place"), w; char nm[12]; axlNode * r, * x, ** nd = malloc ((size + 1) * sizeof (axlNode *)); axlDoc * d; axlList * l; HEAP_MARK; w = at == 0 ? 1 : at == 1 ? size / 2 : size; d = axl_doc_create (NULL, NULL, axl_false); r = axl_node_create ("r"); axl_doc_set_root (d, r); nd[0] = r;
	for (i = 1; i <= size; i++) { sprintf (nm, "n%d", i); nd[i] = axl_node_create (nm); axl_node_set_child (deep ? nd[i - 1] : r, nd[i]); if (how && ! deep && i % 2) axl_node_set_content (r, "t", 1); }
	sprintf (nm, "n%d", w); CHECK (axl_node_find_called (r, nm) == nd[w] && axl_doc_find_called (d, nm) == nd[w], "found"); CHECK (axl_node_find_called (r, "n0") == NULL, "not there");
	if (! deep) {
		char path[40]; CHECK (axl_node_get_child_num (r) == size && axl_node_get_first_child (r) == nd[1] && axl_node_get_last_child (r) == nd[size], "first, last, count"); for (i = 1; i <= size; i++) { sprintf (path, "n%d", i); if (size <= 130 || i % 8 == 0 || i > size - 3) CHECK (axl_node_get_child_nth (r, i - 1) == nd[i] && axl_node_get_child_called (r, path) == nd[i], "n-th"); CHECK (axl_node_get_next (nd[i]) == (i < size ? nd[i + 1] : NULL) && axl_node_get_previous (nd[i]) == (i > 1 ? nd[i - 1] : NULL) && axl_node_get_parent (nd[i]) == r, "siblings"); } CHECK (axl_node_get_child_nth (r, size) == NULL, "after the last"); { int p = sym_range (0, 250, "position") - 2 + (size > 200 && how ? size - 200 : 0); CHECK (axl_node_get_child_nth (r, p) == (p >= 0 && p < size ? nd[p + 1] : NULL), "any position"); }
		CHECK (axl_node_get_next_called (nd[1], nm) == (w > 1 ? nd[w] : NULL) && axl_node_get_previous_called (nd[size], nm) == (w < size ? nd[w] : NULL), "siblings called");
		l = axl_node_get_childs (r); CHECK (axl_list_length (l) == size, "list"); axl_list_free (l); sprintf (path, "/r/n%d", w); CHECK (axl_doc_get (d, path) == nd[w], "path");
	} else {
		char * path = malloc (size * 7 + 20); int n = sprintf (path, "/r"); for (i = 1; i <= size; i++) { CHECK (axl_node_get_parent (nd[i]) == nd[i - 1] && axl_node_get_first_child (nd[i - 1]) == nd[i] && axl_node_get_last_child (nd[i - 1]) == nd[i], "levels"); } for (i = 1; i <= w; i++) n += sprintf (path + n, "/n%d", i); if (w <= 300) CHECK (axl_doc_get (d, path) == nd[w], "long path"); free (path);
	}
	x = nd[w]; CHECK (axl_node_get_doc (x) == d, "document"); axl_doc_free (d); HEAP_CHECK; free (nd); sym_reach ("end");
}
