/* lists: model based check. The model is an array of item references. */
#include "common.h"
typedef struct { int v; int destroyed; } Item;
static Item pool[24]; static int used;
static Item * model[24]; static int n; static int sorted_mode;
static Item * fresh (int hi) { Item * i = &pool[used++]; i->v = hi ? sym_range (0, hi, "value") : used; i->destroyed = 0; return i; }
/* order: descending is what the library calls -1 = "goes before" */
static int cmp_sorted (axlPointer a, axlPointer b) { int x = ((Item *) a)->v, y = ((Item *) b)->v; return x == y ? 0 : (x > y ? -1 : 1); }
static int cmp_plain (axlPointer a, axlPointer b) { return ((Item *) a)->v == ((Item *) b)->v ? 0 : 1; }
static int cmp_plain_neg (axlPointer a, axlPointer b) { return ((Item *) a)->v == ((Item *) b)->v ? 0 : -1; }
static void destroy (axlPointer p) { ((Item *) p)->destroyed++; }
static void m_insert (int pos, Item * i) { int k; if (pos < 0) pos = 0; if (pos > n) pos = n; for (k = n; k > pos; k--) model[k] = model[k - 1]; model[pos] = i; n++; }
static void m_remove (int pos) { int k; for (k = pos; k + 1 < n; k++) model[k] = model[k + 1]; n--; }
static int seen; static int seen_bad;
static axl_bool visit (axlPointer e, axlPointer d) { if (seen >= n || model[seen] != e) seen_bad = 1; seen++; return axl_false; }
static axl_bool visit_stop (axlPointer e, axlPointer d) { return e == d; }
static void check_list (axlList * l) {
	int i; axlListCursor * c;
	CHECK (axl_list_length (l) == n, "length");
	CHECK (axl_list_is_empty (l) == (n == 0), "emptiness");
	CHECK (axl_list_get_first (l) == (n ? (void *) model[0] : NULL), "first");
	CHECK (axl_list_get_last (l) == (n ? (void *) model[n - 1] : NULL), "last");
	for (i = 0; i < n; i++) {
		CHECK (axl_list_get_nth (l, i) == model[i], "n-th");
		CHECK (axl_list_lookup (l, visit_stop, model[i]) == model[i], "lookup returns the matching item");
		CHECK (axl_list_exists (l, model[i]), "stored item exists");
		CHECK (axl_list_exists_at (l, model[i], i), "stored item exists at its position");
	}
	CHECK (axl_list_get_nth (l, n) == NULL, "n-th beyond the end");
	CHECK (axl_list_get_nth (l, -1) == NULL, "n-th before the start");
	seen = 0; seen_bad = 0; CHECK (axl_list_lookup (l, visit, NULL) == NULL, "iteration to the end"); CHECK (seen == n && ! seen_bad, "iteration visits every item in order");
	c = axl_list_cursor_new (l); i = 0;
	for (axl_list_cursor_first (c); axl_list_cursor_has_item (c); axl_list_cursor_next (c)) { CHECK (i < n && axl_list_cursor_get (c) == model[i], "cursor forward"); CHECK (axl_list_cursor_has_next (c) == (i + 1 < n), "has next"); i++; }
	CHECK (i == n, "cursor forward length");
	for (axl_list_cursor_last (c); axl_list_cursor_has_item (c); axl_list_cursor_previous (c)) { i--; CHECK (i >= 0 && axl_list_cursor_get (c) == model[i], "cursor backward"); CHECK (axl_list_cursor_has_previous (c) == (i > 0), "has previous"); }
	CHECK (i == 0, "cursor backward length");
	axl_list_cursor_free (c);
}
static void check_list_refs (axlList * l) {
	int i; CHECK (axl_list_length (l) == n, "length");
	CHECK (axl_list_get_first (l) == (n ? (void *) model[0] : NULL), "first"); CHECK (axl_list_get_last (l) == (n ? (void *) model[n - 1] : NULL), "last");
	for (i = 0; i < n; i++) CHECK (axl_list_get_nth (l, i) == model[i], "n-th");
}
static int expect_destroyed[24];
static void op (axlList * l, int which) {
	int pos, k; Item * it; Item probe;
	switch (which) {
	case 0: it = fresh (sorted_mode ? 3 : 0);
		if (sorted_mode) { /* first position whose item goes after it */
			for (k = 0; k < n; k++) if (model[k]->v == it->v) { axl_list_add (l, it); return; }
			for (k = 0; k < n && model[k]->v < it->v; k++) ;
			axl_list_add (l, it); m_insert (k, it);
		} else { axl_list_add (l, it); m_insert (n, it); }
		break;
	case 1: it = fresh (0); axl_list_append (l, it); m_insert (n, it); break;
	case 2: it = fresh (0); axl_list_prepend (l, it); m_insert (0, it); break;
	case 3: pos = sym_pick (-1, n + 1, "position"); it = fresh (0); axl_list_add_at (l, it, pos); m_insert (pos, it); break;
	case 4: case 5: case 6: case 7: /* by value or by reference */
		pos = sym_pick (0, n, "which");
		if (pos == n) { probe.v = 99; probe.destroyed = 0; it = &probe; } else it = model[pos];
		if (which == 4) axl_list_remove (l, it); else if (which == 5) axl_list_unlink (l, it); else if (which == 6) axl_list_remove_ptr (l, it); else axl_list_unlink_ptr (l, it);
		if (pos < n) { if (which == 4 || which == 6) expect_destroyed[it - pool]++; m_remove (pos); }
		break;
	case 8: case 9:
		pos = sym_pick (-1, n, "position");
		if (which == 8) axl_list_remove_at (l, pos); else axl_list_unlink_at (l, pos);
		if (pos >= 0 && pos < n) { if (which == 8) expect_destroyed[model[pos] - pool]++; m_remove (pos); }
		break;
	case 10: axl_list_remove_first (l); if (n) { expect_destroyed[model[0] - pool]++; m_remove (0); } break;
	case 11: axl_list_unlink_first (l); if (n) m_remove (0); break;
	case 12: axl_list_remove_last (l); if (n) { expect_destroyed[model[n - 1] - pool]++; m_remove (n - 1); } break;
	case 13: axl_list_unlink_last (l); if (n) m_remove (n - 1); break;
	}
}
static void check_destroyed (int with) { int i; for (i = 0; i < used; i++) CHECK (pool[i].destroyed == (with ? expect_destroyed[i] : 0), "destructor calls"); }
/* mode 0: ordered; 1: plain list with destructor; 2: plain, no destructor; 3: comparator that never appends */
void list_history (int mode, int maxn, int steps) {
	axlList * l; int i, k; HEAP_MARK;
	sorted_mode = mode == 0;
	l = axl_list_new (mode == 0 ? cmp_sorted : (mode == 3 ? cmp_plain_neg : cmp_plain), mode == 2 ? NULL : destroy);
	k = sym_pick (0, maxn, "initial length");
	for (i = 0; i < k; i++) { Item * it; if (mode == 0) op (l, 0); else { it = fresh (0); axl_list_append (l, it); m_insert (n, it); } }
	if (mode == 0) check_list (l);
	for (i = 0; i < steps; i++) {
		int w = sym_pick (0, 13, "operation");
		if (mode == 0 && (w >= 1 && w <= 3)) sym_prune ();
		if (mode == 3 && w == 0) sym_prune ();
		op (l, w);
		check_list (l); check_destroyed (mode != 2);
	}
	for (i = 0; i < n; i++) expect_destroyed[model[i] - pool]++;
	axl_list_free (l);
	check_destroyed (mode != 2); HEAP_CHECK;
	sym_reach ("end");
}
/* removal and lookup by value when stored values may coincide (plain comparators, arbitrary values) */
void list_values (int mode, int maxn, int steps) {
	axlList * l; int i, j, k; HEAP_MARK;
	l = axl_list_new (mode ? cmp_plain_neg : cmp_plain, destroy);
	k = sym_pick (0, maxn, "initial length");
	for (i = 0; i < k; i++) { Item * it = fresh (100); axl_list_append (l, it); m_insert (n, it); }
	for (i = 0; i < steps; i++) {
		Item probe; int at = -1; probe.v = sym_range (0, 100, "value"); probe.destroyed = 0;
		for (j = 0; j < n; j++) { CHECK (axl_list_exists_at (l, &probe, j) == (model[j]->v == probe.v), "exists at position"); if (at < 0 && model[j]->v == probe.v) at = j; }
		CHECK (axl_list_exists_at (l, &probe, n) == 0, "exists at beyond the end");
		CHECK (axl_list_exists (l, &probe) == (at >= 0), "existence by value");
		switch (sym_pick (0, 2, "operation")) {
		case 0: axl_list_remove (l, &probe); if (at >= 0) { expect_destroyed[model[at] - pool]++; m_remove (at); } break;
		case 1: axl_list_unlink (l, &probe); if (at >= 0) m_remove (at); break;
		case 2: if (mode) sym_prune (); { Item * it = fresh (100); int dup = 0; for (j = 0; j < n; j++) if (model[j]->v == it->v) dup = 1;
			/* the tail is inspected right after the head: an equal item elsewhere is only met on a list that was built with add */
			if (dup) sym_prune ();
			axl_list_add (l, it); m_insert (n, it); } break;
		}
		CHECK (probe.destroyed == 0, "the probe is not owned by the list");
		check_list_refs (l); check_destroyed (1);
	}
	for (i = 0; i < n; i++) expect_destroyed[model[i] - pool]++;
	axl_list_free (l); check_destroyed (1); HEAP_CHECK; sym_reach ("end");
}
void list_cursor (int maxn, int steps) {
	axlList * l; axlListCursor * c; int i, k, cur; HEAP_MARK;
	l = axl_list_new (cmp_plain, destroy);
	k = sym_pick (0, maxn, "initial length");
	for (i = 0; i < k; i++) { Item * it = fresh (0); axl_list_append (l, it); m_insert (n, it); }
	c = axl_list_cursor_new (l); cur = n ? 0 : -1;
	CHECK (axl_list_cursor_list (c) == l, "cursor list");
	for (i = 0; i < steps; i++) {
		switch (sym_pick (0, 6, "operation")) {
		case 0: axl_list_cursor_first (c); cur = n ? 0 : -1; break;
		case 1: axl_list_cursor_last (c); cur = n - 1; break;
		case 2: axl_list_cursor_next (c); if (cur >= 0) { cur++; if (cur >= n) cur = -1; } break;
		case 3: axl_list_cursor_previous (c); if (cur >= 0) cur--; break;
		case 4: axl_list_cursor_remove (c); if (cur >= 0) { expect_destroyed[model[cur] - pool]++; m_remove (cur); if (cur >= n) cur = n - 1; } break;
		case 5: axl_list_cursor_unlink (c); if (cur >= 0) { m_remove (cur); if (cur >= n) cur = n - 1; } break;
		case 6: { Item * it = fresh (0); axl_list_append (l, it); m_insert (n, it); break; }
		}
		CHECK (axl_list_cursor_has_item (c) == (cur >= 0), "cursor has item");
		CHECK (axl_list_cursor_get (c) == (cur >= 0 ? (void *) model[cur] : NULL), "cursor position");
		CHECK (axl_list_cursor_has_next (c) == (cur >= 0 && cur + 1 < n), "cursor has next");
		CHECK (axl_list_cursor_has_previous (c) == (cur > 0), "cursor has previous");
		check_list (l); check_destroyed (1);
	}
	axl_list_cursor_free (c);
	for (i = 0; i < n; i++) expect_destroyed[model[i] - pool]++;
	axl_list_free (l); check_destroyed (1); HEAP_CHECK;
	sym_reach ("end");
}
static axlPointer dup_item (axlPointer p) { Item * i = malloc (sizeof (Item)); *i = *(Item *) p; return i; }
/* copy keeps the sequence; deep copies are independent */
void list_copy (int maxn) {
	axlList * l, * c; int i, k, deep, mode; HEAP_MARK;
	deep = sym_pick (0, 1, "deep"); mode = sym_pick (0, 2, "comparator");
	l = axl_list_new (mode == 0 ? cmp_sorted : mode == 1 ? cmp_plain : cmp_plain_neg, NULL);
	k = sym_pick (0, maxn, "length");
	for (i = 0; i < k; i++) { Item * it = fresh (0); if (sym_pick (0, 1, "at front")) { axl_list_prepend (l, it); m_insert (0, it); } else { axl_list_append (l, it); m_insert (n, it); } }
	c = axl_list_copy (l, deep ? dup_item : NULL);
	if (deep) axl_list_set_destroy_func (c, free);
	check_list (l);
	CHECK (axl_list_length (c) == n, "copy length");
	for (i = 0; i < n; i++) { Item * it = axl_list_get_nth (c, i); CHECK (it != NULL && (deep ? it != model[i] && it->v == model[i]->v : it == model[i]), "copy keeps the items in order"); }
	axl_list_free (c);
	check_list (l);
	axl_list_free (l); HEAP_CHECK; sym_reach ("end");
}
/* the comparators shipped with the library */
void list_builtin_cmp (int nvals) {
	axlList * l; int i, j; HEAP_MARK;
	switch (sym_pick (0, 3, "kind")) {
	case 0: { int v[6], m[6], k = 0; l = axl_list_new (axl_list_equal_int, NULL);
		for (i = 0; i < nvals; i++) { int dup = 0; v[i] = sym_range (1, 9, "int"); for (j = 0; j < k; j++) if (m[j] == v[i]) dup = 1; axl_list_add (l, INT_TO_PTR (v[i])); if (! dup) m[k++] = v[i]; }
		CHECK (axl_list_length (l) == k, "distinct integers");
		for (i = 0; i < k; i++) { int a = PTR_TO_INT (axl_list_get_nth (l, i)); if (i) CHECK (PTR_TO_INT (axl_list_get_nth (l, i - 1)) > a, "ordered integers"); CHECK (axl_list_exists (l, INT_TO_PTR (m[i])), "integer stored"); }
		for (i = 0; i < k; i++) { axl_list_remove (l, INT_TO_PTR (m[i])); CHECK (axl_list_length (l) == k - i - 1 && ! axl_list_exists (l, INT_TO_PTR (m[i])), "integer removed"); }
		break; }
	case 1: { char s[4][3]; int k = 0; l = axl_list_new (axl_list_order_string, NULL);
		for (i = 0; i < 3; i++) { int dup = 0; sym_bytes (s[i], 2, "string"); s[i][2] = 0; for (j = 0; j < i; j++) if (strcmp (s[i], s[j]) == 0) dup = 1; axl_list_add (l, s[i]); if (! dup) k++; }
		CHECK (axl_list_length (l) == k, "distinct strings");
		for (i = 1; i < k; i++) CHECK (strcmp (axl_list_get_nth (l, i - 1), axl_list_get_nth (l, i)) < 0, "strings in order");
		for (i = 0; i < 3; i++) CHECK (axl_list_exists (l, s[i]), "string stored");
		break; }
	case 2: { char s[3][3]; l = axl_list_new (axl_list_equal_string, NULL);
		for (i = 0; i < 3; i++) { sym_bytes (s[i], 2, "string"); s[i][2] = 0; axl_list_append (l, s[i]); }
		for (i = 0; i < 3; i++) { CHECK (axl_list_exists (l, s[i]), "string stored"); for (j = 0; j < 3; j++) CHECK (axl_list_exists_at (l, s[i], j) == (strcmp (s[i], s[j]) == 0), "string comparison"); CHECK (str_eq (axl_list_lookup (l, axl_list_find_string, s[i]), s[i]), "find string"); }
		break; }
	default: { int a[3]; l = axl_list_new (sym_pick (0, 1, "fifo") ? axl_list_always_return_1 : axl_list_equal_ptr, NULL);
		for (i = 0; i < 3; i++) axl_list_append (l, &a[i]);
		axl_list_unlink_ptr (l, &a[1]);
		CHECK (axl_list_length (l) == 2 && axl_list_get_first (l) == &a[0] && axl_list_get_last (l) == &a[2], "removal by reference"); break; }
	}
	axl_list_free (l); HEAP_CHECK; sym_reach ("end");
}
/* many items, removed again from one end, from the other or in between; memory kept for removed items is used again */
void list_scale (int size, int how) {
	axlList * l; int i, k, left, * v = malloc (size * sizeof (int)); axlListCursor * c; HEAP_MARK; l = axl_list_new (axl_list_always_return_1, NULL); for (i = 0; i < size; i++) v[i] = i;
	for (i = 0; i < size; i++) if (how & 1) axl_list_prepend (l, v + size - 1 - i); else axl_list_append (l, v + i); CHECK (axl_list_length (l) == size, "length"); if (how == 0 || how == 5) { int at = sym_range (0, 250, "position") - 2 + (size > 200 && (how & 4) ? size - 200 : 0); axlPointer got = axl_list_get_nth (l, at); CHECK (got == (at >= 0 && at < size ? v + at : NULL), "any position"); } for (k = 0; k < 2; k++) {
	for (i = 0; i < size; i += size > 100 ? 7 : 1) CHECK (axl_list_get_nth (l, i) == v + i, "n-th"); c = axl_list_cursor_new (l); i = 0; for (axl_list_cursor_first (c); axl_list_cursor_has_item (c); axl_list_cursor_next (c)) CHECK (axl_list_cursor_get (c) == v + i++, "in order"); CHECK (i == size, "all"); axl_list_cursor_free (c);
	left = sym_pick (0, 2, "left"); left = left == 0 ? 0 : left == 1 ? 1 : size / 2; for (i = size; i > left; i--) if (how & 2) axl_list_remove_ptr (l, v + i - 1); else if (how & 4) axl_list_unlink_last (l); else axl_list_remove_last (l);
	CHECK (axl_list_length (l) == left && axl_list_get_last (l) == (left ? v + left - 1 : NULL) && axl_list_get_first (l) == (left ? v : NULL), "removed"); for (i = left; i < size; i++) axl_list_append (l, v + i); CHECK (axl_list_length (l) == size && axl_list_get_last (l) == v + size - 1, "filled again"); }
	{ axlList * m = axl_list_copy (l, NULL); CHECK (axl_list_length (m) == size && axl_list_get_nth (m, size / 2) == v + size / 2 && axl_list_get_last (m) == v + size - 1, "copy"); axl_list_free (m); } axl_list_free (l); free (v); heap_mark_--; HEAP_CHECK; sym_reach ("end");
}
