/* hash tables: model based check with an arbitrary hash function (every key has an arbitrary hash value) */
#include "common.h"
#define MAXK 8
typedef struct { int id; int destroyed; int managed; } Obj;
static unsigned hv[MAXK];
static Obj keys[32], vals[32]; static int used;
static Obj * mk[MAXK], * mv[MAXK]; static int mfull[MAXK]; static int items, nk;
static int ek[32], ev[32];
static unsigned int h_any (axlPointer k) { return hv[((Obj *) k)->id]; }
static int eq_any (axlPointer a, axlPointer b) { return ((Obj *) a)->id == ((Obj *) b)->id ? 0 : 1; }
static void destroy (axlPointer p) { ((Obj *) p)->destroyed++; }
static int seen[MAXK]; static int seen_n, seen_bad, stop_after;
static axl_bool visit (axlPointer k, axlPointer d, axlPointer u) { int id = ((Obj *) k)->id; if (mk[id] != k || mv[id] != d) seen_bad = 1; seen[id]++; seen_n++; return seen_n == stop_after; }
static axl_bool visit2 (axlPointer k, axlPointer d, axlPointer u, axlPointer u2) { if (u != (void *) 1 || u2 != (void *) 2) seen_bad = 1; return visit (k, d, u); }
static axl_bool visit3 (axlPointer k, axlPointer d, axlPointer u, axlPointer u2, axlPointer u3) { if (u3 != (void *) 3) seen_bad = 1; return visit2 (k, d, u, u2); }
static axl_bool visit4 (axlPointer k, axlPointer d, axlPointer u, axlPointer u2, axlPointer u3, axlPointer u4) { if (u4 != (void *) 4) seen_bad = 1; return visit3 (k, d, u, u2, u3); }
static void seen_reset (void) { memset (seen, 0, sizeof seen); seen_n = 0; seen_bad = 0; stop_after = -1; }
static void seen_check (void) { int i; CHECK (! seen_bad && seen_n == items, "iteration visits the stored pairs"); for (i = 0; i < nk; i++) CHECK (seen[i] == (mk[i] != NULL), "each pair visited once"); }
static void check_hash (axlHash * h) {
	int i; axlHashCursor * c;
	CHECK (axl_hash_items (h) == items, "item count");
	for (i = 0; i < nk; i++) {
		Obj probe; probe.id = i;
		CHECK (axl_hash_get (h, &probe) == (void *) mv[i], "lookup");
		CHECK (axl_hash_exists (h, &probe) == (mk[i] != NULL), "existence");
	}
	seen_reset (); axl_hash_foreach (h, visit, NULL); seen_check ();
	c = axl_hash_cursor_new (h); seen_reset ();
	for (; axl_hash_cursor_has_item (c); axl_hash_cursor_next (c)) { CHECK (! visit (axl_hash_cursor_get_key (c), axl_hash_cursor_get_value (c), NULL), ""); CHECK (axl_hash_cursor_has_next (c) == (seen_n < items), "cursor has next"); }
	seen_check ();
	axl_hash_cursor_last (c); CHECK (axl_hash_cursor_has_item (c) == (items > 0), "cursor last");
	if (items) { Obj * k = axl_hash_cursor_get_key (c); CHECK (mk[k->id] == k && ! axl_hash_cursor_has_next (c), "cursor last is the last one"); axl_hash_cursor_next (c); CHECK (! axl_hash_cursor_has_item (c), "nothing after the last"); }
	axl_hash_cursor_first (c); CHECK (axl_hash_cursor_has_item (c) == (items > 0), "cursor first");
	axl_hash_cursor_free (c);
}
static void check_destroyed (void) { int i; for (i = 0; i < used; i++) CHECK (keys[i].destroyed == ek[i] && vals[i].destroyed == ev[i], "destructor calls"); }
static void m_drop (int id, int destr) { if (destr && mfull[id]) { ek[mk[id] - keys]++; ev[mv[id] - vals]++; } mk[id] = mv[id] = NULL; items--; }
static void insert (axlHash * h, int id, int full) {
	Obj * k = &keys[used], * v = &vals[used]; used++; k->id = v->id = id;
	if (mk[id]) m_drop (id, 1);
	if (full) axl_hash_insert_full (h, k, destroy, v, destroy); else axl_hash_insert (h, k, v);
	mk[id] = k; mv[id] = v; mfull[id] = full; items++;
}
static void remove_some (axlHash * h, int id, int how) {
	Obj probe; axl_bool r; int was = mk[id] != NULL; probe.id = id;
	if (how == 0) r = axl_hash_remove (h, &probe);
	else if (how == 1) r = axl_hash_delete (h, &probe);
	else { axlPointer k = (axlPointer) 1, d = (axlPointer) 1; axlDestroyFunc dk = destroy, dd = destroy;
		r = axl_hash_remove_deferred (h, &probe, &k, &dk, &d, &dd);
		CHECK (k == (was ? (void *) mk[id] : NULL) && d == (was ? (void *) mv[id] : NULL), "deferred removal hands out the pair");
		CHECK (dk == (was && mfull[id] ? destroy : NULL) && dd == dk, "deferred removal hands out the destructors");
		check_destroyed (); axl_hash_deferred_cleanup (k, dk, d, dd); }
	CHECK (r == was, "removal status");
	if (was) m_drop (id, how != 1);
}
static void finish (axlHash * h) {
	int i; for (i = 0; i < nk; i++) if (mk[i]) m_drop (i, 1);
	axl_hash_free (h); check_destroyed ();
}
/* nkeys different keys, an initial set, then any history */
void hash_history (int step, int nkeys, int hmax, int steps) {
	axlHash * h; int i, k; HEAP_MARK;
	nk = nkeys; for (i = 0; i < nk; i++) hv[i] = (unsigned) sym_range (0, hmax, "hash value");
	h = step ? axl_hash_new_full (h_any, eq_any, step) : axl_hash_new (h_any, eq_any);
	k = sym_pick (0, nk, "initial items");
	for (i = 0; i < k; i++) insert (h, i, 1);
	check_hash (h);
	for (i = 0; i < steps; i++) {
		int w = sym_pick (0, 4, "operation"), id = sym_pick (0, nk - 1, "key");
		if (w < 2) insert (h, id, w); else remove_some (h, id, w - 2);
		check_hash (h); check_destroyed ();
	}
	finish (h); HEAP_CHECK; sym_reach ("end");
}
/* many items: every growth of the table, then removal in any order of some */
void hash_growth (int step, int nkeys, int hmax) {
	axlHash * h; int i; HEAP_MARK;
	nk = nkeys; for (i = 0; i < nk; i++) hv[i] = i < 2 ? (unsigned) sym_range (0, hmax, "hash value") : (unsigned) (i * 7919);
	h = axl_hash_new_full (h_any, eq_any, step);
	for (i = 0; i < nk; i++) { insert (h, i, 1); check_hash (h); }
	CHECK (axl_hash_capacity (h) >= 1, "capacity");
	seen_reset (); axl_hash_foreach2 (h, visit2, (void *) 1, (void *) 2); seen_check ();
	seen_reset (); axl_hash_foreach4 (h, visit4, (void *) 1, (void *) 2, (void *) 3, (void *) 4); seen_check ();
	seen_reset (); axl_hash_foreach3 (h, visit3, (void *) 1, (void *) 2, (void *) 3); seen_check ();
	seen_reset (); stop_after = sym_pick (1, nk, "stop"); axl_hash_foreach (h, visit, NULL); CHECK (seen_n == stop_after && ! seen_bad, "iteration stops when asked");
	for (i = 0; i < 2; i++) { remove_some (h, sym_pick (0, nk - 1, "key"), 0); check_hash (h); check_destroyed (); }
	insert (h, 0, 1); check_hash (h);
	finish (h); HEAP_CHECK; sym_reach ("end");
}
/* removing while iterating with the cursor: every pair is seen once */
void hash_cursor_remove (int step, int nkeys, int hmax) {
	axlHash * h; axlHashCursor * c; int i; HEAP_MARK;
	nk = nkeys; for (i = 0; i < nk; i++) hv[i] = (unsigned) sym_range (0, hmax, "hash value");
	h = axl_hash_new_full (h_any, eq_any, step);
	for (i = 0; i < nk; i++) insert (h, i, 1);
	c = axl_hash_cursor_new (h); CHECK (axl_hash_cursor_hash (c) == h, "cursor hash");
	seen_reset ();
	while (axl_hash_cursor_has_item (c)) {
		Obj * k = axl_hash_cursor_get_key (c); CHECK (++seen[k->id] == 1, "pair visited once");
		CHECK (axl_hash_cursor_get_value (c) == mv[k->id], "value of the key");
		if (sym_pick (0, 1, "remove")) { int id = k->id; axl_hash_cursor_remove (c); m_drop (id, 1); check_destroyed (); } else axl_hash_cursor_next (c);
	}
	for (i = 0; i < nk; i++) CHECK (seen[i] == 1, "every pair visited");
	axl_hash_cursor_first (c); CHECK (axl_hash_cursor_has_item (c) == (items > 0), "first after removals");
	axl_hash_cursor_last (c); CHECK (axl_hash_cursor_has_item (c) == (items > 0), "last after removals");
	check_hash (h);
	axl_hash_cursor_free (c); finish (h); HEAP_CHECK; sym_reach ("end");
}
static axlPointer cp_key (axlPointer k, axlDestroyFunc kd, axlPointer d, axlDestroyFunc dd) { Obj * o = &keys[used]; o->id = ((Obj *) k)->id; CHECK (mk[o->id] == k && mv[o->id] == d, "copy sees the pair"); CHECK (kd == (mfull[o->id] ? destroy : NULL) && dd == kd, "copy sees the destructors"); return o; }
static axlPointer cp_val (axlPointer k, axlDestroyFunc kd, axlPointer d, axlDestroyFunc dd) { Obj * o = &vals[used++]; o->id = ((Obj *) d)->id; return o; }
/* a copy holds the same pairs and is independent */
void hash_copy (int step, int nkeys, int hmax) {
	axlHash * h, * c; int i, k, full; Obj * ok[MAXK], * ov[MAXK]; int oi; HEAP_MARK;
	nk = nkeys; for (i = 0; i < nk; i++) hv[i] = (unsigned) sym_range (0, hmax, "hash value");
	h = axl_hash_new_full (h_any, eq_any, step);
	k = sym_pick (0, nk, "items"); full = sym_pick (0, 1, "destructors given");
	for (i = 0; i < k; i++) insert (h, i, i & 1);
	if (k && sym_pick (0, 1, "removed before")) remove_some (h, sym_pick (0, k - 1, "key"), 0);
	oi = used; memcpy (ok, mk, sizeof ok); memcpy (ov, mv, sizeof ov);
	c = full ? axl_hash_copy_full (h, cp_key, cp_val, destroy, destroy) : axl_hash_copy (h, cp_key, cp_val);
	check_hash (h); check_destroyed ();
	CHECK (axl_hash_items (c) == items, "copy item count");
	for (i = 0; i < nk; i++) { Obj probe, * v; probe.id = i; v = axl_hash_get (c, &probe); CHECK ((v != NULL) == (mk[i] != NULL), "copy keeps the keys"); CHECK (v == NULL || (v >= vals + oi && v->id == i), "copy stores copied values"); }
	if (k && sym_pick (0, 1, "remove from copy")) { Obj probe; probe.id = 0; axl_hash_remove (c, &probe); check_hash (h); }
	axl_hash_free (c);
	for (i = oi; i < used; i++) { int e = full || mfull[keys[i].id]; ek[i] = ev[i] = e; }
	check_destroyed (); check_hash (h);
	finish (h); HEAP_CHECK; sym_reach ("end");
}
/* the string and integer key functions */
void hash_builtin (int len) {
	axlHash * h; int i, j, k = 0; HEAP_MARK;
	if (sym_pick (0, 1, "strings")) {
		char s[3][4]; char d[3];
		h = axl_hash_new_full (axl_hash_string, axl_hash_equal_string, 2);
		for (i = 0; i < 3; i++) { int dup = 0; sym_bytes (s[i], len, "key"); s[i][len] = 0; for (j = 0; j < i; j++) if (strcmp (s[i], s[j]) == 0) dup = 1; axl_hash_insert (h, s[i], &d[i]); if (! dup) k++; }
		CHECK (axl_hash_items (h) == k, "distinct strings");
		for (i = 0; i < 3; i++) { int last = i; for (j = i + 1; j < 3; j++) if (strcmp (s[i], s[j]) == 0) last = j; CHECK (axl_hash_get (h, s[i]) == &d[last], "last value wins"); }
		for (i = 0; i < 3; i++) for (j = 0; j < 3; j++) CHECK ((axl_hash_equal_string (s[i], s[j]) == 0) == (strcmp (s[i], s[j]) == 0), "string equality");
		CHECK (axl_hash_equal_string (NULL, s[0]) != 0 && axl_hash_equal_string (s[0], NULL) != 0 && axl_hash_equal_string (NULL, NULL) == 0, "missing keys");
	} else {
		int v[3]; char d[3];
		h = axl_hash_new_full (axl_hash_int, axl_hash_equal_int, 2);
		for (i = 0; i < 3; i++) { int dup = 0; v[i] = sym_range (-6, 6, "key"); for (j = 0; j < i; j++) if (v[i] == v[j]) dup = 1; axl_hash_insert (h, INT_TO_PTR (v[i]), &d[i]); if (! dup) k++; }
		CHECK (axl_hash_items (h) == k, "distinct integers");
		for (i = 0; i < 3; i++) { int last = i; for (j = i + 1; j < 3; j++) if (v[i] == v[j]) last = j; CHECK (axl_hash_get (h, INT_TO_PTR (v[i])) == &d[last], "last value wins"); }
	}
	axl_hash_free (h); HEAP_CHECK; sym_reach ("end");
}
/* many keys: the table grows several times */
static int big_sum, big_count; static axl_bool big_each (axlPointer k, axlPointer v, axlPointer u) { big_sum += PTR_TO_INT (k) ^ (PTR_TO_INT (v) - 7); big_count++; return axl_false; }
void hash_scale (int size, int stride, int step) {
	axlHash * h; int i, rem, at; axlHashCursor * c; HEAP_MARK; h = axl_hash_new_full (axl_hash_int, axl_hash_equal_int, step); at = sym_pick (0, 2, "inserted twice");
	for (i = 0; i < size; i++) axl_hash_insert (h, INT_TO_PTR (i * stride), INT_TO_PTR (i * stride + 7)); at = at == 0 ? 0 : at == 1 ? size / 2 : size - 1; axl_hash_insert (h, INT_TO_PTR (at * stride), INT_TO_PTR (at * stride + 7));
	CHECK (axl_hash_items (h) == size && axl_hash_capacity (h) > 0, "count"); for (i = 0; i < size; i++) CHECK (axl_hash_exists (h, INT_TO_PTR (i * stride)) && axl_hash_get (h, INT_TO_PTR (i * stride)) == INT_TO_PTR (i * stride + 7), "stored"); { int probe = sym_range (0, 250, "probe") - 3 + (size * stride > 200 && stride != 1 ? size * stride - 200 : 0), in = probe >= 0 && probe < size * stride && probe % stride == 0; CHECK (!! axl_hash_exists (h, INT_TO_PTR (probe)) == in && axl_hash_get (h, INT_TO_PTR (probe)) == (in ? INT_TO_PTR (probe + 7) : NULL), "any key"); }
	big_sum = big_count = 0; axl_hash_foreach (h, big_each, NULL); CHECK (big_count == size && big_sum == 0, "visited"); c = axl_hash_cursor_new (h); i = 0; for (; axl_hash_cursor_has_item (c); axl_hash_cursor_next (c)) { i++; CHECK (axl_hash_cursor_get_value (c) == axl_hash_get (h, axl_hash_cursor_get_key (c)) && axl_hash_cursor_has_next (c) == (i < size), "cursor"); } CHECK (i == size, "cursor over all"); axl_hash_cursor_free (c);
	rem = sym_pick (1, 3, "removed"); for (i = 0; i < size; i += rem) CHECK (axl_hash_remove (h, INT_TO_PTR (i * stride)), "removed"); for (i = 0; i < size; i++) CHECK (axl_hash_exists (h, INT_TO_PTR (i * stride)) == (i % rem != 0), "only those"); CHECK (axl_hash_items (h) == size - (size + rem - 1) / rem, "count");
	for (i = 0; i < size; i += rem) axl_hash_insert (h, INT_TO_PTR (i * stride), INT_TO_PTR (i * stride + 7)); CHECK (axl_hash_items (h) == size, "inserted again"); for (i = 0; i < size; i++) CHECK (axl_hash_get (h, INT_TO_PTR (i * stride)) == INT_TO_PTR (i * stride + 7), "stored again"); axl_hash_free (h); HEAP_CHECK; sym_reach ("end");
}
