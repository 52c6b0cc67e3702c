/* stream inspection against a cursor over the whole content */
#include "common.h"
#include <axl_stream.h>
static char * d; static int n, p; static axlStream * s; static int fd_mode;
static int is_ws (char c) { return (c == ' ') | (c == '\n') | (c == '\t') | (c == '\r'); }
static int at (int i, const char * v) { int k; for (k = 0; v[k]; k++) if (i + k >= n || d[i + k] != v[k]) return 0; return 1; }
static const char * const lit[] = { "<", "?>", "<!--", "ab" };
static const char * const sets[][3] = { { ">" }, { "-->" }, { "/>", ">" }, { ">", " " }, { "]]>", "]" }, { " ?>", "?>" }, { " ", "=", "<!x" }, { "ab", "a" }, { "abc", "ab", "a" } };
static void where (void) {
	if (! fd_mode) { CHECK (axl_stream_get_index (s) == p, "position"); CHECK (axl_stream_get_size (s) == n, "size"); }
	CHECK (axl_stream_get_index (s) <= axl_stream_get_size (s) && axl_stream_get_index (s) >= 0, "never beyond its data");
}
static void until (int which, int mode) {
	const char * const * t = sets[which]; int k, i, j, len = 0, m = -5, size = -7, hit = -1; char * r; int accept = mode != 1;
	for (k = 0; k < 3 && t[k]; k++) ;
	for (i = p; i < n && hit < 0; i++) {
		for (j = 0; j < k; j++) if (strcmp (t[j], " ") == 0 && is_ws (d[i])) { hit = j; len = 1; break; }
		for (j = 0; hit < 0 && j < k; j++) if (strcmp (t[j], " ") != 0 && at (i, t[j])) { hit = j; len = strlen (t[j]); }
		if (hit >= 0) break;
	}
	if (mode == 0 || mode == 1) r = axl_stream_get_until (s, NULL, &m, accept, k, t[0], t[1], t[2]);
	else if (mode == 2) r = axl_stream_get_until_ref (s, NULL, &m, axl_true, &size, k, t[0], t[1], t[2]);
	else if (mode == 3) r = axl_stream_get_until_zero (s, NULL, &m, axl_true, k, t[0], t[1], t[2]);
	else r = axl_stream_get_until_ref_zero (s, NULL, &m, axl_true, &size, k, t[0], t[1], t[2]);
	if (hit >= 0) {
		CHECK (r != NULL && m == hit, "terminator reported");
		CHECK (memcmp (r, d + p, i - p) == 0 && r[i - p] == 0, "content before the terminator");
		CHECK ((mode != 2 && mode != 4) || size == i - p, "content size");
		p = i + (accept ? len : 0);
	} else if (mode >= 3) { CHECK (r != NULL && m == -2 && memcmp (r, d + p, n - p) == 0 && r[n - p] == 0, "rest of the content"); p = n; }
	else CHECK (r == NULL, "missing terminator reported");
}
static void ops (int steps, int lo, int hi) {
	int i, k, r;
	for (i = 0; i < steps; i++) {
		switch (sym_pick (lo, hi, "operation")) {
		case 0: k = sym_pick (0, 3, "literal"); r = axl_stream_inspect (s, lit[k], sym_pick (0, 1, "size given") ? (int) strlen (lit[k]) : -1);
			CHECK (r == (at (p, lit[k]) ? 1 : (p + (int) strlen (lit[k]) > n ? -1 : 0)), "inspect result"); if (r == 1) p += strlen (lit[k]); break;
		case 1: k = sym_pick (0, 3, "literal"); r = axl_stream_peek (s, lit[k], strlen (lit[k]));
			CHECK (r == (at (p, lit[k]) ? 1 : (p + (int) strlen (lit[k]) > n ? -1 : 0)), "peek result");
			if (r == 1 && sym_pick (0, 1, "accept")) { axl_stream_accept (s); p += strlen (lit[k]); } else if (r == 1) { CHECK (axl_stream_peek (s, lit[k], strlen (lit[k])) == 1, "peeked data is still there"); axl_stream_accept (s); p += strlen (lit[k]); } break;
		case 2: r = axl_stream_inspect_several (s, 2, "ab", 2, "<", 1); k = at (p, "ab") ? 1 : at (p, "<") ? 2 : 0;
			CHECK (k ? r == k : r <= 0, "which one matched"); if (k) p += k == 1 ? 2 : 1; break;
		case 3: axl_stream_consume_white_spaces (s); while (p < n && is_ws (d[p])) p++; break;
		case 4: CHECK (!! axl_stream_remains (s) == (p < n), "remains"); break;
		case 5: until (sym_pick (0, 8, "terminators"), sym_pick (0, 4, "mode")); break;
		}
		where ();
	}
}
void stream_mem (int maxn, int steps) {
	int k; HEAP_MARK; n = sym_pick (1, maxn, "size"); d = malloc (n + 1); sym_bytes (d, n, "content"); d[n] = 0; for (k = 0; k < n; k++) sym_assume (d[k] != 0);
	s = axl_stream_new (d, sym_pick (0, 1, "size given") ? n : -1, NULL, -1, NULL); CHECK (s != NULL, "stream");
	where (); ops (steps, 0, 5);
	axl_stream_free (s); free (d); HEAP_CHECK; sym_reach ("end");
}
/* each set of terminators by itself, longer content; pre = bytes already consumed */
void stream_until (int which, int maxn) {
	int k; HEAP_MARK; n = sym_pick (1, maxn, "size"); d = malloc (n + 1); sym_bytes (d, n, "content"); d[n] = 0; for (k = 0; k < n; k++) sym_assume (d[k] != 0);
	s = axl_stream_new (d, n, NULL, -1, NULL);
	k = sym_pick (0, 1, "consumed before"); if (k && d[0] == 'a' && n > 1 && d[1] == 'b') { CHECK (axl_stream_inspect (s, "ab", 2) == 1, "inspect"); p = 2; } else if (k) sym_prune ();
	until (which, sym_pick (0, 4, "mode")); where (); ops (1, 0, 4); until (which, sym_pick (0, 1, "mode")); where ();
	axl_stream_free (s); free (d); HEAP_CHECK; sym_reach ("end");
}
/* the same over a descriptor that delivers the content in arbitrary pieces */
void stream_fd (int maxn, int steps, int mode, int max) {
	int k; HEAP_MARK; fd_mode = 1; n = sym_pick (1, maxn, "size"); d = malloc (n + 1); sym_bytes (d, n, "content"); d[n] = 0; for (k = 0; k < n; k++) sym_assume (d[k] != 0);
	vf_set_input (d, n, mode, max);
	s = axl_stream_new (NULL, -1, "input.xml", -1, NULL); CHECK (s != NULL, "stream");
	ops (steps, 0, 5);
	axl_stream_free (s); CHECK (vf_open_fds == 0, "descriptor closed"); free (d); HEAP_CHECK; sym_reach ("end");
}
void stream_fd_until (int which, int maxn, int mode, int max) {
	int k; HEAP_MARK; fd_mode = 1; n = sym_pick (1, maxn, "size"); d = malloc (n + 1); sym_bytes (d, n, "content"); d[n] = 0; for (k = 0; k < n; k++) sym_assume (d[k] != 0);
	vf_set_input (d, n, mode, max);
	s = axl_stream_new (NULL, -1, "input.xml", -1, NULL);
	k = sym_pick (0, 1, "consumed before"); if (k && d[0] == 'a' && n > 1 && d[1] == 'b') { CHECK (axl_stream_inspect (s, "ab", 2) == 1, "inspect"); p = 2; } else if (k) sym_prune ();
	until (which, sym_pick (0, 4, "mode")); where (); ops (1, 0, 4);
	axl_stream_free (s); CHECK (vf_open_fds == 0, "descriptor closed"); free (d); HEAP_CHECK; sym_reach ("end");
}
/* a regular file larger than the internal buffer: pad bytes, then symbolic content around the end of the first buffer */
void stream_fd_big (int which, int before, int hole, int after) {
	int i, base = 8192 - before; HEAP_MARK; fd_mode = 1;
	n = base + hole + after; d = malloc (n + 1); memset (d, 'x', n); d[n] = 0;
	sym_bytes (d + base, hole, "content"); for (i = 0; i < hole; i++) sym_assume (d[base + i] != 0);
	if (sym_pick (0, 1, "start with a matched prefix")) { d[0] = 'a'; d[1] = 'b'; }
	vf_set_input (d, n, 0, 0);
	s = axl_stream_new (NULL, -1, "input.xml", -1, NULL);
	if (d[0] == 'a') { CHECK (axl_stream_inspect (s, "ab", 2) == 1, "inspect"); p = 2; }
	until (which, sym_pick (0, 4, "mode")); where (); ops (1, 0, 4); until (which, 0); where ();
	axl_stream_free (s); CHECK (vf_open_fds == 0, "descriptor closed"); free (d); HEAP_CHECK; sym_reach ("end");
}
/* pushed back data is delivered first */
void stream_push (int maxn, int maxq) {
	int q, k, i; char ctx[4], * old; HEAP_MARK; n = sym_pick (1, maxn, "size"); d = malloc (n + maxq + 1); sym_bytes (d, n, "content"); d[n] = 0; for (k = 0; k < n; k++) sym_assume (d[k] != 0);
	fd_mode = sym_pick (0, 1, "descriptor"); (void) ctx;
	old = malloc (n + 1); memcpy (old, d, n + 1);
	if (fd_mode) { vf_set_input (old, n, 2, 0); s = axl_stream_new (NULL, -1, "input.xml", -1, NULL); } else s = axl_stream_new (d, n, NULL, -1, NULL);
	k = sym_pick (0, n, "consumed first"); if (k) { char c[8]; memcpy (c, d, k); c[k] = 0; CHECK (axl_stream_inspect (s, c, k) == 1, "inspect"); }
	q = sym_pick (1, maxq, "pushed");
	{ char * c = malloc (q); for (i = 0; i < q; i++) { c[i] = sym_u8 ("pushed byte"); sym_assume (c[i] != 0); } axl_stream_push (s, c, q);
	  for (i = 0; i < n - k; i++) d[q + i] = old[k + i]; memcpy (d, c, q); n = n - k + q; d[n] = 0; free (c); p = 0; }
	CHECK (axl_stream_remains (s), "pushed data remains");
	until (sym_pick (0, 3, "terminators"), sym_pick (0, 1, "mode")); CHECK (axl_stream_get_index (s) <= axl_stream_get_size (s), "never beyond its data"); ops (1, 0, 4);
	axl_stream_free (s); free (old); free (d); HEAP_CHECK; sym_reach ("end");
}
/* what is around the current position */
void stream_context (int maxn) {
	const char * r; int k, c, i, lo; HEAP_MARK; n = sym_pick (1, maxn, "size"); d = malloc (n + 1); sym_bytes (d, n, "content"); d[n] = 0; for (k = 0; k < n; k++) sym_assume (d[k] != 0);
	s = axl_stream_new (d, n, NULL, -1, NULL);
	p = sym_pick (0, n, "position"); if (p) { axl_stream_step (s, p); } CHECK (axl_stream_get_index (s) == p, "position");
	c = sym_pick (1, maxn + 1, "count");
	r = axl_stream_get_following (s, c); if (p == n) CHECK (r == NULL, "nothing follows"); else { k = c < n - p ? c : n - p; CHECK (r != NULL && memcmp (r, d + p, k) == 0 && r[k] == 0, "following data"); }
	r = axl_stream_get_near_to (s, c); lo = p - c < 0 ? 0 : p - c; CHECK (r != NULL, "near data"); k = strlen (r); CHECK (k <= n - lo && memcmp (r, d + lo, k) == 0 && k >= (p + c < n ? p + c : n) - lo - 0, "near data is part of the content");
	i = sym_pick (0, n, "move"); axl_stream_move (s, i); p = i; where ();
	axl_stream_free (s); free (d); HEAP_CHECK; sym_reach ("end");
}
static int linked; static void unl (axlPointer x) { linked += *(int *) x; }
void stream_link (void) {
	int a = 1, b = 10, u; HEAP_MARK; s = axl_stream_new ("x", 1, NULL, -1, NULL);
	axl_stream_link (s, &a, unl); axl_stream_link_full (s, &b, unl, axl_true); u = sym_pick (0, 1, "unlink"); if (u) axl_stream_unlink (s);
	axl_stream_free (s); CHECK (linked == (u ? 10 : 11), "linked elements released once"); HEAP_CHECK; sym_reach ("end");
}
