/* factories: disjoint, cleared, stable blocks */
#include "common.h"
static void fill (char * p, int n, int v) { memset (p, v, n); }
static int all (char * p, int n, int v) { int i, bad = 0; for (i = 0; i < n; i++) bad |= p[i] != (char) v; return ! bad; }
/* size lo..hi, up to maxn blocks; pattern fills make overlaps visible */
void factory_blocks (int lo, int hi, int maxn) {
	axlFactory * f; char * b[64]; int i, k, t[64], size = sym_pick (lo, hi, "block size"); HEAP_MARK;
	f = axl_factory_create (size); k = sym_pick (1, maxn, "requests");
	for (i = 0; i < k; i++) { b[i] = axl_factory_get (f); CHECK (b[i] != NULL && all (b[i], size, 0), "block is cleared"); t[i] = sym_u8 ("content"); fill (b[i], size, t[i]); }
	for (i = 0; i < k; i++) CHECK (all (b[i], size, t[i]), "blocks do not overlap");
	axl_factory_free (f); HEAP_CHECK; sym_reach ("end");
}
/* requests and releases in any order: what is in use never overlaps */
void factory_spares (int size, int base, int steps) {
	axlFactory * f; char * b[64]; int i, j, n = 0, tag[64]; HEAP_MARK;
	f = axl_factory_create (size);
	for (i = 0; i < base; i++) { b[n] = axl_factory_get (f); tag[n] = sym_u8 ("content"); fill (b[n], size, tag[n]); n++; }
	for (i = 0; i < steps; i++) {
		int w = sym_pick (0, 3, "operation");
		if (w == 0) { b[n] = axl_factory_get (f); tag[n] = sym_u8 ("content"); fill (b[n], size, tag[n]); n++; }
		else if (w == 1) { if (n) { n--; axl_factory_release_spare (f, b[n]); } }
		else if (w == 2) { if (n) { j = sym_pick (0, n < 6 ? n - 1 : 5, "which"); axl_factory_release_spare (f, b[j]); b[j] = b[n - 1]; tag[j] = tag[n - 1]; n--; } }
		else { int c = n < 12 ? n : 12; while (c-- > 0) { n--; axl_factory_release_spare (f, b[n]); } }
		for (j = 0; j < n; j++) CHECK (all (b[j], size, tag[j]), "blocks in use are stable");
	}
	axl_factory_free (f); HEAP_CHECK; sym_reach ("end");
}
/* string factory: any sequence of sizes taken from around its thresholds */
void str_factory (int reqs) {
	static const int sizes[] = { 0, 1, 7, 500, 1022, 1023, 1024, 1025, 2000 };
	axlStrFactory * f; char * b[8]; int s[8], i, t[8]; HEAP_MARK;
	f = axl_string_factory_create ();
	for (i = 0; i < reqs; i++) {
		s[i] = sizes[sym_pick (0, 8, "request")]; b[i] = axl_string_factory_alloc (f, s[i]);
		CHECK (b[i] != NULL && all (b[i], s[i] + 1, 0), "string is cleared and terminated"); t[i] = sym_u8 ("content"); fill (b[i], s[i], t[i]);
	}
	for (i = 0; i < reqs; i++) { CHECK (all (b[i], s[i], t[i]), "strings do not overlap"); CHECK (b[i][s[i]] == 0, "terminator"); }
	axl_string_factory_free (f); HEAP_CHECK; sym_reach ("end");
}
/* every size pair */
void str_factory_any (int lo, int hi) {
	axlStrFactory * f; char * a, * b, * c; int n = sym_pick (lo, hi, "first request"), m; HEAP_MARK;
	f = axl_string_factory_create ();
	a = axl_string_factory_alloc (f, n); fill (a, n, 1);
	m = 1024 - n - 4 + sym_pick (0, 7, "second request"); if (m < 0) m = 0;
	b = axl_string_factory_alloc (f, m); CHECK (all (b, m + 1, 0), "string is cleared and terminated"); fill (b, m, 2);
	c = axl_string_factory_alloc (f, 3); CHECK (all (c, 4, 0), "string is cleared and terminated"); fill (c, 3, 3);
	CHECK (all (a, n, 1) && a[n] == 0 && all (b, m, 2) && b[m] == 0 && all (c, 3, 3) && c[3] == 0, "strings do not overlap");
	axl_string_factory_free (f); HEAP_CHECK; sym_reach ("end");
}
