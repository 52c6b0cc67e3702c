/* string utilities against straightforward reference definitions */
#include <stdarg.h>
#include "common.h"
#include <axl_stream.h>
static int is_ws (char c) { return (c == ' ') | (c == '\n') | (c == '\t') | (c == '\r'); }
/* an exactly sized heap copy: any access outside is caught */
static char * hs (int n, const char * name) { char * s = malloc (n + 1); sym_bytes (s, n, name); s[n] = 0; return s; }
static char * hs_nz (int n, const char * name) { char * s = hs (n, name); int i; for (i = 0; i < n; i++) sym_assume (s[i] != 0); return s; }
void str_trim (int maxn) {
	int n = sym_pick (0, maxn, "length"), i, j, k, t = -1; char * s = hs_nz (n, "text"), * o; HEAP_MARK;
	o = malloc (n + 1); memcpy (o, s, n + 1);
	if (sym_pick (0, 1, "with size")) axl_stream_trim_with_size (s, &t); else axl_stream_trim (s);
	i = 0; while (i < n && is_ws (o[i])) i++;
	j = n; while (j > i && is_ws (o[j - 1])) j--;
	CHECK ((int) strlen (s) == j - i, "trimmed length");
	for (k = 0; k < j - i; k++) CHECK (s[k] == o[i + k], "trimmed content");
	CHECK (t == -1 || t == n - (j - i), "trimmed amount");
	for (k = 0; k < n; k++) CHECK (!! axl_stream_is_white_space (o + k) == is_ws (o[k]), "white space");
	free (o); HEAP_CHECK; free (s); sym_reach ("end");
}
static int at (const char * s, int n, int i, const char * v, int vn) { int k; if (vn == 0 || i + vn > n) return 0; for (k = 0; k < vn; k++) if (s[i + k] != v[k]) return 0; return 1; }
void str_replace (int maxn, int maxv, int maxr) {
	int n = sym_pick (0, maxn, "length"), vn = sym_pick (0, maxv, "needle length"), rn = sym_pick (0, maxr, "replacement length"), i, e = 0, r; int withlen = sym_pick (0, 1, "lengths given");
	char * v = hs_nz (vn, "needle"), * p = hs_nz (rn, "replacement"), * s, * o; char exp[64]; HEAP_MARK;
	s = hs_nz (n, "text"); o = malloc (n + 1); memcpy (o, s, n + 1);
	r = axl_stream_replace (&s, withlen ? n : -1, v, withlen ? vn : -1, p, withlen ? rn : -1);
	for (i = 0; i < n; ) if (at (o, n, i, v, vn)) { memcpy (exp + e, p, rn); e += rn; i += vn; } else exp[e++] = o[i++];
	exp[e] = 0;
	CHECK (r == e, "resulting length"); CHECK (strcmp (s, exp) == 0, "every occurrence replaced and nothing else");
	free (o); axl_free (s); HEAP_CHECK; free (v); free (p); sym_reach ("end");
}
void str_remove (int maxn, int maxv) {
	int n = sym_pick (0, maxn, "length"), vn = sym_pick (0, maxv, "needle length"), i, e = 0, first = sym_pick (0, 1, "only first"), done = 0;
	char * v = hs_nz (vn, "needle"), * s, * o; char exp[64]; HEAP_MARK;
	s = hs_nz (n, "text"); o = malloc (n + 1); memcpy (o, s, n + 1);
	axl_stream_remove (s, v, first);
	/* reference: scan left to right; after a removal, look again at the same place */
	e = n; memcpy (exp, o, n); i = 0;
	while (i < e) { if (! (first && done) && at (exp, e, i, v, vn)) { memmove (exp + i, exp + i + vn, e - i - vn); e -= vn; done = 1; } else i++; }
	exp[e] = 0;
	CHECK (strcmp (s, exp) == 0, "occurrences removed and nothing else");
	free (o); free (s); HEAP_CHECK; free (v); sym_reach ("end");
}
void str_split_join (int maxn, int seps) {
	int n = sym_pick (0, maxn, "length"), i, k = 0, last = 0, two; char * s = hs_nz (n, "text"); char ** r; char * j; HEAP_MARK;
	char * a = seps == 2 ? "--" : ",", * b = ";"; int an = strlen (a);
	two = sym_pick (0, 1, "second separator");
	r = two ? axl_stream_split (s, 2, a, b) : axl_stream_split (s, 1, a);
	CHECK (r != NULL, "split result");
	for (i = 0; i < n; ) {
		int m = at (s, n, i, a, an) ? an : (two && s[i] == ';') ? 1 : 0;
		if (m) { CHECK (r[k] != NULL && (int) strlen (r[k]) == i - last && memcmp (r[k], s + last, i - last) == 0, "piece"); k++; i += m; last = i; } else i++;
	}
	if (n > 0) { CHECK (r[k] != NULL && (int) strlen (r[k]) == n - last && memcmp (r[k], s + last, n - last) == 0, "last piece"); k++; }
	CHECK (r[k] == NULL, "end of pieces"); CHECK (axl_stream_strv_num (r) == k, "number of pieces");
	if (! two && n > 0) { j = axl_stream_join (r, a); CHECK (str_eq (j, s), "joining the pieces gives back the text"); axl_free (j); }
	if (sym_pick (0, 1, "clean")) { int ne = 0, p = 0; char * q[32]; int ql[32];
		for (i = 0; i < k; i++) if (r[i][0]) { q[ne] = malloc (strlen (r[i]) + 1); strcpy (q[ne], r[i]); ql[ne] = strlen (r[i]); ne++; }
		axl_stream_clean_split (r);
		for (p = 0; p < ne; p++) { CHECK (r[p] != NULL && strcmp (r[p], q[p]) == 0, "non empty pieces stay in order"); (void) ql; free (q[p]); }
		CHECK (r[ne] == NULL, "empty pieces removed"); }
	axl_stream_freev (r); HEAP_CHECK; free (s); sym_reach ("end");
}
void str_join (int k, int len) {
	char * v[5], * sep = sym_pick (0, 1, "long separator") ? ", " : (sym_pick (0, 1, "empty separator") ? "" : ","); char * r, exp[64]; int i, e = 0; HEAP_MARK;
	k = sym_pick (1, k, "pieces");
	for (i = 0; i < k; i++) v[i] = hs_nz (sym_pick (0, len, "length"), "piece"); v[k] = NULL;
	r = axl_stream_join (v, sep); exp[0] = 0;
	for (i = 0; i < k; i++) { if (i) { strcpy (exp + e, sep); e += strlen (sep); } strcpy (exp + e, v[i]); e += strlen (v[i]); }
	CHECK (str_eq (r, exp), "joined string"); axl_free (r); for (i = 0; i < k; i++) free (v[i]); HEAP_CHECK; sym_reach ("end");
}
static int low (int c) { return c >= 'A' && c <= 'Z' ? c + 32 : c; }
static int up (int c) { return c >= 'a' && c <= 'z' ? c - 32 : c; }
void str_compare (int maxn) {
	int n = sym_pick (0, maxn, "length"), m = sym_pick (0, maxn, "length"), i, eq, ceq; char * a = hs_nz (n, "a"), * b = hs_nz (m, "b"); HEAP_MARK;
	eq = n == m; for (i = 0; i < n && i < m; i++) eq &= a[i] == b[i];
	ceq = n == m; for (i = 0; i < n && i < m; i++) ceq &= low ((unsigned char) a[i]) == low ((unsigned char) b[i]);
	CHECK (!! axl_cmp (a, b) == eq, "equality"); CHECK (!! axl_casecmp (a, b) == ceq, "equality without case");
	CHECK (! axl_cmp (a, NULL) && ! axl_cmp (NULL, a) && ! axl_casecmp (a, NULL) && ! axl_casecmp (NULL, a), "missing strings");
	if (n && m) { int l = n < m ? n : m, pe = 1; for (i = 0; i < l; i++) pe &= a[i] == b[i]; CHECK (!! axl_memcmp (a, b, l) == pe, "prefix equality"); CHECK (!! axl_stream_cmp (a, b, l) == pe, "prefix equality"); pe = 1; for (i = 0; i < l; i++) pe &= low ((unsigned char) a[i]) == low ((unsigned char) b[i]); CHECK (!! axl_stream_casecmp (a, b, l) == pe, "prefix equality without case");
		CHECK (n == m || ! axl_memcmp (a, b, l + 1), "comparison stops at the end of the shorter one"); }
	HEAP_CHECK; free (a); free (b); sym_reach ("end");
}
static int vlen (const char * f, ...) { va_list l; int r; va_start (l, f); r = axl_stream_vprintf_len (f, l); va_end (l); return r; }
void str_copies (int maxn) {
	int n = sym_pick (0, maxn, "length"), m = sym_pick (0, maxn, "length"), i; char * a = hs_nz (n, "a"), * b = hs_nz (m, "b"), * r, * r2; HEAP_MARK;
	r = axl_strdup (a); CHECK (r != a && str_eq (r, a), "duplicate"); axl_free (r); CHECK (axl_strdup (NULL) == NULL, "duplicate of nothing");
	if (n) { int k = sym_pick (1, n, "bytes"); r = axl_stream_strdup_n (a, k); CHECK ((int) strlen (r) == k && memcmp (r, a, k) == 0, "bounded duplicate"); axl_free (r); }
	r = axl_stream_concat (a, b); CHECK ((int) strlen (r) == n + m && memcmp (r, a, n) == 0 && strcmp (r + n, b) == 0, "concatenation"); axl_free (r);
	r = axl_stream_concat (a, NULL); CHECK (str_eq (r, a), "concatenation with nothing"); axl_free (r);
	r = axl_stream_concat (NULL, b); CHECK (str_eq (r, b), "concatenation with nothing"); axl_free (r);
	r = axl_stream_to_upper_copy (a); r2 = axl_stream_to_lower_copy (a);
	for (i = 0; i < n; i++) { CHECK (r[i] == (char) up ((unsigned char) a[i]), "upper case"); CHECK (r2[i] == (char) low ((unsigned char) a[i]), "lower case"); }
	CHECK (r[n] == 0 && r2[n] == 0, "same length");
	CHECK (axl_stream_to_lower (r) == r && str_eq (r, r2), "lower of upper"); CHECK (axl_stream_to_upper (r2) == r2 && strlen (r2) == (size_t) n, "in place upper");
	axl_free (r); axl_free (r2);
	r = axl_strdup_printf ("%s-%s", a, b); CHECK ((int) strlen (r) == n + m + 1 && memcmp (r, a, n) == 0 && r[n] == '-' && strcmp (r + n + 1, b) == 0, "formatted copy"); axl_free (r);
	i = -1; r = axl_stream_strdup_printf_len ("%s%s", &i, a, b); CHECK (i == n + m && (int) strlen (r) == i, "formatted copy with length"); axl_free (r);
	CHECK (axl_stream_printf_len ("%s%s", a, b) == n + m + 1, "formatted length includes the terminator");
	CHECK (vlen ("%s%s", a, b) == n + m + 1 && vlen (NULL) == 0, "formatted length, arguments given as a list"); CHECK (axl_stream_printf_limit () == -1, "no limit");
	{ char * buf; int real = -1, bs = sym_pick (1, maxn, "buffer"), w; buf = malloc (bs); w = axl_stream_printf_buffer (buf, bs, &real, "%s%s", a, b); CHECK (real == n + m, "size needed"); CHECK (w == (n + m < bs ? n + m : bs - 1) && (int) strlen (buf) == w, "bytes written"); free (buf); }
	HEAP_CHECK; free (a); free (b); sym_reach ("end");
}
