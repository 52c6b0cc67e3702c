/* C library used by the symbolic run (standard semantics; memory accesses are checked). */
#include <stddef.h>
#include <stdint.h>
#include <stdarg.h>
#include <stdlib.h>
#include "sym.h"
typedef unsigned char uc;
size_t strlen (const char * s) { size_t n = 0; while (s[n]) n++; return n; }
size_t strnlen (const char * s, size_t m) { size_t n = 0; while (n < m && s[n]) n++; return n; }
char * strchr (const char * s, int c) { for (;; s++) { if (*s == (char) c) return (char *) s; if (! *s) return 0; } }
char * strrchr (const char * s, int c) { const char * r = 0; for (;; s++) { if (*s == (char) c) r = s; if (! *s) return (char *) r; } }
void * memchr (const void * p, int c, size_t n) { const uc * s = p; for (; n; n--, s++) if (*s == (uc) c) return (void *) s; return 0; }
char * strstr (const char * h, const char * n) { size_t i; if (! *n) return (char *) h; for (; *h; h++) { for (i = 0; n[i] && h[i] == n[i]; i++); if (! n[i]) return (char *) h; } return 0; }
int strncmp (const char * a, const char * b, size_t n) { for (; n; n--, a++, b++) { if (*a != *b) return (int) (uc) *a - (int) (uc) *b; if (! *a) return 0; } return 0; }
char * strcpy (char * d, const char * s) { char * r = d; while ((*d++ = *s++)); return r; }
char * strncpy (char * d, const char * s, size_t n) { size_t i; for (i = 0; i < n && s[i]; i++) d[i] = s[i]; for (; i < n; i++) d[i] = 0; return d; }
char * stpcpy (char * d, const char * s) { while ((*d = *s)) { d++; s++; } return d; }
char * strcat (char * d, const char * s) { strcpy (d + strlen (d), s); return d; }
char * strncat (char * d, const char * s, size_t n) { char * e = d + strlen (d); size_t i; for (i = 0; i < n && s[i]; i++) e[i] = s[i]; e[i] = 0; return d; }
char * strdup (const char * s) { size_t n = strlen (s) + 1; char * r = malloc (n); { size_t i; for (i = 0; i < n; i++) r[i] = s[i]; } return r; }
char * strndup (const char * s, size_t m) { size_t n = strnlen (s, m), i; char * r = malloc (n + 1); for (i = 0; i < n; i++) r[i] = s[i]; r[n] = 0; return r; }
size_t strspn (const char * s, const char * a) { size_t n = 0; while (s[n] && strchr (a, s[n])) n++; return n; }
size_t strcspn (const char * s, const char * a) { size_t n = 0; while (s[n] && ! strchr (a, s[n])) n++; return n; }
char * strpbrk (const char * s, const char * a) { s += strcspn (s, a); return *s ? (char *) s : 0; }
int tolower (int c) { return (unsigned) c - 'A' < 26 ? c + 32 : c; }
int toupper (int c) { return (unsigned) c - 'a' < 26 ? c - 32 : c; }
int isspace (int c) { return c == ' ' || (unsigned) c - '\t' < 5; }
int isdigit (int c) { return (unsigned) c - '0' < 10; }
int isalpha (int c) { return ((unsigned) c | 32) - 'a' < 26; }
int isalnum (int c) { return isalpha (c) || isdigit (c); }
int isupper (int c) { return (unsigned) c - 'A' < 26; }
int islower (int c) { return (unsigned) c - 'a' < 26; }
int isprint (int c) { return (unsigned) c - 0x20 < 0x5f; }
int isxdigit (int c) { return isdigit (c) || ((unsigned) c | 32) - 'a' < 6; }
int strcasecmp (const char * a, const char * b) { for (;; a++, b++) { int x = tolower ((uc) *a), y = tolower ((uc) *b); if (x != y) return x - y; if (! x) return 0; } }
int strncasecmp (const char * a, const char * b, size_t n) { for (; n; n--, a++, b++) { int x = tolower ((uc) *a), y = tolower ((uc) *b); if (x != y) return x - y; if (! x) return 0; } return 0; }
static int32_t lowtab[384], uptab[384]; static unsigned short btab[384]; static const int32_t * lowp, * upp; static const unsigned short * bp;
const int32_t ** __ctype_tolower_loc (void) { int i; if (! lowp) { for (i = -128; i < 256; i++) lowtab[i + 128] = (i >= 'A' && i <= 'Z') ? i + 32 : i; lowp = lowtab + 128; } return &lowp; }
const int32_t ** __ctype_toupper_loc (void) { int i; if (! upp) { for (i = -128; i < 256; i++) uptab[i + 128] = (i >= 'a' && i <= 'z') ? i - 32 : i; upp = uptab + 128; } return &upp; }
#define BB(n) ((n) < 8 ? ((1 << (n)) << 8) : ((1 << (n)) >> 8))
const unsigned short ** __ctype_b_loc (void) { int i; if (! bp) { for (i = 0; i < 128; i++) { unsigned v = 0; int up = i >= 'A' && i <= 'Z', lo = i >= 'a' && i <= 'z', dg = i >= '0' && i <= '9';
	if (up) v |= BB(0); if (lo) v |= BB(1); if (up || lo) v |= BB(2); if (dg) v |= BB(3); if (dg || (i >= 'a' && i <= 'f') || (i >= 'A' && i <= 'F')) v |= BB(4);
	if (i == ' ' || (i >= 9 && i <= 13)) v |= BB(5); if (i >= 0x20 && i < 0x7f) v |= BB(6); if (i > 0x20 && i < 0x7f) v |= BB(7); if (i == ' ' || i == 9) v |= BB(8); if (i < 32 || i == 127) v |= BB(9);
	if (i > 0x20 && i < 0x7f && ! up && ! lo && ! dg) v |= BB(10); if (up || lo || dg) v |= BB(11); btab[i + 128] = v; } bp = btab + 128; } return &bp; }
long strtol (const char * s, char ** e, int base) { long v = 0; int neg = 0; while (isspace ((uc) *s)) s++; if (*s == '-' || *s == '+') neg = *s++ == '-'; if (base == 0) base = 10; for (;; s++) { int d; if (isdigit ((uc) *s)) d = *s - '0'; else if (isalpha ((uc) *s)) d = (*s | 32) - 'a' + 10; else break; if (d >= base) break; v = v * base + d; } if (e) *e = (char *) s; return neg ? -v : v; }
int atoi (const char * s) { return (int) strtol (s, 0, 10); }
long atol (const char * s) { return strtol (s, 0, 10); }
static long put (char * b, size_t n, long p, char c) { if (b && (size_t) p + 1 < n) b[p] = c; return p + 1; }
int vsnprintf (char * b, size_t n, const char * f, va_list ap) {
	long p = 0; char t[32];
	for (; *f; f++) {
		if (*f != '%') { p = put (b, n, p, *f); continue; }
		f++;
		{ int left = 0, zero = 0, alt = 0, width = 0, prec = -1, lng = 0, plus = 0; const char * s = 0; long len = 0, i; char sign = 0;
		for (;; f++) { if (*f == '-') left = 1; else if (*f == '0') zero = 1; else if (*f == '#') alt = 1; else if (*f == '+') plus = 1; else if (*f == ' ') ; else break; }
		if (*f == '*') { width = va_arg (ap, int); f++; if (width < 0) { left = 1; width = -width; } } else while (isdigit ((uc) *f)) width = width * 10 + (*f++ - '0');
		if (*f == '.') { f++; prec = 0; if (*f == '*') { prec = va_arg (ap, int); f++; } else while (isdigit ((uc) *f)) prec = prec * 10 + (*f++ - '0'); }
		while (*f == 'l' || *f == 'z' || *f == 'h' || *f == 'j') { if (*f == 'l' || *f == 'z' || *f == 'j') lng = 1; else lng -= 1; f++; }
		switch (*f) {
		case '%': p = put (b, n, p, '%'); continue;
		case 'c': t[0] = (char) va_arg (ap, int); s = t; len = 1; zero = 0; break;
		case 's': s = va_arg (ap, const char *); if (! s) s = "(null)"; len = prec >= 0 ? (long) strnlen (s, prec) : (long) strlen (s); zero = 0; break;
		case 'd': case 'i': case 'u': case 'x': case 'X': case 'o': case 'p': {
			unsigned long v; int base = (*f == 'x' || *f == 'X' || *f == 'p') ? 16 : *f == 'o' ? 8 : 10; int k = 31; (void) alt;
			if (*f == 'p') v = (unsigned long) va_arg (ap, void *);
			else if (*f == 'd' || *f == 'i') { long sv = lng > 0 ? va_arg (ap, long) : va_arg (ap, int); if (sv < 0) { sign = '-'; v = 0 - (unsigned long) sv; } else { v = sv; if (plus) sign = '+'; } }
			else v = lng > 0 ? va_arg (ap, unsigned long) : va_arg (ap, unsigned int);
			do { int dg = (int) (v % base); t[--k] = (char) (dg < 10 ? '0' + dg : (*f == 'X' ? 'A' : 'a') + dg - 10); v /= base; } while (v);
			while (31 - k < prec && k > 2) t[--k] = '0';
			s = t + k; len = 31 - k; break; }
		default: return -1;
		}
		{ long tot = len + (sign ? 1 : 0); if (! left && ! zero) for (i = tot; i < width; i++) p = put (b, n, p, ' '); if (sign) p = put (b, n, p, sign); if (! left && zero) for (i = tot; i < width; i++) p = put (b, n, p, '0'); for (i = 0; i < len; i++) p = put (b, n, p, s[i]); if (left) for (i = tot; i < width; i++) p = put (b, n, p, ' '); }
		} }
	if (b && n) b[(size_t) p < n ? (size_t) p : n - 1] = 0;
	return (int) p; }
int vasprintf (char ** r, const char * f, va_list ap) { va_list ap2; int n; va_copy (ap2, ap); n = vsnprintf (0, 0, f, ap2); va_end (ap2); if (n < 0) return -1; *r = malloc (n + 1); return vsnprintf (*r, n + 1, f, ap); }
int snprintf (char * b, size_t n, const char * f, ...) { va_list ap; int r; va_start (ap, f); r = vsnprintf (b, n, f, ap); va_end (ap); return r; }
int sprintf (char * b, const char * f, ...) { va_list ap; int r; va_start (ap, f); r = vsnprintf (b, 1 << 20, f, ap); va_end (ap); return r; }
int asprintf (char ** b, const char * f, ...) { va_list ap; int r; va_start (ap, f); r = vasprintf (b, f, ap); va_end (ap); return r; }
int vsprintf (char * b, const char * f, va_list ap) { return vsnprintf (b, 1 << 20, f, ap); }
/* output is discarded */
int printf (const char * f, ...) { (void) f; return 0; }
int vprintf (const char * f, va_list ap) { (void) f; (void) ap; return 0; }
int puts (const char * s) { (void) s; return 0; }
int putchar (int c) { return c; }
static int my_errno; int * __errno_location (void) { return &my_errno; }
char * strerror (int e) { (void) e; return "error"; }
int getpid (void) { return 1; }
int isatty (int fd) { (void) fd; return 0; }
void qsort (void * b, size_t n, size_t sz, int (*cmp) (const void *, const void *)) { uc * p = b; size_t i, j, k; for (i = 1; i < n; i++) for (j = i; j > 0 && cmp (p + (j - 1) * sz, p + j * sz) > 0; j--) for (k = 0; k < sz; k++) { uc t = p[(j - 1) * sz + k]; p[(j - 1) * sz + k] = p[j * sz + k]; p[j * sz + k] = t; } }
