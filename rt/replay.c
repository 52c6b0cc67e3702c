/* Native replay: feeds the bytes of a counterexample to the same harness. */
#include "sym.h"
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
static int vals[4096]; static int nvals, cur; static long live;
static int next (void) { return cur < nvals ? vals[cur++] : (cur++, 0); }
void sym_bytes (void * p, long n, const char * name) { unsigned char * b = p; long i; (void) name; for (i = 0; i < n; i++) b[i] = (unsigned char) next (); }
int sym_u8 (const char * name) { (void) name; return next (); }
int sym_range (int lo, int hi, const char * name) { int v = next (); (void) name; if (v > hi - lo) v = hi - lo; return lo + v; }
int sym_pick (int lo, int hi, const char * name) { return sym_range (lo, hi, name); }
void sym_assume (int c) { if (! c) { fprintf (stderr, "REPLAY: assumption not met\n"); _exit (0); } }
void sym_prune (void) { _exit (0); }
void sym_assert_ (int c, const char * m) { if (! c) { fprintf (stderr, "REPLAY: FAILED %s\n", m); _exit (77); } }
long sym_live (void) { return live; }
long sym_concretize (long v) { return v; }
void sym_reach (const char * l) { (void) l; }
long sym_block_size (const void * p) { (void) p; return 0; }
extern char __data_start, _end; static long lw;
long sym_lib_writes (void) { return lw++; }
int sym_is_shared (const void * p) { return (const char *) p >= &__data_start && (const char *) p < &_end; }
void * __real_malloc (size_t); void * __real_calloc (size_t, size_t); void * __real_realloc (void *, size_t); void __real_free (void *); char * __real_strdup (const char *);
void * __wrap_malloc (size_t n) { live++; return __real_malloc (n); }
void * __wrap_calloc (size_t a, size_t b) { live++; return __real_calloc (a, b); }
void * __wrap_realloc (void * p, size_t n) { if (! p) live++; else if (! n) live--; return __real_realloc (p, n); }
void __wrap_free (void * p) { if (p) live--; __real_free (p); }
char * __wrap_strdup (const char * s) { live++; return __real_strdup (s); }
int __real_vasprintf (char **, const char *, __builtin_va_list);
int __wrap_vasprintf (char ** r, const char * f, __builtin_va_list ap) { live++; return __real_vasprintf (r, f, ap); }
#include <dlfcn.h>
FILE * __real_fopen (const char *, const char *); int __real_fclose (FILE *);
int main (int argc, char ** argv) {
	FILE * f; int a[8] = {0}, i; void (*entry) (int, int, int, int, int, int, int, int);
	if (argc < 3) return 2;
	f = __real_fopen (argv[1], "r"); if (! f) return 2;
	while (nvals < 4096 && fscanf (f, "%d", &vals[nvals]) == 1) nvals++; __real_fclose (f);
	entry = (void (*) (int, int, int, int, int, int, int, int)) dlsym (RTLD_DEFAULT, argv[2]); if (! entry) return 2;
	for (i = 3; i < argc && i < 11; i++) a[i - 3] = atoi (argv[i]);
	entry (a[0], a[1], a[2], a[3], a[4], a[5], a[6], a[7]); fprintf (stderr, "REPLAY: completed\n"); return 0; }
