/* Virtual file layer shared by the symbolic run and the native replay. */
#include "sym.h"
#include <string.h>
#include <stdlib.h>
#include <stdarg.h>
#include <stdio.h>
#include <sys/stat.h>
#ifdef NATIVE
#define NM(x) __wrap_##x
#else
#define NM(x) x
#endif
static const char * vf_data; static long vf_size; static int vf_mode, vf_max; static long vf_pos; static int vf_reads;
long vf_split = -1; int vf_read_error_at = -1; char * vf_out = 0; long vf_out_size = 0; int vf_open_fds = 0;
static char vf_outbuf[65536];
void vf_set_input (const char * data, long size, int mode, int max) { vf_data = data; vf_size = size; vf_mode = mode; vf_max = max; vf_pos = 0; vf_reads = 0; }
int NM(open) (const char * path, int flags, ...) { (void) path; (void) flags; if (vf_data == 0) return -1; vf_pos = 0; vf_reads = 0; vf_open_fds++; return 77; }
int NM(close) (int fd) { (void) fd; vf_open_fds--; return 0; }
long NM(read) (int fd, void * buf, size_t n) {
	long left = vf_size - vf_pos; long k = left < (long) n ? left : (long) n; (void) fd;
	if (vf_read_error_at == vf_reads++) return -1;
	if (k > 0) {
		if (vf_mode == 1 || (vf_mode == 2 && vf_reads == 1)) { long m = vf_max && vf_max < k ? vf_max : k; if (m > 1) k = sym_pick (1, m, "read"); }
		if (vf_mode == 3 && vf_reads == 1 && vf_split >= 1 && vf_split < k) k = vf_split;
		if (vf_mode == 4 && k > vf_max) k = vf_max;
		memcpy (buf, vf_data + vf_pos, k); vf_pos += k; }
	return k; }
int NM(stat) (const char * path, struct stat * st) { (void) path; memset (st, 0, sizeof (*st)); if (vf_data == 0) return -1; st->st_mode = S_IFREG | 0644; st->st_size = vf_size; return 0; }
/* one file being written: takes up to vf_out_cap bytes (-1: all); what it refuses is reported by the write itself, or (vf_out_late) only when it is flushed or closed */
int vf_open_fail = 0, vf_out_late = 0; long vf_out_cap = -1; static int vf_out_failed = 0;
static int vf_file_dummy;
#ifdef NATIVE
size_t __real_fwrite (const void *, size_t, size_t, FILE *); int __real_fputs (const char *, FILE *); int __real_fputc (int, FILE *); int __real_fflush (FILE *); int __real_ferror (FILE *); int __real_fclose (FILE *);
#define PASS(x) if (f != (FILE *) (void *) &vf_file_dummy) return x;
#else
#define PASS(x) (void) f;
#endif
static size_t vf_put (const char * p, size_t n) {
	size_t k = n;
	if (vf_out_cap >= 0 && vf_out_size + (long) n > vf_out_cap) { k = vf_out_cap - vf_out_size; vf_out_failed = 1; }
	if (vf_out_size + k < sizeof vf_outbuf) { memcpy (vf_outbuf + vf_out_size, p, k); vf_out_size += k; vf_outbuf[vf_out_size] = 0; }
	return vf_out_late ? n : k;
}
FILE * NM(fopen) (const char * path, const char * mode) { (void) path; (void) mode; if (vf_open_fail) return 0; vf_out = vf_outbuf; vf_out_size = 0; vf_outbuf[0] = 0; vf_out_failed = 0; vf_open_fds++; return (FILE *) (void *) &vf_file_dummy; }
size_t NM(fwrite) (const void * p, size_t sz, size_t n, FILE * f) { PASS (__real_fwrite (p, sz, n, f)) return sz ? vf_put (p, sz * n) / sz : 0; }
int NM(fputs) (const char * s, FILE * f) { PASS (__real_fputs (s, f)) size_t n = strlen (s); return vf_put (s, n) == n ? 1 : EOF; }
int NM(fputc) (int c, FILE * f) { PASS (__real_fputc (c, f)) char b = (char) c; return vf_put (&b, 1) == 1 ? (unsigned char) b : EOF; }
int NM(fflush) (FILE * f) { PASS (__real_fflush (f)) return vf_out_failed ? EOF : 0; }
int NM(ferror) (FILE * f) { PASS (__real_ferror (f)) return vf_out_late ? 0 : vf_out_failed; }
int NM(fclose) (FILE * f) { PASS (__real_fclose (f)) vf_open_fds--; return vf_out_late && vf_out_failed ? EOF : 0; }
#ifdef NATIVE
int __real_vfprintf (FILE *, const char *, va_list);
#endif
int NM(vfprintf) (FILE * f, const char * m, va_list ap) { char * s = 0; int n;
#ifdef NATIVE
	if (f != (FILE *) (void *) &vf_file_dummy) return __real_vfprintf (f, m, ap);
#else
	if (f != (FILE *) (void *) &vf_file_dummy) return 0;
#endif
	n = vasprintf (&s, m, ap); if (n >= 0) { if ((int) vf_put (s, n) != n) n = -1; free (s); } return n; }
int NM(fprintf) (FILE * f, const char * m, ...) { va_list ap; int n; va_start (ap, m); n = NM(vfprintf) (f, m, ap); va_end (ap); return n; }
char * NM(getenv) (const char * n) { (void) n; return 0; }
