/* Harness interface. Under the symbolic executor these are engine builtins;
 * in the native replay (replay.c) they read the values of a counterexample. */
#ifndef SYM_H
#define SYM_H
#include <stddef.h>
#include <stdint.h>
void sym_bytes (void * p, long n, const char * name);          /* n arbitrary bytes */
int  sym_u8 (const char * name);                               /* arbitrary 0..255 */
int  sym_range (int lo, int hi, const char * name);            /* arbitrary lo..hi, stays symbolic */
int  sym_pick (int lo, int hi, const char * name);             /* arbitrary lo..hi, one path per value */
void sym_assume (int cond);
void sym_assert_ (int cond, const char * msg);
long sym_live (void);                                          /* heap blocks currently allocated */
long sym_concretize (long v);
void sym_reach (const char * label);                           /* reachability witness */
void sym_prune (void);
long sym_block_size (const void * p);                          /* bytes from p to the end of its block (engine only; 0 natively) */
#define STR2(x) #x
#define STR1(x) STR2(x)
#define CHECK(c, m) sym_assert_ (!!(c), m " [" __FILE__ ":" STR1(__LINE__) "] " #c)
/* virtual files: what open/read/stat/fopen see */
void vf_set_input (const char * data, long size, int chunk_mode, int max_chunk);
/* chunk_mode: 0 = read returns everything asked for; 1 = every read returns an arbitrary
 * count 1..max_chunk; 2 = first read arbitrary, then full */
extern long   vf_split;            /* mode 3: the first read returns exactly vf_split bytes */
extern int    vf_read_error_at;    /* read number that fails with -1, or -1 */
extern char * vf_out;              /* last written output */
extern long   vf_out_size;
extern int    vf_open_fail;        /* files cannot be opened for writing */
extern long   vf_out_cap;          /* bytes the written file can take, or -1 */
extern int    vf_out_late;         /* ... noticed when it is closed, not when it is written */
extern int    vf_open_fds;         /* descriptors currently open */
#endif
