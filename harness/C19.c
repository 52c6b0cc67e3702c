/* stacks against an array model */
#include "common.h"
static char obj[16]; static int destroyed[16];
static void destroy (axlPointer p) { destroyed[(char *) p - obj]++; }
static char * m[16]; static int n; static int vis, bad;
static axl_bool visit (axlPointer d, axlPointer a, axlPointer b) { if (a != (void *) 1 || b != (void *) 2 || vis >= n || d != m[n - 1 - vis]) bad = 1; vis++; return 0; }
static axl_bool visit3 (axlPointer d, axlPointer a, axlPointer b, axlPointer c) { if (c != (void *) 3) bad = 1; return visit (d, a, b); }
static int stop_at;
static axl_bool visit_stop (axlPointer d, axlPointer a, axlPointer b) { vis++; return vis == stop_at; }
void stack_history (int steps) {
	axlStack * s; int i, j, next = 0, ex[16] = {0}; int with = sym_pick (0, 1, "destructor"); HEAP_MARK;
	s = axl_stack_new (with ? destroy : NULL);
	CHECK (axl_stack_is_empty (s) && axl_stack_size (s) == 0 && axl_stack_peek (s) == NULL && axl_stack_pop (s) == NULL, "new stack is empty");
	for (i = 0; i < steps; i++) {
		if (sym_u8 ("push") & 1) { m[n] = &obj[next++]; axl_stack_push (s, m[n]); n++; }
		else { char * p = axl_stack_pop (s); CHECK (p == (n ? m[n - 1] : NULL), "pop order"); if (n) n--; }
		CHECK (axl_stack_size (s) == n && axl_stack_is_empty (s) == (n == 0), "size");
		CHECK (axl_stack_peek (s) == (n ? (void *) m[n - 1] : NULL), "peek");
		vis = bad = 0; CHECK (axl_stack_foreach (s, visit, (void *) 1, (void *) 2), "foreach to the end"); CHECK (vis == n && ! bad, "foreach from top to bottom");
		vis = bad = 0; CHECK (axl_stack_foreach3 (s, visit3, (void *) 1, (void *) 2, (void *) 3), "foreach to the end"); CHECK (vis == n && ! bad, "foreach from top to bottom");
		if (n) { vis = 0; stop_at = n; CHECK (! axl_stack_foreach (s, visit_stop, NULL, NULL), "foreach stopped"); }
	}
	axl_stack_push (s, NULL); CHECK (axl_stack_size (s) == n, "nothing is not stored");
	for (i = 0; i < 16; i++) CHECK (! destroyed[i], "no destructor call before release");
	axl_stack_free (s);
	for (j = 0; j < n; j++) ex[m[j] - obj] = with;
	for (i = 0; i < 16; i++) CHECK (destroyed[i] == ex[i], "destructor once for the items still held");
	HEAP_CHECK; sym_reach ("end");
}
void bstack_history (int steps) {
	axlBinaryStack * s; int i, b[32], k = 0; HEAP_MARK;
	s = axl_binary_stack_new ();
	CHECK (axl_binary_stack_is_empty (s) && axl_binary_stack_size (s) == 0, "new stack is empty");
	for (i = 0; i < steps; i++) {
		switch (sym_pick (0, 2, "operation")) {
		case 0: b[k] = sym_u8 ("bit") & 1; axl_binary_stack_push (s, b[k] ? axl_true : axl_false); k++; break;
		case 1: CHECK (!! axl_binary_stack_pop (s) == (k ? b[k - 1] : 0), "pop order"); if (k) k--; break;
		case 2: axl_binary_stack_push_the_same (s); if (k) { b[k] = b[k - 1]; k++; } break;
		}
		CHECK (axl_binary_stack_size (s) == k && axl_binary_stack_is_empty (s) == (k == 0), "size");
		CHECK (!! axl_binary_stack_peek (s) == (k ? b[k - 1] : 0), "peek");
	}
	if (sym_pick (0, 1, "drain")) while (k) { CHECK (!! axl_binary_stack_pop (s) == b[k - 1], "pop order"); k--; CHECK (axl_binary_stack_size (s) == k && axl_binary_stack_is_empty (s) == (k == 0), "size"); }
	axl_binary_stack_free (s); HEAP_CHECK; sym_reach ("end");
}
/* many values */
#define BIT(i) (pat == 0 ? 0 : pat == 1 ? 1 : pat == 2 ? (i) & 1 : pat == 3 ? (i) % 3 == 0 : pat == 4 ? (i) >= size / 2 : pat == 5 ? (i) / 8 % 2 : pat == 6 ? (i) == size - 1 ? fl : (i) == 0 || (i) == size / 2 ? fl : 0 : (i) % 8 == 7)
void stack_scale (int size) {
	axlStack * s; axlBinaryStack * b; int i, k, down, * v = malloc (size * sizeof (int)), pat = sym_pick (0, 7, "pattern"), fl = sym_range (0, 1, "bit"); HEAP_MARK; s = axl_stack_new (NULL); b = axl_binary_stack_new ();
	for (k = 0; k < 2; k++) { for (i = k ? size / 2 : 0; i < size; i++) { axl_stack_push (s, v + i); axl_binary_stack_push (b, BIT (i)); CHECK (axl_binary_stack_peek (b) == BIT (i) && axl_stack_peek (s) == v + i, "just pushed"); } CHECK (axl_stack_size (s) == size && axl_binary_stack_size (b) == size, "size"); down = k ? 0 : size / 2; for (i = size - 1; i >= down; i--) { CHECK (axl_stack_pop (s) == v + i, "pop"); CHECK (axl_binary_stack_peek (b) == BIT (i) && axl_binary_stack_pop (b) == BIT (i), "pop of a bit"); } CHECK (axl_stack_size (s) == down && axl_binary_stack_size (b) == down, "left"); }
	CHECK (axl_stack_is_empty (s) && axl_binary_stack_is_empty (b), "empty"); axl_stack_free (s); axl_binary_stack_free (b); free (v); heap_mark_--; HEAP_CHECK; sym_reach ("end");
}
