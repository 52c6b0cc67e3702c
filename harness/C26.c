/* annotations */
#include "same.h"
#define MN 6
#define MK 3
#define MS 8
static int n, par[MN]; static axlNode * node[MN]; static axlDoc * doc; static int alive[MN];
static char key[MK][3];
static struct { int set, kind, id, i; char s[3]; double d; } ann[MN][MK];
static int kfreed[MS], vfreed[MS], wantk[MS], wantv[MS], ids; static char * kptr[MS], * vptr[MS];
static void key_free (axlPointer p) { int i; for (i = 0; i < ids; i++) if (kptr[i] == (char *) p && ! kfreed[i]) { kfreed[i]++; free (p); return; } CHECK (0, "only keys given are released, once"); }
static void val_free (axlPointer p) { int i; for (i = 0; i < ids; i++) if (vptr[i] == (char *) p && ! vfreed[i]) { vfreed[i]++; free (p); return; } CHECK (0, "only values given are released, once"); }
static void drop (int i, int k) { if (ann[i][k].set) { if (ann[i][k].kind == 1) { wantk[ann[i][k].id] = wantv[ann[i][k].id] = 1; } if (ann[i][k].kind == 5) wantv[ann[i][k].id] = 1; if (ann[i][k].kind == 6) wantk[ann[i][k].id] = 1; } ann[i][k].set = 0; }
static void released (void) { int i; for (i = 0; i < ids; i++) CHECK (kfreed[i] == wantk[i] && vfreed[i] == wantv[i], "released exactly when replaced or the element goes"); }
static void kill_sub (int i) { int j; alive[i] = 0; for (j = 0; j < MK; j++) drop (i, j); for (j = i + 1; j < n; j++) if (alive[j] && par[j] == i) kill_sub (j); }
static void make (int how, int count) {
	int i; n = count;
	for (i = 0; i < n; i++) { par[i] = i ? sym_pick (0, i - 1, "parent") : -1; alive[i] = 1; }
	doc = how == 0 ? axl_doc_parse ("<r/>", -1, NULL) : axl_doc_create (NULL, NULL, axl_false);
	if (how == 0) node[0] = axl_doc_get_root (doc); else { node[0] = axl_node_create ("r"); axl_doc_set_root (doc, node[0]); }
	for (i = 1; i < n; i++) { node[i] = axl_node_create ("n"); if (i == 2) axl_node_set_content (node[par[i]], "t", 1); axl_node_set_child (node[par[i]], node[i]); }
}
static char * dup_ (const char * s) { char * p = malloc (strlen (s) + 1); strcpy (p, s); return p; }
static char plain[MS]; static const double halves[MS] = { 0.5, 1.5, 2.5, 3.5, 4.5, 5.5, 6.5, 7.5 };
static void put (int i, int k, int kind) {
	axlNode * x = node[i]; int id = ids; drop (i, k); ann[i][k].set = 1; ann[i][k].kind = kind; ann[i][k].id = id; ids++;
	switch (kind) {
	case 0: axl_node_annotate_data (x, key[k], plain + id); break;
	case 1: kptr[id] = dup_ (key[k]); vptr[id] = dup_ ("v"); axl_node_annotate_data_full (x, kptr[id], key_free, vptr[id], val_free); break;
	case 2: ann[i][k].i = sym_u8 ("int") * 8388608 + 7; axl_node_annotate_int (x, key[k], ann[i][k].i); break;
	case 3: { char s[3]; s[0] = sym_u8 ("char"); s[1] = sym_u8 ("char"); s[2] = 0; memcpy (ann[i][k].s, s, 3); axl_node_annotate_string (x, key[k], s); break; }
	case 4: ann[i][k].d = halves[id]; axl_node_annotate_double (x, key[k], ann[i][k].d); break;
	case 5: vptr[id] = dup_ ("v"); axl_node_annotate_data_full (x, key[k], NULL, vptr[id], val_free); break;
	case 6: kptr[id] = dup_ (key[k]); axl_node_annotate_data_full (x, kptr[id], key_free, plain + id, NULL); break;
	}
}
static int same_d (double a, double b) { return ! memcmp (&a, &b, sizeof (a)); }
static void look (void) {
	int i, k, up, j; released ();
	for (i = 0; i < n; i++) if (alive[i]) for (k = 0; k < MK; k++) for (up = 0; up < 2; up++) {
		axlNode * x = node[i]; j = i; while (up && j >= 0 && ! ann[j][k].set) j = par[j]; if (j >= 0 && ! ann[j][k].set) j = -1;
		if (j < 0) { CHECK (axl_node_annotate_get (x, key[k], up) == NULL, "nothing annotated"); CHECK (axl_node_annotate_get_int (x, key[k], up) == 0 && axl_node_annotate_get_string (x, key[k], up) == NULL && same_d (axl_node_annotate_get_double (x, key[k], up), 0.0), "nothing annotated"); continue; }
		switch (ann[j][k].kind) {
		case 0: case 6: CHECK (axl_node_annotate_get (x, key[k], up) == plain + ann[j][k].id, "annotated data"); break;
		case 1: case 5: CHECK (axl_node_annotate_get (x, key[k], up) == vptr[ann[j][k].id], "annotated data"); break;
		default: CHECK (axl_node_annotate_get (x, key[k], up) != NULL, "annotated");
			CHECK (axl_node_annotate_get_int (x, key[k], up) == (ann[j][k].kind == 2 ? ann[j][k].i : 0), "annotated integer");
			{ char * s = axl_node_annotate_get_string (x, key[k], up); if (ann[j][k].kind == 3) CHECK (s != NULL && str_eq (s, ann[j][k].s), "annotated string"); else CHECK (s == NULL, "no string"); }
			CHECK (same_d (axl_node_annotate_get_double (x, key[k], up), ann[j][k].kind == 4 ? ann[j][k].d : 0.0), "annotated double");
		}
	}
}
static void finish (void) { int i; for (i = 1; i < n; i++) if (alive[i] && par[i] == -1) { kill_sub (i); axl_node_free (node[i]); look (); } axl_doc_free (doc); kill_sub (0); released (); for (i = 0; i < n; i++) CHECK (! alive[i], "all released"); }
/* every history of annotations, removals, detachments and reattachments */
void ann_history (int how, int count, int steps) {
	int s, i, k, j; HEAP_MARK; for (k = 0; k < MK; k++) { key[k][0] = 'k'; key[k][1] = '0' + k; key[k][2] = 0; } make (how, count); look ();
	for (s = 0; s < steps; s++) { int op = sym_pick (0, 9, "operation"); i = sym_pick (0, n - 1, "element"); if (! alive[i]) sym_prune ();
		if (op < 7) put (i, sym_pick (0, 1, "key"), op);
		else if (i == 0) sym_prune ();
		else if (op == 7) { axl_node_remove (node[i], axl_true); kill_sub (i); }
		else if (op == 8) { if (par[i] < 0) sym_prune (); axl_node_deattach (node[i]); par[i] = -1; }
		else { if (par[i] >= 0) sym_prune (); j = sym_pick (0, i - 1, "new parent"); if (! alive[j]) sym_prune (); axl_node_set_child (node[j], node[i]); par[i] = j; }
		look (); }
	finish (); HEAP_CHECK; sym_reach ("end");
}
/* any keys: two arbitrary ones that may be equal */
void ann_keys (int len) {
	char a[4], b[4], q[4]; axlNode * x, * y; axlDoc * d; int where = sym_pick (0, 1, "where"), same; HEAP_MARK; x = axl_node_create ("a"); y = axl_node_create ("b");
	d = axl_doc_create (NULL, NULL, axl_false); axl_doc_set_root (d, x); axl_node_set_child (x, y);
	memset (a, 0, 4); memset (b, 0, 4); memset (q, 0, 4); sym_bytes (a, len, "key"); sym_bytes (b, len, "key"); sym_bytes (q, len, "key");
	axl_node_annotate_int (x, a, 11); axl_node_annotate_int (where ? y : x, b, 22);
	same = ! strcmp (a, b);
	if (where) { CHECK (axl_node_annotate_get_int (y, q, 0) == (str_eq (q, b) ? 22 : 0), "own"); CHECK (axl_node_annotate_get_int (y, q, 1) == (str_eq (q, b) ? 22 : str_eq (q, a) ? 11 : 0), "nearest"); CHECK (axl_node_annotate_get_int (x, q, 1) == (str_eq (q, a) ? 11 : 0), "never from descendants"); }
	else { int w = str_eq (q, b) ? 22 : str_eq (q, a) ? 11 : 0; CHECK (axl_node_annotate_get_int (x, q, 0) == w && axl_node_annotate_get_int (y, q, 1) == w && axl_node_annotate_get_int (y, q, 0) == 0, "replaced"); if (same) sym_reach ("same"); }
	axl_doc_free (d); HEAP_CHECK; sym_reach ("end");
}
/* many keys on one element */
void ann_many (int lo, int hi) {
	int c = sym_pick (lo, hi, "count"), i, r = sym_pick (0, c - 1, "replaced"); char k[24][4]; axlNode * x; HEAP_MARK; x = axl_node_create ("a");
	for (i = 0; i < c; i++) { sprintf (k[i], "%c%c", 'a' + i % 5, 'A' + i); axl_node_annotate_int (x, k[i], i + 1); }
	axl_node_annotate_string (x, k[r], "s"); for (i = 0; i < c; i++) CHECK (axl_node_annotate_get_int (x, k[i], 0) == (i == r ? 0 : i + 1), "kept"); CHECK (str_eq (axl_node_annotate_get_string (x, k[r], 1), "s"), "replaced");
	axl_node_free (x); HEAP_CHECK; sym_reach ("end");
}
/* elements that own their document */
void ann_parse (int how) {
	axlNode * x, * y; axlError * e = NULL; char t[2]; HEAP_MARK; t[0] = sym_range ('a', 'z', "text"); t[1] = 0;
	x = how ? axl_node_parse (&e, "<a><b>%s</b></a>", t) : axl_node_parse_strings (&e, "<a><b>", t, "</b></a>", NULL); CHECK (x != NULL && e == NULL, "accepted"); y = axl_node_get_first_child (x); CHECK (str_eq (axl_node_get_content (y, NULL), t), "content");
	axl_node_annotate_string (x, "k", "v"); CHECK (str_eq (axl_node_annotate_get_string (y, "k", 1), "v") && axl_node_annotate_get (y, "k", 0) == NULL, "inherited"); CHECK (axl_node_get_parent (x) == NULL && axl_node_annotate_get (x, "z", 1) == NULL, "top");
	axl_node_free (x); x = how ? axl_node_parse (&e, "<a><b>%s</a>", t) : axl_node_parse_strings (&e, "<a><b>", t, "</a>", NULL); CHECK (x == NULL && e != NULL, "refused"); axl_error_free (e); HEAP_CHECK; sym_reach ("end");
}
void ann_scale (int size) {
	int i, r = sym_pick (0, 2, "replaced"); char * keys = malloc (size * 12), * k, s[12]; int v = sym_range (-9, 9, "value"); axlNode * x; HEAP_MARK; x = axl_node_create ("a"); r = r == 0 ? 0 : r == 1 ? size / 2 : size - 1;
	for (i = 0; i < size; i++) { sprintf (k = keys + 12 * i, "k%d", i); sprintf (s, "s%d", i); if (i % 2) axl_node_annotate_int (x, k, i); else axl_node_annotate_string (x, k, s); } axl_node_annotate_int (x, keys + 12 * r, v);
	for (i = 0; i < size; i++) { k = keys + 12 * i; sprintf (s, "s%d", i); if (i == r || i % 2) CHECK (axl_node_annotate_get_int (x, k, 0) == (i == r ? v : i), "integer kept"); else CHECK (str_eq (axl_node_annotate_get_string (x, k, 0), s), "string kept"); } CHECK (axl_node_annotate_get (x, "none", 1) == NULL, "none"); axl_node_free (x); HEAP_CHECK; free (keys); sym_reach ("end");
}
