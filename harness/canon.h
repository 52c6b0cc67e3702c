/* Comparing two trees item by item through the public API, up to what the library documents as
 * insignificant: white-space-only text outside xml:space="preserve", white space at the start of a text that
 * follows a comment or processing instruction, white space around comments, how a text is cut into items. */
#ifndef CANON_H
#define CANON_H
#include "parse.h"
static int c_ws (int c) { return (c == ' ') | (c == '\t') | (c == '\n') | (c == '\r'); }
typedef struct { int t; const char * a; int an; const char * b; axlNode * node; } Piece;
static int c_loose;   /* 1: in elements that have children, comments or PIs, white space at the ends of each text does not count either */
static int pieces (axlNode * n, Piece * q, int max, int pres, char ** pool) {
	int k = 0, size, i, loose = 0; axlItem * it;
	if (c_loose) for (it = axl_item_get_first_child (n); it != NULL; it = axl_item_get_next (it)) if (axl_item_get_type (it) != ITEM_CONTENT && axl_item_get_type (it) != ITEM_CDATA) loose = 1;
	it = axl_item_get_first_child (n);
	while (it != NULL) {
		int t = axl_item_get_type (it); CHECK (k < max, "harness: too many items");
		q[k].t = t; q[k].b = NULL; q[k].node = NULL; q[k].a = ""; q[k].an = 0;
		switch (t) {
		case ITEM_NODE: q[k].node = axl_item_get_data (it); break;
		case ITEM_CONTENT: { char * s = *pool; int n = 0;
			for (; it != NULL && axl_item_get_type (it) == ITEM_CONTENT; it = axl_item_get_next (it)) { char * c = axl_item_get_content (it, &size); memcpy (s + n, c, size); n += size; }
			s[n] = 0; *pool += n + 1; q[k].a = s; q[k].an = n;
			if (! pres || loose) { if (loose || (k > 0 && (q[k - 1].t == ITEM_COMMENT || q[k - 1].t == ITEM_PI))) while (q[k].an && c_ws (q[k].a[0])) { q[k].a++; q[k].an--; }
				if (loose) while (q[k].an && c_ws (q[k].a[q[k].an - 1])) q[k].an--;
				for (i = 0; i < q[k].an && c_ws (q[k].a[i]); i++) ; if (i < q[k].an) k++; }
			else if (n) k++;
			continue; }
		case ITEM_CDATA: q[k].a = axl_item_get_content (it, &size); q[k].an = size; break;
		case ITEM_COMMENT: q[k].a = axl_item_get_content (it, &size); q[k].an = size; while (q[k].an && c_ws (q[k].a[0])) { q[k].a++; q[k].an--; } while (q[k].an && c_ws (q[k].a[q[k].an - 1])) q[k].an--; break;
		case ITEM_PI: { axlPI * pi = axl_item_get_data (it); q[k].b = axl_pi_get_name (pi); q[k].a = axl_pi_get_content (pi); if (q[k].a == NULL) q[k].a = ""; q[k].an = strlen (q[k].a); break; }
		default: CHECK (0, "harness: unknown item");
		}
		k++; it = axl_item_get_next (it);
	}
	return k;
}
static int same_attrs (axlNode * a, axlNode * b) {
	axlAttrCursor * c; int k = 0, ok = 1; if (axl_node_num_attributes (a) != axl_node_num_attributes (b)) return 0; if (axl_node_num_attributes (a) == 0) return 1;
	for (c = axl_node_attr_cursor_new (a); axl_node_attr_cursor_has_item (c); axl_node_attr_cursor_next (c), k++) { const char * key = axl_node_attr_cursor_get_key (c); if (! axl_node_has_attribute (b, key) || strcmp (axl_node_get_attribute_value (b, key), axl_node_attr_cursor_get_value (c))) ok = 0; }
	axl_node_attr_cursor_free (c); return ok && k == axl_node_num_attributes (a);
}
static int room (axlNode * a, int * text) { int n = 1, size; axlItem * it; *text = 1; for (it = axl_item_get_first_child (a); it; it = axl_item_get_next (it)) { n++; if (axl_item_get_type (it) == ITEM_CONTENT) { axl_item_get_content (it, &size); *text += size + 1; } } return n; }
static int same_tree (axlNode * a, axlNode * b, int pres) {
	Piece * p, * q; char * pool, * pp; int n, m, i, ok = 1; if (a == NULL || b == NULL || strcmp (axl_node_get_name (a), axl_node_get_name (b)) || ! same_attrs (a, b)) return 0;
	if (axl_node_has_attribute (a, "xml:space")) pres = ! strcmp (axl_node_get_attribute_value (a, "xml:space"), "preserve");
	n = room (a, &m) + room (b, &i); p = malloc (n * sizeof (Piece)); q = malloc (n * sizeof (Piece)); pp = pool = malloc (m + i);
	m = n; n = pieces (a, p, m, pres, &pp); m = pieces (b, q, m, pres, &pp); if (n != m) ok = 0;
	for (i = 0; ok && i < n; i++) { if (p[i].t != q[i].t || p[i].an != q[i].an || memcmp (p[i].a, q[i].a, p[i].an) || ! str_eq (p[i].b, q[i].b)) ok = 0; else if (p[i].t == ITEM_NODE) ok = same_tree (p[i].node, q[i].node, pres); }
	free (p); free (q); free (pool); return ok;
}
#endif
