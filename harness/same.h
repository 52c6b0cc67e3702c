/* strict comparison of two trees, item by item, through the public API */
#ifndef SAME_H
#define SAME_H
#include "canon.h"
static int identical (axlNode * a, axlNode * b) {
	axlItem * x, * y; int n, m;
	if (a == NULL || b == NULL) return a == b; if (strcmp (axl_node_get_name (a), axl_node_get_name (b)) || ! same_attrs (a, b)) return 0;
	for (x = axl_item_get_first_child (a), y = axl_item_get_first_child (b); x != NULL && y != NULL; x = axl_item_get_next (x), y = axl_item_get_next (y)) {
		if (axl_item_get_type (x) != axl_item_get_type (y)) return 0;
		switch (axl_item_get_type (x)) {
		case ITEM_NODE: if (! identical (axl_item_get_data (x), axl_item_get_data (y))) return 0; break;
		case ITEM_PI: if (! str_eq (axl_pi_get_name (axl_item_get_data (x)), axl_pi_get_name (axl_item_get_data (y))) || ! str_eq (axl_pi_get_content (axl_item_get_data (x)), axl_pi_get_content (axl_item_get_data (y)))) return 0; break;
		default: { char * s = axl_item_get_content (x, &n), * t = axl_item_get_content (y, &m); if (n != m || memcmp (s, t, n) || t[n] != 0 || s[n] != 0) return 0; }
		}
	}
	return x == NULL && y == NULL;
}
static int identical_docs (axlDoc * a, axlDoc * b) {
	axlList * p, * q; int i; if (a == NULL || b == NULL) return a == b;
	if (! identical (axl_doc_get_root (a), axl_doc_get_root (b)) || strcmp (axl_doc_get_encoding (a), axl_doc_get_encoding (b)) || ! axl_doc_get_standalone (a) != ! axl_doc_get_standalone (b)) return 0;
	p = axl_doc_get_pi_target_list (a); q = axl_doc_get_pi_target_list (b); if (axl_list_length (p) != axl_list_length (q)) return 0;
	for (i = 0; i < axl_list_length (p); i++) if (! str_eq (axl_pi_get_name (axl_list_get_nth (p, i)), axl_pi_get_name (axl_list_get_nth (q, i))) || ! str_eq (axl_pi_get_content (axl_list_get_nth (p, i)), axl_pi_get_content (axl_list_get_nth (q, i)))) return 0;
	return 1;
}
#endif
