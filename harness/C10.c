/* editing keeps every link consistent */
#include "same.h"
#define MAXE 14
enum { NODE, TEXT, CDATA, COMMENT, PI };
typedef struct { int kind, parent, alive; axlNode * node; char text[3]; int kids[MAXE], n; } Ent;
static Ent e[MAXE]; static int ne, root; static axlDoc * doc;
static int symbolic;
static int newent (int kind) { int i = ne++; CHECK (ne <= MAXE, "harness size"); memset (e + i, 0, sizeof (Ent)); e[i].kind = kind; e[i].parent = -1; e[i].alive = 1; e[i].text[0] = symbolic ? sym_range ('a', 'z', "text") : 'a' + i; return i; }
static int mk (void) { int i = newent (NODE); e[i].node = axl_node_create (e[i].text); return i; }
static void m_insert (int p, int at, int i) { int j; for (j = e[p].n; j > at; j--) e[p].kids[j] = e[p].kids[j - 1]; e[p].kids[at] = i; e[p].n++; e[i].parent = p; }
static int m_index (int i) { int j, p = e[i].parent; for (j = 0; j < e[p].n; j++) if (e[p].kids[j] == i) return j; return -1; }
static void m_remove (int i) { int p = e[i].parent, j; if (p < 0) return; for (j = m_index (i); j + 1 < e[p].n; j++) e[p].kids[j] = e[p].kids[j + 1]; e[p].n--; e[i].parent = -1; }
static void m_kill (int i) { int j; e[i].alive = 0; for (j = 0; j < e[i].n; j++) m_kill (e[i].kids[j]); }
static int inside (int i, int p) { for (; i >= 0; i = e[i].parent) if (i == p) return 1; return 0; }
static axlItem * item (int i) { int k, p = e[i].parent; axlItem * it; if (e[i].kind == NODE) return axl_item_node_holder (e[i].node); it = axl_item_get_first_child (e[p].node); for (k = m_index (i); k > 0; k--) it = axl_item_get_next (it); return it; }
static void add_text (int p, int kind) {
	int i = newent (kind); char * t = e[i].text; m_insert (p, e[p].n, i);
	switch (kind) { case TEXT: axl_node_set_content (e[p].node, t, 1); break; case CDATA: axl_node_set_cdata_content (e[p].node, t, 1); break; case COMMENT: axl_node_set_comment (e[p].node, t, 1); break; case PI: axl_node_add_pi_target (e[p].node, t, "content"); break; }
}
static int type_of (int kind) { return kind == NODE ? ITEM_NODE : kind == TEXT ? ITEM_CONTENT : kind == CDATA ? ITEM_CDATA : kind == COMMENT ? ITEM_COMMENT : ITEM_PI; }
static void same_item (axlItem * it, int i) {
	int k; CHECK (it != NULL && (int) axl_item_get_type (it) == type_of (e[i].kind), "the expected child");
	if (e[i].kind == NODE) CHECK (axl_item_get_data (it) == e[i].node && axl_item_node_holder (e[i].node) == it, "the expected element");
	else if (e[i].kind == PI) CHECK (str_eq (axl_pi_get_name (axl_item_get_data (it)), e[i].text), "the expected instruction");
	else CHECK (str_eq (axl_item_get_content (it, &k), e[i].text) && k == 1, "the expected text");
}
static void verify_node (int p) {
	int j, nn = 0, text = 0, last = -1, nodes[MAXE]; axlItem * it = axl_item_get_first_child (e[p].node); axlNode * x; axlList * l;
	CHECK (str_eq (axl_node_get_name (e[p].node), e[p].text), "name");
	for (j = 0; j < e[p].n; j++) { int i = e[p].kids[j]; same_item (it, i); CHECK (axl_item_get_parent (it) == e[p].node, "every child reports its parent"); if (e[i].kind == NODE) nodes[nn++] = i; if (e[i].kind == TEXT || e[i].kind == CDATA) text = 1; last = i; it = axl_item_get_next (it); }
	CHECK (it == NULL, "no further child forwards");
	it = axl_item_get_last_child (e[p].node); for (j = e[p].n - 1; j >= 0; j--) { same_item (it, e[p].kids[j]); it = axl_item_get_previous (it); } CHECK (it == NULL, "no further child backwards"); (void) last;
	CHECK (axl_node_get_child_num (e[p].node) == nn, "number of elements"); CHECK (!! axl_node_have_childs (e[p].node) == (nn > 0), "have children"); CHECK (!! axl_node_is_empty (e[p].node) == ! text, "empty");
	x = axl_node_get_first_child (e[p].node); for (j = 0; j < nn; j++) { CHECK (x == e[nodes[j]].node && axl_node_get_parent (x) == e[p].node, "elements forwards"); CHECK (axl_node_get_child_nth (e[p].node, j) == x, "n-th"); x = axl_node_get_next (x); } CHECK (x == NULL, "no further element");
	x = axl_node_get_last_child (e[p].node); for (j = nn - 1; j >= 0; j--) { CHECK (x == e[nodes[j]].node, "elements backwards"); x = axl_node_get_previous (x); } CHECK (x == NULL, "no further element backwards");
	l = axl_node_get_childs (e[p].node); CHECK (axl_list_length (l) == nn, "list of children"); for (j = 0; j < nn; j++) CHECK (axl_list_get_nth (l, j) == e[nodes[j]].node, "list of children in order"); axl_list_free (l);
	for (j = 0; j < nn; j++) verify_node (nodes[j]);
}
static void verify (void) {
	int i; if (doc) CHECK (axl_doc_get_root (doc) == (root < 0 ? NULL : e[root].node), "root");
	for (i = 0; i < ne; i++) if (e[i].alive && e[i].kind == NODE && e[i].parent < 0) {
		axlNode * n = e[i].node; CHECK (axl_node_get_parent (n) == NULL && axl_node_get_next (n) == NULL && axl_node_get_previous (n) == NULL && axl_item_node_next (n) == NULL && axl_item_node_previous (n) == NULL, "no parent and no siblings outside the tree"); verify_node (i);
	}
}
/* starting points */
static void start (int how, int shape) {
	static const char * const txt[] = { "<a/>", "<a><b/>c<d/></a>", "<a><b><c/>d</b>e<!--f--></a>", "<a>b<c/>d</a>", "<a><b/><c><d/><e/></c></a>", "<a><b>c</b><![CDATA[d]]></a>" };
	ne = 0; doc = NULL; symbolic = how != 0; root = newent (NODE);
	if (how == 0) { /* parsed */
		axlItem * it; doc = axl_doc_parse (txt[shape], -1, NULL); CHECK (doc != NULL, "accepted"); e[root].node = axl_doc_get_root (doc);
		{ int stack = 0; axlNode * at = e[root].node; int cur = root; (void) stack; it = axl_item_get_first_child (at);
		  while (it) { int t = axl_item_get_type (it), i = newent (t == ITEM_NODE ? NODE : t == ITEM_CONTENT ? TEXT : t == ITEM_CDATA ? CDATA : t == ITEM_COMMENT ? COMMENT : PI); m_insert (cur, e[cur].n, i);
			if (t == ITEM_NODE) { axlItem * in; e[i].node = axl_item_get_data (it); in = axl_item_get_first_child (e[i].node); while (in) { int t2 = axl_item_get_type (in), k = newent (t2 == ITEM_NODE ? NODE : t2 == ITEM_CONTENT ? TEXT : t2 == ITEM_CDATA ? CDATA : COMMENT); m_insert (i, e[i].n, k); if (t2 == ITEM_NODE) e[k].node = axl_item_get_data (in); in = axl_item_get_next (in); } }
			it = axl_item_get_next (it); } }
		return;
	}
	e[root].node = axl_node_create (e[root].text); if (how == 1) { doc = axl_doc_create (NULL, NULL, axl_false); axl_doc_set_root (doc, e[root].node); }
#define N(p) { int i_ = mk (); m_insert (p, e[p].n, i_); axl_node_set_child (e[p].node, e[i_].node); }
	switch (shape) {
	case 1: N (0); add_text (0, TEXT); N (0); break;
	case 2: N (0); N (1); add_text (1, TEXT); add_text (0, TEXT); add_text (0, COMMENT); break;
	case 3: add_text (0, TEXT); N (0); add_text (0, TEXT); break;
	case 4: N (0); N (0); N (2); N (2); break;
	case 5: N (0); add_text (1, TEXT); add_text (0, CDATA); break;
	}
	if (how == 2) { doc = axl_doc_create (NULL, NULL, axl_false); axl_doc_set_root (doc, e[root].node); }
}
static int any_node (const char * s) { int i = sym_pick (0, ne - 1, s); if (! (e[i].alive && e[i].kind == NODE)) sym_prune (); return i; }
static int any_child (const char * s, int onlynode) { int i = sym_pick (0, ne - 1, s); if (! e[i].alive || e[i].parent < 0 || (onlynode && e[i].kind != NODE)) sym_prune (); return i; }
static int loose (const char * s) { int i = sym_pick (0, ne - 1, s); if (! (e[i].alive && e[i].kind == NODE && e[i].parent < 0 && i != root)) sym_prune (); return i; }
/* an element made from a text of its own; its children stay with it */
static int owned[MAXE];
static int mk_parsed (void) { int i = mk (), k; axlError * x = NULL; axl_node_free (e[i].node); e[i].text[0] = 'z'; k = newent (TEXT); e[k].text[0] = 't'; m_insert (i, 0, k); owned[i] = 1; e[i].node = axl_node_parse (&x, "<%s>t</z>", "z"); CHECK (e[i].node != NULL && x == NULL, "accepted"); return i; }
static int parsed_too;
static int fresh_or_loose (void) { switch (sym_pick (0, parsed_too, "which")) { case 1: return loose ("loose"); case 2: return mk_parsed (); } return mk (); }
static void move_kids (int a, int p, int at) { int j, k = e[a].n; for (j = 0; j < k; j++) { int i = e[a].kids[j]; int q; e[i].parent = -1; q = p; m_insert (q, at + j, i); } e[a].n = 0; }
static int size_of (int r) { int j, k = 1; for (j = 0; j < e[r].n; j++) k += size_of (e[r].kids[j]); return k; }
static int m_copy (int r, axlNode * n) { int i = newent (e[r].kind), j; axlItem * it; strcpy (e[i].text, e[r].text); e[i].node = n; if (n == NULL) return i; it = axl_item_get_first_child (n); for (j = 0; j < e[r].n; j++) { int k; CHECK (it != NULL, "copied child"); k = m_copy (e[r].kids[j], e[e[r].kids[j]].kind == NODE ? axl_item_get_data (it) : NULL); m_insert (i, j, k); it = axl_item_get_next (it); } return i; }
static void edit (int op) {
	int p, r, i, d, j;
	switch (op) {
	case 0: i = fresh_or_loose (); p = any_node ("parent"); if (inside (p, i)) sym_prune (); axl_node_set_child (e[p].node, e[i].node); m_insert (p, e[p].n, i); break;
	case 1: i = fresh_or_loose (); r = any_child ("after", 0); if (inside (r, i)) sym_prune (); if (e[r].kind == NODE && sym_range (0, 1, "node api")) axl_node_set_child_after (e[r].node, e[i].node); else axl_item_set_after (item (r), ITEM_NODE, e[i].node); m_insert (e[r].parent, m_index (r) + 1, i); break;
	case 2: p = any_node ("parent"); add_text (p, sym_pick (TEXT, PI, "kind")); break;
	case 3: r = any_node ("remove"); d = sym_range (0, 1, "dealloc"); if (r == root) { if (! doc) sym_prune (); root = -1; } else if (e[r].parent < 0 && d == 0) { /* once more */ } m_remove (r); if (d) m_kill (r); axl_node_remove (e[r].node, d); break;
	case 4: r = any_node ("deattach"); if (r == root) { if (! doc) sym_prune (); root = -1; } m_remove (r); axl_node_deattach (e[r].node); break;
	case 5: i = fresh_or_loose (); r = any_child ("replace", 1); if (inside (r, i)) sym_prune (); d = sym_range (0, 1, "dealloc"); p = e[r].parent; j = m_index (r); axl_node_replace (e[r].node, e[i].node, d); m_remove (r); if (d) m_kill (r); m_insert (p, j, i); break;
	case 6: if (! doc || root < 0) sym_prune (); i = fresh_or_loose (); if (inside (root, i)) sym_prune (); d = sym_range (0, 1, "dealloc"); r = root; axl_node_replace (e[r].node, e[i].node, d); if (d) m_kill (r); root = i; break;
	case 7: { axlItem * it; r = any_child ("item", 0); d = sym_range (0, 1, "dealloc"); it = item (r); axl_item_remove (it, d); m_remove (r); if (d) m_kill (r); else if (e[r].kind != NODE) { CHECK (axl_item_get_parent (it) == NULL && axl_item_get_next (it) == NULL && axl_item_get_previous (it) == NULL, "no parent and no siblings outside the tree"); axl_item_free (it, axl_true); m_kill (r); } break; }
	case 8: { axlItem * it, * nw; int kind = sym_pick (NODE, COMMENT, "kind"), own = sym_range (0, 1, "copy"); r = any_child ("item", 0); d = sym_range (0, 1, "dealloc"); i = newent (kind); it = item (r);
		if (kind == NODE) { axlNode * n = axl_node_create (e[i].text); if (own) { nw = axl_item_new_ref (ITEM_NODE, n); e[i].node = n; } else { nw = axl_item_new (ITEM_NODE, n); axl_node_free (n); e[i].node = axl_item_get_data (nw); } } else nw = own ? axl_item_new_ref (type_of (kind), strdup (e[i].text)) : axl_item_new (type_of (kind), e[i].text);
		p = e[r].parent; j = m_index (r); axl_item_replace (it, nw, d); m_remove (r); if (d) m_kill (r); else if (e[r].kind != NODE) { CHECK (axl_item_get_parent (it) == NULL && axl_item_get_next (it) == NULL && axl_item_get_previous (it) == NULL, "no parent and no siblings outside the tree"); axl_item_free (it, axl_true); m_kill (r); } m_insert (p, j, i); break; }
	case 9: r = any_node ("from"); p = any_node ("to"); if (inside (p, r) || owned[r]) sym_prune (); axl_node_transfer_childs (e[r].node, e[p].node); move_kids (r, p, e[p].n); break;
	case 10: r = any_node ("from"); i = any_child ("after", 0); if ((inside (i, r) && i != r) || owned[r]) sym_prune (); axl_item_transfer_childs_after (e[r].node, item (i)); move_kids (r, e[i].parent, m_index (i) + 1); break;
	case 11: r = any_node ("empty"); d = sym_range (0, 1, "really"); axl_node_set_is_empty (e[r].node, d); if (d) for (j = e[r].n - 1; j >= 0; j--) { i = e[r].kids[j]; if (e[i].kind == TEXT || e[i].kind == CDATA) { m_remove (i); m_kill (i); } } break;
	case 12: r = any_node ("copied"); if (ne + size_of (r) > MAXE) sym_prune (); m_copy (r, axl_node_copy (e[r].node, axl_true, axl_true)); break;
	case 13: r = loose ("free"); d = sym_pick (0, 2, "how"); if (d == 2 && e[r].n) sym_prune (); m_kill (r); if (d == 0) axl_node_free (e[r].node); else axl_node_free_full (e[r].node, d == 1); break;
	case 15: p = any_node ("parent"); switch (d = sym_pick (0, 3, "how")) { /* items appended one by one */
		case 0: i = mk (); axl_item_set_child (e[p].node, ITEM_NODE, e[i].node); break;
		case 1: i = mk (); axl_item_set_child_ref (e[p].node, axl_item_new_ref (ITEM_NODE, e[i].node)); break;
		default: i = newent (sym_pick (TEXT, COMMENT, "kind")); axl_item_set_child_ref (e[p].node, d == 2 ? axl_item_new (type_of (e[i].kind), e[i].text) : axl_item_new_ref (type_of (e[i].kind), strdup (e[i].text))); }
		m_insert (p, e[p].n, i); break;
	case 14: r = any_node ("renamed"); strcpy (e[r].text, "z"); if (sym_range (0, 1, "ref")) axl_node_set_name_ref (e[r].node, strdup ("z")); else axl_node_set_name (e[r].node, "z"); break;
	}
}
static void finish (void) {
	int i; for (i = 0; i < ne; i++) if (e[i].alive && e[i].kind == NODE && e[i].parent < 0 && ! (doc && i == root)) axl_node_free (e[i].node);
	if (doc) axl_doc_free (doc);
}
void edits (int how, int shape, int first, int steps) {
	int i; HEAP_MARK; parsed_too = 1; memset (owned, 0, sizeof owned); start (how, shape); symbolic = 1; verify (); edit (first); verify ();
	for (i = 1; i < steps; i++) { edit (sym_pick (0, 14, "edit")); verify (); }
	finish (); HEAP_CHECK; sym_reach ("end");
}
/* a chosen list of edits (digits of plan), any operands */
void planned (int how, int shape, int a, int b, int c, int d) {
	HEAP_MARK; start (how, shape); symbolic = 1; edit (a); edit (b); verify (); if (c >= 0) { edit (c); verify (); } if (d >= 0) { edit (d); verify (); }
	finish (); HEAP_CHECK; sym_reach ("end");
}
/* elements made with axl_node_parse placed, moved, replaced and removed */
void edits_parsed (int how, int shape, int first, int steps) {
	int i; HEAP_MARK; parsed_too = 2; memset (owned, 0, sizeof owned); start (how, shape); symbolic = 1; edit (first); verify ();
	for (i = 1; i < steps; i++) { edit (sym_pick (0, 14, "edit")); verify (); }
	finish (); HEAP_CHECK; sym_reach ("end");
}
