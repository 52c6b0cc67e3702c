/* An independent reader of XML text, used as oracle. It never looks at libaxl.
 * ref_read returns 0: malformed (one of the errors listed in C03), 1: neither clearly malformed nor
 * clearly well formed (outside the oracle), 2: well formed; ev[] then describes the document. */
#ifndef REFXML_H
#define REFXML_H
#include "parse.h"
enum { E_START, E_ATTR, E_END, E_TEXT, E_CDATA, E_COMMENT, E_PI };
typedef struct { int k, a, an, b, bn; } Ev;
static Ev ev_small[600], ev_big[4200], * ev = ev_small; static int ev_max = 600, ref_depth = 40, ref_big[3][1100]; static int nev, amb; static const char * X; static int XN;
static int r_ws (int c) { return (c == ' ') | (c == '\t') | (c == '\n') | (c == '\r'); }
static int r_at (int i, const char * s) { int k; for (k = 0; s[k]; k++) if (i + k >= XN || X[i + k] != s[k]) return 0; return 1; }
static int r_find (int i, const char * s) { for (; i < XN; i++) if (r_at (i, s)) return i; return -1; }
static int r_skip (int i) { while (i < XN && r_ws (X[i])) i++; return i; }
static int r_nstart (int c) { return ((c >= 'a') & (c <= 'z')) | ((c >= 'A') & (c <= 'Z')) | (c == '_') | (c == ':'); }
static int r_nchar (int c) { return r_nstart (c) | ((c >= '0') & (c <= '9')) | (c == '-') | (c == '.'); }
static int r_badc (int c) { return ((unsigned char) c < 32) & ! r_ws (c); }
static void r_name (int a, int n) { int i, bad; if (n < 1 || ! r_nstart (X[a])) { amb = 1; return; } bad = 0; for (i = 1; i < n; i++) bad |= ! r_nchar (X[a + i]); if (bad) amb = 1; }
/* text or attribute value: entity references must be one of the five */
static void r_text (int a, int n, int attr) { int i; for (i = a; i < a + n; i++) { if (X[i] == '&' && ! (r_at (i, "&lt;") || r_at (i, "&gt;") || r_at (i, "&amp;") || r_at (i, "&quot;") || r_at (i, "&apos;"))) amb = 1; if (r_badc (X[i]) || (attr && X[i] == '<') || (! attr && r_at (i, "]]>"))) amb = 1; } }
static void r_plain (int a, int n, const char * not) { int i; for (i = a; i < a + n; i++) if (r_badc (X[i]) || (not && r_at (i, not) && i < a + n)) amb = 1; }
static void r_ev (int k, int a, int an, int b, int bn) { if (nev < ev_max) { ev[nev].k = k; ev[nev].a = a; ev[nev].an = an; ev[nev].b = b; ev[nev].bn = bn; nev++; } else amb = 1; }
static int r_same (int a, int an, int b, int bn) { return an == bn && memcmp (X + a, X + b, an) == 0; }
static int r_is (int a, int an, const char * s) { return an == (int) strlen (s) && memcmp (X + a, s, an) == 0; }
/* "<?" at i. Returns the index after it, -1 if unterminated */
static int r_pi (int i) {
	int t = i + 2, e = r_find (t, "?>"), k, b; if (e < 0) return -1;
	for (k = t; k < e && ! r_ws (X[k]); k++) ; r_name (t, k - t);
	if (k - t == 3 && (X[t] | 32) == 'x' && (X[t + 1] | 32) == 'm' && (X[t + 2] | 32) == 'l') amb = 1;
	for (b = k; b < e && r_ws (X[b]); b++) ; r_plain (b, e - b, NULL);
	{ int z = e; while (z > b && r_ws (X[z - 1])) z--; r_ev (E_PI, t, k - t, b, z - b); }
	return e + 2;
}
static int r_comment (int i) { int e = r_find (i + 4, "-->"); if (e < 0) return -1; { int k; for (k = i + 4; k < e; k++) if (r_at (k, "--")) amb = 1; } r_plain (i + 4, e - i - 4, NULL); r_ev (E_COMMENT, i + 4, e - i - 4, 0, 0); return e + 3; }
static int r_misc (int i) { for (;;) { i = r_skip (i); if (r_at (i, "<!--")) { int n = nev; i = r_comment (i); if (i < 0) return -1; nev = n; /* comments outside the root are not kept */ } else if (r_at (i, "<?")) { i = r_pi (i); if (i < 0) return -1; } else return i; } }
/* the xml declaration; lenient about what is malformed */
static int r_decl (int i) {
	int e = r_find (i, "?>"), k = i + 5, step; static const char * const nm[] = { "version", "encoding", "standalone" }; if (e < 0) return -1;
	for (step = 0; step < 3; step++) { int w = r_skip (k), v; char q; if (! r_at (w, nm[step])) { if (step == 0) amb = 1; continue; } if (w == k) amb = 1; w = r_skip (w + strlen (nm[step])); if (! r_at (w, "=")) { amb = 1; break; } w = r_skip (w + 1); q = w < XN ? X[w] : 0; if (q != '"' && q != '\'') { amb = 1; break; }
		for (v = w + 1; v < e && X[v] != q; v++) ; if (v >= e) { amb = 1; break; }
		if (step == 0 && ! r_is (w + 1, v - w - 1, "1.0")) amb = 1; if (step == 1) r_name (w + 1, v - w - 1); if (step == 2 && ! r_is (w + 1, v - w - 1, "yes") && ! r_is (w + 1, v - w - 1, "no")) amb = 1; k = v + 1; }
	if (r_skip (k) != e) amb = 1;
	return e + 2;
}
/* documents of scale_doc */
static void ref_large (void) { ev = ev_big; ev_max = 4200; ref_depth = 1100; }
static int ref_root;  /* event index of the root */
static int ref_read (const char * p, int n) {
	int i = 0, st_[40], sn_[40], pres_[40], * st = st_, * sn = sn_, * pres = pres_, depth = 0, after = 0, k; if (ref_depth > 40) { st = ref_big[0]; sn = ref_big[1]; pres = ref_big[2]; } X = p; XN = n; nev = 0; amb = 0;
	if (r_at (0, "\xEF\xBB\xBF")) i = 3;
	if (r_at (i, "<?xml") && i + 5 < n && r_ws (p[i + 5])) { i = r_decl (i); if (i < 0) return 0; if (amb) return 1; }
	i = r_misc (i); if (i < 0) return 0;
	if (r_at (i, "<!DOCTYPE")) { int e = r_find (i, ">"); if (e < 0) return 0; for (k = i; k < e; k++) if ((p[k] == '[') | (p[k] == '<' && k > i) | (p[k] == '"') | (p[k] == '\'')) amb = 1; k = r_skip (i + 9); if (k == i + 9) amb = 1; { int z = e; while (z > k && r_ws (p[z - 1])) z--; r_name (k, z - k); } i = r_misc (e + 1); if (i < 0) return 0; }
	if (i >= n || p[i] != '<') return 0;
	ref_root = nev;
	do {
		/* here p[i] == '<' (an element starts) or we are inside content */
		if (depth == 0 || (p[i] == '<' && ! r_at (i, "</") && ! r_at (i, "<!--") && ! r_at (i, "<?") && ! r_at (i, "<![CDATA["))) {
			int s = i + 1, a0, pr = depth ? pres[depth - 1] : 0, empty = 0; for (k = s; k < n && ! r_ws (p[k]) && p[k] != '>' && p[k] != '<' && p[k] != '/'; k++) ;
			if (k >= n || k == s || p[k] == '<') return 0; if (p[k] == '/' && ! r_at (k, "/>")) return 1; r_name (s, k - s);
			if (depth >= ref_depth) return 1; st[depth] = s; sn[depth] = k - s; r_ev (E_START, s, k - s, 0, 0); a0 = nev;
			for (;;) { int w = r_skip (k), na, nn, q, v, j;
				if (w >= n) return 0; if (r_at (w, "/>")) { empty = 1; i = w + 2; break; } if (p[w] == '>') { i = w + 1; break; }
				if (w == k) amb = 1;
				for (na = w; w < n && p[w] != '=' && ! r_ws (p[w]) && p[w] != '<' && p[w] != '>'; w++) ; nn = w - na; w = r_skip (w);
				if (w >= n || p[w] != '=' || nn == 0) return 0; w = r_skip (w + 1); if (w >= n) return 0; q = p[w]; if (q != '"' && q != '\'') return 0;
				for (v = w + 1; v < n && p[v] != q; v++) ; if (v >= n) return 0;
				for (j = a0; j < nev; j++) if (r_same (ev[j].a, ev[j].an, na, nn)) return 0;
				r_name (na, nn); r_text (w + 1, v - w - 1, 1); r_ev (E_ATTR, na, nn, w + 1, v - w - 1); k = v + 1;
				if (r_is (na, nn, "xml:space")) { if (r_is (w + 1, v - w - 1, "preserve")) pr = 1; else if (r_is (w + 1, v - w - 1, "default")) pr = 0; else amb = 1; }
			}
			if (empty) r_ev (E_END, 0, 0, 0, 0); else { pres[depth] = pr; depth++; }
			after = 0;
		} else if (r_at (i, "</")) {
			for (k = i + 2; k < n && p[k] != '>'; k++) ; if (k >= n) return 0; { int z = k; while (z > i + 2 && r_ws (p[z - 1])) z--; if (! r_same (st[depth - 1], sn[depth - 1], i + 2, z - i - 2)) return 0; }
			depth--; r_ev (E_END, 0, 0, 0, 0); i = k + 1; after = 0;
		} else if (r_at (i, "<!--")) { i = r_comment (i); if (i < 0) return 0; after = 1; }
		else if (r_at (i, "<?")) { i = r_pi (i); if (i < 0) return 0; after = 1; }
		else if (r_at (i, "<![CDATA[")) { int e = r_find (i + 9, "]]>"); if (e < 0) return 0; r_plain (i + 9, e - i - 9, NULL); r_ev (E_CDATA, i + 9, e - i - 9, 0, 0); i = e + 3; after = 0; }
		else { int s = i, blank; for (k = i; k < n && p[k] != '<'; k++) ; if (k >= n) return 0; i = k;
			if (! pres[depth - 1]) { if (after) while (s < k && r_ws (p[s])) s++; blank = r_skip (s) >= k; } else blank = 0;
			if (! blank && s < k) { r_text (s, k - s, 0); r_ev (E_TEXT, s, k - s, 0, 0); } after = 0; }
		if (depth && i >= n) return 0;
	} while (depth);
	i = r_misc (i); if (i < 0) return 0; if (i != n) return 0;
	return amb ? 1 : 2;
}
/* comparing a parsed document against ev[] */
static int cur;
static int r_eq (const char * s, int a, int n) { int i; if (s == NULL) return n == 0; for (i = 0; i < n; i++) if (s[i] == 0 || s[i] != X[a + i]) return 0; return s[n] == 0; }
static int r_eq_trim (const char * s, int a, int n) { int k; if (s == NULL) return n == 0; while (*s && r_ws (*s)) s++; k = strlen (s); while (k > 0 && r_ws (s[k - 1])) k--; return k == n && memcmp (s, X + a, n) == 0; }
static void walk (axlNode * node) {
	int na = 0, size; axlItem * it; static char key[1200];
	CHECK (ev[cur].k == E_START && r_eq (axl_node_get_name (node), ev[cur].a, ev[cur].an), "element in its place with its name"); cur++;
	for (; ev[cur].k == E_ATTR; cur++, na++) { memcpy (key, X + ev[cur].a, ev[cur].an); key[ev[cur].an] = 0; CHECK (axl_node_has_attribute (node, key) && r_eq (axl_node_get_attribute_value (node, key), ev[cur].b, ev[cur].bn), "attribute with its value"); }
	CHECK (axl_node_num_attributes (node) == na, "number of attributes");
	for (it = axl_item_get_first_child (node); it != NULL; it = axl_item_get_next (it)) {
		size = -1;
		switch (axl_item_get_type (it)) {
		case ITEM_NODE: CHECK (axl_node_get_parent (axl_item_get_data (it)) == node, "parent"); walk (axl_item_get_data (it)); break;
		case ITEM_CONTENT: { char * c = axl_item_get_content (it, &size); CHECK (ev[cur].k == E_TEXT && r_eq (c, ev[cur].a, ev[cur].an) && size == ev[cur].an, "text in its place"); cur++; break; }
		case ITEM_CDATA: { char * c = axl_item_get_content (it, &size); CHECK (ev[cur].k == E_CDATA && r_eq (c, ev[cur].a, ev[cur].an) && size == ev[cur].an, "CDATA in its place"); cur++; break; }
		case ITEM_COMMENT: { char * c = axl_item_get_content (it, &size); CHECK (ev[cur].k == E_COMMENT && r_eq (c, ev[cur].a, ev[cur].an) && size == ev[cur].an, "comment in its place"); cur++; break; }
		case ITEM_PI: { axlPI * pi = axl_item_get_data (it); CHECK (ev[cur].k == E_PI && r_eq (axl_pi_get_name (pi), ev[cur].a, ev[cur].an) && r_eq_trim (axl_pi_get_content (pi), ev[cur].b, ev[cur].bn), "processing instruction in its place"); cur++; break; }
		default: CHECK (0, "known item type");
		}
	}
	CHECK (ev[cur].k == E_END, "nothing missing at the end of an element"); cur++;
}
static void compare_doc (axlDoc * d) {
	int i, k = 0; axlList * pis = axl_doc_get_pi_target_list (d); axlNode * root = axl_doc_get_root (d);
	cur = ref_root; CHECK (root != NULL && axl_node_get_parent (root) == NULL, "root"); walk (root);
	for (i = 0; i < nev; i++) if (i < ref_root || i >= cur) { axlPI * pi = axl_list_get_nth (pis, k); CHECK (pi != NULL && ev[i].k == E_PI && r_eq (axl_pi_get_name (pi), ev[i].a, ev[i].an) && r_eq_trim (axl_pi_get_content (pi), ev[i].b, ev[i].bn), "document processing instruction"); k++; }
	CHECK (axl_list_length (pis) == k, "number of document processing instructions");
}
#endif
