/* DTD validation of content */
#include "model.h"
static axlDtd * dtd_ (char * p, int n) { axlError * e = NULL; axlDtd * d = axl_dtd_parse (p, n, &e); CHECK (d != NULL && e == NULL, "declarations are accepted"); return d; }
static axlDoc * doc_ (char * p, int n) { axlError * e = NULL; axlDoc * d = axl_doc_parse (p, n, &e); CHECK (d != NULL && e == NULL, "document is accepted"); return d; }
/* validates with or without error; the result is reported as it should */
static void valid (axlDoc * doc, axlDtd * d, int ok) {
	axlError * e = NULL; axl_bool r = axl_dtd_validate (doc, d, &e); if (ok) CHECK (r, "a document whose content matches is valid"); else CHECK (! r, "a document whose content does not match is not valid");
	CHECK ((e != NULL) == ! r, "an error if and only if it is not valid"); if (e != NULL) CHECK (axl_error_get (e) != NULL && axl_error_get_code (e) != 0, "which says what happened"); axl_error_free (e); CHECK (! axl_dtd_validate (doc, d, NULL) == ! r, "the same without asking for the error");
}
/* position sets of a content model, with symbolic names, marks and separators */
struct ps { unsigned first, last; unsigned null; };
#define IF(c) (- (unsigned) !! (c))
static unsigned follow[8];
static struct ps ps_ (struct model * m, const char ** s, int * x, int * l) {
	int me = (*l)++, k = 0, ch, i, p; struct ps r, it[8]; unsigned star, opt; (*s)++;
	while (**s != ')') { if (**s == '(') it[k] = ps_ (m, s, x, l); else { unsigned b = 1u << *x, c = m->mark[*x]; it[k].first = it[k].last = b; it[k].null = (c == '?') | (c == '*'); follow[*x] |= IF ((c == '*') | (c == '+')) & b; (*x)++; (*s)++; } k++; }
	(*s)++; ch = m->sep[me] == '|'; r.first = r.last = 0; r.null = 0;
	{ unsigned f = 0, la = 0, nu = 0, sf = 0, sl = 0, sn = 1; for (i = 0; i < k; i++) { f |= it[i].first; la |= it[i].last; nu |= it[i].null; } for (i = 0; i < k; i++) { sf |= IF (sn) & it[i].first; sn &= it[i].null; } { unsigned n2 = 1; for (i = k - 1; i >= 0; i--) { sl |= IF (n2) & it[i].last; n2 &= it[i].null; } }
	  for (i = 0; i < k; i++) { unsigned n2 = 1; int j; for (j = i + 1; j < k; j++) { for (p = 0; p < m->nn; p++) follow[p] |= IF ((! ch) & (n2 & 1) & (it[i].last >> p & 1)) & it[j].first; n2 &= it[j].null; } }
	  r.first = (IF (ch) & f) | (IF (! ch) & sf); r.last = (IF (ch) & la) | (IF (! ch) & sl); r.null = (IF (ch) & nu) | (IF (! ch) & sn); r.null &= 1; }
	opt = (m->lmark[me] == '?') | (m->lmark[me] == '*'); star = (m->lmark[me] == '*') | (m->lmark[me] == '+'); r.null |= opt; for (p = 0; p < m->nn; p++) follow[p] |= IF (star & (r.last >> p & 1)) & r.first; return r;
}
static int unique (struct model * m, unsigned set) { int i, j, ok = 1; for (i = 0; i < m->nn; i++) for (j = i + 1; j < m->nn; j++) ok &= ! ((set >> i & 1) & (set >> j & 1) & (m->name[i] == m->name[j])); return ok; }
static int accepts (struct model * m, struct ps * r, unsigned char * kid, int k) { unsigned cur = r->first, ok = r->null; int i, p; for (i = 0; i < k; i++) { unsigned nx = 0, at = 0; for (p = 0; p < m->nn; p++) at |= IF ((cur >> p & 1) & (m->name[p] == kid[i])) & (1u << p); for (p = 0; p < m->nn; p++) nx |= IF (at >> p & 1) & follow[p]; ok = (at & r->last) != 0; cur = nx; } return ok; }
/* any model of a shape (names up to renaming), any children; mark: repetition of the whole model, or -1 for any; wrap: not the root of the document */
void val_model (int which, int kids, int mark, int wrap) {
	static const char marks[] = " ?*+"; struct model m; char p[300]; int n, i, x = 0, l = 0, det, top = 0; unsigned char kid[8]; const char * s = shape[which]; struct ps r; axlDtd * d; axlDoc * doc; HEAP_MARK; memset (follow, 0, sizeof follow); memset (&m, 0, sizeof m);
	for (i = 0; s[i]; i++) { if (s[i] == 'x') { int c = sym_pick (0, top, "name"); top += c == top; m.name[m.nn] = 'a' + c; m.mark[m.nn++] = marks[sym_pick (0, 3, "mark")]; } if (s[i] == '(') { m.sep[m.nl] = items_ (s + i) < 2 ? ',' : sym_pick (0, 1, "choice") ? '|' : ','; m.lmark[m.nl] = marks[m.nl == 0 && mark >= 0 ? mark : sym_pick (0, 3, "mark")]; m.nl++; } }
	r = ps_ (&m, &s, &x, &l); det = unique (&m, r.first); for (i = 0; i < m.nn; i++) det &= unique (&m, follow[i]); sym_assume (det);
	for (i = 0; i < kids; i++) { kid[i] = sym_u8 ("child"); sym_assume ((kid[i] >= 'a') & (kid[i] <= 'a' + top)); }
	n = sprintf (p, "%s<!ELEMENT r ", wrap ? "<!ELEMENT t (r)>" : ""); n += model_put (&m, shape[which], p + n); n += sprintf (p + n, ">"); for (i = 0; i <= top; i++) n += sprintf (p + n, "<!ELEMENT n%c EMPTY>", 'a' + i); d = dtd_ (p, n);
	n = sprintf (p, "%s<r>", wrap ? "<t>" : ""); for (i = 0; i < kids; i++) { n += sprintf (p + n, "<n"); p[n++] = kid[i]; n += sprintf (p + n, "/>"); } n += sprintf (p + n, "</r>%s", wrap ? "</t>" : ""); doc = doc_ (p, n);
	if (accepts (&m, &r, kid, kids)) { sym_reach ("valid"); valid (doc, d, 1); } else { sym_reach ("not valid"); valid (doc, d, 0); }
	axl_doc_free (doc); axl_dtd_free (d); HEAP_CHECK; sym_reach ("end");
}
/* every kind of element with every kind of content, at the root, below it and inside another element */
enum { EMPTY_, ANY_, PCDATA_, PCDATAS_, MIXED_, CHILDREN_, MAYBE_, NKIND };
static const char * const decl[] = { "EMPTY", "ANY", "(#PCDATA)", "(#PCDATA)*", "(#PCDATA|a|b)*", "(a,b?)", "(a|b)*" };
static const char * const part[] = { "", "t", "<a/>", "<b/>", "<c/>", "<u/>", "<![CDATA[x]]>", "<![CDATA[ ]]>", "<!--k-->", "<?p q?>", "&lt;", "<b>t</b>", "<b><a/></b>", "<b><u/></b>", "<b><a/><b/></b>", "\n " };
/* what the parts are: text, names of elements, or nothing */
static int kind_ok (int kind, const int * w, int n, int kb) {
	int i, text = 0, st = 0, ok = 1; for (i = 0; i < n; i++) { int el = w[i] == 2 ? 'a' : w[i] == 3 || w[i] >= 11 && w[i] <= 14 ? 'b' : w[i] == 4 ? 'c' : w[i] == 5 ? 'u' : 0; if (w[i] == 1 || w[i] == 6 || w[i] == 7 || w[i] == 10) text = 1; if (! el) continue; if (el == 'u') ok = 0;
		switch (kind) { case EMPTY_: case PCDATA_: case PCDATAS_: ok = 0; break; case MIXED_: case MAYBE_: if (el == 'c') ok = 0; break; case CHILDREN_: if (el == 'a' && st == 0) st = 1; else if (el == 'b' && st == 1) st = 2; else ok = 0; break; }
		if (el == 'b') { static const int in[5][2] = { { 0, 0 }, { 1, 0 }, { 2, 0 }, { 5, 0 }, { 2, 3 } }; ok &= kb < 0 ? 1 : kind_ok (kb, in[w[i] == 3 ? 0 : w[i] - 10], 2, kb); } }
	if (kind == CHILDREN_ && st == 0) ok = 0; if (text && (kind == EMPTY_ || kind == CHILDREN_ || kind == MAYBE_)) ok = 0; return ok;
}
void val_kinds (int k, int parts, int wrap) {
	int kb = sym_pick (0, NKIND - 1, "kind of b"), w[4], i, n; char p[400]; axlDtd * d; axlDoc * doc; HEAP_MARK; for (i = 0; i < parts; i++) { w[i] = sym_pick (0, 15, "part"); if (k == EMPTY_ && (w[i] == 8 || w[i] == 9 || w[i] == 15)) sym_prune (); if (i && w[i] == 1 && w[i - 1] == 1) sym_prune (); }
	n = sprintf (p, "%s<!ELEMENT r %s><!ELEMENT a EMPTY><!ELEMENT b %s><!ELEMENT c ANY>", wrap == 1 ? "<!ELEMENT t (r)>" : wrap == 2 ? "<!ELEMENT t ANY>" : wrap == 3 ? "<!ELEMENT t (#PCDATA|r)*>" : "", decl[k], decl[kb]); d = dtd_ (p, n);
	n = sprintf (p, "%s<r>", wrap ? "<t>" : ""); for (i = 0; i < parts; i++) n += sprintf (p + n, "%s", part[w[i]]); n += sprintf (p + n, "</r>%s", wrap ? "</t>" : ""); doc = doc_ (p, n); valid (doc, d, kind_ok (k, w, parts, kb)); axl_doc_free (doc); axl_dtd_free (d); HEAP_CHECK; sym_reach ("end");
}
/* text of any bytes where elements are expected, or nothing */
void val_text (int k, int len) {
	char p[200], q[8]; int i, n, blank = 1; axlDtd * d; axlDoc * doc; axlError * e = NULL; HEAP_MARK; for (i = 0; i < len; i++) { q[i] = sym_u8 ("text"); sym_assume ((q[i] != '<') & (q[i] != '&') & (q[i] != '>') & (q[i] > 0)); blank &= (q[i] == ' ') | (q[i] == '\t') | (q[i] == '\n') | (q[i] == '\r'); }
	n = sprintf (p, "<!ELEMENT r %s><!ELEMENT a EMPTY>", k == 0 ? "EMPTY" : k == 1 ? "(a)" : k == 2 ? "(#PCDATA)" : "ANY"); d = dtd_ (p, n); n = sprintf (p, "<r%s>", sym_pick (0, 1, "preserve") ? " xml:space='preserve'" : ""); for (i = 0; i < len; i++) p[n++] = q[i]; n += sprintf (p + n, "%s</r>", k == 1 ? "<a/>" : ""); doc = axl_doc_parse (p, n, &e); if (doc == NULL) { axl_error_free (e); axl_dtd_free (d); sym_reach ("end"); return; }
	if (blank) { if (k) valid (doc, d, 1); } else { sym_reach ("text"); valid (doc, d, k >= 2); } axl_doc_free (doc); axl_dtd_free (d); HEAP_CHECK; sym_reach ("end");
}
/* any tree of up to 4 elements against any declarations from a fixed set: every element is checked wherever it is */
void val_tree (int k) {
	static const char * const mod[] = { "EMPTY", "(a)", "(a|b)", "(a,b)", "(b*,a?)", "ANY", "(#PCDATA|b)*" }; int md[2], up[4], nm[4], i, j, n = 0, ok = 1; char p[300]; axlDtd * d; axlDoc * doc; axlNode * nd[4]; HEAP_MARK; for (i = 0; i < 2; i++) md[i] = sym_pick (0, 6, "model"); n = 0; for (i = 0; i < 2; i++) n += sprintf (p + n, "<!ELEMENT %c %s>", 'a' + i, mod[md[i]]); d = dtd_ (p, n);
	for (i = 0; i < k; i++) { char q[2] = { 0, 0 }; nm[i] = sym_u8 ("name"); sym_assume ((nm[i] >= 'a') & (nm[i] <= 'c')); q[0] = nm[i]; nd[i] = axl_node_create (q); up[i] = i ? sym_pick (0, i - 1, "parent") : -1; if (i) axl_node_set_child (nd[up[i]], nd[i]); } doc = axl_doc_create (NULL, NULL, axl_true); axl_doc_set_root (doc, nd[0]);
	for (i = 0; i < k; i++) { int ch[4], c = 0; for (j = i + 1; j < k; j++) if (up[j] == i) ch[c++] = nm[j]; if (nm[i] == 'c') { ok = 0; continue; } switch (md[nm[i] == 'b']) { case 0: ok &= c == 0; break; case 1: ok &= c == 1 && ch[0] == 'a'; break; case 2: ok &= c == 1 && ch[0] != 'c'; break; case 3: ok &= c == 2 && ch[0] == 'a' && ch[1] == 'b'; break; case 4: for (j = 0; j < c; j++) ok &= ch[j] == 'b' || (ch[j] == 'a' && j == c - 1); break; case 6: for (j = 0; j < c; j++) ok &= ch[j] == 'b'; break; } }
	if (ok) sym_reach ("valid"); valid (doc, d, ok); axl_doc_free (doc); axl_dtd_free (d); HEAP_CHECK; sym_reach ("end");
}
/* nothing declared, another root */
void val_root (void) {
	static const char * const t[] = { "<!ENTITY e 'v'>", "<!ELEMENT a (b)><!ELEMENT b EMPTY>", "<!ELEMENT x EMPTY><!ELEMENT y EMPTY>", "<!ATTLIST a k CDATA #IMPLIED>" }; static const char * const dt[] = { "<a><b/></a>", "<b/>", "<c/>", "<y/>", "<a/>" }; static const char ok[4][5] = { { 0, 0, 0, 0, 0 }, { 1, 1, 0, 0, 0 }, { 0, 0, 0, 1, 0 }, { 0, 0, 0, 0, 0 } }; int i = sym_pick (0, 3, "dtd"), j = sym_pick (0, 4, "document"); axlDtd * d; axlDoc * doc; HEAP_MARK; d = dtd_ ((char *) t[i], strlen (t[i])); doc = doc_ ((char *) dt[j], strlen (dt[j])); valid (doc, d, ok[i][j]); axl_doc_free (doc); axl_dtd_free (d); HEAP_CHECK; sym_reach ("end");
}
/* long models: choice or sequence of many names, or one name many times; the document has the right children or one wrong in some place */
void val_scale (int kind, int size) {
	char * p = malloc (size * 60 + 200); int n, i, w = sym_pick (0, 3, "wrong"), at; axlDtd * d; axlDoc * doc; HEAP_MARK; heap_mark_--; at = w == 0 ? 0 : w == 1 ? size / 2 : w == 2 ? size - 1 : -1; n = sprintf (p, "<!ELEMENT r (%s", kind == 3 ? "#PCDATA" : "");
	if (kind == 2) n += sprintf (p + n, "n0*"); else for (i = 0; i < size; i++) n += sprintf (p + n, "%sn%d", i ? (kind == 1 ? "," : "|") : kind == 3 ? "|" : "", i); n += sprintf (p + n, ")%s>", kind == 0 || kind == 3 ? "*" : ""); for (i = 0; i < size; i++) n += sprintf (p + n, "<!ELEMENT n%d EMPTY>", i); d = dtd_ (p, n);
	n = sprintf (p, "<r>"); for (i = 0; i < size; i++) n += i == at ? sprintf (p + n, kind == 1 ? "<n%d>t</n%d>" : "<m%d></m%d>", i, i) : sprintf (p + n, "<n%d/>", kind == 2 ? 0 : i); n += sprintf (p + n, "</r>"); doc = doc_ (p, n); valid (doc, d, at < 0); axl_doc_free (doc);
	if (w == 3) { char q[2]; q[0] = sym_range ('m', 'o', "name"); q[1] = 0; n = sprintf (p, "<r>"); for (i = 0; i < size; i++) { p[n++] = '<'; p[n++] = i == size / 2 ? q[0] : 'n'; n += sprintf (p + n, "%d/>", kind == 2 ? 0 : i); } n += sprintf (p + n, "</r>"); doc = doc_ (p, n); valid (doc, d, q[0] == 'n'); axl_doc_free (doc); }
	if (kind == 1 && w == 3) { n = sprintf (p, "<r>"); for (i = 0; i + 1 < size; i++) n += sprintf (p + n, "<n%d/>", i); n += sprintf (p + n, "</r>"); doc = doc_ (p, n); valid (doc, d, 0); axl_doc_free (doc); }
	axl_dtd_free (d); free (p); HEAP_CHECK; sym_reach ("end");
}
/* many levels */
void val_deep (int size) {
	char * p = malloc (size * 12 + 200); int n, i, w = sym_pick (0, 1, "wrong"); axlDtd * d; axlDoc * doc; HEAP_MARK; heap_mark_--; n = sprintf (p, "<!ELEMENT a (a|b)?><!ELEMENT b EMPTY>"); d = dtd_ (p, n); n = 0; for (i = 0; i < size; i++) n += sprintf (p + n, "<a>"); n += sprintf (p + n, w ? "<b><b/></b>" : "<b/>"); for (i = 0; i < size; i++) n += sprintf (p + n, "</a>"); doc = doc_ (p, n); valid (doc, d, ! w); axl_doc_free (doc); axl_dtd_free (d); free (p); HEAP_CHECK; sym_reach ("end");
}
