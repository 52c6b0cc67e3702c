/* DTD validation of attributes */
#include "dtd.h"
static axlDtd * dtd_ (char * p, int n) { axlError * e = NULL; axlDtd * d = axl_dtd_parse (p, n, &e); CHECK (d != NULL && e == NULL, "declarations are accepted"); return d; }
static axlDoc * doc_ (char * p, int n) { axlError * e = NULL; axlDoc * d = axl_doc_parse (p, n, &e); CHECK (d != NULL && e == NULL, "document is accepted"); return d; }
static void valid (axlDoc * doc, axlDtd * d, int ok) {
	axlError * e = NULL; axl_bool r = axl_dtd_validate (doc, d, &e); if (ok) CHECK (r, "a document whose attributes follow the declarations is valid"); else CHECK (! r, "a document whose attributes break the declarations is not valid");
	CHECK ((e != NULL) == ! r, "an error if and only if it is not valid"); if (e != NULL) CHECK (axl_error_get (e) != NULL && axl_error_get_code (e) != 0, "which says what happened"); axl_error_free (e); CHECK (! axl_dtd_validate (doc, d, NULL) == ! r, "the same without asking for the error");
}
static int valbyte (const char * what) { int c = sym_u8 (what); sym_assume ((c != 0) & (c != '<') & (c != '&') & (c != '\'') & (c != '"') & (c != '>') & (c < 128)); return c; }
/* the rules of one declaration */
enum { REQUIRED_, IMPLIED_, DEFAULT_, FIXED_ };
static const char * const type[] = { "CDATA", "(x|yz)", "( x | yz\n|w )", "NMTOKEN", "NMTOKENS", "ENTITY", "ENTITIES", "(x)" }, * const def[] = { "#REQUIRED", "#IMPLIED", "'x'", "#FIXED \"x\"" };
static int is_enum (int t, const char * v) { int x = str_eq (v, "x"); if (t == 7) return x; return x || str_eq (v, "yz") || (t == 2 && str_eq (v, "w")); }
static int rule (int t, int df, int has, const char * v) { if (! has) return df != REQUIRED_ && df != FIXED_; if (df == FIXED_ && ! str_eq (v, "x")) return 0; if (t == 1 || t == 2 || t == 7) return is_enum (t, v); return 1; }
/* two declarations, any values */
void att_rules (int t, int len, int where) {
	char p[300], v[2][4]; int n, i, j, ty[2], df[2], has[2], und = sym_pick (0, 1, "another attribute"), sp = sym_pick (0, 1, "separate lists"), ok, sw = sym_pick (0, 1, "order"); axlDtd * d; axlDoc * doc; HEAP_MARK; ty[0] = t; ty[1] = sym_pick (0, 2, "type"); for (i = 0; i < 2; i++) { df[i] = sym_pick (0, 3, "default"); has[i] = sym_pick (0, 1, "present"); for (j = 0; j < (i ? 1 : len); j++) v[i][j] = has[i] ? valbyte ("value") : 0; v[i][j] = 0; }
	if (ty[1] == 1 && sym_pick (0, 1, "longer")) strcpy (v[1], "yz");
	n = sprintf (p, "<!ELEMENT r (a?,b?)><!ELEMENT a %s><!ELEMENT b EMPTY><!ATTLIST a p %s %s%sq %s %s>%s", where ? "EMPTY" : "(b)", type[ty[0]], def[df[0]], sp ? "><!ATTLIST a " : "\n\t", type[ty[1]], def[df[1]], sym_pick (0, 1, "list of b") ? "<!ATTLIST b p CDATA #IMPLIED>" : ""); d = dtd_ (p, n);
	n = sprintf (p, "%s<a", where ? "<r>" : ""); for (j = 0; j < 2; j++) { i = j ^ sw; if (has[i]) { n += sprintf (p + n, " %c='", 'p' + i); n += sprintf (p + n, "%s'", v[i]); } } if (und) n += sprintf (p + n, " u='x'"); n += sprintf (p + n, "%s", where ? "/><b p='1'/></r>" : "><b p='1'/></a>"); doc = doc_ (p, n);
	if (where && ! strstr (p, "<b p")) sym_prune ();
	ok = ! und && rule (ty[0], df[0], has[0], v[0]) && rule (ty[1], df[1], has[1], v[1]); if (ok) sym_reach ("valid"); valid (doc, d, ok); axl_doc_free (doc); axl_dtd_free (d); HEAP_CHECK; sym_reach ("end");
}
static int idbyte (const char * what, int blank) { int c = sym_u8 (what); sym_assume (((c >= 'a') & (c <= 'c')) | (blank & ((c == ' ') | (c == '\t') | (c == '\n') | (c == '\r')))); return c; }
/* identifiers and references over three elements anywhere */
void att_ids (int kind, int len, int nest) {
	char p[400], id[3][4], rf[3][6]; int n, i, j, k, el[3], hid[3], href[3], ok = 1, req = sym_pick (0, 1, "required"); axlDtd * d; axlDoc * doc; HEAP_MARK;
	for (i = 0; i < 3; i++) { el[i] = i < 2 ? sym_pick (0, 1, "element") : 1; hid[i] = sym_pick (0, 1, "identifier"); href[i] = i == 2 ? 1 : sym_pick (0, 1, "reference"); if (kind != 2 && i < 2) href[i] = 0; for (j = 0; j < 1; j++) id[i][j] = hid[i] ? idbyte ("identifier", 0) : 0; id[i][j] = 0; for (j = 0; j < (i == 2 ? len : 1); j++) rf[i][j] = href[i] ? idbyte ("reference", kind == 1) : 0; rf[i][j] = 0; }
	n = sprintf (p, "<!ELEMENT r ANY><!ELEMENT a ANY><!ELEMENT b ANY><!ATTLIST a i ID %s f %s #IMPLIED><!ATTLIST b f %s #IMPLIED j ID #IMPLIED>", req ? "#REQUIRED" : "#IMPLIED", kind == 1 ? "IDREFS" : "IDREF", kind == 1 ? "IDREFS" : "IDREF"); d = dtd_ (p, n);
	n = sprintf (p, "<r>"); for (i = 0; i < 3; i++) { n += sprintf (p + n, "<%c", 'a' + el[i]); if (hid[i]) { n += sprintf (p + n, " %c='", el[i] ? 'j' : 'i'); n += sprintf (p + n, "%s'", id[i]); } if (href[i]) n += sprintf (p + n, " f='%s'", rf[i]); n += sprintf (p + n, nest > i ? ">" : "/>"); } for (i = 2; i >= 0; i--) if (nest > i) n += sprintf (p + n, "</%c>", 'a' + el[i]); n += sprintf (p + n, "</r>"); doc = doc_ (p, n);
	for (i = 0; i < 3; i++) { if (! hid[i]) { if (! el[i] && req) ok = 0; continue; } for (j = 0; j < i; j++) if (hid[j] && str_eq (id[i], id[j])) ok = 0; }
	for (i = 0; ok && i < 3; i++) if (href[i]) { if (kind != 1) { int f = 0; for (j = 0; j < 3; j++) f |= hid[j] && str_eq (rf[i], id[j]); ok &= f; } else { char * q = rf[i]; while (*q) { k = 0; while (q[k] && ! strchr (" \t\n\r", q[k])) k++; if (k) { int f = 0; for (j = 0; j < 3; j++) f |= hid[j] && (int) strlen (id[j]) == k && memcmp (id[j], q, k) == 0; ok &= f; q += k; } else q++; } } }
	if (ok) sym_reach ("valid"); valid (doc, d, ok); axl_doc_free (doc); axl_dtd_free (d); HEAP_CHECK; sym_reach ("end");
}
/* many attributes (they are kept in another way), one of them wrong */
void att_many (int lo, int hi) {
	char p[900]; int n, i, k = sym_pick (lo, hi, "attributes"), kind = sym_pick (0, 4, "what is wrong"), at = sym_pick (0, k - 1, "which"), c = valbyte ("value"); axlDtd * d; axlDoc * doc; HEAP_MARK; n = sprintf (p, "<!ELEMENT a EMPTY><!ATTLIST a"); for (i = 0; i < k; i++) n += sprintf (p + n, " k%c %s %s", 'a' + i, kind == 4 ? "(v|w)" : "CDATA", kind == 3 ? "#FIXED 'v'" : "#REQUIRED"); n += sprintf (p + n, ">"); d = dtd_ (p, n);
	n = sprintf (p, "<a"); for (i = 0; i < k; i++) { if (i == at && kind == 1) continue; n += sprintf (p + n, " k%c='", 'a' + i); p[n++] = i == at ? c : 'v'; p[n++] = '\''; if (i == at && kind == 2) n += sprintf (p + n, " u=''"); } n += sprintf (p + n, "/>"); doc = doc_ (p, n); valid (doc, d, kind == 0 || (kind == 3 && c == 'v') || (kind == 4 && (c == 'v' || c == 'w'))); axl_doc_free (doc); axl_dtd_free (d); HEAP_CHECK; sym_reach ("end");
}
/* which element the attributes belong to, by name */
void att_names (void) {
	char p[200], a[2], k[2]; int n, x, y; axlDtd * d; axlDoc * doc; HEAP_MARK; a[0] = sym_u8 ("element"); sym_assume ((a[0] >= 'a') & (a[0] <= 'c')); k[0] = sym_u8 ("attribute"); sym_assume ((k[0] >= 'a') & (k[0] <= 'z')); a[1] = k[1] = 0; n = sprintf (p, "<!ELEMENT r (b,c)><!ELEMENT b EMPTY><!ELEMENT c EMPTY><!ATTLIST "); p[n++] = a[0]; n += sprintf (p + n, " k"); p[n++] = k[0]; n += sprintf (p + n, " CDATA #REQUIRED>"); d = dtd_ (p, n);
	x = sym_u8 ("first"); y = sym_u8 ("second"); sym_assume ((x >= 'a') & (x <= 'z') & (y >= 'a') & (y <= 'z')); n = sprintf (p, "<r><b k"); p[n++] = x; n += sprintf (p + n, "='1'/><c k"); p[n++] = y; n += sprintf (p + n, "='1'/></r>"); doc = doc_ (p, n); valid (doc, d, a[0] == 'a' || (a[0] == 'b' ? x == k[0] : y == k[0])); CHECK (axl_dtd_get_attr_contraints (d, a) == 1, "one declaration"); axl_doc_free (doc); axl_dtd_free (d); HEAP_CHECK; sym_reach ("end");
}
/* one element with several attributes of the same and of different kinds, declared in any order, in one or several lists */
void att_multi (int count, int split) {
	static const char * const name = "ifghc"; char p[500], v[2][5][4]; int n, i, j, q, ok = 1, order[5], has[2][5], kinds = sym_pick (0, 1, "reference lists"), rot = sym_pick (0, 4, "rotation"), rev = count > 3 ? sym_pick (0, 1, "backwards") : rot & 1, req = count > 3 ? sym_pick (0, 5, "required") : 5 - sym_pick (0, 1, "required") * (1 + rot), elems = sym_pick (1, 2, "elements"); axlDtd * d; axlDoc * doc; HEAP_MARK;
	for (i = 0; i < 5; i++) order[i] = (rev ? 4 - i + rot : i + rot) % 5;
	n = sprintf (p, "<!ELEMENT r (a+)><!ELEMENT a EMPTY><!ATTLIST a"); for (i = 0; i < 5; i++) { j = order[i]; if (split && i == 2) n += sprintf (p + n, "><!ATTLIST a"); n += sprintf (p + n, " %c %s %s", name[j], j == 0 ? "ID" : j == 4 ? "(v|w)" : j == 3 || (kinds && j == 2) ? "IDREFS" : "IDREF", req == j ? "#REQUIRED" : "#IMPLIED"); } n += sprintf (p + n, ">"); d = dtd_ (p, n);
	n = sprintf (p, "<r>");
	for (q = 0; q < elems; q++) { int c = 0; n += sprintf (p + n, "<a");
		for (i = 0; i < 5; i++) { has[q][i] = i == 0 ? q < 1 || sym_pick (0, 1, "identifier") : sym_pick (0, 1, "present"); if (q && i > 2) has[q][i] = 0; c += has[q][i]; v[q][i][0] = 0; if (! has[q][i]) { if (req == i) ok = 0; continue; } if (i == 0) { v[q][i][0] = q ? 'y' : 'x'; } else if (i == 4) { v[q][i][0] = sym_u8 ("value"); sym_assume ((v[q][i][0] >= 'u') & (v[q][i][0] <= 'w')); if (v[q][i][0] == 'u') ok = 0; } else { v[q][i][0] = sym_u8 ("reference"); sym_assume ((v[q][i][0] >= 'w') & (v[q][i][0] <= 'y')); } v[q][i][1] = 0; n += sprintf (p + n, " %c='%s'", name[i], v[q][i]); }
		n += sprintf (p + n, "/>"); if (c > count) sym_prune (); }
	n += sprintf (p + n, "</r>");
	for (q = 0; ok && q < elems; q++) for (i = 1; i < 4; i++) if (has[q][i] && ! (v[q][i][0] == 'x' || (v[q][i][0] == 'y' && elems > 1 && has[1][0]))) ok = 0;
	if (ok) sym_reach ("valid"); doc = doc_ (p, n); valid (doc, d, ok); axl_doc_free (doc); axl_dtd_free (d); HEAP_CHECK; sym_reach ("end");
}
