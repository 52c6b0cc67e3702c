/* inputs shared by the parser checks. '@' in a template is an arbitrary byte. */
#ifndef PARSE_H
#define PARSE_H
#include "common.h"
static const char * const templ[] = {
/* 0 */ "<a@@@@@@", "<a @@@@@@", "<a @=@@@@</a>", "<a x=\"1\" @@@@@></a>", "<a>@@@@@</a>", "<a>@@@</a@@@",
/* 6 */ "<a><!--@@@@@-->@</a>", "<a><!--@@@@@", "<a><![CDATA[@@@@@]]>@</a>", "<a><![CDATA[@@@@@@", "<a><?@@@@@@</a>", "<a><?p @@@@@@</a>",
/* 12 */ "<?@@@@@@", "<?xml @@@@@@", "<?xml version=@@@@@@", "<?xml version='1.0'@@@@@?><a/>", "<?xml version='1.0' encoding=@@@@@?><a/>", "<?xml version='1.0' standalone=@@@@@ ?><a/>",
/* 18 */ "<!--@@@@--><a/>", "<!DOCTYPE@@@@@@", "<!DOCTYPE a><@@@@@>", "\xEF\xBB\xBF@@@@@", "<a/>@@@@@", "<a></a>@@@@@",
/* 24 */ "<a><b/>@@@@@", "<a xml:space=@@@@@></a>", "<a xml:space='preserve'>@@@<b/></a>", "<a><b>@</b@></a>", "<?xml version='1.0' standalone='@@@' ?><a/>", "<a b='@@' @='@'/>",
/* 30 */ "<a>x@@@@y</a>", "<a><b>t</b> @@@@", "<a p='&@@@;'>&@@;</a>", "<a>@<!---->@<![CDATA[]]>@</a>", "<a><??>@@</a>", "<?xml version='1.0' ?><?p?>@@@@",
};
static const char rich[] = "\xEF\xBB\xBF<?xml version='1.0' encoding=\"utf-8\" standalone='yes' ?><?p q?><!-- c --><!DOCTYPE a SYSTEM 'x'><a x='1' y = \"2&lt;\"> t &amp; <!-- k --><b xml:space='preserve' /><![CDATA[<z>]]><?pi some ?><c>v</c ></a> <!--e-->\n";
static const char * const moret[] = {
/* 0 */ "<a@b@=@'1'@/>", "<a@b='1'@c=\"2\"@></a@>", "<a>@@<b/>@@</a>", "<a><b>@</b>@<c>@</c></a>", "<a>@<!--@-->@@<b/></a>", "<a>@<?p@x@?>@@</a>",
/* 6 */ "<a>@<![CDATA[@@]]>@</a>", "<a xml:space='preserve'>@<b/>@<!---->@</a>", "<?xml@version@=@'1.0'@?>@<a/>", "<?xml version='1.0' encoding@=@'x'@standalone='yes'?><a/>@", "<!--@-->@<!DOCTYPE@a@>@<a/>", "<?p@?><!--@--><a/>@<?q@?>",
/* 12 */ "<a b='@@' c=\"@@\"/>", "<@@ @='@'/>", "<@@></@@>", "<a><@/><@/></a>", "<a xml:space=\"preserve\"><b xml:space='default'>@<c/>@</b>@</a>", "<a>&lt;@@&gt;</a>",
/* 18 */ "<a><b x='1'>@</b>@<b/>@t</a>", "<a>/>@</a>", "<a>@>@</a>", "<a b='>@/>'>@</a>", "<a><![CDATA[]@]]>@<![CDATA[@]]></a>", "<a><!-- -@ --><!--@@--></a>", "\xEF\xBB\xBF@<a/>@", "<a@@></a@@>", "<a>t@@@u</a>", "<a><?p?@@?></a>",
};
static const char * const piece[] = { "<a>", "<b>", "</a>", "</b>", "<c/>", "t", "<!--k-->", " ", "<b y='>'>", "</b >", "<![CDATA[<]]>", "<?p q?>", "<b xml:space='preserve'>", "<b xml:space='default'>" };
static char * pieces_doc (int k, int first, int * len) { char * p = malloc (k * 26 + 16); int i, n; n = sprintf (p, "<a>"); for (i = 0; i < k; i++) { const char * s = piece[i == 0 && first >= 0 ? first : sym_pick (0, 13, "piece")]; memcpy (p + n, s, strlen (s) + 1); n += strlen (s); } n += sprintf (p + n, "</a>"); *len = n; return p; }
static char * exact (const char * p, int n);
static char * mutant (int lo, int hi, int k, int * len) { int i, n = sizeof (rich) - 1, at; char * p = exact (rich, n); if (hi > n - k) hi = n - k; if (lo > hi) lo = hi; at = sym_pick (lo, hi, "position"); for (i = 0; i < k; i++) p[at + i] = sym_u8 ("byte"); *len = n; return p; }
static char * input (const char * t, int * n) {
	int i; char * p = malloc (strlen (t) + 1); *n = strlen (t); memcpy (p, t, *n + 1);
	for (i = 0; i < *n; i++) if (t[i] == '@') p[i] = sym_u8 ("byte");
	return p;
}
/* the same, from a piece of a longer buffer with no terminator after it */
static char * exact (const char * p, int n) { char * q = malloc (n ? n : 1); memcpy (q, p, n); return q; }
/* documents with one dimension of a size around the places where buffers and tables are likely to end; a few bytes are arbitrary */
static const int scale_of[] = { 13, 16, 17, 24, 25, 31, 32, 33, 48, 50, 63, 64, 65, 99, 100, 101, 127, 128, 129, 200, 255, 256, 257, 300, 511, 512, 513, 1000, 1023, 1024, 1025 };
#define SCALE_KINDS 18
static int fill_ (char * p, int c, int k) { memset (p, c, k); p[k - 1] = sym_range ('a', 'c', "byte"); return k; }
static char * scale_doc (int kind, int k, int * len) {
	char * p = malloc (k * 14 + 200), * q; int n = 0, i;
	switch (kind) {
	case 0: n = sprintf (p, "<r"); for (i = 0; i < k; i++) n += sprintf (p + n, " k%d='v%d'", i, i); p[n - 2] = sym_range ('a', 'c', "byte"); n += sprintf (p + n, ">t</r>"); break;
	case 1: for (i = 0; i < k; i++) n += sprintf (p + n, i % 3 ? "<a>" : "<bc>"); n += fill_ (p + n, 't', 2); for (i = k - 1; i >= 0; i--) n += sprintf (p + n, i % 3 ? "</a>" : "</bc>"); break;
	case 2: n = sprintf (p, "<r>"); for (i = 0; i < k; i++) n += sprintf (p + n, i % 2 ? "<n x='%d'/>" : "<n>%d</n>", i); p[n - 5] = sym_range ('0', '9', "byte"); n += sprintf (p + n, "</r>"); break;
	case 3: n = sprintf (p, "<r x='"); n += fill_ (p + n, 'v', k); n += sprintf (p + n, "' y='z'/>"); break;
	case 4: n = sprintf (p, "<r>"); n += fill_ (p + n, 't', k); n += sprintf (p + n, "<b/>u</r>"); break;
	case 5: n = sprintf (p, "<r><!--"); n += fill_ (p + n, 'c', k); n += sprintf (p + n, "-->u</r>"); break;
	case 6: n = sprintf (p, "<r><![CDATA["); n += fill_ (p + n, 'd', k); n += sprintf (p + n, "]]>u</r>"); break;
	case 7: p[n++] = '<'; n += fill_ (p + n, 'n', k); n += sprintf (p + n, " x='1'></"); memcpy (p + n, p + 1, k); n += k; n += sprintf (p + n, ">"); break;
	case 8: n = sprintf (p, "<r "); n += fill_ (p + n, 'a', k); n += sprintf (p + n, "='x' b='y'/>"); break;
	case 9: n = sprintf (p, "<r><?p "); n += fill_ (p + n, 'c', k); n += sprintf (p + n, "?>u</r>"); break;
	case 10: n = sprintf (p, "<r><?"); n += fill_ (p + n, 'p', k); n += sprintf (p + n, " c?>u</r>"); break;
	case 11: n = sprintf (p, "<r>"); for (i = 0; i < k; i++) n += sprintf (p + n, i % 2 ? "<!--c-->" : "t%d", i); n += sprintf (p + n, "%c<b/></r>", sym_range ('a', 'c', "byte")); break;
	case 12: n = sprintf (p, "<r>"); for (i = 0; i < k; i++) n += sprintf (p + n, i % 2 ? "&lt;" : "&amp;"); n += fill_ (p + n, 'x', 2); n += sprintf (p + n, "<b/></r>"); break;
	case 13: n = sprintf (p, "<r x='"); for (i = 0; i < k; i++) n += sprintf (p + n, i % 2 ? "&apos;" : "&amp;"); n += fill_ (p + n, 'x', 2); n += sprintf (p + n, "' y='z'/>"); break;
	case 14: for (i = 0; i < k; i++) n += sprintf (p + n, "<?p%d c?>", i); n += sprintf (p + n, "<r>%c</r>", sym_range ('a', 'c', "byte")); break;
	case 15: n = sprintf (p, "<r"); memset (p + n, ' ', k); n += k; n += sprintf (p + n, "x"); memset (p + n, '\n', k); n += k; n += sprintf (p + n, "='%c'", sym_range ('a', 'c', "byte")); memset (p + n, ' ', k); n += k; n += sprintf (p + n, "/>"); break;
	case 16: n = sprintf (p, "<r>"); for (i = 0; i < k; i++) n += sprintf (p + n, i % 2 ? "<?p c?>" : "<![CDATA[]]>"); n += sprintf (p + n, "%c</r>", sym_range ('a', 'c', "byte")); break;
	case 17: n = sprintf (p, "<r xml:space='preserve'>"); memset (p + n, ' ', k); n += k; n += sprintf (p + n, "<b>%c</b>", sym_range ('a', 'c', "byte")); memset (p + n, '\n', k); n += k; n += sprintf (p + n, "</r>"); break;
	}
	q = exact (p, n); free (p); *len = n; return q;
}
#endif
