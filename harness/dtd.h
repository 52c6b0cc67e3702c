/* DTD texts; '@' is an arbitrary byte */
#ifndef DTD_H
#define DTD_H
#include "parse.h"
static const char * const dtdt[] = {
/* 0 */ "<!@@@@@@", "<!ELEMENT@@@@@", "<!ELEMENT a@@@@@", "<!ELEMENT a @@@@@", "<!ELEMENT a (@@@@@", "<!ELEMENT a (@@@@)>", "<!ELEMENT a (b@@@@)>", "<!ELEMENT a (b,c@@@@>",
/* 8 */ "<!ELEMENT a ((@@@)@)@>", "<!ELEMENT a (b@(c@d)@)@>", "<!ELEMENT a (#PCDATA@@@@>", "<!ELEMENT a EMPTY@@@", "<!ELEMENT a ANY@@@@", "<!ELEMENT a (b@c@)@>@<!ELEMENT b ANY>", "<!ELEMENT @ (@)><!ELEMENT @ (@)>", "<!ELEMENT @ (@,a)><!ELEMENT @ (b|@)><!ELEMENT c (@)>",
/* 16 */ "<!ATTLIST@@@@@", "<!ATTLIST a @@@@@>", "<!ATTLIST a b@@@@@>", "<!ATTLIST a b (@@@@@", "<!ATTLIST a b (@|@) @@@>", "<!ATTLIST a b CDATA@@@@@", "<!ATTLIST a b CDATA #@@@@", "<!ATTLIST a b CDATA '@@@@>", "<!ATTLIST a b CDATA #FIXED@@@@>",
/* 25 */ "<!ATTLIST a b ID@@@@@", "<!ATTLIST a b ID #REQUIRED @@@@", "<!ATTLIST a @ ID #IMPLIED @ ID #IMPLIED>", "<!ATTLIST a b ENTI@@@@ #IMPLIED>", "<!ATTLIST a b NMTOKEN@@#IMPLIED>", "<!ATTLIST a b NOTATION@@@@>", "<!ATTLIST @ b CDATA #IMPLIED><!ATTLIST @ @ CDATA #REQUIRED>",
/* 32 */ "<!ENTITY@@@@@", "<!ENTITY a@@@@@", "<!ENTITY % a '@@'@@@", "<!ENTITY a \"@@@@@", "<!ENTITY a PUBLIC@@@@", "<!ENTITY a SYSTEM '@'@@", "<!ENTITY % a '@@@'><!ATTLIST a b %@;>", "<!ENTITY % a '%a;'><!ATTLIST a b %a;@@@>", "<!ENTITY % a 'CDATA'><!ATTLIST a b %@; @@>",
/* 41 */ "<!--@@-->@@@", "<?p@@?>@@@", " @@@@@@", "<!ELEMENT a (b)><!--@@@@>", "<!ELEMENT a EMPTY>@@@@@", "<!ATTLIST a b IDREF@@#IMPLIED><!ATTLIST a c ID@#IMPLIED>", "<!ELEMENT a (b@)><!ELEMENT b (a@)>", "<!ELEMENT a (a@)@>", "<!ELEMENT a ((@|@),(@,@))>", "<!ELEMENT a ((((@))))@@",
};
enum { NDTD = sizeof (dtdt) / sizeof (dtdt[0]) };
static const char drich[] = "<!-- c --><!ENTITY % t \"CDATA\"><!ENTITY g 'v'>\n<!ELEMENT r (a, (b | c+)*, d?)>\n<!ELEMENT a (#PCDATA)><!ELEMENT b EMPTY><!ELEMENT c ANY><!--k--><!ELEMENT d (#PCDATA|a)*>\n<!ATTLIST a i ID #REQUIRED e (x|y) 'x'\n k %t; #IMPLIED>\n<!ATTLIST b f CDATA #FIXED \"w\" j IDREF #IMPLIED>";
static char * dmutant (int lo, int hi, int k, int * len) { int i, n = sizeof (drich) - 1, at; char * p = exact (drich, n); if (hi > n - k) hi = n - k; if (lo > hi) lo = hi; at = sym_pick (lo, hi, "position"); for (i = 0; i < k; i++) p[at + i] = sym_u8 ("byte"); *len = n; return p; }
static const char * const dpiece[] = { "a", "b", "(", ")", ",", "|", "*", "?", " ", "#PCDATA", "+" };
#endif
