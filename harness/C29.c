/* operations on separate objects do not disturb each other, even when one runs in the middle of the other.
   The library is compiled with -finstrument-functions and -fsanitize-coverage=trace-loads,trace-stores for this check: every entry and exit of
   a library function and every access to a variable of the library is a point at which another task may run. */
#include "parse.h"
#include "same.h"
#include <axl_ns.h>
#include <axl_babel.h>
#include <axl_stream.h>
long sym_lib_writes (void); int sym_is_shared (const void * p);
typedef struct { char * b; int n; } T;
static int counting, inside, events, at = -1; static void other (void);
static void ev (void) { if (! counting || inside) return; events++; if (events == at) { inside = 1; other (); inside = 0; } }
void __cyg_profile_func_enter (void * f, void * s) { ev (); }
void __cyg_profile_func_exit (void * f, void * s) { ev (); }
#define HOOK(n) void __sanitizer_cov_load##n (void * p) { if (counting && sym_is_shared (p)) ev (); } void __sanitizer_cov_store##n (void * p) { if (counting && sym_is_shared (p)) ev (); }
HOOK(1) HOOK(2) HOOK(4) HOOK(8) HOOK(16)
static void put (T * t, const char * s, int n) { if (n < 0) n = s ? strlen (s) : 0; if (t->n + n + 2 > 6000) return; if (s) { memcpy (t->b + t->n, s, n); t->n += n; } t->b[t->n++] = s ? '|' : '0'; }
static void num (T * t, int v) { char b[20]; put (t, b, sprintf (b, "%d", v)); }
static void err (T * t, axlError * e) { if (e) { num (t, axl_error_get_code (e)); put (t, axl_error_get (e), -1); } else put (t, "ok", 2); }
static axl_bool visit (axlNode * n, axlNode * p, axlDoc * d, axl_bool * removed, axlPointer u) { put (u, axl_node_get_name (n), -1); return axl_true; }
static axl_bool attr (const char * k, const char * v, axlPointer t, axlPointer d) { put (t, k, -1); put (t, v, -1); return axl_true; }
static void walk (T * t, axlNode * n, const char ** keep, int * nk) { axlItem * i; int c; for (i = axl_item_get_first_child (n); i; i = axl_item_get_next (i)) { num (t, axl_item_get_type (i)); if (axl_item_get_type (i) == ITEM_NODE) walk (t, axl_item_get_data (i), keep, nk); else if (axl_item_get_type (i) == ITEM_PI) put (t, axl_pi_get_name (axl_item_get_data (i)), -1); else if (*nk < 8) keep[(*nk)++] = axl_item_get_content (i, &c); } if (*nk < 8) keep[(*nk)++] = axl_node_get_name (n); axl_node_attr_foreach (n, attr, t, NULL); }
/* reading and writing */
static void w_xml (T * t, const char * p, int n) {
	axlError * e = NULL; axlDoc * d = axl_doc_parse (p, n, &e), * c; char * x = NULL, * y = NULL, * z; int m, nk = 0; const char * keep[9]; axlNode * r; axlList * l;
	if (d == NULL) { err (t, e); axl_error_free (e); return; }
	r = axl_doc_get_root (d); keep[nk++] = axl_doc_get_encoding (d); keep[nk++] = axl_node_get_content (r, NULL); walk (t, r, keep, &nk);
	axl_doc_dump (d, &x, &m); num (t, m); axl_doc_dump_pretty (d, &y, &m, 2); num (t, m); z = axl_node_get_content_trans (r, &m); num (t, m); put (t, z, -1); axl_free (z); z = axl_node_get_content_copy (r, &m); put (t, z, -1); axl_free (z);
	num (t, axl_doc_get_flat_size (d)); if (axl_node_get_first_child (r)) { l = axl_doc_get_list (d, "/r/a"); num (t, l ? axl_list_length (l) : -1); axl_list_free (l); }
	axl_doc_iterate (d, DEEP_ITERATION, visit, t);
	c = axl_doc_parse (x, -1, &e); err (t, e); if (c) { num (t, axl_doc_are_equal (d, c)); axl_doc_free (c); } axl_error_free (e);
	put (t, x, -1); put (t, y, -1); for (m = 0; m < nk; m++) put (t, keep[m], -1); axl_free (x); axl_free (y); axl_doc_free (d);
}
/* declarations and validation */
static void w_dtd (T * t, const char * p, int n) {
	static const char * const docs[] = { "<r><a k='1'/><b i='x' f='x'>t</b></r>", "<r><a/></r>", "<r><b i='x' f='y'>t</b></r>", "<q/>" }; int i; axlError * e = NULL, * e2; axlDtd * d = axl_dtd_parse (p, n, &e); const char * keep;
	if (! d) { err (t, e); axl_error_free (e); return; }
	keep = axl_dtd_entity_value (d, "ent", GENERAL_ENTITY); num (t, axl_dtd_get_root (d) ? 1 : 0);
	for (i = 0; i < 4; i++) { axlDoc * x = axl_doc_parse (docs[i], -1, NULL); e2 = NULL; num (t, axl_dtd_validate (x, d, &e2)); err (t, e2); axl_error_free (e2); axl_doc_free (x); }
	put (t, keep, -1); axl_dtd_free (d);
}
static void w_ns (T * t, const char * p, int n) {
	axlError * e = NULL; axlDoc * d = axl_doc_parse (p, n, &e); axlNode * r, * c; if (! d) { err (t, e); axl_error_free (e); return; }
	num (t, axl_ns_doc_validate (d, &e)); err (t, e); if (! e) { r = axl_doc_get_root (d); c = axl_ns_node_find_called (r, "U1", "b"); put (t, c ? axl_node_get_name (c) : NULL, -1); num (t, axl_ns_doc_check_default (r, "U1")); for (c = axl_node_get_first_child (r); c; c = axl_node_get_next (c)) { num (t, axl_ns_node_cmp (c, "U1", "b")); num (t, axl_ns_doc_node_check (c, "a", "V1")); } }
	axl_error_free (e); axl_doc_free (d);
}
/* building and editing; the texts come from p */
static void w_edit (T * t, const char * p, int n) {
	axlDoc * d = axl_doc_create ("1.0", NULL, axl_true); axlNode * r = axl_node_create ("r"), * a, * c; char k[4] = "k0", * x = NULL, * q = calloc (n + 1, 1); int i, m; axlAttrCursor * cu; const char * keep[4]; axlError * e = NULL;
	memcpy (q, p, n); axl_doc_set_root (d, r);
	for (i = 0; i < 12; i++) { k[1] = 'a' + i; axl_node_set_attribute (r, k, i & 1 ? q : "v'&"); } axl_node_remove_attribute (r, "kc");
	for (cu = axl_node_attr_cursor_new (r); axl_node_attr_cursor_has_item (cu); axl_node_attr_cursor_next (cu)) put (t, axl_node_attr_cursor_get_key (cu), -1); axl_node_attr_cursor_free (cu); keep[0] = axl_node_get_attribute_value (r, "kb"); x = axl_node_get_attribute_value_trans (r, "kb"); put (t, x, -1); axl_free (x); x = NULL;
	axl_node_set_content (r, q, n); a = axl_node_create ("a"); axl_node_set_child (r, a); axl_node_set_cdata_content (a, q, n); axl_node_set_comment (r, "c", 1); c = axl_node_copy (r, axl_true, axl_true); num (t, axl_node_are_equal (r, c)); axl_node_set_child (a, axl_node_parse (&e, "<z k='%d'>%s</z>", 7, "t")); axl_node_annotate_string (a, "s", "data"); axl_node_annotate_int (a, "i", 42); keep[1] = axl_node_annotate_get_string (axl_node_get_first_child (a) ? axl_node_get_first_child (a) : a, "s", axl_true); num (t, axl_node_annotate_get_int (a, "i", axl_false));
	axl_node_set_name (c, "copy"); axl_node_replace (axl_node_get_first_child (a) ? axl_node_get_first_child (a) : a, c, axl_true); axl_doc_add_pi_target (d, "pi", "content"); keep[2] = axl_doc_get_pi_target_content (d, "pi"); num (t, axl_doc_get_flat_size (d));
	axl_doc_dump (d, &x, &m); num (t, m); put (t, x, m); for (i = 0; i < 3; i++) put (t, keep[i], -1); axl_free (x); axl_doc_free (d); free (q);
}
/* containers; keys and values from p */
static axl_bool each (axlPointer k, axlPointer v, axlPointer t) { put (t, k, -1); num (t, (int) (long) v); return axl_false; }
static int cmp_ (axlPointer a, axlPointer b) { return (long) a < (long) b ? -1 : (long) a > (long) b; }
static axl_bool each_ (axlPointer k, axlPointer v, axlPointer t) { return each (k, v, t); }
static void w_cont (T * t, const char * p, int n) {
	axlList * l = axl_list_new (cmp_, NULL); axlHash * h = axl_hash_new (axl_hash_string, axl_hash_equal_string); axlStack * s = axl_stack_new (NULL); axlBinaryStack * b = axl_binary_stack_new (); axlFactory * f = axl_factory_create (24); axlStrFactory * sf = axl_string_factory_create (); axlHashCursor * hc; axlListCursor * lc; char * keys[14]; long * blk[4]; int i;
	for (i = 0; i < 13; i++) { keys[i] = axl_string_factory_alloc (sf, 4); keys[i][0] = p[i % n]; keys[i][1] = 'a' + i; axl_hash_insert (h, keys[i], (axlPointer) (long) (i + 1)); axl_list_add (l, (axlPointer) (long) (unsigned char) p[i % n]); axl_stack_push (s, keys[i]); axl_binary_stack_push (b, p[i % n] & 1); }
	for (i = 0; i < 4; i++) { blk[i] = axl_factory_get (f); *blk[i] = i; } axl_list_remove (l, (axlPointer) (long) (unsigned char) p[0]); axl_hash_remove (h, keys[3]); axl_list_prepend (l, (axlPointer) 1); axl_list_add_at (l, (axlPointer) 2, 3);
	axl_hash_foreach (h, each_, t); for (hc = axl_hash_cursor_new (h); axl_hash_cursor_has_item (hc); axl_hash_cursor_next (hc)) put (t, axl_hash_cursor_get_key (hc), -1); axl_hash_cursor_free (hc); for (lc = axl_list_cursor_new (l); axl_list_cursor_has_item (lc); axl_list_cursor_next (lc)) num (t, (int) (long) axl_list_cursor_get (lc)); axl_list_cursor_free (lc);
	num (t, axl_list_length (l)); num (t, (int) (long) axl_list_get_nth (l, 2)); num (t, axl_hash_items (h)); num (t, (int) (long) axl_hash_get (h, keys[5])); while (! axl_stack_is_empty (s)) put (t, axl_stack_pop (s), -1); while (! axl_binary_stack_is_empty (b)) num (t, axl_binary_stack_pop (b)); for (i = 0; i < 4; i++) num (t, *blk[i]);
	axl_list_free (l); axl_hash_free (h); axl_stack_free (s); axl_binary_stack_free (b); axl_factory_free (f); axl_string_factory_free (sf);
}
/* strings and streams */
static void w_str (T * t, const char * p, int n) {
	char * q = calloc (n + 1, 1), * x, * y, ** v; int m = 0, i; axlStream * s; const char * keep; memcpy (q, p, n);
	v = axl_stream_split (q, 2, "a", "<"); x = axl_stream_join (v, "--"); for (i = 0; v[i]; i++) put (t, v[i], -1); axl_stream_freev (v); put (t, x, -1); y = axl_stream_strdup_printf ("%s-%d-%s", q, n, x); put (t, y, -1); axl_free (y); y = axl_stream_concat (x, q); put (t, y, -1); axl_stream_trim (y); put (t, y, -1); axl_free (y); axl_free (x);
	x = axl_stream_strdup_n (q, n); axl_stream_to_upper (x); put (t, x, -1); axl_free (x); num (t, axl_stream_casecmp (q, "AB", 2)); num (t, axl_stream_cmp (q, "ab", 2));
	axl_node_has_invalid_chars (q, n, &m); x = axl_node_content_copy_and_escape (q, n, m); put (t, x, -1); axl_free (x); x = strdup ("&lt;&amp;x&apos;"); axl_node_content_translate_defaults (x, &m); put (t, x, -1); free (x); x = axl_stream_strdup (q); axl_stream_replace (&x, -1, "a", 1, "bc", 2); put (t, x, -1); axl_free (x); x = axl_stream_strdup_n ("q", 1); put (t, x, -1); axl_free (x);
	s = axl_stream_new (q, n, NULL, -1, NULL); keep = axl_stream_get_until (s, NULL, &m, axl_true, 2, "<", "a"); num (t, m); put (t, keep, -1); num (t, axl_stream_inspect (s, "b", 1)); axl_stream_consume_white_spaces (s); put (t, axl_stream_get_near_to (s, 4), -1); put (t, axl_stream_get_following (s, 3), -1); num (t, axl_stream_get_index (s)); axl_stream_free (s); free (q);
}
static void (* const work[]) (T *, const char *, int) = { w_xml, w_dtd, w_ns, w_edit, w_cont, w_str };
static int oth; static const char * odoc; static int on; static T rb, rb2; static T * otarget;
static void other (void) { work[oth] (otarget, odoc, on); }
static T fresh (void) { T t; t.b = malloc (6000); t.n = 0; return t; }
static int same_t (T * a, T * b) { return a->n == b->n && memcmp (a->b, b->b, a->n) == 0; }
static void two (int mine, const char * p, int n, int yours, const char * q, int m) {
	T a, b; long w; int k, i; HEAP_MARK; a = fresh (); axl_log_is_enabled (); axl_babel_init (NULL); for (i = 0; i < n; i++) sym_assume (p[i] != 0);
	oth = yours; odoc = q; on = m; rb = fresh (); rb2 = fresh (); w = sym_lib_writes ();
	counting = 1; events = 0; work[mine] (&a, p, n); counting = 0; k = events; otarget = &rb; other ();
	/* again, each after the other one has run */
	at = -1; w = sym_lib_writes () - w; if (w != 0) { sym_reach ("shared state"); at = sym_pick (0, k / 200, "when") * 200 + sym_pick (0, 199, "when"); if (at > k) sym_prune (); }
	b = fresh (); otarget = &rb2; counting = 1; events = 0; work[mine] (&b, p, n); counting = 0; if (at <= 0) other ();
	CHECK (same_t (&a, &b), "the result does not depend on what else is going on"); CHECK (same_t (&rb, &rb2), "the other result does not depend on it either");
	free (a.b); free (b.b); free (rb.b); free (rb2.b); axl_babel_finish (); HEAP_CHECK; sym_reach ("end");
}
static const char * const oxml[] = { "<?xml version='1.0' encoding='utf-8'?><r k='v&amp;'>t<a x=\"1\">y&lt;</a><!--c--><![CDATA[d]]><?p q?><a/></r>", "<r><a></b></r>" };
static const char * const odtd[] = { "<!ELEMENT r (a?, b*)><!ELEMENT a EMPTY><!ATTLIST a k (1|2) #REQUIRED><!ELEMENT b (#PCDATA)><!ATTLIST b i ID #IMPLIED f IDREF #IMPLIED><!ENTITY ent 'v'>", "<!ELEMENT r (a" };
static const char * const onsd[] = { "<r xmlns='U1' xmlns:a='V1'><a:b/><b a:k='1'/></r>", "<r><z:q/></r>" };
static const char * const otxt = "a <b>&x a";
static void with (int mine, char * p, int n) { int k = sym_pick (0, 1, "other"); const char * q = mine == 0 ? oxml[k] : mine == 1 ? odtd[k] : mine == 2 ? onsd[k] : otxt + k; two (mine, p, n, mine, q, strlen (q)); free (p); }
void two_templ (int which, int width) { const char * c = which < 28 ? moret[which] : templ[which - 28]; int n = strlen (c), i, k = 0, from; char * p = malloc (n); for (i = 0; i < n; i++) k += c[i] == '@'; from = sym_pick (0, k > width ? k - width : 0, "from"); for (i = k = 0; i < n; i++) if (c[i] == '@') { p[i] = k >= from && k < from + width ? sym_u8 ("byte") : 'x'; k++; } else p[i] = c[i]; with (0, p, n); }
void two_mutant (int mine, int which, int lo, int hi) { const char * s = mine == 0 ? oxml[which] : mine == 1 ? odtd[which] : onsd[which]; int n = strlen (s), i = sym_pick (lo, hi < n ? hi : n - 1, "position"); char * p = malloc (n); memcpy (p, s, n); p[i] = sym_u8 ("byte"); with (mine, p, n); }
void two_text (int mine, int n) { char * p = malloc (n); sym_bytes (p, n, "text"); with (mine, p, n); }
/* different kinds of work */
void two_kinds (int mine) { int yours = sym_pick (0, 5, "other"); const char * p = mine == 0 ? oxml[0] : mine == 1 ? odtd[0] : mine == 2 ? onsd[0] : otxt, * q = yours == 0 ? oxml[0] : yours == 1 ? odtd[0] : yours == 2 ? onsd[0] : otxt; char * x; int n = strlen (p); x = malloc (n); memcpy (x, p, n); two (mine, x, n, yours, q, strlen (q)); free (x); }
