SPECS = {}
def prop(pid, bounds, outside, entries, src=None, **kw): SPECS[pid] = dict(src=src or pid + ".c", bounds=bounds, outside=outside, entries=entries, **kw)
def E(entry, *args, **kw): kw.setdefault('reach', ['end']); return dict(entry=entry, args=list(args), **kw)

prop('C17', 'lists of up to 4 items plus every sequence of 2 (quick) / 3 (thorough) operations; cursor scripts of 3/5 moves; values over 0..3 for ordered lists; lists of 13..300 items filled, emptied and filled again',
 'longer histories; user comparators that are not an order; allocation failure',
 [E('list_history', 0, 4, 2, jobs=2, thorough_args=[0, 4, 3]), E('list_history', 1, 5, 3, jobs=2, thorough_args=[1, 5, 4]), E('list_history', 2, 4, 3), E('list_history', 3, 4, 3), E('list_values', 0, 4, 2, jobs=2, thorough_args=[0, 5, 3]), E('list_values', 1, 3, 2),
  E('list_cursor', 5, 5, jobs=2, thorough_args=[6, 6]), E('list_copy', 5, thorough_args=[6]), E('list_builtin_cmp', 4, thorough_args=[5]), E('list_scale', variants=[[s, h] for s in (13, 20, 64, 100, 129, 257, 300) for h in range(8)], steps=400000000)])
prop('C18', '2..4 distinct keys with arbitrary hash values, tables growing by 1..3 slots, every history of 2 (quick) / 3 (thorough) operations after any initial fill; 3 string keys of 2 arbitrary bytes, 3 integer keys; 13..513 integer keys with one arbitrary probe',
 'more keys than 8 and longer histories; hash or equality functions that are not consistent; allocation failure',
 [E('hash_history', 1, 3, 3, 2, jobs=2, thorough_args=[1, 3, 3, 3]), E('hash_history', 2, 4, 3, 2, jobs=2, thorough_args=[2, 4, 5, 3]), E('hash_history', 3, 3, 5, 2), E('hash_history', 0, 3, 9, 2),
  E('hash_growth', 1, 7, 6), E('hash_growth', 2, 8, 7), E('hash_growth', 3, 8, 8), E('hash_cursor_remove', 2, 4, 3), E('hash_cursor_remove', 1, 4, 3), E('hash_cursor_remove', 3, 4, 2), E('hash_copy', 2, 4, 3), E('hash_copy', 1, 3, 2), E('hash_builtin', 1), E('hash_builtin', 2, tier='thorough'), E('hash_scale', variants=[[s, m, g] for s, m, g in ((13, 1, 10), (33, 3, 10), (100, 1, 10), (129, 10, 1), (257, 1, 10), (300, 7, 11), (65, 100, 10), (64, 1, 3), (513, 1, 10))], steps=400000000)])
prop('C19', 'every history of up to 8 (quick) / 12 (thorough) stack operations; bit stacks 7 / 9; 9..1025 values', 'longer histories; allocation failure',
 [E('stack_history', 8, thorough_args=[12]), E('bstack_history', 7, thorough_args=[9]), E('stack_scale', variants=[[s] for s in (9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 100, 128, 129, 255, 256, 257, 513, 1025)], steps=400000000)])
prop('C20', 'block sizes 1..64 with up to 40 requests, sizes 200..4096 sampled by range; every history of 6 requests/releases; string requests at all block thresholds',
 'longer histories; allocation failure; clearing of blocks that were given back with axl_factory_release_spare',
 [E('factory_blocks', 1, 48, 12), E('factory_blocks', 37, 44, 60), E('factory_blocks', 250, 260, 6), E('factory_blocks', 510, 516, 5), E('factory_blocks', 1022, 1026, 4), E('factory_blocks', 2046, 2050, 3), E('factory_spares', 40, 3, 6, thorough_args=[40, 3, 8]), E('factory_spares', 24, 14, 4), E('factory_spares', 64, 25, 4), E('str_factory', 3, thorough_args=[4]), E('str_factory_any', 0, 40), E('str_factory_any', 1000, 1030)])
prop('C21', 'texts of up to 5 (quick) / 6-7 (thorough) arbitrary bytes, needles and separators of 1..2 bytes, up to 4 pieces',
 'longer texts; empty separators; formats other than %s (their conversion is the C library\'s)',
 [E('str_trim', 7, thorough_args=[11]), E('str_replace', 5, 3, 2, jobs=2, thorough_args=[7, 3, 2]), E('str_remove', 6, 3, jobs=2, thorough_args=[8, 3]), E('str_split_join', 7, 1, thorough_args=[10, 1]), E('str_split_join', 7, 2, thorough_args=[10, 2]), E('str_join', 3, 2), E('str_compare', 3, thorough_args=[5]), E('str_copies', 3, thorough_args=[4])])
prop('C22', 'content of up to 4-7 arbitrary non-zero bytes; memory streams and descriptor streams with every split into reads; 9 terminator sets of 1..3 byte terminators including white space; sequences of 1..3 operations; an 8192+ byte file with 5 arbitrary bytes around the buffer boundary',
 'longer sequences; content with zero bytes; allocation failure',
 [E('stream_mem', 3, 2, jobs=3, thorough_args=[5, 3]), E('stream_until', variants=[[w, 5] for w in range(9)], variants_thorough=[[w, 7] for w in range(9)]),
  E('stream_fd', 3, 2, 1, 3, jobs=3, thorough_args=[5, 3, 1, 3]), E('stream_fd_until', variants=[[w, 5, 1, 2] for w in range(9)], variants_thorough=[[w, 7, 1, 3] for w in range(9)]),
  E('stream_fd_big', variants=[[w, b, 2 + (w < 5), 2] for w in range(9) for b in (1, 2)]+[[w, b, 3, 0] for w in (0,1) for b in (0,1,2)], variants_thorough=[[w, b, 4, 3] for w in range(9) for b in (1, 3)]+[[w, b, 3, 0] for w in (0,1,2) for b in (0,1,2)]), E('stream_push', 3, 3, jobs=2, thorough_args=[4, 5]), E('stream_context', 4), E('stream_link')])
NT = 36
prop('C01', 'documents of 9 (quick) / 12 (thorough) arbitrary bytes; 36 templates with 4..6 arbitrary bytes in names, attributes, text, comments, CDATA, processing instructions, the xml header and the DOCTYPE; a document using every construct cut at any point and with any 3 (quick) / 4 (thorough) neighbouring bytes replaced; 9..13 attributes, 1..12 levels, 8192 byte read boundary; memory and file input, with and without error reporting; one dimension (attributes, levels, children, lengths, counts of items) of 13..1025',
 'longer arbitrary inputs; allocation failure; stack exhaustion',
 [E('parse_any', 9, jobs=3, thorough_args=[12]), E('parse_templ', variants=[[i] for i in range(NT)]), E('parse_cut', variants=[[0, 80], [81, 160], [161, 260]]),
  E('parse_mutant', variants=[[i, i + 14, 3] for i in range(0, 225, 15)], variants_thorough=[[i, i + 9, 4] for i in range(0, 225, 10)]), E('parse_string', 6, jobs=2, thorough_args=[8]), E('parse_big', variants=[[1, 3], [4, 6], [7, 9], [10, 12]]), E('parse_scale', variants=[[k, a, b] for k in range(18) for a, b in ((0, 22), (23, 30))], steps=400000000)])
prop('C02', 'the inputs of C01 (9 arbitrary bytes quick, 11 thorough; templates; cuts; 2-3 replaced bytes), from memory and from a file in short reads; missing, empty and failing sources',
 'longer arbitrary inputs; allocation failure',
 [E('err_any', 8, jobs=3, thorough_args=[10]), E('err_templ', variants=[[i] for i in range(NT)]), E('err_cut', variants=[[0, 60], [61, 120], [121, 260]]), E('err_mutant', variants=[[i, i + 14, 2] for i in range(0, 225, 15)], variants_thorough=[[i, i + 14, 3] for i in range(0, 225, 15)]), E('err_sources')])
prop('C03', 'documents of 8 (quick) / 10 (thorough) arbitrary bytes and the templates of C01 against an independent recogniser; every sequence of 4 (5) of 12 markup pieces, 3 of 19; every proper prefix; names of 1..3 arbitrary name characters; 1..13 attributes',
 'NUL bytes; internal DTD subsets; markup errors the statement does not list (invalid names, bad entity references, raw < in attribute values)',
 [E('wf_any', 8, jobs=3, thorough_args=[10]), E('wf_templ', variants=[[i] for i in range(NT)]), E('wf_pieces', variants=[[5, 11, i] for i in range(12)]+[[3, 18, -1]], variants_thorough=[[6, 11, i] for i in range(12)]+[[4, 18, -1]]), E('wf_cut', 1, 100), E('wf_mutant', variants=[[i, i + 14, 2] for i in range(0, 225, 15)], variants_thorough=[[i, i + 14, 3] for i in range(0, 225, 15)]), E('wf_names', 2, thorough_args=[3]), E('wf_dup', variants=[[i] for i in (1, 2, 9, 10, 11, 12, 20)])])
prop('C04', 'documents of 8 (quick) / 10 (thorough) arbitrary bytes, 64 templates with arbitrary bytes in every lexical position, every sequence of 4 (5) of 14 markup pieces inside a root, one document using every construct with any 2 (3) neighbouring bytes replaced, 1..25 attributes/levels/children and lengths up to 300; compared event by event against an independent reader; one dimension (attributes, levels, children, lengths, counts of items) of 13..1025',
 'documents outside the oracle: internal DTD subsets, entity references other than the five predefined, line-end normalisation; lengths beyond the bounds (the 8192 byte boundary is in C07)',
 [E('tree_any', 8, jobs=3, thorough_args=[10]), E('tree_templ', variants=[[i] for i in range(NT)]), E('tree_more', variants=[[i] for i in range(28)]), E('tree_pieces', variants=[[4, i] for i in range(14)], variants_thorough=[[5, i] for i in range(14)]), E('tree_mutant', variants=[[i, i + 14, 2] for i in range(0, 225, 15)], variants_thorough=[[i, i + 14, 3] for i in range(0, 225, 15)]), E('tree_big', variants=[[0, 1, 25], [1, 1, 25], [2, 1, 25], [3, 0, 20], [3, 240, 270], [4, 0, 20], [4, 500, 520], [5, 1, 20], [5, 1000, 1030]]), E('tree_header'), E('tree_scale', variants=[[k, a, b] for k in range(18) for a, b in ((0, 22), (23, 30))], steps=400000000)])
MUT = lambda k, step=15: [[i, i + step - 1, k] for i in range(0, 225, step)]
TR = ['end']
prop('C05', 'documents of 8 (quick) / 10 (thorough) arbitrary bytes, 64 templates with arbitrary bytes in every lexical position, every sequence of 3 (4) of 14 markup pieces, a document using every construct with any 2 (3) neighbouring bytes replaced; documents built with any 2 (3) of 9 kinds of API calls with texts of 2 (3) arbitrary bytes; 9..13 attributes; the document and its root element and first child separately; one dimension of 13..1025',
 'document level processing instructions and DOCTYPE (not serialised by design); CDATA set through the API with special characters (C08); comments, names and PI contents set through the API that XML cannot express',
 [E('rt_any', 8, jobs=3, thorough_args=[10]), E('rt_templ', variants=[[i] for i in range(NT)]), E('rt_more', variants=[[i] for i in range(28)]), E('rt_pieces', variants=[[3, i] for i in range(14)], variants_thorough=[[4, i] for i in range(14)]), E('rt_mutant', variants=MUT(2), variants_thorough=MUT(3)), E('rt_build', 2, 2, jobs=3, thorough_args=[3, 2]), E('rt_attrs', variants=[[8, 10], [11, 13]]), E('rt_file'), E('rt_scale', variants=[[k, a, b] for k in range(18) for a, b in ((0, 22), (23, 30))], steps=400000000)])
prop('C06', 'the documents of C05 with indentations 0..2 (pieces 0..5, one document 0..40, nested documents of 1..18 (32) levels with 7 indentations up to 257): 8 (10) arbitrary bytes, 64 templates, sequences of 3 (4) of 14 markup pieces, 2 (3) replaced bytes; document, root element and first child; file variants; one dimension of 13..1025',
 'negative indentation; white space at the ends of text in elements that also have children, comments or processing instructions (the indentation is written there)',
 [E('pp_any', 8, jobs=3, thorough_args=[10]), E('pp_templ', variants=[[i] for i in range(NT)]), E('pp_more', variants=[[i] for i in range(28)]), E('pp_pieces', variants=[[3, i] for i in range(14)], variants_thorough=[[4, i] for i in range(14)]), E('pp_mutant', variants=MUT(2), variants_thorough=MUT(3)), E('pp_indent', 40), E('pp_deep', variants=[[1, 6], [7, 12], [13, 18]], variants_thorough=[[1, 6], [7, 12], [13, 18], [19, 24], [25, 32]]), E('pp_file'), E('pp_scale', variants=[[k, a, b] for k in range(18) for a, b in ((0, 22), (23, 30)) if k != 1 or a == 0], steps=400000000)])
prop('C07', 'documents of 5 (quick) / 6 (thorough) arbitrary bytes under every schedule of read sizes; 64 templates with arbitrary bytes read in blocks of every size and split at every point; every sequence of 3 (4) of 14 pieces in blocks of 1..9; one document using every construct split anywhere and with 2 replaced bytes; 7 constructs with 2 arbitrary bytes at every offset across the 8192 byte buffer boundary; 6 constructs of 8172, 20000 and 14000 bytes followed by 12 KB of markup with an arbitrary byte at the end of the long one; a failing read at any point; one dimension of 13..1025 read in blocks of 7, 64 and that size',
 'longer arbitrary documents; failing opens other than a missing file; documents with NUL bytes; several buffer boundaries combined with arbitrary bytes',
 [E('in_any', 5, 5, jobs=3, thorough_args=[6, 6]), E('in_templ', variants=[[i] for i in range(NT)], steps=60000000), E('in_more', variants=[[i] for i in range(28)]), E('in_pieces', variants=[[3, i] for i in range(14)], variants_thorough=[[4, i] for i in range(14)]), E('in_split', variants=[[i] for i in range(64)]), E('in_mutant', variants=MUT(1), variants_thorough=MUT(2)), E('in_cuts', variants=[[1, 80], [81, 160], [161, 260]]),
  E('in_long', variants=[[k, 20000, m] for k in range(6) for m in (0, 4)], variants_thorough=[[k, l, m] for k in range(6) for l in (8300, 20000) for m in (0, 4)], steps=200000000), E('in_big', variants=[[k, 0, 16, m] for k in range(7) for m in (0, 4)]), E('in_fault', variants=[[i, m] for i in (0, 2, 5, 6, 8, 10, 22, 30, 47) for m in (1, 4)]), E('in_scale', variants=[[k, a, b] for k in range(18) for a, b in ((0, 18), (19, 26), (27, 30))], steps=400000000)])
prop('C08', 'texts of 0..4 (quick) / 0..5 (thorough) arbitrary non-zero bytes as content, CDATA, attribute value and several pieces; explicit sizes inside and at the end of the block; 0..13 attributes with entity values under every sequence of 3 (4) modifications; texts of 16..1025 bytes of one kind with two arbitrary bytes at the start, in the middle and at the end',
 'texts with NUL bytes; attribute names with special characters; values set by reference (the caller escapes those)',
 [E('esc_content', variants=[[4, 0], [4, 1]], variants_thorough=[[5, 0], [5, 1]], jobs=3), E('esc_part', variants=[[5, 0], [5, 1]], variants_thorough=[[6, 0], [6, 1]]), E('esc_pieces', 4, thorough_args=[5]), E('esc_attr', 4, thorough_args=[5], jobs=2), E('esc_once', variants=[[0, 2, 3], [9, 11, 4]], variants_thorough=[[0, 2, 4], [8, 12, 5]]), E('esc_helpers', 4, thorough_args=[5]), E('esc_cdata_helpers', 5, thorough_args=[7]), E('esc_copies', variants=[[4, k] for k in range(4)], variants_thorough=[[6, k] for k in range(4)]), E('esc_copies_none'), E('esc_scale', variants=[[w, a, b] for w in range(3) for a, b in ((1, 2), (6, 7), (11, 12), (14, 15), (17, 18), (21, 22), (25, 26), (29, 30))], steps=400000000)])
prop('C09', '0..4 attributes under every history of 3 (4) settings and removals, 8..13 attributes (both representations and the change between them) under every history of 3 (4) over five of the names, attributes set by copy, by reference and by the parser; 2 names of 2 arbitrary bytes and 3 of 1, with values of 2 arbitrary bytes, under every history of 2 (3); two of 13 names added to 9..11 others; 20..300 attributes with removals',
 'more attributes under arbitrary histories; attribute names that need escaping; concurrent modification while a cursor is open',
 [E('attr_history', variants=[[h, 0, 3, 3] for h in (0, 1, 2)] + [[h, a, a + 1, 3] for h in (0, 1, 2) for a in (8, 10, 12)], variants_thorough=[[h, 0, 4, 4] for h in (0, 1, 2)] + [[h, a, a + 1, 4] for h in (0, 1, 2) for a in (8, 10, 12)]), E('attr_names', variants=[[2, 2, 2], [3, 1, 2]], variants_thorough=[[2, 2, 3], [3, 1, 3]]), E('attr_many', variants=[[9, 2], [10, 2], [11, 3]]), E('attr_trim', 4, thorough_args=[6]), E('attr_scale', variants=[[h, s] for h in (0, 1) for s in (20, 31, 63, 64, 100, 129, 257, 300)], steps=400000000)])
EDITS = lambda shapes, firsts, steps: [[h, s, f, steps] for h in (0, 1, 2) for s in shapes for f in firsts if not (s == 0 and f in (1, 5, 7, 8, 9, 10))]
prop('C10', '6 starting trees of 1..5 items (elements, text, CDATA, comments), read from a document, built inside one and built before adding it to one; every history of 2 (quick) / 3 (thorough) of 16 kinds of edits with every operand: append, insert after, remove, detach, reattach, replace elements and items (also the root), move all children, clear the content, copy, release, rename; released through the document or separately; elements made with axl_node_parse',
 'longer histories; moving elements to another document that outlives the first one (their memory belongs to the first); using an element after it was released; more than 14 items',
 [E('edits_parsed', variants=[[h, s, f, 2] for h in (0, 1, 2) for s in (1, 3) for f in (0, 1, 5, 6) if not (h == 2 and f == 6 and s == 9)], variants_thorough=[[h, s, f, 3] for h in (0, 1, 2) for s in range(1, 6) for f in (0, 1, 5, 6)]), E('edits', variants=EDITS(range(6), [f for f in range(16) if f != 13], 2), variants_thorough=EDITS(range(6), [f for f in range(16) if f != 13], 3), jobs=1),
  E('planned', variants=[[h, s, 4, b, c, -1] for h in (0, 1) for s in (1, 4) for b in (0, 1, 5) for c in (0, 3, 5, 7, 9, 10)] + [[h, s, 9, b, c, -1] for h in (0, 2) for s in (1, 2) for b in (0, 4, 7) for c in (0, 4, 7, 9)])])
OPEN = [i for i in range(14) if i not in (2, 3, 9)]
prop('C11', 'documents from 64 templates with arbitrary bytes, every sequence of 2 (3) of 14 markup pieces and a document using every construct with any 1 (2) bytes replaced, each against itself, its copy and its copy with any of 12 changes; pairs: 13 templates with independent arbitrary bytes in each place, all pairs of sequences of 2 (3) pieces, the document using every construct against every 1 (2) byte variation of it; 1..13 attributes with one difference of any kind; documents with one dimension of 13..1025 against copies and documents with one byte changed; single processing instructions and copied items',
 'the content of elements in axl_node_are_equal (only documents compare it); differences in the xml header, document level instructions and DOCTYPE (not part of the comparison); texts with NUL bytes in two different documents',
 [E('eq_self_templ', variants=[[i] for i in range(64) if i not in (7, 9, 13, 14, 25)]), E('eq_self_pieces', variants=[[2, i] for i in OPEN], variants_thorough=[[3, i] for i in OPEN]), E('eq_self_rich', variants=MUT(1), variants_thorough=MUT(2)), E('eq_pair_rich', variants=MUT(1), variants_thorough=MUT(2)), E('eq_pair_pieces', variants=[[2, i] for i in OPEN], variants_thorough=[[3, i] for i in OPEN]), E('eq_pair_templ', variants=[[i] for i in range(13)]), E('eq_attrs', variants=[[1, 3], [10, 12]]), E('eq_null'), E('eq_copy_parts', variants=[[i] for i in range(28)]), E('pi_alone', 2, thorough_args=[3]), E('item_copies', variants=[[i] for i in range(64) if i not in (7, 9, 13, 14, 25)]), E('eq_scale', variants=[[k, a, b] for k in range(18) for a, b in ((0, 18), (19, 26), (27, 30))], steps=400000000)])
prop('C12', 'every tree of 1..5 (quick) / 6 (thorough) elements with names over 2..3 letters, parsed, built and built with text, comments and instructions in between; every query name; every path of up to 3 (4) components over two names and *; iteration in both orders from every element, stopped at any point, with any one element removed by the callback; 13..1025 children and 13..513 levels',
 'larger trees; removal of the element where the iteration starts; several removals in one iteration',
 [E('nav', variants=[[0, 4, 2], [1, 5, 2], [1, 4, 3], [2, 4, 2]], variants_thorough=[[0, 5, 2], [1, 6, 2], [1, 5, 3], [2, 5, 2]], jobs=2), E('path', variants=[[0, 3, 3], [1, 4, 3], [2, 3, 3]], variants_thorough=[[0, 4, 4], [1, 5, 4], [2, 4, 4]], jobs=2), E('iterate', variants=[[0, 4], [1, 5], [2, 4]], variants_thorough=[[0, 5], [1, 6], [2, 5]], jobs=2), E('pis', variants=[[0], [1], [2], [3]]), E('no_root'), E('nav_scale', variants=[[d, s, h] for d, h in ((0, 0), (0, 1), (1, 0)) for s in (13, 64, 100, 129, 257)] + [[0, 513, 0], [0, 1025, 1], [1, 513, 0]], steps=400000000)])
prop('C26', 'every tree of 3 (quick) / 4 (thorough) elements under every history of 2 (3) annotations of 7 kinds (plain, with key and value destructors, integer, string, double), removals, detachments and reattachments, with all lookups after each step; two keys of 1 (2) arbitrary bytes; up to 14 keys on one element; elements that own their document; 11..513 keys on one element',
 'longer histories; reading plain data through a typed accessor (it is not tagged); keys that are changed while stored',
 [E('ann_history', variants=[[0, 3, 2], [1, 3, 2], [1, 2, 3]], variants_thorough=[[0, 3, 3], [1, 4, 3], [1, 2, 4]], jobs=3), E('ann_keys', 1, thorough_args=[2]), E('ann_many', 8, 14, thorough_args=[1, 20]), E('ann_parse', variants=[[0], [1]]), E('ann_scale', variants=[[s] for s in (11, 33, 64, 100, 129, 257, 513)], steps=400000000)])
prop('C25', 'every tree of 3 (quick) / 4 (thorough) elements with none, preserve or default on each, written as pairs of tags or empty, with 1..2 arbitrary characters out of the four white space characters and a letter before and after every child, also with comments and CDATA in between; chains of 1..34 levels and 1..12 siblings with declarations at any two places; every value of 7 and 8 bytes',
 'deeper chains with more declarations; white space written as character references',
 [E('sp_tree', variants=[[1, 3, 0], [2, 2, 0], [3, 1, 0], [2, 1, 1], [2, 1, 2]], variants_thorough=[[1, 5, 0], [2, 3, 0], [3, 2, 0], [4, 1, 0], [3, 1, 1], [3, 1, 2]], jobs=2), E('sp_attr'), E('sp_deep', variants=[[1, 6], [7, 10], [16, 18], [32, 34]], variants_thorough=[[1, 8], [9, 12], [15, 19], [30, 35]]), E('sp_wide', 1, 6, thorough_args=[1, 10]), E('sp_value', variants=[[3], [7], [8]])])
prop('C24', 'every tree of 2..3 (quick) / 4 (thorough) elements with or without a prefix, with any default and prefix declarations (redeclared, taken away) and prefixed attributes on any of them, prefixes, names and namespaces symbolic over two or three values; every query; attribute names of up to 3 (4) arbitrary letters and colons alone and after xmlns; 8..13 attributes on one element; 7..257 levels of declarations',
 'larger trees; names with several colons in elements; the same attribute twice under different prefixes (not checked by the library); validating again after declarations were removed',
 [E('ns_tree', variants=[[0, 2, 3, 2], [0, 2, 6, 1], [1, 2, 6, 2], [1, 2, 3, 0], [1, 3, 2, 2], [1, 3, 1, 0], [0, 2, 5, 1]], variants_thorough=[[0, 2, 7, 0], [1, 3, 7, 2], [1, 3, 3, 0], [1, 4, 2, 0], [0, 4, 1, 0]], jobs=3), E('ns_many', 8, 13), E('ns_names', 3, thorough_args=[4]), E('ns_empty'), E('ns_scale', variants=[[s, o] for s in (7, 16, 33, 64, 100, 129, 257) for o in (0, 1)], steps=400000000)])
prop('C23', 'the ten single-byte encodings with every byte in text, attribute values, names, comments and CDATA, 1 (quick) / 2 (thorough) arbitrary bytes of text, from memory and from files in blocks of 1, 3 and 5 bytes and split at every point; texts and documents of 4080..8200 and 16380..16390 bytes that grow when decoded; UTF-8: every text of up to 5 (6) bytes, documents with 2 (3) arbitrary bytes after 7 kinds of header, at every split, 2..3 arbitrary bytes at every offset across the 8192 byte buffer boundary, after the root; every input of up to 5 (6) bytes',
 'encodings the library does not support (read without checks, as documented); bytes before the end of the xml header; UTF-16 and UTF-32; NUL bytes',
 [E('enc_text', variants=[[w, 1, 0, 0] for w in range(10)] + [[w, 1, h, m] for w, h, m in ((0, 5, 0), (5, 1, 0), (6, 5, 0))] + [[w, 1, 3, 0] for w in (2, 9)] + [[w, 1, 2, m] for w, m in ((1, 1), (3, 3), (4, 5), (7, 2), (8, 60))], variants_thorough=[[w, 2, h, m] for w in range(10) for h, m in ((0, 0), (1, 0), (2, 1), (3, 0))]),
  E('enc_places', variants=[[w, w % 2, 0] for w in range(10)] + [[9, 2, 1], [5, 2, 7]], variants_thorough=[[w, h, m] for w in range(10) for h, m in ((0, 0), (1, 0), (2, 1), (3, 0))]),
  E('enc_big', variants=[[0, 0xe9, 20, 40, 0, 0], [9, 0xa4, 2710, 2714, 0, 0], [0, 0xe9, 4055, 4075, 1, 0], [9, 0xa4, 2700, 2716, 1, 0], [9, 0xa4, 5440, 5446, 2, 4096], [0, 0x78, 8120, 8150, 1, 0], [0, 0x78, 8120, 8150, 2, 1000], [0, 0x78, 16310, 16345, 1, 0]]), E('enc_many', variants=[[0, 0, 10, 1, 0], [0, 20, 25, 2, 1500], [9, 4000, 4010, 1, 0], [0, 3, 8, 0, 0]]),
  E('utf8_any', 5, thorough_args=[6]), E('utf8_doc', variants=[[h, 2, w, 0] for h in range(7) for w in (0, 1, 2, 3)] + [[0, 3, 0, 0], [2, 4, 0, 0], [0, 3, 4, 3]], variants_thorough=[[h, 3, w, 0] for h in range(7) for w in (0, 1, 2, 3)] + [[0, 4, 0, 0], [2, 4, 0, 0], [0, 3, 4, 4]]), E('utf8_big', variants=[[8186, 8194, 2, 1, 0], [8186, 8194, 3, 1, 0], [4090, 4097, 2, 2, 4096]]), E('utf8_tail', variants=[[h, w, 1] for h in (0, 2, 3) for w in (0, 1, 2, 3)]), E('enc_any', variants=[[5, 0], [5, 1], [5, 2]], variants_thorough=[[6, 0], [6, 1], [6, 2]]), E('enc_names')])
prop('C15', 'DTD texts of up to 9 (quick) / 11 (thorough) arbitrary bytes; 51 templates with 3..6 arbitrary bytes in every kind of declaration; a DTD using every construct cut at any point and with any 3 neighbouring bytes replaced; content models and declarations of 4..5 (5..6) arbitrary tokens; every reference graph of 3 elements; from memory with and without error, and from a file read in pieces; a failing read at any point',
 'longer arbitrary texts; content with zero bytes; allocation failure; stack exhaustion',
 [E('dtd_any', 9, jobs=2, thorough_args=[11]), E('dtd_templ', variants=[[i] for i in range(51)]), E('dtd_cut', variants=[[0, 120], [121, 240], [241, 420]]), E('dtd_mutant', variants=[[i, i + 29, 3] for i in range(0, 390, 30)], variants_thorough=[[i, i + 14, 4] for i in range(0, 390, 15)]),
  E('dtd_model', 5, jobs=2, thorough_args=[6]), E('dtd_tokens', variants=[[4, f] for f in (0, 8, 11, 15)], variants_thorough=[[5, f] for f in (0, 8, 11, 15)]), E('dtd_cycle'), E('dtd_fault', variants=[[i] for i in (2, 6, 13, 20, 24, 34, 44, 46)])])
prop('C16', 'content models of 15 (quick: up to 3 names, 3 levels) / 17 (thorough: 5 names) shapes with arbitrary name bytes, separators and repetition marks, with and without white space of any kind, from memory and (4 shapes) from files; 3 element declarations of any kind; the reference graphs of 3 (quick) / 4 (thorough) elements in any declaration order; 2 entities of any kind with values of up to 3 (4) arbitrary bytes; 2 attribute lists of any type and default; equality of two models of the same shape (differing anywhere for 3 shapes, in one place for the others) and of different shapes, and of any two of 31 DTDs; 10 declarations with one arbitrary non-name byte where a separator, mark or end belongs; models and lists of 9..257 names or declarations, names of that length',
 'larger declarations; parameter entities outside attribute types; notations, external entities and processing instructions in a DTD (not supported by the library); names with other than one arbitrary byte; allocation failure',
 [E('dtd_content', variants=[[i, w, 0] for i in range(15) for w in (0, 1)] + [[i, 1, 2] for i in (1, 5, 8, 12)], variants_thorough=[[i, w, 0] for i in range(17) for w in (0, 1)] + [[i, 1, 2] for i in range(15)]), E('dtd_kinds', variants=[[0], [1]]), E('dtd_root', 3, jobs=2, reach=['end', 'root'], thorough_args=[4]), E('dtd_entities', 3, thorough_args=[4]), E('dtd_attrs'),
  E('dtd_equal', variants=[[i, i, 0] for i in (0, 1, 3)] + [[i, i, 1] for i in range(2, 12)] + [[0, 1, 0], [1, 2, 0], [0, 3, 0], [1, 4, 0], [3, 5, 0], [6, 1, 0]], variants_thorough=[[i, i, 0] for i in range(7)] + [[i, i, 1] for i in range(2, 16)] + [[i, j, 0] for i in range(7) for j in range(7) if i != j]), E('dtd_alts'), E('dtd_wrong', variants=[[i, 0] for i in range(10)]), E('dtd_scale', variants=[[k, s] for k in range(4) for s in (9, 16, 17, 33, 64, 100, 129, 257)], steps=400000000)])
prop('C13', 'deterministic content models of 12 (quick) / 16 (thorough) shapes of up to 3 (4) names and 3 levels, every separator, repetition mark and name up to renaming, against 0..4 children with symbolic names, as the root and below it; 7 kinds of declaration with every 2 (3) of 16 kinds of content, inside 4 kinds of parent; arbitrary text of 3 (4) bytes; trees of 4 (5) elements with symbolic names against 49 pairs of declarations; documents of other roots; models of 9..257 names and documents of that many children or 9..513 levels',
 'content models that are not deterministic (XML forbids them); larger models and documents; white space, comments and processing instructions inside EMPTY elements; allocation failure',
 [E('val_model', variants=[[i, k, -1, 0] for i in (0, 1, 3, 4, 5, 6, 2) for k in range(5) if (i, k) != (2, 4)] + [[i, 3, 0, 0] for i in (7, 8, 9, 10, 11)] + [[i, 2, m, 1] for i in (1, 2, 4, 5, 7, 8, 9) for m in (0, 2, 3)], variants_thorough=[[i, k, -1, 0] for i in (0, 1, 3, 4, 5, 6, 2, 7, 8, 9) for k in range(5)] + [[i, 3, m, w] for i in (10, 11, 12, 13, 14, 15) for m, w in ((0, 0), (2, 1))]),
  E('val_kinds', variants=[[k, 2, w] for k in range(7) for w in range(4)], variants_thorough=[[k, 3, w] for k in range(7) for w in range(4)]), E('val_text', variants=[[k, 3] for k in range(4)], variants_thorough=[[k, 4] for k in range(4)]), E('val_tree', 4, reach=['end', 'valid'], jobs=2, thorough_args=[5]), E('val_root'), E('val_scale', variants=[[k, s] for k in range(4) for s in (9, 11, 16, 33, 64, 100, 129, 257)], steps=400000000), E('val_deep', variants=[[s] for s in (9, 33, 64, 100, 129, 257, 513)], steps=400000000)])
prop('C14', 'two declarations of 8 types and 4 default rules against every presence and order of the attributes with arbitrary values of 0..2 bytes, at the root and below; identifiers, references and lists of references over 3 elements of 2 kinds in 3 arrangements with symbolic values; 9..13 attributes with one missing, undeclared or of arbitrary value; ID, IDREF, IDREFS and enumerated attributes combined on up to 2 elements in every rotation, in one or two declarations; symbolic element and attribute names',
 'attributes declared more than once; the lexical form of NMTOKEN, ENTITY and identifier values (not checked by the library); notations; more elements; allocation failure',
 [E('att_multi', variants=[[3, 0], [2, 1]], variants_thorough=[[4, 0], [4, 1]], jobs=2, reach=['end', 'valid']), E('att_rules', variants=[[t, l, w] for t in (0, 1, 2, 7) for l, w in ((1, 0), (2, 1))] + [[t, 1, 1] for t in (3, 4, 5, 6)] + [[0, 0, 0], [1, 0, 1]], variants_thorough=[[t, l, w] for t in range(8) for l in (0, 1, 2, 3) for w in (0, 1)]), E('att_ids', variants=[[k, l, w] for k, l in ((1, 2), (0, 1)) for w in range(3)], variants_thorough=[[k, l, w] for k, l in ((1, 3), (2, 1), (0, 1)) for w in range(3)], reach=['end', 'valid']), E('att_many', 9, 13), E('att_names')])

prop('C27', 'documents from 36+28 templates with arbitrary bytes, every sequence of 2 (3) of 14 markup pieces, a document with every kind of item and texts of 0..6 bytes and around 4096 bytes; all four functions, indentation 0..2, root and first child; every number of bytes the file takes, noticed on writing or on closing; a file that cannot be opened; writing again after the failure',
 'files that fail to close although everything was written; negative indentation; allocation failure',
 [E('out_templ', variants=[[i] for i in (4, 5, 6, 8, 10, 22, 25, 27, 29, 30, 32)], variants_thorough=[[i] for i in range(36)]), E('out_more', variants=[[i] for i in (0, 1, 3, 4, 5, 6, 7, 12, 17, 21)], variants_thorough=[[i] for i in range(28)]), E('out_pieces', variants=[[2, i] for i in OPEN], variants_thorough=[[3, i] for i in OPEN]),
  E('out_built', variants=[[0, 6, 1], [4000, 4001, 500], [8190, 8192, 2000]], variants_thorough=[[0, 12, 1], [60, 70, 1], [4000, 4004, 250], [8100, 8200, 2000]], reach=['end', 'written', 'no file', 'fits', 'full']), E('out_nothing')])

prop('C28', 'texts of 6 (quick) / 8 (thorough) arbitrary non-zero bytes cut at every pair of points; the 36+28 templates of C04 cut at every point, every sequence of 2 (3) of 14 markup pieces, a document using every construct cut at every point; 6 pieces each empty or not; formats with %s, %d, %c, %%',
 'more than 6 pieces; longer arbitrary texts; formats with other conversions (the C library\'s); allocation failure',
 [E('strs_any', variants=[[6, 2]], variants_thorough=[[8, 2]], jobs=3), E('strs_templ', variants=[[i, 1] for i in (0, 3, 4, 6, 8, 13, 19, 22, 25, 30, 32)] + [[10, 0]], variants_thorough=[[i, 1] for i in range(36)]), E('strs_more', variants=[[i, 1] for i in (0, 2, 4, 6, 8, 17, 21, 24)], variants_thorough=[[i, 2] for i in range(28)]),
  E('strs_pieces', variants=[[2, i, 2] for i in OPEN], variants_thorough=[[3, i, 2] for i in OPEN]), E('strs_rich', 1, reach=['end', 'accepted']), E('strs_many'), E('strs_format', -20, 12)])

prop('C29', 'pairs of the same kind and of any two of six kinds of work (reading and writing documents; DTDs and validation; namespaces; building and editing; lists, hashes, stacks and factories; strings and streams), one of them at every point of the other one: 64 templates with 1 (quick) / 3 (thorough) neighbouring arbitrary bytes, 6 documents with an arbitrary byte at every position, texts of 2 (3) arbitrary bytes; one switch to the other task and back',
 'more than one preemption; more than two tasks; objects shared by two tasks; initialising the library and installing babel support, which is documented to happen once at the start',
 [E('two_kinds', variants=[[k] for k in range(6)]), E('two_templ', variants=[[i, 1] for i in range(64)], variants_thorough=[[i, 3] for i in range(64)]), E('two_text', variants=[[3, 2], [4, 1], [5, 2]], variants_thorough=[[3, 3], [4, 2], [5, 3]]), E('two_mutant', variants=[[k, w, i, i + 9] for k, w, m in ((0, 0, 110), (1, 0, 150), (2, 0, 50), (0, 1, 14), (1, 1, 14), (2, 1, 14)) for i in range(0, m, 10)])], instr=True)
