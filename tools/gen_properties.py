#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one property per line) from the table below."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, observe=(), state=()):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text),
                  why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                               state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
                               observe_at=list(observe), hook_needed=None)))
U = 'pylib/uxml/'
PA, TR, TI, TU, XM, XI, WR, H5, HI, LX = [U + f for f in ('parser.py', 'tree.py', 'treeiter.py', 'treeutil.py', 'xml.py', 'xmliter.py', 'writer.py', 'html5.py', 'html5iter.py', 'lex.py')]
UX = [U + 'uxpath/' + f for f in ('__init__.py', 'xast.py', 'functions.py', 'parserules.py', 'lexrules.py')]

prop('P01', 'Incremental MicroXML parsing does not depend on how the input is cut',
     'For every document, and every way to cut it into fragments (including empty ones and single characters), the MicroXML parser sends its handler the same events as when it gets the document whole, or rejects it in both cases after the same events. The events for a tag have been sent by the time the fragment with its ">" has been fed, and those for text by the time the "<" after it and the rest of that tag have.',
     ['inputs', 'schedules'], 'All fragmentations (2^(n-1) cuts, plus empty fragments and both ways to mark the end) of each document of a corpus that visits every lexical state.',
     'Tests try a dozen hand-picked cuts of a few documents, none within attribute values, references or white space in tags.',
     [PA], [('need_input/backtrack in the parser coroutine', PA + ':parser'), ('IndexError as end of window', PA + ':handle_cdata')],
     ['events sent to the handler coroutine', 'parsefrags()', 'parse()'],
     [('window/pos/curr_state', 'unconsumed input and lexical state kept between fragments', PA + ':parser')])
prop('P02', 'MicroXML events represent the document exactly',
     'For every MicroXML document (elements, attributes, text, named and hexadecimal character references; no comments or empty-element tags, which are not supported) the parser yields exactly one start, text and end event per construct, in document order: start events with name, attributes in order with references resolved and white space in values as spaces, and the list of open ancestors; text unsplit, with references resolved and line breaks as newlines; end events with name and ancestors.',
     ['inputs'], 'All documents up to a bound over an alphabet of lexical atoms, and families that scale each dimension (depth, width, attributes, lengths).',
     'Tests check six documents. They cannot cover combinations of constructs, references or sizes.',
     [PA], [('state machine', PA + ':parser'), ('reference resolution', PA + ':handle_cdata'), ('element_stack', PA + ':parser')],
     ['parse()', 'handler coroutine'])
prop('P03', 'Malformed MicroXML is rejected, and every input ends the parse',
     'For every string the MicroXML parser either raises an exception or consumes it as a complete document (or blank input): it never loops, never drops or alters part of the input without an error, and never accepts a document with mismatched, missing or superfluous tags, missing quotes or names, repeated attributes, illegal or undefined references or characters, content outside the document element, or an end before that of the document element.',
     ['inputs'], 'All strings up to a bound over an alphabet of lexical atoms, explored as a tree of prefixes, each also taken as a complete input.',
     'There is no test of malformed or incomplete input.',
     [PA], [('RuntimeError at each unexpected character', PA + ':parser'), ('end-of-document check', PA + ':parser')],
     ['exception from send()/parse()', 'events'])
prop('P04', 'Every Unicode character is treated correctly at every position',
     'For every Unicode code point, in each of element name start, element name rest, attribute name start, attribute name rest, text, single- and double-quoted attribute value, and hexadecimal character reference, the MicroXML parser accepts the character and reports it unchanged if MicroXML allows it there, and rejects the document if not.',
     ['inputs'], 'All 1,114,112 code points at 8 lexical positions.',
     'Tests use ASCII only.',
     [PA], [('NAMESTARTCHAR, NAMECHAR, DATACHAR, ATTRIBVALCHAR_*, CHARACTER', PA)], ['parse()'])
prop('P05', 'Parser, builder and scanner instances do not affect each other',
     'Any number of MicroXML parsers, tree builders, iterating senders, MicroXML scanner runs and MicroXPath parses can be in progress at once in one thread, with their steps interleaved in any order, one started from within a callback of another, or after others that failed or were abandoned; each gives the result it gives when run on its own, whatever the receivers do to the events and trees they are given. In particular a builder object, or the shared amara3.uxml.parse, can be used again after any earlier use.',
     ['schedules', 'histories'], 'All interleavings of the steps of two or three instances, and all histories of uses up to a bound, including failed and abandoned ones.',
     'Tests run one instance at a time, and each only once or after successful runs.',
     [PA, TR, XM, LX, UX[0]], [('per-instance coroutine state', PA + ':parser'), ('reset in treebuilder.parse', TR), ('lexer clones', LX + ':run'), ('lexer clones', UX[0] + ':parse')],
     ['events', 'trees', 'tokens', 'parsed expressions'])
prop('P06', 'The scanner gives the tokens that spell the document',
     'For every well-formed MicroXML document lex.run gives, in order and each with the offset where it starts, exactly the tokens that make it up, with line breaks normalized: STARTTAG and ENDTAG with the name, NAME, EQ, quotes as used and value pieces of each attribute, GT or EMPTYGT at the end of the tag, CHARDATA for each run of characters, a token for each reference (NUM_ENT with its hexadecimal digits), COMMENT with its text; white space between tokens of a tag is skipped, nothing else is lost, and nothing is reported as illegal.',
     ['inputs'], 'All documents up to a bound put together of pieces (content, tags, attribute values, comments, line breaks) whose tokens are known; every character in every place where it is allowed.',
     'No test runs the scanner.',
     [LX], [('token rules', LX), ('run', LX + ':run')], ['tokens: type, value, lexpos', 'standard error'])
prop('T01', 'Parsed trees mirror the document',
     'For every MicroXML document the tree has the elements, attributes, text nodes and their order exactly as in the document; every child has its parent as xml_parent and the top none; and the value of any node is the concatenation of all text within it, in order.',
     ['inputs'], 'All trees up to a bound in nodes over small alphabets of names, attributes and text; families that scale depth, width and lengths.',
     'Tests check parent links and child counts of five documents.',
     [TR], [('_handler', TR + ':treebuilder'), ('xml_value', TR + ':element')], ['tree.parse', 'treebuilder.parse', 'amara3.uxml.parse', 'strval'])
prop('T02', 'Tree changes do exactly what was asked',
     'After any sequence of append, insert and remove operations (elements, strings and text nodes; any position) the children of each element are those a list would hold, in order, each with its element as xml_parent (an element put into another one while it still has a parent belongs to the new one); a removed node has no parent and is otherwise unchanged, the node removed is the very one given even if others are equal, and removing what is not a child raises an exception and changes nothing.',
     ['histories'], 'All sequences of operations up to a bound on trees with equal texts and elements, against a list model.',
     'Tests append, insert and remove one element.',
     [TR], [('xml_append/xml_insert/xml_remove', TR + ':element')], ['xml_children', 'xml_parent', 'xml_value', 'xml_encode'])
prop('T03', 'Encoding a tree and parsing it again gives the same tree',
     'For every tree whose names are MicroXML names and whose text and attribute values are made of characters MicroXML allows, including markup characters, quotes, tabs and newlines, xml_encode (and xml_write, and the writers) give a document which both the MicroXML and the XML parser turn into a tree with the same names, attributes and content; xml_write writes exactly what xml_encode returns.',
     ['inputs', 'histories'], 'All trees up to a bound over an alphabet of special characters; every allowed BMP character; trees built by operations rather than parsed.',
     'Tests encode a few trees without special characters.',
     [TR, WR], [('xml_encode, quoteattr, escape', TR), ('raw.start_element', WR)], ['xml_encode', 'tree.parse', 'xml.treebuilder.parse'])
prop('T04', 'Trees are released when the program drops them',
     'Once the program holds no node of a tree, the memory of all its nodes is released at the next garbage collection at the latest, whatever was done with it: parsed with any of the parsers, changed, encoded, written, queried with any MicroXPath or selected from. A node that is kept keeps its descendants, but neither its parent nor its siblings.',
     ['histories'], 'All sequences up to a bound of uses of a tree before the last reference to it goes.',
     'One test checks reference counts in one streaming scenario.',
     [TR, UX[1], TI], [('weak reference to the parent', TR + ':node'), ('no cache of root nodes', UX[1] + ':root_node')], ['weakref.ref to nodes', 'gc.collect'])
prop('X01', 'XML becomes the same MicroXML; only namespaces and non-content are dropped',
     'For every well-formed XML document the tree (and event sequence) has the elements and attributes under their local names in document order, and all character data: references resolved, CDATA sections merged, contiguous text as one node even across comments and processing instructions, which are dropped. For a document which is also MicroXML the result equals that of the MicroXML parser.',
     ['inputs'], 'All documents up to a bound over atoms for each XML construct; families that scale lengths past buffer sizes; str and bytes input in several encodings.',
     'XML parsing itself has no test; one test of a writer uses it.',
     [XM], [('expat_callbacks', XM), ('treebuilder.parse', XM)], ['xml.treebuilder().parse', 'xml.parse'])
prop('X02', 'XML that is not well-formed or cut short raises an exception',
     'For every input that is not a well-formed XML document, including any proper prefix of a document that ends before the end of the document element, the XML tree builder raises an exception rather than return a tree, and the same builder then works for the next document.',
     ['inputs', 'crash_points', 'histories'], 'Every prefix of every document, and all documents up to a bound with broken constructs; histories of failing and good parses on one builder.',
     'No test feeds XML that is not well-formed.',
     [XM], [('final Parse call', XM + ':treebuilder.parse'), ('reset', XM + ':treebuilder.parse')], ['exception from parse'])
prop('X03', 'Namespaces found while reading XML are those in scope',
     'While ns_expat_callbacks reads a document, its prefixes are, at every event, exactly the declarations in scope there if stream is true (text belongs to the scope around it, and a declaration that hides another gives way to it again at its end), and otherwise all declarations so far, the latest for each prefix; its ns_portfolio names every element name and (with "@") attribute name read so far, each with a namespace that the document gave it and a prefix that was declared for that namespace.',
     ['inputs', 'schedules'], 'All documents of up to 3 (4) elements over sets of declarations of two prefixes and the default namespace, observed at every event; nesting and repetition to 257 (1025).',
     'No test uses the namespace callbacks.',
     [XM], [('ns_expat_callbacks', XM)], ['prefixes, prefixes_rev and ns_portfolio at each event of the handler'])
prop('I01', 'Streaming patterns select exactly the matching subtrees',
     'For every document and pattern of names, "*", tuples of alternative names and "**" (zero or more levels, not last), the sink gets, in document order, a complete subtree for each element whose path from the document element matches the pattern, other than those within another such element; nothing else, nothing twice.',
     ['inputs', 'programs'], 'All trees up to a bound times all patterns up to a bound, against a declarative matcher.',
     'Tests try eight patterns on four documents, without nested or repeated names.',
     [TI], [('_prep_patterns/_match_state', TI), ('_handler', TI)], ['sink coroutine'])
prop('I02', 'Several streaming patterns work as if each were alone',
     'A sender with several patterns and sinks delivers to each sink exactly what a sender with just that pattern would, for every document, whatever the patterns have in common, and to a sink used for several patterns what each of them delivers, in the order in which the elements end; results are the same on each later use of the sender.',
     ['inputs', 'programs', 'histories'], 'All pairs (and some triples) of patterns from the pattern set times all trees up to a bound, and repeated parses.',
     'No test uses more than one pattern.',
     [TI], [('per-pattern state lists', TI + ':sender')], ['sink coroutines'])
prop('I03', 'XML streaming equals MicroXML streaming and whole-tree parsing',
     'For every document and pattern, the subtrees from streaming XML parsing (of the whole document, of successive chunks cut anywhere, or from a file object that returns any number of bytes per read) equal those from MicroXML streaming and the matching subtrees of the tree from the XML tree builder.',
     ['inputs', 'schedules', 'fault_sequences'], 'All chunkings with up to two cuts and all uniform read sizes, documents times patterns.',
     'One test streams a file of two records with default reads.',
     [XI, XM], [('sender.parse/parse_file', XI), ('text put together across callbacks', XM + ':expat_callbacks')], ['sink coroutine'])
prop('I04', 'Streaming delivers each subtree at once and keeps none',
     'A subtree is sent to its sink while its end tag is processed, before any later content (so by the time the input up to it was fed; for XML, while expat reports that end tag), and once the sink drops it, it is released, even while the rest of the document is being parsed; memory in use does not grow with the number of subtrees.',
     ['schedules', 'histories'], 'Every cut point of each document for MicroXML and XML streaming; all subsets of subtrees which the sink keeps.',
     'One test asserts reference counts for one document.',
     [TI, XI], [('_handler', TI), ('weak parent references', TR)], ['sink calls interleaved with input', 'weakref.ref in the sink'])
prop('W01', 'The raw writer writes exactly what was asked, well-formed',
     'For every balanced sequence of start, text, empty-element and end calls with any attributes and text of allowed characters, the output of the raw writer without indentation parses, as XML, to exactly that structure; and writer.write of a tree gives the same document as the tree itself, and hands each piece of it in that order, labelled with what it is, to a handler given as whandler.',
     ['programs', 'histories'], 'All balanced call sequences up to a bound over names, attribute sets and texts with every markup character, against the call tree.',
     'Tests write five one-element documents.',
     [WR], [('raw.start_element/end_element/text/write', WR), ('write', WR)], ['file object contents'])
prop('W02', 'The namespacer declares the namespaces once and changes nothing else',
     'For every call sequence, prefix declarations and name mapping, the output of the namespacer parses as namespace-aware XML: the declarations are on the first element only, each element and attribute has the namespace that its mapped prefix stands for, and local names, attributes, text and structure are as with the raw writer.',
     ['programs', 'configurations'], 'All balanced call sequences up to a bound times sets of declarations and mappings, judged by expat.',
     'Tests write one element with a default namespace.',
     [WR], [('namespacer.write', WR)], ['file object contents', 'expat namespace events'])
prop('W03', 'Indentation only adds white space',
     'For every tree, indented output (the raw writer with an indent, or xml_encode with one) parses to the same tree apart from added white space: no element, attribute or non-blank text is changed, lost, repeated, reordered or moved to another parent. The white space added is made of line breaks and the given indent.',
     ['inputs', 'configurations'], 'All trees up to a bound times indents, including mixed content and empty elements.',
     'No test uses indentation in writers.',
     [WR, TR], [('raw._awaiting_indent', WR), ('xml_encode indent', TR)], ['output re-parsed'])
prop('U01', 'Selection utilities give exactly the nodes described, in order',
     'descendants, select_elements, select_name, select_name_pattern, select_value, select_attribute and following_siblings yield exactly the nodes their descriptions call for, each once and in document order, from an element or (where allowed) any iterable; they leave the tree alone, and identify siblings by identity even if text nodes are equal.',
     ['inputs'], 'All trees up to a bound, from every node, with every argument from small alphabets, against direct definitions.',
     'No test covers these functions.',
     [TU], [('descendants, select_*, following_siblings', TU)], ['yielded nodes'])
prop('U02', 'make_pretty changes white space only, and settles at once',
     'For every tree without adjacent text nodes, make_pretty returns the same element with the same elements, attributes and texts that are not blank, adds or changes blank text only, indents every element by its depth with the given indent, keeps parent links right, and changes nothing when run again.',
     ['inputs', 'configurations'], 'All trees up to a bound with text, blank text and none in each place, times indents and depths.',
     'One test checks one document with one indent.',
     [TU], [('make_pretty', TU)], ['tree after the call'])
prop('U03', 'Tree patterns select exactly the matching descendants',
     'For every tree and pattern of names, "*", tuples of alternatives and "**" (not last), select_pattern yields exactly the descendants whose path below the given node matches the pattern, each once and in document order.',
     ['inputs', 'programs'], 'All trees up to a bound times all patterns up to a bound, against a declarative matcher.',
     'It has no test outside its docstring.',
     [TU], [('_prep_pattern, any_until', TU), ('select_pattern', TU)], ['yielded elements'])
prop('Q01', 'Axes and node tests select exactly the right nodes',
     'From every node of every document (root, element, text or attribute), each of the axes self, child, parent, ancestor, ancestor-or-self, descendant, descendant-or-self, following, following-sibling, preceding, preceding-sibling and attribute, with each node test (name, "*", node(), text()), selects exactly the nodes XPath defines, in document order, or nearest first for the ancestor and preceding axes; a path of steps gives, for each node of the left side in turn, the nodes of the right side.',
     ['inputs', 'programs'], 'All trees up to a bound, every context node, every axis and node test; all two-step and selected three-step paths; against an independent evaluator.',
     'Tests cover 3 of 12 axes, on one flat document.',
     UX[1:2] + UX[3:4], [('step.compute', UX[1]), ('name_test, node_type_test', UX[1])], ['result sequence of compute()'])
prop('Q02', 'Absolute and // paths reach the whole document from any context',
     'From every node of a document "/", "/path" and "//path" give the same result as from its root: "/path" what path gives from the root node, and "//path" what it gives from each node of the document in turn; "x//y" gives for each x what y selects from all its descendants (for a name, the descendants of that name, never x itself). Computing an expression does not change it.',
     ['inputs', 'programs', 'histories'], 'All trees up to a bound, every context node, paths up to a bound with / and // at every position, each computed repeatedly.',
     'Tests cover "//*" and "//node()" from two contexts; "x//y" not at all.',
     UX[1:2], [('absolute_path.compute', UX[1]), ('descendant_path', UX[1]), ('root_node.get', UX[1])], ['result sequence', 'serialize() before and after'])
prop('Q03', 'Predicates keep exactly the items they should',
     'A predicate with a numeric value keeps just the item at that position in the sequence it applies to, one with any other value the items for which its boolean value is true, evaluated with that item as context; several predicates apply one after the other, each to what the previous ones left. This holds for paths of any shape, sequences of values (including 0, empty strings and booleans), and within other predicates. (last() is not implemented.)',
     ['inputs', 'programs'], 'All trees up to a bound times expressions with all combinations of up to three predicates from an alphabet; against an independent evaluator.',
     'Tests have single predicates of six kinds.',
     UX[1:2] + UX[3:4], [('predicated_expression', UX[1]), ('context.copy', UX[0])], ['result sequence'])
prop('Q04', 'Comparisons and logical operators follow XPath rules',
     'Comparison operators on two sequences are true exactly if they hold for some pair of items, compared as numbers if one is a number or for ordering (two strings that are not nodes are ordered as strings), as booleans if one is a boolean, else as strings; "and" and "or" give a boolean from the boolean values of both sides, an empty sequence counting as false; neither fails for empty sequences.',
     ['inputs', 'programs'], 'All pairs of operands from an alphabet of node sets, numbers, strings, booleans and empty sequences, times all operators, on documents with several values per path.',
     'One test uses one comparison of numbers.',
     UX[1:2], [('compare, binary_expression.compute', UX[1]), ('to_string/to_number/to_boolean', UX[1])], ['result'])
prop('Q05', 'Functions and type conversions do what is documented',
     'string, number, boolean, not, true, false, name, count, concat, starts-with, contains, substring, substring-before, substring-after, string-length, lookup and for-each, and unary minus, give the documented (or, where that is silent, XPath) result for every argument: literals, nodes of each kind, empty and longer sequences (the first item counts), booleans, integers, fractions, NaN, strings that are or are not numbers.',
     ['inputs', 'programs'], 'All calls with arguments from an alphabet with each type and edge value, in all combinations; against an independent implementation.',
     'Tests call eight functions with one or two arguments each.',
     UX[1:3], [('BUILTIN_FUNCTIONS', UX[2]), ('to_*', UX[1])], ['result'])
prop('Q06', 'Union gives each node once, in document order',
     'The union of any two expressions that select nodes of a document (elements, attributes, text, the root) gives exactly the nodes either selects, each once, in document order (attributes after their element and before its children), also after changes to the tree; nodes of different trees are never taken for each other.',
     ['inputs', 'programs', 'histories'], 'All pairs of paths from an alphabet on all trees up to a bound, before and after mutations.',
     'There is no test of union.',
     UX[1:2], [('docorder_key', UX[1])], ['result sequence'])
prop('Q07', 'Queries have no side effects and can be interleaved and repeated',
     'Computing an expression leaves document, expression and context unchanged (the variables, functions, lookup tables and extras of the context reach everything within the expression as given), so that a parsed expression gives the same result any number of times, for any contexts in any order; any number of partly consumed results, of the same or different expressions, over the same document can be advanced in any order, or abandoned, without effect on each other.',
     ['schedules', 'histories'], 'All interleavings of two lazy results, all prefixes of consumption, all sequences of expressions and contexts up to a bound; document and expression compared before and after.',
     'Tests compute each expression once, to its end.',
     UX[0:3], [('generators over immutable expression objects', UX[1]), ('context.copy', UX[0])], ['results', 'serialize()', 'xml_encode()'])
prop('Q08', 'Queries always see the current state of the tree',
     'After any sequence of changes to a tree (append, insert, remove, moving subtrees to other trees, change of attributes), any query from any node gives what it gives on a freshly parsed copy of the same state, whatever queries came before.',
     ['histories'], 'All sequences of mutations and queries up to a bound; compared with the query on a re-parsed encoding of the model state.',
     'Tests query trees as parsed only.',
     UX[1:2] + [TR], [('root_node.get', UX[1]), ('docorder_key', UX[1])], ['result sequences'])
prop('Q09', 'All ways to run a query agree',
     'xml_xpath on a node, qquery on a node, a string or bytes, and compute or call of a parsed expression with a context give the same results for the same document, expression (text or parsed), variables and functions; a tree node without parent stands for its document, and one within a tree is itself the context. Bytes are read as UTF-8, and refused if they are not.',
     ['programs', 'configurations'], 'All entry points times expressions times documents times context nodes, with and without variables and functions.',
     'Tests use one entry point.',
     UX[0:1] + [TR], [('qquery', UX[0]), ('xml_xpath', TR), ('context', UX[0])], ['result sequences'])
prop('Q10', 'The MicroXPath grammar reads expressions as XPath does, whatever was read before',
     'Every expression is parsed with the XPath precedence and associativity (predicates and paths bind before union, then unary minus, comparison, "and", "or") so that it gives the same as its fully parenthesised form, and names that are also operators or functions work as names; what is not an expression is rejected. The serialization of a parsed expression parses to one that serializes and computes the same, and earlier parses, including failed ones, have no influence.',
     ['programs', 'histories'], 'All expressions up to a bound over operators, against a precedence-climbing reference; all token strings up to a bound; all histories of good and bad parses.',
     'Tests do not combine operators at all.',
     UX[3:5] + UX[0:2], [('precedence table', UX[3]), ('lexer', UX[4]), ('serialize', UX[1])], ['results of compute', 'serialize', 'exceptions'])
prop('Q11', 'Concurrent use from several threads gives sequential results',
     'Threads that at the same time parse MicroXPath expressions, compute queries over one shared tree that none changes, parse MicroXML, XML or HTML into trees of their own, stream, read namespaces, change and write trees of their own, use the selection utilities, or run the MicroXML scanner get the same results as when run one after the other, for every thread schedule.',
     ['schedules'], 'All schedules of two threads (three for some) with up to two preemptions at every line boundary in the code of amara3 (and the lexer and parser engine), explored with a controlled scheduler.',
     'Tests are single-threaded.',
     UX[0:2] + [PA, TR, LX], [('lexer clones', UX[0] + ':parse'), ('state local to generators', UX[1])], ['results per thread'])
prop('H01', 'HTML trees equal those of html5lib',
     'For every input html5.parse gives the tree which html5lib builds for it by the HTML algorithm, with element names and attributes reduced to local names, and comments, doctype and namespace declarations dropped: same elements, attributes, text, nesting and order.',
     ['inputs'], 'All sequences of tokens up to a bound over an alphabet that triggers each tree construction rule (implied tags, misnested formatting, tables, foreign content, colons in names), against html5lib\'s own etree builder.',
     'Tests parse four documents.',
     [H5], [('treebuilder', H5), ('cloneNode, insertText, appendChild', H5)], ['tree from html5.parse'])
prop('H02', 'HTML trees are consistent trees that encode and can be queried',
     'For every input each node of the tree from html5.parse occurs once in it and has as xml_parent the element that lists it; the top is html without a parent; the tree can be encoded, and evaluated with MicroXPath, as any other. The same input always gives the same tree, whatever was parsed before, including from str, bytes (in the encoding given, if any) and file objects.',
     ['inputs', 'histories'], 'The token sequences of H01; all histories of two parses.',
     'Tests check parent links in one document.',
     [H5, TR], [('appendChild, insertBefore, reparenting', H5)], ['xml_parent', 'xml_children', 'xml_encode', 'xml_xpath'])
prop('H03', 'Lax XML and HTML fragments give the intended part of the tree',
     'parse_lax_xml gives the first element of the body that html5.parse makes of its input, detached from the rest and with all its content, and raises ValueError if there is none; markup_fragment gives the body element.',
     ['inputs'], 'The token sequences of H01 up to a smaller bound.',
     'One test parses one document.',
     [H5], [('parse_lax_xml', H5), ('markup_fragment', H5)], ['result'])
prop('H04', 'HTML streaming delivers the matching subtrees of the HTML tree',
     'For every input and pattern the subtrees that html5iter delivers equal those that match the pattern in the tree from html5.parse, in document order.',
     ['inputs', 'programs'], 'Token sequences up to a bound times patterns.',
     'It has no test.',
     [HI], [('sender.parse', HI)], ['sink coroutine'])
prop('B01', 'isxml judges any bytes safely and right',
     'For every byte string isxml returns True exactly if it starts with the (possibly encoded) start of an XML declaration or markup character, or if, decoded by its byte order mark or else as UTF-8, its first character other than white space is "<"; it never crashes, reads beyond the bytes or keeps memory.',
     ['inputs'], 'All byte strings up to 2 bytes, all strings up to 7 bytes over an alphabet of significant bytes; lengths around 4; compiled from the current source.',
     'No test covers the extension.',
     ['clib/xmlstring.c'], [('string_isxml', 'clib/xmlstring.c')], ['return value'])
prop('M01', 'The microx command prints exactly what the library gives',
     'For every set of documents and any combination of --expr or --match with --foreach, --partition, --html and --lax, microx prints, for each file in turn, exactly the items the corresponding library calls give, one per line in order, and for a single file no more results of --expr or --match than --limit allows; for --find-text it prints, for each text node that contains the text, in document order, the path to it: the names of the elements it is in, outermost first, separated by slashes, each with a predicate for each --show-attrs attribute it has. No file influences the output for another.',
     ['configurations', 'inputs'], 'All combinations of the options with expressions from an alphabet, on one to three files.',
     'No test runs the command.',
     ['exec/microx'], [('run', 'exec/microx')], ['standard output', 'output file'])

with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'properties.jsonl'), 'w') as f:
    for p in P:
        assert len(p['title']) <= 80, (p['id'], len(p['title']))
        f.write(json.dumps(p, ensure_ascii=False) + '\n')
print(len(P), 'properties')
