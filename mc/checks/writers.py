"""W01-W03: writers"""
import io, itertools, xml.parsers.expat
from xml.sax.saxutils import escape as xml_escape
from .. import gen, refet
from ..core import Check, Family
from ..observe import canon_tree, markup, build, merge, merged, tup, sort_attrs

# Calls: ['s', name, attrs] start, ['v', name, attrs] empty element, ['t', text], ['e'] end
NASTY = '<&>"\'\n\t]]>&amp;\u00e9\U0001F600'
ATTRS = [[], [['x', '1']], [['y', NASTY], ['x', ''], ['z.1-w', '"']]]
TEXTS = ['a', ' <&>\n', ']]>', '']


def histories(inner, opens):
    """All call histories of one document element and up to `inner` further calls (ends not counted)"""
    def rec(calls, stack, left):
        if not stack:
            yield list(calls)
            return
        # close
        calls.append(['e'])
        top = stack.pop()
        yield from rec(calls, stack, left)
        stack.append(top)
        calls.pop()
        if left:
            for c in opens:
                calls.append(c)
                if c[0] == 's':
                    stack.append(c[1])
                    yield from rec(calls, stack, left - 1)
                    stack.pop()
                else:
                    yield from rec(calls, stack, left - 1)
                calls.pop()
    for c in opens:
        if c[0] == 's':
            yield from rec([c], [c[1]], inner)
        elif c[0] == 'v':
            yield [c]


def result(calls):
    """Canonical tree that the calls ask for"""
    stack = [('', (), [])]
    for c in calls:
        if c[0] in 'sv':
            node = (c[1], tuple((k, v) for k, v in c[2]), [])
            stack[-1][2].append(node)
            if c[0] == 's':
                stack.append(node)
        elif c[0] == 't':
            stack[-1][2].append(c[1])
        else:
            stack.pop()
    def freeze(n):
        return n if isinstance(n, str) else (n[0], n[1], merge(map(freeze, n[2])))
    return freeze(stack[0][2][0])


def perform(w, calls, keywords=True):
    names = []
    for c in calls:
        if c[0] == 's':
            if c[2]:
                w.start_element(c[1], attribs=dict(c[2]))
            else:
                w.start_element(c[1])
            names.append(c[1])
        elif c[0] == 'v':
            w.start_element(c[1], attribs=dict(c[2]), empty=True)
        elif c[0] == 't':
            w.text(c[1])
        else:
            w.end_element(names.pop())


class Plain(io.StringIO):
    """Only takes str, as a text file would"""
    def write(self, s):
        if not isinstance(s, str):
            raise TypeError('not a str: %r' % (s,))
        return super().write(s)


class W01(Check):
    id = 'W01'
    assumptions = ('Reference: ElementTree (expat) reads the output. Carriage returns are not covered: XML cannot hold them in text as such.',)

    def families(self, tier):
        q = tier == 'quick'
        opens = [['s', 'a', ATTRS[0]], ['s', 'b', ATTRS[2]], ['v', 'c', ATTRS[0]], ['v', 'd', ATTRS[2]]] + [['t', x] for x in TEXTS]
        fewer = [['s', 'a', ATTRS[0]], ['v', 'c', ATTRS[1]], ['t', 'a']]
        def calls():
            yield from ([c] for c in histories(4, opens))
        def longer():
            yield from ([c] for c in histories(7 if q else 8, fewer))
        def trees():
            for t in gen.trees(3, ('a', 'b'), ('', 'a', '<\n')):
                yield [t]
            for t in gen.trees(2, ('a', 'b'), ('', 'x')):
                for u in gen.with_attrs(t, [tup(a) for a in ATTRS]):
                    yield [u]
            for m, n in gen.confusable_xml():
                yield [gen.confusable_tree(m, n)]
            for t in gen.elements_only(6 if q else 7, ('a',)):
                yield [t]
        def contents():
            for a, b in gen.contents():
                yield [gen.content_tree(a, b)]
        def values():
            chars = ['<', '>', '&', '"', "'", '\t', '\n', ' ', 'x', ']', ';', '#', '\u00e9', '\u0085', '\u2028', '\U0010FFFD', 'amp', '=', '/']
            for n in (1, 2, 3):
                for c in itertools.product(chars, repeat=n):
                    yield [''.join(c)]
        def codepoints():
            for start in range(0, 0x110000, 0x200):
                yield [start]
        def scale():
            for k in gen.sizes(20000):
                for kind in ('wide', 'bushy', 'text', 'attrs', 'deep', 'value'):
                    if kind != 'deep' or k <= 129 or k == 20000:
                        yield [kind, k]
        def longs():
            for t in gen.long_trees(not q):
                yield [t]
        return [Family('long', longs, 'texts and values of up to 70000 characters: all sequences of up to 2 (3) of %d characters over and over, with 8 others in the middle' % len(gen.LONG), self.run_tree),
                Family('calls', calls, 'all balanced histories of up to 4 calls within the document element: 2 kinds of start, 2 empty elements, 4 texts', self.run_calls),
                Family('long-calls', longer, 'all balanced histories of up to 7 (8) calls within: start, empty element, text', self.run_calls),
                Family('trees', trees, 'writer.write of all trees of up to 3 elements (2 names, 3 texts), with attributes, shapes up to 6 (7)', self.run_tree),
                Family('contents', contents, 'all pairs of %d texts and values that could be taken for one another, or for something else than text' % len(gen.CONTENTS), self.run_tree),
                Family('values', values, 'all strings of up to 3 of 19 pieces as text and attribute value', self.run_value),
                Family('code points', codepoints, 'every character of XML but CR, as text and in an attribute value', self.run_codepoints),
                Family('scale', scale, 'up to 20000 elements, attributes, characters; depth 150', self.run_scale)]

    def outputs(self, calls):
        from amara3.uxml import writer
        fp = Plain()
        perform(writer.raw(fp), calls)
        yield 'raw', fp.getvalue()
        fp = Plain()
        perform(writer.raw(fp, whandler=writer.raw), calls)
        yield 'raw with handler', fp.getvalue()

    def recorded(self, calls):
        """The pieces that a handler of the caller gets, with their contexts"""
        from amara3.uxml import writer
        pieces = []
        class Recorder:
            def __init__(self, fp):
                pass
            def write(self, ctx, text):
                pieces.append((ctx, text))
        fp = Plain()
        perform(writer.raw(fp, whandler=Recorder), calls)
        return pieces, fp.getvalue()

    def check_handler(self, calls, document):
        from amara3.uxml import writer
        C = writer.context
        pieces, direct = self.recorded(calls)
        if direct:
            return 'writes %r itself, although there is a handler' % direct
        joined = ''.join(writer.TOKENS[x] if isinstance(x, writer.token) else xml_escape(x) if c == C.text else x for c, x in pieces)
        if joined != document:
            return 'the handler gets %r, which makes %r instead of %r' % (pieces, joined, document)
        names, attrs, texts = [], [], []
        def walk(n):
            names.append(n[0])
            attrs.extend(k for k, v in n[1])
            for c in n[2]:
                if isinstance(c, str):
                    texts.append(c)
                else:
                    walk(c)
        walk(result(calls))
        started = [x for i, (c, x) in enumerate(pieces) if c == C.element_name and i and pieces[i - 1] == (C.start_element, writer.token.start_open)]
        if started != names or [x for c, x in pieces if c == C.attribute_name] != attrs or ''.join(x for c, x in pieces if c == C.text) != ''.join(texts):
            return 'the handler gets %r' % pieces

    def run_calls(self, case, st):
        want = result(case[0])
        for what, out in self.outputs(case[0]):
            st.step(len(case[0]))
            st.trace()
            verdict, got = refet.parse(out)
            if verdict != 'yes':
                return '%s: %r gives %r, which is not well-formed' % (what, case[0], out)
            if got != want:
                return '%s: %r gives %r, which reads as %r instead of %r' % (what, case[0], out, got, want)
            if what == 'raw':
                msg = self.check_handler(case[0], out)
                if msg:
                    return '%r: %s' % (case[0], msg)
        st.state(str(case[0]))

    def run_tree(self, case, st):
        from amara3.uxml import writer
        t = tup(case[0])
        e = build(t)
        before = canon_tree(e)
        fp = Plain()
        writer.write(e, writer.raw(fp))
        verdict, got = refet.parse(fp.getvalue())
        st.step()
        st.trace()
        st.state(t)
        if verdict != 'yes' or got != merged(t):
            return '%r is written as %r' % (t, fp.getvalue())
        if refet.parse(e.xml_encode()) != (verdict, got):
            return '%r is written as %r, but encoded as %r' % (t, fp.getvalue(), e.xml_encode())
        if canon_tree(e) != before:
            return 'writing changes the tree'

    def value(self, v):
        from amara3.uxml import writer
        fp = Plain()
        w = writer.raw(fp)
        w.start_element('a', {'k': v})
        w.text(v)
        w.start_element('b', attribs={'k': v, 'l': v}, empty=True)
        w.text(v)
        w.end_element('a')
        verdict, got = refet.parse(fp.getvalue())
        want = ('a', (('k', v),), merge((v, ('b', (('k', v), ('l', v)), ()), v)))
        if verdict != 'yes' or got != want:
            return '%r is written as %r, which reads as %r' % (v[:100], fp.getvalue()[:400], repr(got)[:400])

    def run_value(self, case, st):
        st.step()
        st.trace()
        st.state(case[0])
        return self.value(case[0])

    def run_codepoints(self, case, st):
        for c in range(case[0], case[0] + 0x200):
            if c in (9, 10) or 0x20 <= c < 0xd800 or 0xe000 <= c < 0xfffe or c >= 0x10000:
                st.step()
                st.distinct(1)
                msg = self.value(chr(c))
                if msg:
                    return msg
        st.trace()

    def run_scale(self, case, st):
        kind, k = case
        calls = [['s', 'r', []]]
        if kind == 'wide':
            calls += [['s', 'b', [['i', '1']]], ['t', 'x'], ['e'], ['v', 'c', []]] * k
        elif kind == 'bushy':
            def rec(t):
                for c in t[2]:
                    if isinstance(c, str):
                        yield ['t', c]
                    elif c[2]:
                        yield ['s', c[0], [list(x) for x in c[1]]]
                        yield from rec(c)
                        yield ['e']
                    else:
                        yield ['v', c[0], [list(x) for x in c[1]]]
            calls += rec(gen.bushy(min(k, 3000)))
        elif kind == 'text':
            calls += [['t', '<x>'], ['t', ''], ['t', 'y']] * k
        elif kind == 'attrs':
            calls += [['v', 'b', [['a%d' % i, str(i)] for i in range(k)]]]
        elif kind == 'value':
            calls += [['v', 'b', [['a', '&\n' * k]]], ['t', '&\n' * k]]
        else:
            k = min(k, 150)
            calls += [['s', 'b', []], ['t', 'x']] * k + [['e'], ['t', 'y']] * k
        return self.run_calls([calls + [['e']]], st)


def ns_events(doc):
    """What a namespace-aware reader sees: names as (namespace, local), attributes sorted, text merged; and the
    elements (by ordinal) that hold declarations"""
    p = xml.parsers.expat.ParserCreate(namespace_separator='}')
    out, decls, count, pending = [], [], [0], []
    def name(n):
        ns, _, local = n.rpartition('}')
        return (ns, local)
    def start(n, attrs):
        count[0] += 1
        out.append(('s', name(n), tuple((name(attrs[i]), attrs[i + 1]) for i in range(0, len(attrs), 2))))
    def data(d):
        if out and out[-1][0] == 'c':
            out[-1] = ('c', out[-1][1] + d)
        else:
            out.append(('c', d))
    p.ordered_attributes = True
    p.StartElementHandler = start
    p.EndElementHandler = lambda n: out.append(('e', name(n)))
    p.CharacterDataHandler = data
    p.StartNamespaceDeclHandler = lambda prefix, uri: decls.append((count[0] + 1, prefix or '', uri or ''))
    p.Parse(doc, True)
    return out, decls


class W02(Check):
    id = 'W02'
    assumptions = ('Reference: expat with namespaces reads the output.',
                   'Prefixes used in the mapping are declared; the default namespace is not used for mapped attributes; names are without colons.')

    PREFIXES = [{}, {'': 'urn:d'}, {'p': 'urn:p'}, {'': 'urn:d', 'p': 'urn:p'}, {'p': 'urn:p', 'q': 'urn:q?a=1&b="<\'', 'r': 'urn:p'}]
    EL = [None, '', 'p', 'q']
    AT = [None, '', 'p', 'q']

    def families(self, tier):
        q = tier == 'quick'
        # Also attributes with the same name as an element, and the other way round
        opens = [['s', 'a', []], ['s', 'b', [['x', '1']]], ['s', 'a', [['y', NASTY], ['x', 'a'], ['a', '@x'], ['b', '']]], ['s', 'x', [['x', 'x']]], ['t', 'a'], ['t', '<']]
        def calls():
            hs = list(histories(2 if q else 3, opens)) + list(histories(3 if q else 4, opens[:3] + opens[4:5]))
            for i, prefixes in enumerate(self.PREFIXES):
                for a, b, x in itertools.product(self.EL, self.EL, self.AT):
                    if all(v in (None, '') or v in prefixes for v in (a, b, x)):
                        for h in hs:
                            yield [h, i, [a, b, x]]
        def trees():
            for i, prefixes in enumerate(self.PREFIXES):
                for a, b, x in itertools.product(self.EL, self.EL, self.AT):
                    if all(v in (None, '') or v in prefixes for v in (a, b, x)):
                        for t in gen.trees(2, ('a', 'b'), ('', 'b', '@x')):
                            for u in gen.with_attrs(t, [(), (('x', 'a'),)]):
                                yield [u, i, [a, b, x]]
        def portfolio():
            # documents where every local name always has the same namespace, with the declarations on the document element
            for i, prefixes in enumerate(self.PREFIXES[:4] + [{'p': 'urn:p', 'q': 'urn:q'}, {'': 'urn:d', 'p': 'urn:p', 'q': 'urn:q'}]):
                for a, b, x in itertools.product(['', 'p', 'q'], repeat=3):
                    if all(v == '' or v in prefixes for v in (a, b, x)):
                        for t in gen.trees(3, ('a', 'b'), ('', 'x') if not q else ('',)):
                            for u in gen.with_attrs(t, [(), (('x', '1'),)]):
                                yield [u, sorted(prefixes.items()), [a, b, x]]
        def scale():
            for k in gen.sizes():
                for kind in ('prefixes', 'same', 'names', 'wide', 'bushy', 'attributes', 'deep', 'values'):
                    if kind != 'deep' or k < 130:
                        yield [kind, k]
        def confusable():
            for m, n in gen.confusable_xml():
                for names in itertools.product((None, m, n), repeat=4):
                    yield [m, n, names]
        def namespaces():
            for u, v in itertools.permutations(gen.NAMESPACES, 2):
                for names in itertools.product(('', 'p', 'q'), repeat=2):
                    yield [u, v, names]
        def contents():
            for i, (a, b) in enumerate(gen.contents()):
                names = [(x, y, z) for x in ('', 'p', 'q') for y in ('', 'p', 'q') for z in ('', 'p', 'q')]
                for k in (i, i + 5) if q else range(i, i + 27, 3):
                    yield [a, b, names[k % 27]]
        return [Family('contents', contents, 'all pairs of %d texts and values that could be taken for one another, or for something else than text, with mappings of 3 names' % len(gen.CONTENTS), self.run_contents),
                Family('namespaces', namespaces, 'all pairs of %d names of namespaces that could be taken apart or for one another, written from a mapping and from what ns_expat_callbacks found' % len(gen.NAMESPACES), self.run_namespaces),
                Family('confusable', confusable, 'pairs of names that are easily taken for one another, as names of elements and attributes and as prefixes, all mappings', self.run_confusable),
                Family('scale', scale, 'up to 1025 prefixes, mapped names, elements, attributes, characters; depth up to 129', self.run_scale),
                Family('calls', calls, 'all balanced histories of up to 3 (4) calls within the document element, 5 sets of prefixes, all mappings of 2 element names and 1 attribute name', self.run_calls),
                Family('trees', trees, 'writer.write of all trees of up to 2 elements with attributes, all mappings', self.run_calls),
                Family('portfolio', portfolio, 'XML documents of up to 3 elements read with ns_expat_callbacks and written with the prefixes and mapping it found', self.run_portfolio)]

    def run_scale(self, case, st):
        from amara3.uxml import writer
        kind, k = case
        st.state((kind, k))
        prefixes = {'p%d' % i: 'urn:%d&' % i for i in range(k)} if kind == 'prefixes' else {'p%d' % i: 'urn:%d' % (i * 7 % 11 % 6) for i in range(k + 1)} if kind == 'same' else {'p' * min(k, 300): 'urn:' + 'p' * k, 'q': 'urn:q'} if kind == 'values' else {'p0': 'urn:0&', 'q': 'urn:q'}
        if kind == 'names':
            mapping = {'n%d' % i: (prefixes['p0'], 'p0') for i in range(0, k, 2)}
            mapping.update({'@n%d' % i: (prefixes['q'], 'q') for i in range(0, k, 3)})
            t = ('r', (), tuple(('n%d' % i, (('n%d' % i, 'v'),), ()) for i in range(k)))
        else:
            last = list(prefixes)[-1]
            mapping = {'b': (prefixes[last], last), '@x': (prefixes['p0'], 'p0') if kind == 'same' else (prefixes[last], last), '@k%d' % (k - 1): (prefixes['q'], 'q') if 'q' in prefixes else (prefixes[last], last)}
            if kind == 'deep':
                t = ('b', (('x', '0'),), ())
                for i in range(k):
                    t = ('ab'[i % 2], (('x', str(i)), ('y', '')), (t,))
            elif kind == 'bushy':
                t = gen.bushy(k)
            elif kind == 'attributes':
                t = ('a', tuple(('k%d' % i, str(i)) for i in range(k)), (('b', tuple(('k%d' % i, str(i)) for i in range(k)), ()),))
            elif kind == 'values':
                t = ('a', (('x', '&' * k),), (('b', (('x' * min(k, 300), 'v'),), ('<' * k,)), ('c' * k, (), ())))
            else:
                t = ('a', (), tuple(('ab'[i % 2], (('x', str(i)),), ('t%d' % i,)) for i in range(k)))
        return self.through('%s %d' % (kind, k), t, prefixes, mapping, st)

    def run_namespaces(self, case, st):
        u, v, names = case
        t = ('a', (('x', '1'),), (('b', (('x', u),), ()), ('a', (), (v,)), ('b', (), ())))
        prefixes = {'p': u, 'q': v}
        mapping = {k: (prefixes[p], p) for k, p in (('a', names[0]), ('b', names[1]), ('@x', 'pq'[len(u) % 2])) if p}
        msg = self.through(repr(case), t, prefixes, mapping, st)
        if msg:
            return msg
        return self.run_portfolio([t, [['', u], ['p', v], ['q', u]] if 'q' in names else [['p', u], ['q', v]], [names[0], names[1], 'pq'[len(v) % 2]]], st)

    def run_contents(self, case, st):
        a, b, names = case
        prefixes = {'p': 'urn:p', 'q': 'urn:q'}
        mapping = {k: (prefixes[p], p) for k, p in zip(('a', 'b', '@x'), names) if p}
        st.state(str(case))
        return self.through(repr(case), merged(gen.content_tree(a, b)), prefixes, mapping, st)

    def run_confusable(self, case, st):
        m, n, names = case
        prefixes = {m: 'urn:' + m, n: 'urn:' + n}
        mapping = {k: (prefixes[p], p) for k, p in zip((m, n, '@' + m, '@' + n), names) if p is not None}
        st.state(str(case))
        return self.through(repr(case), merged(gen.confusable_tree(m, n)), prefixes, mapping, st)

    def through(self, label, t, prefixes, mapping, st):
        from amara3.uxml import writer
        fp = Plain()
        writer.write(build(t), writer.namespacer(fp, prefixes=dict(prefixes), mapping=dict(mapping)))
        st.step()
        want = []
        def rec(n):
            if isinstance(n, str):
                want.append(('c', n))
                return
            name = (mapping.get(n[0], ('', ''))[0], n[0])
            want.append(('s', name, tuple(((mapping.get('@' + a, ('', ''))[0], a), v) for a, v in n[1])))
            for c in n[2]:
                rec(c)
            want.append(('e', name))
        rec(t)
        try:
            got, decls = ns_events(fp.getvalue())
        except xml.parsers.expat.ExpatError as e:
            return '%s: %s' % (label, e)
        if got != want:
            at = next((i for i, (x, y) in enumerate(zip(got, want)) if x != y), min(len(got), len(want)))
            return '%s: event %d is %s instead of %s' % (label, at, repr(got[at:at + 1])[:300], repr(want[at:at + 1])[:300])
        if sorted(decls) != sorted((1, p, u) for p, u in prefixes.items()):
            return '%s: the declarations are %s' % (label, repr(decls)[:500])
        st.trace()

    def mapping(self, prefixes, names):
        m = {}
        for key, p in zip(('a', 'b', '@x'), names):
            if p is not None:
                m[key] = (prefixes.get(p, ''), p)
        return m

    def expected(self, t, prefixes, names):
        el = {'a': names[0] or '', 'b': names[1] or ''}
        at = {'x': names[2] or ''}
        out = []
        def rec(n):
            if isinstance(n, str):
                out.append(('c', n))
                return
            name = (prefixes.get(el.get(n[0], ''), ''), n[0])
            out.append(('s', name, tuple(((prefixes[at[k]] if at.get(k) else '', k), v) for k, v in n[1])))
            for c in n[2]:
                rec(c)
            out.append(('e', name))
        rec(t)
        return out

    def run_calls(self, case, st):
        from amara3.uxml import writer
        calls, i, names = case
        prefixes = self.PREFIXES[i]
        mapping = self.mapping(prefixes, names)
        fp = Plain()
        kw = {}
        if prefixes:
            kw['prefixes'] = dict(prefixes)
        if mapping:
            kw['mapping'] = dict(mapping)
        w = writer.namespacer(fp, **kw)
        if isinstance(calls[0], list):
            perform(w, calls)
            t = result(calls)
        else:
            t = merged(tup(calls))
            writer.write(build(t), w)
        st.step(len(calls))
        st.trace()
        st.state((str(calls), i, str(names)))
        out = fp.getvalue()
        try:
            got, decls = ns_events(out)
        except xml.parsers.expat.ExpatError as e:
            return '%r with %r, %r gives %r: %s' % (calls, prefixes, mapping, out, e)
        want = self.expected(t, prefixes, names)
        if got != want:
            return '%r with %r, %r gives %r, which reads as %r instead of %r' % (calls, prefixes, mapping, out, got, want)
        if sorted(decls) != sorted((1, p, u) for p, u in prefixes.items()):
            return '%r with %r, %r gives %r, with the declarations %r' % (calls, prefixes, mapping, out, decls)

    def run_portfolio(self, case, st):
        from amara3.uxml import writer, xml as uxml_xml, tree
        t, prefixes, names = case
        t, prefixes = tup(t), dict(map(tuple, prefixes))
        el, at = {'a': names[0], 'b': names[1]}, {'x': names[2]}
        def q(prefix, n):
            return prefix + ':' + n if prefix else n
        def rename(n, top=True):
            if isinstance(n, str):
                return n
            decl = tuple(('xmlns:' + p if p else 'xmlns', u) for p, u in prefixes.items()) if top else ()
            return (q(el[n[0]], n[0]), decl + tuple((q(at[k], k), v) for k, v in n[1]), tuple(rename(c, False) for c in n[2]))
        doc = markup(rename(t))
        want, decls = ns_events(doc)
        events = []
        def collect():
            while True:
                events.append((yield))
        cb = uxml_xml.ns_expat_callbacks(collect())
        p = xml.parsers.expat.ParserCreate(namespace_separator=' ')
        p.StartElementHandler, p.EndElementHandler, p.CharacterDataHandler = cb.start_element, cb.end_element, cb.char_data
        p.StartNamespaceDeclHandler, p.EndNamespaceDeclHandler = cb.start_namespace, cb.end_namespace
        p.Parse(doc, True)
        e = uxml_xml.treebuilder().parse(doc)
        fp = Plain()
        writer.write(e, writer.namespacer(fp, prefixes=cb.prefixes, mapping=cb.ns_portfolio))
        st.step(len(events))
        st.trace()
        st.state((t, str(sorted(prefixes)), str(names)))
        try:
            got, gdecls = ns_events(fp.getvalue())
        except xml.parsers.expat.ExpatError as ex:
            return '%r is written back as %r: %s' % (doc, fp.getvalue(), ex)
        if got != want or sorted(gdecls) != sorted(decls):
            return '%r is written back as %r (prefixes %r, mapping %r)' % (doc, fp.getvalue(), cb.prefixes, cb.ns_portfolio)


def spaced(old, new, indent=None):
    """None, or where new differs from old in more than added white space (line breaks, and this indent)"""
    made = lambda s: indent is None or not s.replace(indent, '').strip('\n')
    if (old[0], old[1]) != (new[0], new[1]):
        return '%r became %r' % (old[:2], new[:2])
    def gaps(t):
        texts, elems = [''], []
        for c in merge(t[2]):
            if isinstance(c, str):
                texts[-1] += c
            else:
                elems.append(c)
                texts.append('')
        return texts, elems
    ot, oe = gaps(old)
    nt, ne = gaps(new)
    if len(oe) != len(ne):
        return '<%s> has %d child elements instead of %d' % (old[0], len(ne), len(oe))
    for i, (o, n) in enumerate(zip(ot, nt)):
        at = n.find(o.strip() and o) if o.strip() else 0
        if at < 0 or (n[:at] + n[at + len(o):] if o.strip() else n).strip():
            return 'text %d of <%s> is %r instead of %r' % (i, old[0], n, o)
        if not o.strip() and len(n) < len(o):
            return 'text %d of <%s> is %r instead of %r' % (i, old[0], n, o)
        if not any(n.startswith(o, k) and made(n[:k]) and made(n[k + len(o):]) for k in range(len(n) - len(o) + 1)):
            return 'text %d of <%s> is %r instead of %r, with other white space than %r' % (i, old[0], n, o, indent)
    for o, n in zip(oe, ne):
        msg = spaced(o, n, indent)
        if msg:
            return msg


class W03(Check):
    id = 'W03'
    assumptions = ('Reference: ElementTree (expat) reads the output. The indent is white space.',)
    INDENTS = [' ', '\t', '   ', '\n']

    def families(self, tier):
        q = tier == 'quick'
        def trees():
            for t in gen.trees(3, ('a', 'b'), ('', 'a', ' ', '\n<&', 'y \n')):
                yield [t, 1]
            for t in gen.trees(4, ('a',), ('', 'x'), 4):
                yield [t, 0]
            for m, n in gen.confusable_xml():
                yield [gen.confusable_tree(m, n), 1]
            for a, b in gen.contents():
                yield [gen.content_tree(a, b), 2]
            for t in gen.elements_only(7 if q else 8, ('a',)):
                yield [t, 2]
            for t in gen.trees(2, ('a', 'b'), ('', 'x')):
                for u in gen.with_attrs(t, [tup(a) for a in ATTRS]):
                    yield [u, 2]
            if not q:
                for t in gen.trees(4, ('a',), ('', 'x', ' '), 4):
                    yield [t, 0]
                for t in gen.trees(5, ('a',), ('', 'x'), 5):
                    yield [t, 0]
        opens = [['s', 'a', []], ['s', 'b', ATTRS[1]], ['v', 'c', []], ['t', 'x'], ['t', ' '], ['t', '\ty\n\n']]
        def calls():
            for h in histories(5 if q else 6, opens):
                yield [h]
        def scale():
            for k in gen.sizes():
                for gap in ('', 'x'):
                    yield [('a', (), ((gap,) if gap else ()) + (('b', (('i', '1'),), ('y',)), *([gap] if gap else [])) * k), 0]
                yield [gen.bushy(k), 0]
                yield [('a', (('k', '\n&' * k),), ('x ' * k, ('b', (), (' ' * k,)), ('b', tuple(('k%d' % i, '') for i in range(k)), (('c', (), ()), 'y' + ' ' * k)))), 0]
                if k < 130:
                    t = ('a', (), ('x',))
                    for i in range(k):
                        t = ('ab'[i % 2], (), (t, ('b', (), ())) if i % 3 else (t, 'y'))
                    yield [t, 1]
        def longs():
            for t in gen.long_trees(not q):
                yield [t, 1]
        return [Family('scale', scale, 'up to 1025 children, attributes, characters; depth up to 129', self.run_tree),
                Family('long', longs, 'texts and values of up to 70000 characters: all sequences of up to 2 (3) of %d characters over and over, with 8 others in the middle' % len(gen.LONG), self.run_tree),
                Family('trees', trees, 'all trees of up to 3 elements (2 names, 4 texts), 4 (2 texts; 3), shapes up to 7 (8), pairs of texts that could be taken for one another, written and encoded', self.run_tree),
                Family('calls', calls, 'all balanced histories of up to 5 (6) calls: 2 starts, empty element, 2 texts', self.run_calls)]

    def judge(self, what, t, out, indent):
        verdict, got = refet.parse(out)
        if verdict != 'yes':
            return '%s: %r is written as %r, which is not well-formed' % (what, t, out)
        msg = spaced(merged(t), got, indent)
        if msg:
            return '%s: %r is written as %r: %s' % (what, t, out, msg)

    def run_tree(self, case, st):
        from amara3.uxml import writer
        t, level = tup(case)
        for indent in self.INDENTS if level == 2 else self.INDENTS[:1]:
            for depth in (0, 2) if level else (0,):
                e = build(t)
                fp = Plain()
                writer.write(e, writer.raw(fp, indent=indent, depth=depth))
                st.step()
                msg = self.judge('raw(indent=%r, depth=%d)' % (indent, depth), t, fp.getvalue(), indent)
                if msg:
                    return msg
                msg = self.judge('xml_encode(%r, %d)' % (indent, depth), t, e.xml_encode(indent, depth) if depth else e.xml_encode(indent=indent), indent)
                if msg:
                    return msg
                if canon_tree(e) != t:
                    return 'the tree has changed'
        st.trace()
        st.state(t)

    def run_calls(self, case, st):
        from amara3.uxml import writer
        t = result(case[0])
        fp = Plain()
        perform(writer.raw(fp, indent='  '), case[0])
        st.step(len(case[0]))
        st.trace()
        st.state(str(case[0]))
        return self.judge('raw(indent)', t, fp.getvalue(), '  ')


CHECKS = {c.id: c for c in (W01, W02, W03)}
