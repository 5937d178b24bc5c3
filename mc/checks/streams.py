"""I01-I04: streaming of subtrees that match patterns"""
import gc, io, itertools, weakref
from .. import gen, refet, refxml, refpat
from ..core import Check, Family
from ..observe import canon_tree, markup, tup, BadTree, build, merged

STAGES = ['a', 'b', '*', '**', ['a', 'b']]


def sink_to(acc, tag=None):
    while True:
        e = yield
        acc.append((tag, canon_tree(e)) if tag is not None else canon_tree(e))


class ObjectSink:
    """Not a coroutine, but has send()"""
    def __init__(self, acc):
        self.acc = acc

    def send(self, e):
        self.acc.append(canon_tree(e))


def draining(acc, tag):
    """Takes what it gets apart"""
    while True:
        e = yield
        acc.append((tag, canon_tree(e)))
        stack = [e]
        while stack:
            x = stack.pop()
            stack.extend(c for c in x.xml_children if hasattr(c, 'xml_attributes'))
            x.xml_attributes.clear()
            x.xml_attributes['gone'] = '1'
            x.xml_children.clear()
            x.xml_name = 'gone'


def pattern_arg(p):
    """How a pattern has to be passed: one that starts with a tuple only in a list"""
    return p if isinstance(p[0], str) else [p]


def doc_of(t):
    return markup(t)


class Names(str):
    """A name that is also equal to the tests which the element passes"""
    def __new__(cls, name, tests):
        self = super().__new__(cls, name)
        self.tests = tests
        return self

    def __eq__(self, other):
        return other in self.tests or str.__eq__(self, other)

    def __ne__(self, other):
        return not self == other

    __hash__ = str.__hash__


def with_tests(t):
    """t, numbered, with names that are equal to the tests passed"""
    if isinstance(t, str):
        return t
    i = int(dict(t[1])['i'])
    return (Names(t[0], [x for x, ok in (('#even', i % 2 == 0), ('#last', i == 4)) if ok]), t[1], tuple(map(with_tests, t[2])))


def plain(t):
    return t if isinstance(t, str) else (str.__str__(t[0]) + '', t[1], tuple(map(plain, t[2])))


class I01(Check):
    id = 'I01'
    assumptions = ('Reference: declarative matcher mc/refpat.py over the paths of a tree.',
                   'Patterns that end in "**" are not covered.')

    def families(self, tier):
        n = 5 if tier == 'quick' else 6
        pats = list(refpat.patterns(STAGES, 3))
        longer = [p for p in refpat.patterns(['a', 'b', '*', '**'], 4 if tier == 'quick' else 5) if len(p) > 3]
        def shapes():
            for t in gen.elements_only(n, ('a', 'b')):
                for p in pats:
                    yield [t, p, 0]
        def long_patterns():
            for t in gen.elements_only(4, ('a', 'b')):
                for p in longer:
                    yield [t, p, 0]
        def names():
            alts = [['a'], ['a', 'b'], ['c', 'ab'], ['b', 'c', 'a']]
            for t in gen.elements_only(3, ('a', 'b', 'ab', 'c')):
                for p in refpat.patterns(['a', 'ab', '*', '**'] + alts, 2):
                    yield [t, p, 0]
        def confusable():
            for m, n in gen.confusable():
                for p in refpat.patterns([m, '**', [m], [m, 'x'], [n + 'x', m]], 2):
                    yield [gen.confusable_tree(m, n), p, 1]
        def contents():
            ps = [('a',), ('a', 'b'), ('**', 'b'), ('*', 'c'), ('a', ('b', 'c')), ('**', 'b', '*')]
            for i, (a, b) in enumerate(gen.contents()):
                for p in ps if tier != 'quick' else ps[i % 2::2]:
                    yield [gen.content_tree(a, b), p, 1]
        def longs():
            for i, t in enumerate(gen.long_trees(tier != 'quick')):
                yield [t, (('a',), ('a', 'b'), ('**', 'b'))[i % 3], 1]
        def characters():
            for i, t in enumerate(gen.character_trees(tier != 'quick')):
                yield [t, (('a',), ('a', 'b'), ('**', 'b'))[i % 3], 1]
        def steps():
            for t, ps in gen.long_patterns():
                for p in ps:
                    yield [t, p, 0]
        def joints():
            for t, a, b in gen.joints():
                for p in gen.joint_patterns(a, b):
                    yield [t, p, 1]
        def tests():
            # functions of the event as alternatives
            for t in gen.elements_only(4, ('a', 'b')):
                for p in refpat.patterns(['a', '**', ['b', '#even'], ['#even', 'b'], ['#last', '#even', 'x']], 3):
                    if any('#even' in s for s in p):
                        yield [t, p, 4]
        def chains():
            for k in range(5, 11 if tier == 'quick' else 13):
                for ns in itertools.product('ab', repeat=k):
                    t = None
                    for x in ns:
                        t = (x, (), () if t is None else (t,))
                    for p in (('**', 'a', 'b'), ('**', 'a', '**', 'b'), ('*', '**', 'a', '*', 'b'), ('**', 'a', 'a', 'b'), ('**', '*', '*', 'a'),
                              ('a', '**', 'b', '**', 'a'), ('**', ['a', 'b'], 'a', 'b'), ('**', 'a', '*', 'a', 'b'), ('**', '**', 'a', 'a')):
                        yield [t, p, 0]
        def content():
            sets = [(), (('x', '1'),), (('y', '&<"'), ('x', ''))]
            for t in gen.trees(3, ('a', 'b'), ('', 'x', '<\n>')):
                for p in (('a',), ('*',), ('*', '*'), ('**', 'b'), ('a', 'b'), ('*', '**', ('a', 'b'))):
                    yield [t, p, 1]
            for t in gen.trees(2, ('a', 'b'), ('', 'x')):
                for u in gen.with_attrs(t, sets):
                    for p in (('a',), ('*',), ('*', '*'), ('**', 'b')):
                        yield [u, p, 1]
        def scale():
            for k in gen.sizes(3000):
                for p in (('a', 'b'), ('**', 'b'), ('a',), ('**', 'c'), ('a', '*', 'c'), ('**', 'b', '*')):
                    yield [k, p, 2]
                for p in (('r', 'a'), ('**', 'b'), ('r', '*', 'b'), ('**', 'a', '**', 'b'), ('r', ('a', 'b'), '*')):
                    yield [k, p, 5]
            for k in gen.sizes(60, 120, most=129):
                for p in (('**', 'b'), ('**', 'a', '**', 'b'), ('**', 'a', 'a', 'b'), ('a',)):
                    yield [k, p, 3]
        return [Family('trees', shapes, 'all trees of up to %d elements, 2 names; all %d patterns of up to 3 of 5 stages' % (n, len(pats))),
                Family('long-patterns', long_patterns, 'trees of up to 4 elements, %d patterns of 4 (5) stages' % len(longer)),
                Family('confusable', confusable, 'all ordered pairs of %d groups of names that are easily taken for one another, patterns of up to 2 of 5 stages' % len(gen.CONFUSABLE)),
                Family('contents', contents, 'all pairs of %d texts and values that could be taken for one another, or for something else than text: 6 patterns' % len(gen.CONTENTS)),
                Family('characters', characters, 'every character of the BMP and at the ends of each plane (thorough: all), alone and at both ends of texts and values'),
                Family('long', longs, 'texts and values of up to 70000 characters: all sequences of up to 2 (3) of %d characters over and over, with 8 others in the middle' % len(gen.LONG)),
                Family('steps', steps, 'chains of up to 129 elements, patterns of as many stages: names, or a wildcard, "**", tuple or other name at one place'),
                Family('joints', joints, '%d pairs of paths whose names give the same when put together, 20 patterns' % len(gen.JOINTS)),
                Family('tests', tests, 'trees of up to 4 elements, patterns of up to 3 of 5 stages, with functions as alternatives that give any true or false value'),
                Family('chains', chains, 'all chains of 5 to 10 (12) elements with 2 names, 9 patterns with "**"'),
                Family('names', names, 'trees of up to 3 elements, 4 names; all patterns of up to 2 of 8 stages'),
                Family('content', content, 'trees of up to 3 elements with text in all places, with attributes'),
                Family('scale', scale, 'width up to 3000, depth up to 120')]

    def run(self, fam, case, st):
        from amara3.uxml import treeiter
        t, p, kind = tup(case)
        arg_p = p
        if kind == 0 or kind == 4:
            t = refpat.numbered(t)
        if kind == 4:
            # any true or false values
            def even(ev):
                return ev[0].name == 'start_element' and refpat.ANSWERS[int(ev[2]['i']) % 2 == 0][(int(ev[2]['i']) + len(p)) % 5]
            def last(ev):
                return ev[0].name == 'start_element' and refpat.ANSWERS[ev[2]['i'] == '4'][int(ev[2]['i']) % 5]
            arg_p = tuple(s if isinstance(s, str) else tuple({'#even': even, '#last': last}.get(x, x) for x in s) for s in p)
            t = with_tests(t)
        elif kind == 2:
            t = ('a', (), tuple(('b', (('i', str(i)),), ('x', ('c', (), (str(i),)), 'y')) for i in range(t)))
        elif kind == 5:
            t = gen.bushy(t)
        elif kind == 3:
            k, t = t, ('b', (), ('x',))
            for i in range(k):
                t = ('a', (('i', str(i)),), ('p', t, ('b', (), ()), 'q'))
        elif fam == 'content':
            t = merged(t)
        if kind == 4:
            want = [plain(x) for x in refpat.outermost(p, t)]
            t = plain(t)
        else:
            want = list(refpat.outermost(p, t))
        doc = doc_of(t)
        st.state((doc, p))
        st.outcome('%s subtrees' % (len(want) if len(want) < 4 else 'more'))
        forms = [(pattern_arg(arg_p), 'sink'), ([arg_p], 'list')]
        if fam != 'trees':
            forms += [([arg_p], 'object'), (pattern_arg(arg_p), 'primed')]
        for arg, form in forms:
            acc = []
            if form == 'object':
                s = treeiter.sender(arg, ObjectSink(acc))
            elif form == 'primed':
                sink = sink_to(acc)
                next(sink)
                s = treeiter.sender(arg, sink, prime_sinks=False)
            else:
                sink = sink_to(acc)
                s = treeiter.sender(arg, sink if form == 'sink' else [sink])
            s.parse(doc)
            st.step()
            if acc != want:
                return '%r in %r (%s) delivers %s instead of %s' % (p, doc[:500], form, repr(acc)[:700], repr(want)[:700])
        st.trace()


class I02(Check):
    id = 'I02'
    assumptions = ('Reference: declarative matcher for each pattern alone.',)

    def families(self, tier):
        q = tier == 'quick'
        pats = list(refpat.patterns(STAGES, 2))
        few = [('a',), ('b',), ('*', 'a'), ('*', '*'), ('**', 'b'), ('a', '**', 'a'), ('a', 'b')]
        trees = list(gen.elements_only(4, ('a', 'b')))
        def pairs():
            for t in trees:
                for p in itertools.product(pats, repeat=2):
                    yield [[t], p, 'each']
        def more():
            for t in trees if not q else list(gen.elements_only(3, ('a', 'b'))) + trees[-80::3]:
                for p in itertools.product(few, repeat=3):
                    yield [[t], p, 'each']
            if not q:
                for t in trees[:60]:
                    for p in itertools.product(few, repeat=4):
                        yield [[t], p, 'each']
        def shared():
            for t in trees:
                for p in itertools.product(few, repeat=2):
                    yield [[t], p, 'shared']
            for t in trees[:22] + trees[22::7]:
                for p in itertools.product(few, repeat=3):
                    yield [[t], p, 'shared']
                    yield [[t], p, 'half']
                    yield [[t], p, 'draining']
                    if len(t[2]) < 2 or not q:
                        yield [[t], p + p[:2], 'draining']
        def draining_sinks():
            for t in trees:
                for p in itertools.product(few, repeat=2):
                    yield [[t], p, 'draining']
        def reuse():
            small = list(gen.elements_only(3, ('a', 'b')))
            bad = ['<a>', '<a><b>', '<a><b></b>', '<a><b></a>', '', '<a></a><b>', 'x', '<a><b>t</b><b>']
            for p in [(x,) for x in few] + list(itertools.combinations(few, 2)):
                for d in itertools.product(small[::2], repeat=2):
                    yield [list(d), p, 'each']
                for x in bad:
                    for d in small[::3]:
                        yield [[x, d], p, 'each']
                    for y in bad:
                        yield [[x, y, small[-1]], p, 'each']
                yield [small, p, 'each']
        def scale():
            doc = ('a', (), (('b', (), (('a', (), ()), ('c', (), ()))), ('c', (), (('b', (), ()),)), ('a', (), (('b', (), ()), ('b', (), ()))), ('b', (), ())))
            ps = [('a', 'b'), ('a', '*', 'b'), ('**', 'c'), ('a', 'c'), ('*', 'a'), ('a', 'b', '*'), ('x',), ('**', 'b')]
            for k in gen.sizes(most=257):
                yield [[doc], [ps[i % len(ps)] for i in range(k)], 'each']
                yield [[doc], [ps[i // 2 % len(ps)] for i in range(k)], 'draining']
                yield [[doc], [ps[1]] * k, 'draining']
                yield [[doc], [ps[i % len(ps)] for i in range(k)][::-1], 'half']
                wide = ('a', (), tuple(('abc'[i % 3], (), (('b', (), ()),) if i % 4 == 0 else ()) for i in range(k)))
                yield [[wide], ps[:5], 'each']
                if k < 40:
                    yield [[doc, '<a><b>', wide] * k, ps[:4], 'each']
        def confusable():
            for m, n in gen.confusable():
                t = gen.confusable_tree(m, n)
                for p in (((m,), (n,)), ((m, n), (m, m)), (('**', n), ('**', m)), ((m, n, m), (m, m, n)), ((m, '*', n), (m, '*', m), (n, '*', m)), (((m, n), n), (m, (n, m)))):
                    for mode in ('each', 'half'):
                        yield [[t], [x if isinstance(x[0], str) else ('**',) + x for x in p], mode]
        def joints():
            for t, a, b in gen.joints():
                ps = gen.joint_patterns(a, b)
                for p in itertools.combinations(ps, 2):
                    yield [[t], p, 'each']
                yield [[t], ps, 'half']
        def contents():
            for i, (a, b) in enumerate(gen.contents()):
                ps = (('a', 'b'), ('a', 'c'), ('**', 'c'), ('**', 'b'), ('a',))
                for n in (2, 3):
                    yield [[gen.content_tree(a, b), gen.content_tree(b, a)], [ps[(i + j) % 5] for j in range(n)], ('each', 'half', 'draining')[i % 3]]
        def steps():
            for t, ps in gen.long_patterns():
                for i in range(len(ps) - 1):
                    yield [[t], [ps[i], ps[i + 1], ps[0]], 'each']
                yield [[t], ps, 'half']
        return [Family('contents', contents, 'all pairs of %d texts and values that could be taken for one another, or for something else than text: 2 or 3 of 5 patterns' % len(gen.CONTENTS)),
                Family('joints', joints, '%d pairs of paths whose names give the same when put together, all pairs of 20 patterns' % len(gen.JOINTS)),
                Family('steps', steps, 'chains of up to 129 elements, sets of patterns of as many stages'),
                Family('scale', scale, 'up to 257 patterns in one sender, subtrees, uses of a sender'),
                Family('confusable', confusable, 'all ordered pairs of %d groups of names that are easily taken for one another, 6 sets of patterns' % len(gen.CONFUSABLE)),
                Family('pairs', pairs, 'all trees of up to 4 elements, 2 names; all pairs of %d patterns of up to 2 of 5 stages' % len(pats)),
                Family('more', more, 'triples (quadruples) of %d patterns' % len(few)),
                Family('shared', shared, 'pairs and triples of patterns, two or all with the same sink'),
                Family('draining', draining_sinks, 'pairs; the sinks take apart what they get (also 3 and 5 patterns in the family shared)'),
                Family('reuse', reuse, 'all pairs of trees of up to 3 elements with one sender; after 1 or 2 of 8 failing parses')]

    def run(self, fam, case, st):
        from amara3.uxml import treeiter
        docs, pats, mode = tup(case)
        log = []
        n = len(pats)
        make = draining if mode == 'draining' else sink_to
        if mode in ('each', 'draining'):
            tags = list(range(n))
        elif mode == 'shared':
            tags = [0] * n
        else:
            tags = [0] * (n - 1) + [1]
        sinks = {}
        for t in tags:
            if t not in sinks:
                sinks[t] = make(log, t)
        if mode in ('each', 'draining'):
            s = treeiter.sender(list(pats), [sinks[t] for t in tags])
        else:
            for x in sinks.values():
                next(x)
            s = treeiter.sender(pats, tuple(sinks[t] for t in tags), prime_sinks=False)
        for i, d in enumerate(docs):
            log.clear()
            if isinstance(d, str):
                try:
                    s.parse(d)
                except Exception:
                    st.outcome('failed parse')
                st.state((pats, mode, docs[:i + 1]))
                continue
            t = merged(refpat.numbered(d))
            want = []
            for tag, p in zip(tags, pats):
                want += [(end, tag, sub) for end, sub in refpat.outermost_ends(p, t)]
            doc = doc_of(t)
            s.parse(doc)
            st.step()
            st.state((pats, mode, docs[:i + 1]))
            for tag in sinks:
                w = [sub for end, g, sub in sorted((x for x in want if x[1] == tag), key=lambda x: x[0])]
                got = [sub for g, sub in log if g == tag]
                if got != w:
                    return '%r in %r (sinks: %s) delivers %s instead of %s to sink %d, after %r' % (
                        pats, doc, mode, repr(got)[:500], repr(w)[:500], tag, docs[:i])
            ends = {}
            for end, tag, sub in want:
                ends.setdefault((tag, sub), end)
            order = [ends[x] for x in log]
            if order != sorted(order):
                return '%r in %r (sinks: %s): deliveries are not in the order of the end of the elements: %r' % (pats, doc, mode, log)
        st.trace()


PIECES = ['x', '<b i="1">y</b>', '<b><![CDATA[z]]>w&lt;</b>', '<!--c-->', '<p:b xmlns:p="urn:p" p:k="v">\u00e9</p:b>', '<b xmlns="urn:d"><c/>\n</b>', '&amp;', '<?p q?>', '\r\n']


class Short(io.RawIOBase):
    """File that returns the given pieces, one for each read"""
    def __init__(self, pieces):
        self.pieces = list(pieces)

    def read(self, n=-1):
        if not self.pieces:
            return b''
        p = self.pieces.pop(0)
        if n >= 0 and len(p) > n:
            self.pieces.insert(0, p[n:])
            p = p[:n]
        return p


class I03(Check):
    id = 'I03'
    assumptions = ('Reference: ElementTree, reduced to local names, and the declarative matcher.',
                   'After the last chunk white space is fed until expat has processed all it has (it may defer the reparse of incomplete tokens).')

    PATTERNS = [('a',), ('a', 'b'), ('**', 'b'), ('*', '*'), ('a', ('b', 'c'))]

    def families(self, tier):
        q = tier == 'quick'
        contents = [''.join(p) for n in range(0, 3) for p in itertools.product(PIECES, repeat=n)]
        docs = ['<a>%s</a>' % c for c in contents]
        docs += ['<?xml version="1.0"?>\n<!DOCTYPE a [<!ENTITY e "x<b>in</b>y">]><a>&e;&e;</a>', '<p:a xmlns:p="u">\n<p:b p:q="1" r="2">t</p:b>\n<b/></p:a>\n<!--e-->',
                 '<a><b><b>1</b><b>2</b></b>t<c><b>\U0001F600</b></c></a>']
        def whole():
            for d in docs:
                yield [d, None]
            for c in itertools.product(PIECES, repeat=3):
                yield ['<a>%s</a>' % ''.join(c), None]
        def cuts():
            sel = docs if not q else docs[:10] + docs[10:-3:3] + docs[-3:]
            for d in sel:
                yield [d, 1]
            for d in docs[:12] if q else docs[:40]:
                yield [d, 2]
            if not q:
                for d in docs[:6]:
                    yield [d, 3]
        def sizes():
            for d in docs:
                yield [d, 'sizes']
        def empty():
            for d in docs if not q else docs[:12] + docs[12:-3:5] + docs[-3:]:
                yield [d, 'empty']
        def micro():
            for t in gen.elements_only(5 if not q else 4, ('a', 'b')):
                yield [t]
        def confusable():
            for m, n in gen.confusable():
                t = merged(gen.confusable_tree(m, n))
                if refet.parse(markup(t))[0] == 'yes':      # not all are names in XML 1.0 before its fifth edition
                    yield [markup(t), [(m,), (m, n), ('**', n), (m, (n, 'x')), ('**', n, m), ('*', (m, 'x'))]]
        def joints():
            for t, a, b in gen.joints():
                yield [markup(t), gen.joint_patterns(a, b)]
        def contents():
            for a, b in gen.contents():
                yield [markup(gen.content_tree(a, b)), [('a',), ('a', 'b'), ('**', 'c')]]
        def longs():
            for i, t in enumerate(gen.long_trees(not q)):
                yield [markup(t), [('a',), ('a', 'b')]]
        def characters():
            for i, t in enumerate(gen.character_trees(not q)):
                yield [markup(t), [('a',), ('a', 'b')]]
        def steps():
            for t, ps in gen.long_patterns(most=65):
                for i in range(0, len(ps), 8):
                    yield [markup(t), ps[i:i + 8]]
        def scale():
            for k in gen.sizes(4096, 8192, 16384, 65536, 100000):
                for size in (1, 63, 1024, 2048, 65536, 1 << 20):
                    if k // size < 20000:
                        for kind in ('text', 'attr', 'wide', 'cdata', 'deep', 'refs', 'name'):
                            yield [k, size, kind]
        return [Family('whole', whole, '%d documents, all sequences of up to 2 of 9 pieces of content (3 without patterns)' % len(docs), self.run_doc),
                Family('cuts', cuts, 'all placements of 1, 2 (3) cuts, str and bytes, parse and parse_file', self.run_doc),
                Family('empty', empty, 'all placements of 1 cut, with one or two empty chunks at any place', self.run_doc),
                Family('sizes', sizes, 'all uniform sizes of chunks, str and bytes, parse and parse_file', self.run_doc),
                Family('confusable', confusable, 'all ordered pairs of %d groups of names that are easily taken for one another, 6 patterns' % len(gen.CONFUSABLE), self.run_doc),
                Family('contents', contents, 'all pairs of %d texts and values that could be taken for one another, or for something else than text: 3 patterns' % len(gen.CONTENTS), self.run_doc),
                Family('joints', joints, '%d pairs of paths whose names give the same when put together, 20 patterns' % len(gen.JOINTS), self.run_doc),
                Family('characters', characters, 'every character of the BMP and at the ends of each plane (thorough: all), alone and at both ends of texts and values', self.run_doc),
                Family('steps', steps, 'chains of up to 65 elements, patterns of as many stages', self.run_doc),
                Family('long', longs, 'texts and values of up to 70000 characters: all sequences of up to 2 (3) of %d characters over and over, with 8 others in the middle' % len(gen.LONG), self.run_doc),
                Family('micro', micro, 'all trees of up to 4 (5) elements: XML, MicroXML and whole-tree results agree for 24 patterns', self.run_micro),
                Family('scale', scale, '7 dimensions up to 100000 around sizes of buffers, 6 sizes of chunks', self.run_scale)]

    def stream(self, pattern, chunks, callbacks=None, method='parse', pad=0):
        from amara3.uxml import xmliter, xml
        acc = []
        kw = {} if callbacks is None else {'callbacks': getattr(xml, callbacks)}
        s = xmliter.sender(pattern_arg(pattern), sink_to(acc), **kw)
        if method == 'parse':
            for c in chunks:
                s.parse(c)
            if pad:
                s.parse((b' ' if isinstance(chunks[0], bytes) else ' ') * pad)
        elif method == 'file':
            s.parse_file(Short(chunks))
        else:
            s.parse_file(io.BytesIO(chunks))
        return acc

    def run_doc(self, case, st):
        doc, how = case
        verdict, t = refet.parse(doc)
        assert verdict == 'yes', doc
        data = doc.encode('utf-8')
        given, how = (how, None) if isinstance(how, (list, tuple)) else (None, how)
        if how is None:
            runs = [([doc], [data])]
        elif how == 'empty':
            def places(data):
                for c in gen.all_cuts(len(data), 1):
                    parts = gen.split(data, c)
                    for i in range(len(parts) + 1):
                        yield parts[:i] + [data[:0]] + parts[i:]
                    yield [data[:0]] * 2 + parts
                    yield [x for p in parts for x in (p, data[:0], data[:0])]
            runs = itertools.zip_longest(places(doc), places(data))
        elif how == 'sizes':
            runs = [(gen.uniform(doc, k), gen.uniform(data, k)) for k in range(1, len(data) + 1)]
        else:
            runs = itertools.zip_longest((gen.split(doc, c) for c in gen.all_cuts(len(doc), how) if len(c) == how),
                                         (gen.split(data, c) for c in gen.all_cuts(len(data), how) if len(c) == how))
        patterns = [tup(p) for p in given] if given else self.PATTERNS if how is None or how == 1 else self.PATTERNS[2:4]
        wants = {p: list(refpat.outermost(p, t)) for p in patterns}
        pad = 2 * len(data) + 100
        for strs, bytess in runs:
            for p in patterns:
                for chunks, method in ((strs, 'parse'), (bytess, 'parse'), (bytess, 'file')):
                    if chunks is None or how == 'empty' and method == 'file':       # there it means the end
                        continue
                    st.step()
                    got = self.stream(p, chunks, None, method, pad)
                    if got != wants[p]:
                        return '%r in %r by %s in chunks %s delivers %s instead of %s' % (p, doc, method, repr(chunks)[:400], repr(got)[:500], repr(wants[p])[:500])
                    st.trace()
                st.state((doc, p, tuple(strs or bytess)))
        if how is None:
            for p in patterns:
                for cb in ('expat_callbacks', 'ns_expat_callbacks'):
                    for chunks, method in (([doc], 'parse'), (data, 'bytesio')):
                        got = self.stream(p, chunks, cb, method, pad)
                        if got != wants[p]:
                            return '%r in %r with %s by %s delivers %s instead of %s' % (p, doc, cb, method, repr(got)[:500], repr(wants[p])[:500])
                        st.trace()
            from amara3.uxml import xml, treeiter
            e = xml.treebuilder().parse(doc)
            if canon_tree(e) != t:
                return 'the tree of %r is %r instead of %r' % (doc, canon_tree(e), t)

    def run_micro(self, case, st):
        from amara3.uxml import treeiter, xml
        t = refpat.numbered(tup(case[0]))
        doc = markup(t)
        e = xml.treebuilder().parse(doc)
        if canon_tree(e) != t:
            return 'tree of %r' % doc
        for p in refpat.patterns(STAGES, 2):
            p = tup(p)
            want = list(refpat.outermost(p, t))
            got = self.stream(p, [doc], pad=100)
            acc = []
            treeiter.sender(pattern_arg(p), sink_to(acc)).parse(doc)
            st.step(2)
            st.state((doc, p))
            if got != want or acc != want:
                return '%r in %r: XML streaming delivers %r, MicroXML streaming %r, instead of %r' % (p, doc, got, acc, want)
            st.trace()

    def run_scale(self, case, st):
        k, size, kind = case
        doc = {'text': lambda: '<a><b>%s</b></a>' % ('t\u00e9' * (k // 2 + 1)),
               'attr': lambda: '<a><b c="%s"></b></a>' % ('v' * k),
               'wide': lambda: '<a>%s</a>' % ('<b i="1">x</b>y' * (k // 10 + 1)),
               'cdata': lambda: '<a><b>x<![CDATA[%s]]>y</b></a>' % ('c<' * (k // 2 + 1)),
               'deep': lambda: '<a>' + '<b>x' * min(k, 120) + '</b>' * min(k, 120) + '</a>',
               'refs': lambda: '<a><b>%s</b></a>' % ('&lt;x&#65;' * (k // 10 + 1)),
               'name': lambda: '<a><b><%s>x</%s></b></a>' % ('n' * k, 'n' * k)}[kind]()
        t = refet.parse(doc)[1]
        data = doc.encode('utf-8')
        chunks = gen.uniform(data, size)
        want = list(refpat.outermost(('a', 'b'), t))
        st.state(tuple(case))
        for method, arg in (('parse', chunks), ('file', chunks), ('bytesio', data)):
            got = self.stream(('a', 'b'), arg, None, method, 2 * len(data) + 100)
            st.step(len(chunks))
            st.trace()
            if got != want:
                return '%r by %s: %d subtrees (%d expected), %s instead of %s' % (case, method, len(got), len(want), repr(got)[:300], repr(want)[:300])


def with_ends(t, pos=0):
    """Pairs of (t numbered, offset of the end of each element's end tag in its markup): {number: end}"""
    ends = {}
    def rec(x, pos):
        if isinstance(x, str):
            return pos + len(markup(x))
        inner = pos + len('<%s%s>' % (x[0], ''.join(' %s="%s"' % kv for kv in x[1])))
        for c in x[2]:
            inner = rec(c, inner)
        inner += len('</%s>' % x[0])
        ends[dict(x[1])['i']] = inner
        return inner
    rec(t, pos)
    return ends


class I04(Check):
    id = 'I04'
    assumptions = ('CPython; a subtree may be held until the next event and garbage collection.',
                   'XML streaming is given each prefix of the document at once, because expat may defer the reparse of tokens cut in two.')
    PATTERNS = [('a',), ('*', 'b'), ('**', 'b'), ('*', '*'), ('*', '*', '*')]

    def setup(self):
        from amara3.uxml import treeiter, xmliter
        gc.collect()
        gc.freeze()

    def families(self, tier):
        q = tier == 'quick'
        def prefixes():
            for t in gen.elements_only(4 if q else 5, ('a', 'b')):
                for p in self.PATTERNS:
                    yield [t, p]
                    yield [t, p, False]
        def kept():
            for t in gen.elements_only(4 if q else 5, ('a', 'b'), 2):
                for p in self.PATTERNS[1:]:
                    n = len(list(refpat.outermost(p, t)))
                    if n:
                        for k in range(1 << n):
                            yield [t, p, k]
                            yield [t, p, k, False]
            wide = ('a', (), (('b', (), (('c', (), ()),)),) * 6)
            for k in range(1 << 6):
                yield [wide, ('a', 'b'), k]
                yield [wide, ('a', 'b', 'c'), k, False]
            # large subtrees
            for n in list(range(2, 20 if q else 40)) + [33, 64]:
                deep, shape = ('c', (), ()), ('b', (), (('c', (), ()), ('d', (), (('c', (), ()),))) * n)
                for i in range(n):
                    deep = ('c', (), (deep, ('d', (), ())) if n % 3 else (deep,))
                for u in (('b', (), (deep,)), shape):
                    for k in range(8):
                        yield [('a', (), (u, ('b', (), ()), u, ('e', (), ()))), ('a', 'b'), k]
                        yield [('a', (), (('b', (), (('c', (), ()),)), u, ('e', (), (u,)), ('f', (), ()))), ('**', 'b'), k, False]
        def reads():
            for t in gen.elements_only(4 if q else 5, ('a', 'b')):
                for p in self.PATTERNS[:3]:
                    yield [t, p]
        def growth():
            for n in gen.sizes(5000):
                for kind in ('micro', 'xml', 'file', 'chunks'):
                    for p in (('a', 'b'), ('**', 'c'), ('a', '*')):
                        yield [n, kind, p]
        return [Family('prefixes', prefixes, 'all trees of up to 4 (5) elements, with text everywhere and without, 5 patterns, every prefix of the document, MicroXML and XML', self.run_prefixes),
                Family('kept', kept, 'the same trees; every subset of the subtrees kept by the sink, the others dropped, all checked at each later delivery; also with subtrees up to 66 deep or wide', self.run_kept),
                Family('reads', reads, 'file objects that end each read after a tag: delivered before the next read', self.run_reads),
                Family('growth', growth, 'up to 5000 subtrees: at most 2 in memory at any delivery', self.run_growth)]

    def run_prefixes(self, case, st):
        from amara3.uxml import treeiter, xmliter
        t, p, *texts = tup(case)
        t = refpat.numbered(t, *texts)
        doc = markup(t)
        ends = with_ends(t)
        matched = [(ends[dict(s[1])['i']], s) for s in refpat.outermost(p, t)]
        for k in range(len(doc) + 1):
            want = [s for end, s in matched if end <= k]
            acc = []
            s = treeiter.sender(pattern_arg(p), sink_to(acc))
            try:
                s.parse(doc[:k])
            except RuntimeError:
                pass
            if acc != want:
                return 'MicroXML: %r: %r delivers %r instead of %r' % (p, doc[:k], acc, want)
            acc = []
            s = xmliter.sender(pattern_arg(p), sink_to(acc))
            s.parse(doc[:k])
            if acc != want:
                return 'XML: %r: %r delivers %r instead of %r' % (p, doc[:k], acc, want)
            s.parse(doc[k:] + ' ' * (2 * len(doc) + 100))
            if acc != [s for end, s in matched]:
                return 'XML: %r: %r in two pieces, cut at %d, delivers %r' % (p, doc, k, acc)
            st.step(3)
            st.state((doc, p, k))
            st.trace(2)

    def run_kept(self, case, st):
        from amara3.uxml import treeiter, xmliter
        t, p, keep, *texts = tup(case)
        t = refpat.numbered(t, *texts)
        doc = markup(t)
        want = list(refpat.outermost(p, t))
        for kind in ('micro', 'xml'):
            refs, kept, problems = [], [], []
            def nodes(e):
                yield e
                for c in e.xml_children:
                    yield from nodes(c)
            def verify(when, pending=None):
                gc.collect()
                for i, rs in enumerate(refs):
                    if i == pending:
                        continue
                    if keep >> i & 1:
                        e = rs[0]()
                        if e is None or canon_tree(e) != want[i]:
                            problems.append('%s: kept subtree %d is %r' % (when, i, e and canon_tree(e)))
                    elif any(r() is not None for r in rs):
                        problems.append('%s: subtree %d is still in memory' % (when, i))
            def sink():
                while True:
                    e = yield
                    verify('at delivery %d' % len(refs))
                    refs.append([weakref.ref(n) for n in nodes(e)])
                    if keep >> (len(refs) - 1) & 1:
                        kept.append(e)
                    del e
            def probe():
                while True:
                    e = yield
                    del e
                    # the sink's last subtree may end with this very element
                    verify('later', len(refs) - 1 if len(refs) and probing[0] else None)
            probing = [True]
            # each element ends after the subtrees within it: a second pattern for the elements around sees what is in memory
            s = (treeiter if kind == 'micro' else xmliter).sender([p], [sink()])
            s.parse(doc + ('' if kind == 'micro' else ' ' * 3 * len(doc)))
            verify('at the end')
            st.step(len(refs))
            if len(refs) != len(want):
                return '%s: %d deliveries' % (kind, len(refs))
            if problems:
                return '%s: %r in %r, kept %s: %s' % (kind, p, doc, bin(keep), '; '.join(problems[:3]))
            st.trace()
        st.state((doc, p, keep))

    def run_reads(self, case, st):
        from amara3.uxml import xmliter
        t, p = tup(case)
        t = refpat.numbered(t)
        doc = markup(t)
        ends = with_ends(t)
        want = [(ends[dict(s[1])['i']], s) for s in refpat.outermost(p, t)]
        pieces, start = [], 0
        for i, c in enumerate(doc):
            if c == '>':
                pieces.append(doc[start:i + 1])
                start = i + 1
        given = [0]
        class F(io.RawIOBase):
            def read(self, n=-1):
                if not pieces:
                    given[0] += 1
                    return b''
                x = pieces.pop(0)
                given[0] += len(x)
                return x.encode()
        acc = []
        def sink():
            while True:
                e = yield
                acc.append((given[0], canon_tree(e)))
        xmliter.sender(pattern_arg(p), sink()).parse_file(F())
        st.step(len(doc))
        st.trace()
        st.state((doc, p))
        if acc != want:
            return '%r in %r: deliveries after so many bytes were read: %r instead of %r' % (p, doc, acc, want)

    def run_growth(self, case, st):
        from amara3.uxml import treeiter, xmliter
        n, kind, p = tup(case)
        doc = '<a>%s</a>' % ''.join('<b i="%d">x<c>y</c></b>z' % i for i in range(n))
        alive, most, count = set(), [0], [0]
        def sink():
            while True:
                e = yield
                count[0] += 1
                key = count[0]
                alive.add(key)
                weakref.finalize(e, alive.discard, key).atexit = False
                del e
                most[0] = max(most[0], len(alive))
        if kind == 'micro':
            treeiter.sender(p, sink()).parse(doc)
        elif kind == 'xml':
            xmliter.sender(p, sink()).parse(doc + ' ' * 3 * len(doc))
        elif kind == 'file':
            xmliter.sender(p, sink()).parse_file(io.BytesIO(doc.encode()))
        else:
            s = xmliter.sender(p, sink())
            for c in gen.uniform(doc, 1000):
                s.parse(c)
            s.parse(' ' * 3 * len(doc))
        st.step(n)
        st.trace()
        st.state(tuple(case))
        if count[0] != n:
            return '%d deliveries instead of %d' % (count[0], n)
        if most[0] > 2:
            gc.collect()
            if len(alive) > 2:
                return '%r: %d of %d subtrees in memory' % (case, most[0], n)
            st.outcome('needs a collection')


CHECKS = {c.id: c for c in (I01, I02, I03, I04)}
