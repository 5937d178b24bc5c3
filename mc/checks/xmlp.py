"""X01, X02: MicroXML from XML"""
import itertools
from .. import again, gen, refxml, refet
from ..core import Check, Family
from ..observe import canon_tree, tree_of_events, ref_events, markup, canon_event, collector, sort_attrs
from .parser import CORPUS, SCALE_DOCS

CONTENT = ['x', ' ', '\n', '\r\n', '\r', '&lt;', '&amp;', '&gt;', '&quot;', '&apos;', '&#65;', '&#x1F600;', '&#13;', '&#10;', '<![CDATA[c<d&]]>', '<![CDATA[]]>',
           '<!--c-->', '<?p q?>', '<b/>', '<b>y</b>', '<p:b xmlns:p="urn:p">z</p:b>', '<b xmlns="urn:v" c="1">w</b>', ']]', '\u00e9', '\U0001F600',
           '<b c="1" d=\'2&lt;\n\'/>', '<b xml:lang="en" e="&#9;"><c/></b>', '\t']
PROLOGS = ['', '<?xml version="1.0"?>', '<?xml version="1.0" encoding="utf-8" standalone="yes"?>\n', '<!--p--><?pi x?>\n', '<!DOCTYPE a>',
           '<!DOCTYPE a [<!ENTITY e "ent"><!ENTITY f "<g>in</g>"><!ATTLIST a def CDATA "dv" nm NMTOKENS #IMPLIED><!ELEMENT a ANY>]>']
EPILOGS = ['', '\n', '<!--e-->', '<?pi y?> ']
ROOTS = ['<a>%s</a>', '<a xmlns="urn:d">%s</a>', '<p:a xmlns:p="urn:p" p:q="1" r="2">%s</p:a>', '<a nm="  u  v ">%s</a>', "<a\n s = 'x\ty'\r\n>%s</a >"]
BROKEN = ['<', '&', '&nope;', '</b>', '<b>', '<b c>', '<b c=1/>', '<b c="1" c="2"/>', '<q:b/>', ']]>', '\x00', '\x01', '<b c="<"/>', '&#0;', '&#xFFFF;', '<!-- a--b -->',
          '<?xml version="1.0"?>', '<![CDATA[', '<!--', '<?p', '</a></a>', '</a><a>', '<b></c>', '<1/>', '&#x;', '<b/ >', '<b c="1"d="2"/>', '\ufffe', '<!DOCTYPE a>', 'x</a>y',
          '<?XmL x?>', '<:b/>', '<b:/>', '<b p:c="1"/>', '<p:b xmlns:p=""/>', '<!ELEMENT b ANY>', '</', '</a', '&lt', '<b xmlns:x="u" xmlns:y="u" x:c="1" y:c="2"/>']


AGAIN = [(d, t) for t in (('a', (('i', '1'),), ('x', ('b', (), ('y',)))), ('a', (('i', '1'),), ('x', ('b', (), ('y',)), 'z')), ('a', (), ())) for d in [markup(t)]]


class X01(Check):
    id = 'X01'
    assumptions = ('Reference: ElementTree of the Python library, reduced to local names. Both rest on expat, whose own conformance is trusted.',
                   'Attributes of one element that differ only in namespace are not covered.')

    def families(self, tier):
        n = 3 if tier == 'quick' else 4
        def content():
            for k in range(0, n + 1):
                for c in itertools.product(CONTENT if k < 4 else CONTENT[:6] + CONTENT[14:22], repeat=k):
                    yield ['c', '<a>%s</a>' % ''.join(c)]
        def frames():
            for p, r, e in itertools.product(PROLOGS, ROOTS, EPILOGS):
                for c in [''] + CONTENT + (['&e;', 'x&e;y&f;<!--c-->z', '&f;'] if 'ENTITY' in p else []):
                    yield ['c', p + r % c + e]
        def micro():
            for d in CORPUS:
                yield ['m', d]
            for t in gen.trees(3, ('a', 'ab'), ('', 'x', ' ')):
                yield ['m', markup(t)]
            for a in itertools.product(['x', '&lt;', '\t', '\r\n', '&#xA;', "'", '&quot;', '\u00e9'], repeat=3):
                yield ['m', '<a b="%s" c=\'%s\'>%s</a>' % (''.join(a), a[0].replace("'", '"'), ''.join(a))]
        def scale():
            for name, _ in SCALE_DOCS:
                for k in gen.sizes(2048, 4096, 8191, 8193, 16385, 32769, 65537, 200000):
                    if name == 'depth' and k > 150 or name == 'attrs' and k > 5000:
                        continue
                    yield ['s', name, k]
            for k in (1, 500, 1024, 5000, 20000):
                for piece in CONTENT:
                    yield ['c', '<a>%s</a>' % (piece * k)] if k < 600 else ['r', piece, k]
                yield ['r', '<![CDATA[%s]]>' % ('x' * 50), k]
        def confusable():
            for m, n in gen.confusable_xml():
                yield ['c', markup(gen.confusable_tree(m, n))]
                for doc in ('<a xmlns:M="u" xmlns:N="v"><M:b N:c="1">x</M:b><N:b M:c="2"/></a>', '<M:N xmlns:M="u"><M:M N="1"/><N/></M:N>', '<M xmlns="M"><N xmlns="N"><M/></N></M>', '<M xmlns:p="M" xmlns:N="N"><p:M N:M="p"/></M>',
                            '<!DOCTYPE M [<!ENTITY M "m"><!ENTITY N "n"><!ATTLIST M N CDATA "d">]><M>&M;&N;<N/><M/></M>', '<a><M></N></a>', '<M><N></M></N>', '<a><?M n?><!--M--><N/></a>'):
                    yield ['c', doc.replace('N', '\0').replace('M', m).replace('\0', n)]
        def contents():
            for a, b in gen.contents():
                yield ['c', markup(gen.content_tree(a, b))]
        def characters():
            for t in gen.character_trees(tier != 'quick'):
                yield ['c', markup(t)]
        def longs():
            for t in gen.long_trees(tier != 'quick'):
                yield ['c', markup(t)]
        def breaks():
            for d in gen.break_docs(3 if tier == 'quick' else 4):
                yield ['c', d]
        def namespaces():
            for u, v in itertools.permutations(gen.NAMESPACES, 2):
                for doc in ('<a xmlns:p="U" xmlns:q="V"><p:b q:c="1">x</p:b><q:b p:c="2" d="U"/></a>', '<a xmlns="U" b="V"><b xmlns="V"><a/></b><a/></a>'):
                    yield ['c', doc.replace('V', '\0').replace('U', gen.quote(u)).replace('\0', gen.quote(v))]
        def encodings():
            for e in ('utf-8', 'utf-8-sig', 'utf-16', 'iso-8859-1', 'us-ascii', 'utf-16-be+bom', 'declared-utf-8', 'utf-16-declared'):
                for c in CONTENT:
                    yield ['e', e, '<a>%s</a>' % c]
                    yield ['e', e, '<\u00e9 \u00e8="%s">x</\u00e9>' % '\u00ff']
        return [Family('again', lambda: again.cases(3, 3), again.TEXT % (3, 3), self.run_again),
                Family('content', content, 'all sequences of up to %d of %d pieces of content' % (n, len(CONTENT)), self.run_case),
                Family('frames', frames, '%d prologs, %d document elements, %d epilogs times each piece of content' % (len(PROLOGS), len(ROOTS), len(EPILOGS)), self.run_case),
                Family('microxml', micro, 'documents that are MicroXML too, from both parsers', self.run_case),
                Family('scale', scale, '13 dimensions past the sizes of buffers; repeated pieces', self.run_case),
                Family('namespaces', namespaces, 'all pairs of %d names of namespaces that could be taken apart or for one another' % len(gen.NAMESPACES), self.run_case),
                Family('contents', contents, 'all pairs of %d texts and values that could be taken for one another, or for something else than text' % len(gen.CONTENTS), self.run_case),
                Family('characters', characters, 'every character of the BMP and at the ends of each plane (thorough: all), alone and at both ends of texts and values', self.run_case),
                Family('long', longs, 'texts and values of up to 70000 characters: all sequences of up to 2 (3) of %d characters over and over, with 8 others in the middle' % len(gen.LONG), self.run_case),
                Family('line-breaks', breaks, 'all sequences of up to 3 (4) of %d line breaks, and characters that might be taken for one, as text and in values' % len(gen.BREAKS), self.run_case),
                Family('confusable', confusable, 'pairs of names that are easily taken for one another, as elements, attributes, prefixes, namespaces and entities', self.run_case),
                Family('encodings', encodings, '8 encodings', self.run_case)]

    def run_again(self, case, st):
        from amara3.uxml import xml, tree
        same = lambda t: t
        b, t = xml.treebuilder(), tree.treebuilder()
        return again.run(case, st, [('xml.treebuilder.parse', b.parse, same), ('another xml.treebuilder.parse', lambda s: xml.treebuilder().parse(s.encode('utf-8')), same), ('tree.treebuilder.parse', t.parse, same)], AGAIN)

    def run_case(self, case, st):
        from amara3.uxml import xml, tree
        kind = case[0]
        doc = case[1]
        if kind == 's':
            doc = dict(SCALE_DOCS)[case[1]](case[2])
        elif kind == 'r':
            doc = '<a>%s</a>' % (case[1] * case[2])
        sources = [doc]
        if kind == 'e':
            enc, doc = case[1], case[2]
            try:
                if enc == 'utf-16-be+bom':
                    src = b'\xfe\xff' + doc.encode('utf-16-be')
                elif enc == 'declared-utf-8':
                    src = b'<?xml version="1.0" encoding="UTF-8"?>' + doc.encode('utf-8')
                elif enc == 'utf-16-declared':
                    src = ('<?xml version="1.0" encoding="utf-16"?>' + doc).encode('utf-16')
                elif enc in ('iso-8859-1', 'us-ascii'):
                    src = b'<?xml version="1.0" encoding="' + enc.encode() + b'"?>' + doc.encode(enc)
                else:
                    src = doc.encode(enc)
            except UnicodeEncodeError:
                return
            sources = [src]
        elif kind in 'cm':
            try:
                sources.append(doc.encode('utf-8'))
            except UnicodeEncodeError:
                pass
        for src in sources:
            verdict, want = refet.parse(src)
            if kind == 'e' and verdict == 'yes' and refet.parse(doc)[1] != want:
                return 'internal: encoding'
            if verdict != 'yes':
                st.outcome('not well-formed')
                continue
            try:
                e = xml.treebuilder().parse(src)
                got = canon_tree(e)
            except Exception as ex:
                return '%s is rejected: %r' % (repr(src)[:300], ex)
            st.step()
            if got != want:
                return '%s gives %s instead of %s' % (repr(src)[:300], repr(got)[:400], repr(want)[:400])
            if kind not in 'sr':
                acc = []
                p = xml.parse(src, collector(acc))
                p.Parse('' if isinstance(src, str) else b'', True)
                if acc != list(refet.events(want)):
                    return 'xml.parse(%s) gives the events %s instead of %s' % (repr(src)[:300], repr(acc)[:400], repr(list(refet.events(want)))[:400])
            if kind in 'ms':
                mv, events, _ = refxml.parse(doc)
                if mv == 'yes' and 'xmlns' not in doc and '\ufeff' not in doc:
                    if sort_attrs(got) != sort_attrs(canon_tree(tree.parse(doc))):
                        return '%r gives another tree from the MicroXML parser' % doc[:300]
                    st.outcome('MicroXML too')
            st.state(want)
            st.trace()
        if kind == 'm':
            mv, events, _ = refxml.parse(doc)
            want = tree_of_events(ref_events(events)) if mv == 'yes' else None
            if want is not None and doc.isascii() and 'xmlns' not in doc and refet.parse(doc)[0] == 'no':
                return 'internal: %r is MicroXML, but not XML' % doc


class X02(Check):
    id = 'X02'
    assumptions = ('Reference: ElementTree decides what is well-formed.',)

    def families(self, tier):
        docs = [p + r % c + e for p in PROLOGS for r in ROOTS[:3] for e in EPILOGS for c in ('x', '<b c="1">y</b>&lt;z', '<![CDATA[q]]><!--c--><?p q?>')]
        def prefixes():
            for d in docs:
                yield [d]
            for c in CONTENT:
                yield ['<a>%s<d>%s</d></a>' % (c, c)]
        def broken():
            for b in BROKEN:
                for r in ROOTS:
                    for x, y in itertools.product(['', 'x', '<c/>', '<!--c-->'], repeat=2):
                        yield ['<?xml version="1.0"?>' + r % (x + b + y)]
                        yield [b + r % x + y]
                        yield [r % x + b + y]
            for x, y in itertools.product(BROKEN, repeat=2):
                yield ['<a>%s</a>' % (x + y)]
            for x, y, z in itertools.product(['<a>', '</a>', '<b>', '</b>', '<a/>', 'x', ' ', '<!--c-->', '<?p?>', '<![CDATA[x]]>', '&lt;', '<a', '>'], repeat=3):
                yield [x + y + z]
                yield ['<a>' + x + y + z]
                yield ['<a><b>' + x + y + z + '</a>']
        def edits():
            for d in docs[::7]:
                yield [d, 'edits']
        good = ['<a/>', '<a>x<b c="1">y</b></a>', '<b xmlns="u">z</b>']
        bad = ['<a>', '<a>x<b>', '<a></b>', '', '<a/><a/>', '<a>&nope;', 'x', '<a b="', '<a>text']
        def histories():
            for n in (1, 2, 3):
                for h in itertools.product(bad, repeat=n):
                    if n < 3 or tier != 'quick' or len(set(h)) == 1:
                        for g in good:
                            yield [list(h) + [g, g]]
            for h in itertools.product(bad[:6] + good, repeat=3 if tier == 'quick' else 4):
                yield [list(h)]
        def scale():
            for k in gen.sizes(2048, 4096, 5000, 65537):
                for d in ('<a>' + '<b>x</b>' * k, '<a>' + 'x' * k, '<a>' + '<b>x</b>' * k + '</b>', '<a>' + 'x' * k + '&</a>', '<a b="%s' % ('x' * k), '<a>' + '<!--c-->' * k + '</a', '<a>%s</a>%s' % ('x' * k, 'y' * k), '<a/>' + ' ' * k + '<b/>',
                          '<a>' + 'x' * k + '</b>', '<a><!--' + 'x' * k, '<a>' + '&lt;' * k + '&zz;</a>', '<%s></%s>' % ('a' * k, 'a' * k + 'b'), ' ' * k, '<a>' * min(k, 150) + '</a>' * (min(k, 150) - 1), '<a %s b="" b=""/>' % ' '.join('c%d=""' % i for i in range(min(k, 1025)))):
                    yield [d]
        def lengths():
            # what is padded to exactly as many characters and bytes
            for k in sorted({n + d for n in [2 ** j for j in range(5, 18)] + [10 ** j for j in range(2, 6)] for d in (-1, 0, 1)} | {3 * 2 ** 15, 2 * 10 ** 4, 5000, 5 * 10 ** 4}):
                for i, t in enumerate(('<a>%s', '<a b="%s', '<a><b>x</b>%s', '<a>%s<', '<a>%s</a', '<a>%s</', '<a/><!--%s', '<a>%s]]>', '<a>%s&', '<a>%s<![CDATA[', '<a><%s', '<a>%s</b>', '<a/>%s<', '<!--%s', '<?xml version="1.0"?>%s', '<a>%s</a>', '<a b="%s"/>', '<!--%s--><a/>', '<a/><!--%s-->')):
                    n = k - len(t) + 2
                    if n > 0:
                        yield [t, 'x' if i not in (12, 14) else ' ', n]
        def many():
            for k in (9, 17, 33, 65, 129) if tier == 'quick' else (9, 17, 33, 65, 129, 257, 1025):
                for x, y in itertools.product(bad[:6] + good, repeat=2):
                    yield [([x, y, good[1]] * k)[:k]]
        return [Family('lengths', lengths, '19 kinds of documents, 4 of them whole, of exactly the 50 lengths around powers of 2 and 10 up to 131073, as str and bytes', self.run_length),
                Family('scale', scale, '15 kinds of truncated or broken documents of up to 65537 characters or elements', self.run_doc),
                Family('long-histories', many, 'histories of up to 129 (1025) parses on one builder in all repeating patterns of 2 of 9 and a good one', self.run_history),
                Family('prefixes', prefixes, 'every prefix of %d documents' % (len(docs) + len(CONTENT)), self.run_prefixes),
                Family('broken', broken, '%d broken constructs, at every place, in pairs; all triples of 13 tokens' % len(BROKEN), self.run_doc),
                Family('edits', edits, 'every deletion, doubling and replacement of a character', self.run_edits),
                Family('histories', histories, 'all histories of up to 3 failing and good parses on one builder', self.run_history)]

    def judge(self, src, st, builder=None, kept=None):
        from amara3.uxml import xml
        verdict, want = refet.parse(src)
        st.step()
        st.trace()
        try:
            e = (builder or xml.treebuilder()).parse(src)
            if e is None and verdict == 'no':
                return '%s gives no tree, but no exception either' % repr(src)[:300]
            got = canon_tree(e)
        except Exception as ex:
            if verdict == 'yes':
                return '%s is well-formed, but rejected: %r' % (repr(src)[:300], ex)
            st.outcome('rejected')
            return
        st.outcome('accepted')
        if kept is not None and verdict == 'yes':
            kept.append((e, want, src))
        if verdict == 'no':
            return '%s is not well-formed, but gives %s' % (repr(src)[:300], repr(got)[:300])
        if verdict == 'yes' and got != want:
            return '%s gives %s instead of %s' % (repr(src)[:300], repr(got)[:300], repr(want)[:300])

    def run_doc(self, case, st):
        st.state(case[0])
        return self.judge(case[0], st)

    def run_length(self, case, st):
        t, c, n = case
        doc = t % (c * n)
        st.state((t, len(doc)))
        return self.judge(doc, st) or self.judge(doc.encode('utf-8'), st)

    def run_prefixes(self, case, st):
        doc = case[0]
        for i in range(len(doc) + 1):
            st.state(doc[:i])
            msg = self.judge(doc[:i], st)
            if msg:
                return msg
        data = doc.encode('utf-8')
        for i in range(len(data) + 1):
            msg = self.judge(data[:i], st)
            if msg:
                return msg

    def run_edits(self, case, st):
        doc = case[0]
        for i in range(len(doc)):
            for s in [doc[:i] + doc[i + 1:], doc[:i] + doc[i] + doc[i:]] + [doc[:i] + c + doc[i + 1:] for c in '<>&/"a \x00']:
                st.state(s)
                msg = self.judge(s, st)
                if msg:
                    return msg

    def run_history(self, case, st):
        from amara3.uxml import xml
        b = xml.treebuilder()
        kept = []
        for i, src in enumerate(case[0]):
            msg = self.judge(src, st, b, kept)
            for e, want, doc in kept[-4:]:
                if msg is None and canon_tree(e) != want:
                    msg = 'the tree from %r is now %r' % (doc, canon_tree(e))
            if msg:
                return 'after %r: %s' % (case[0][:i], msg)
            st.state(tuple(case[0][:i + 1]))


class X03(Check):
    id = 'X03'
    technique = 'exhaustive bounded exploration: all documents up to a bound over sets of declarations, the state of the callbacks observed at every event'
    assumptions = ('Reference: the scopes of the generated declarations themselves. The prefix suggested for a name is checked only to stand for its namespace.',)
    # Per element: prefix of the element, declarations (None for the default namespace)
    KINDS = (('', ()), ('', ((None, 'u'),)), ('', ((None, 'v'),)), ('', ((None, ''),)), ('', (('p', 'u'),)), ('p', (('p', 'u'),)), ('p', (('p', 'v'),)), ('p', ()), ('', ((None, 'u'), ('p', 'u'))),
             ('q', (('p', 'u'), ('q', 'v'))), ('q', (('p', 'v'), ('q', 'u'), (None, 'w'))), ('q', ()))

    def families(self, tier):
        q = tier == 'quick'
        def shapes(n):
            # forests of n elements as tuples
            if n == 0:
                yield ()
            for k in range(1, n + 1):
                for a in shapes(k - 1):
                    for b in shapes(n - k):
                        yield (a,) + b
        def scopes():
            for n in range(1, 4 if q else 5):
                kinds = range(len(self.KINDS)) if n < 4 else (0, 1, 3, 4, 6, 7, 8)
                for sh in shapes(n - 1):
                    for ks in itertools.product(kinds, repeat=n):
                        yield [(sh,), ks, '', 'x']
        def attributes():
            for sh in shapes(2):
                for ks in itertools.product(range(len(self.KINDS)), repeat=3):
                    for a in ('p', 'q', 'xml', '-'):
                        yield [(sh,), ks, a, '']
        def scale():
            for k in gen.sizes(most=257 if q else 1025):
                for a, b in itertools.product((1, 3, 5, 6, 8, 10), repeat=2):
                    yield ['wide', k, a, b]
                    if k < 140:
                        yield ['deep', k, a, b]
        def confusable():
            for m, n in gen.confusable_xml():
                for sh in shapes(1):
                    for ks in itertools.product(range(len(self.KINDS)), repeat=2):
                        for a in ('p', 'q'):
                            yield [(sh,), ks, a, '', m, n]
        def namespaces():
            for u, v in itertools.permutations(gen.NAMESPACES, 2):
                for ks in itertools.product(range(len(self.KINDS)), repeat=2):
                    yield [((),), ks, 'pq'[sum(ks) % 2], '', 'p', 'q', u, v]
        return [Family('namespaces', namespaces, 'trees of 2 elements, with all pairs of %d names of namespaces that could be taken apart or for one another' % len(gen.NAMESPACES), self.run_case),
                Family('confusable', confusable, 'trees of 2 elements, prefixes and namespaces that are easily taken for one another', self.run_case),
                Family('scopes', scopes, 'all trees of up to 3 (4) elements, each with one of %d combinations of prefix and declarations, with text between all tags' % len(self.KINDS), self.run_case),
                Family('attributes', attributes, 'all trees of 3 elements with an attribute each', self.run_case),
                Family('scale', scale, 'up to 257 (1025) children or 139 levels with alternating declarations', self.run_scale)]

    def kinds_for(self, m, n, u=None, v=None):
        """KINDS with other prefixes and namespaces"""
        to = {'p': m, 'q': n, 'u': u or 'urn:' + m, 'v': v or 'urn:' + n}
        return tuple((to.get(a, a), tuple((to.get(p, p), to.get(u, u)) for p, u in decls)) for a, decls in self.KINDS)

    def run_scale(self, case, st):
        how, k, a, b = case
        if how == 'wide':
            return self.run_case([(((),) * k,), [8] + [a, b] * k, '', 'x'], st)
        sh = ()
        for i in range(k):
            sh = (sh,)
        return self.run_case([sh, ([a, b] * k)[:k], '', 'x'], st)

    def run_case(self, case, st):
        shape, kinds, apfx, txt, *names = case
        KINDS = self.kinds_for(*names) if names else self.KINDS
        if names and apfx in ('p', 'q'):
            apfx = names['pq'.index(apfx)]
        doc, want, names = [], [], []
        kinds = iter(kinds)
        total = {}
        counter = itertools.count()
        def element(children, scope):
            pfx, decls = KINDS[next(kinds)]
            scope = dict(scope)
            for p, u in decls:
                scope[p] = u or None
                total[p] = u or None
            if pfx and not scope.get(pfx):
                return False
            local = 'ab'[next(counter) % 2]
            names.append((local, scope.get(pfx or None)))
            name = pfx + ':' + local if pfx else local
            attr = ''
            if apfx and (apfx in ('xml', '-') or scope.get(apfx)):
                attr = ' %s="1"' % ('c' if apfx == '-' else apfx + ':c')
                names.append(('@c', None if apfx == '-' else 'http://www.w3.org/XML/1998/namespace' if apfx == 'xml' else scope[apfx]))
            doc.append('<%s%s%s>%s' % (name, ''.join(' xmlns%s="%s"' % (':' + p if p else '', gen.quote(u)) for p, u in decls), attr, txt))
            def at(what):
                want.append((what, dict(scope), dict(total), set(names)))
            at('start')
            if txt:
                at('text')
            for c in children:
                if not element(c, scope):
                    return False
                doc.append(txt)
                if txt:
                    at('text')
            doc.append('</%s>' % name)
            at('end')
            return True
        if not element(shape[0] if shape else (), {}):
            st.outcome('undeclared')
            return
        doc = ''.join(doc)
        st.state(doc)
        for stream in (True, False):
            msg = self.compare(doc, want, stream, st)
            if msg:
                return '%s, stream=%s: %s' % (repr(doc)[:400], stream, msg)
        st.trace()

    def compare(self, doc, want, stream, st):
        import xml.parsers.expat
        from amara3.uxml import xml as uxml_xml
        from amara3.uxml.parser import event
        got = []
        def collect():
            while True:
                e = yield
                got.append(({event.start_element: 'start', event.end_element: 'end', event.characters: 'text'}[e[0]], dict(cb.prefixes), dict(cb.prefixes_rev), dict(cb.ns_portfolio)))
        cb = uxml_xml.ns_expat_callbacks(collect(), stream=stream)
        p = xml.parsers.expat.ParserCreate(namespace_separator=' ')
        p.StartElementHandler, p.EndElementHandler, p.CharacterDataHandler = cb.start_element, cb.end_element, cb.char_data
        p.StartNamespaceDeclHandler, p.EndNamespaceDeclHandler = cb.start_namespace, cb.end_namespace
        try:
            p.Parse(doc, True)
        except Exception as e:
            return 'fails with %r' % e
        if [g[0] for g in got] != [w[0] for w in want]:
            return 'the events are %r' % [g[0] for g in got]
        for i, ((what, prefixes, rev, portfolio), (_, scope, total, names)) in enumerate(zip(got, want)):
            st.step()
            # No namespace by default is the same as a default namespace that was undeclared
            have = {k: v for k, v in prefixes.items() if v}
            expect = {k: v for k, v in (scope if stream else total).items() if v}
            if have != expect:
                return 'at event %d, %s, the prefixes are %r, and not %r' % (i, what, have, expect)
            for ns, pfx in rev.items():
                if ns and not any((pfx, ns) in w[1].items() for w in want[:i + 1]):
                    return 'at event %d, %s, %r is said to have the prefix %r' % (i, what, ns, pfx)
            if what == 'text':
                continue    # it may be sent along with the tag that follows it
            if {n for n, _ in names} != set(portfolio):
                return 'at event %d, %s, the names with namespaces are %r' % (i, what, sorted(portfolio))
            for n, ns in names:
                found = portfolio[n]
                if (n, found[0]) not in names:
                    return 'at event %d, %s, the namespace of %s is said to be %r' % (i, what, n, found[0])
                if not found[0] and found[1]:
                    return 'at event %d, %s, %s has the prefix %r, but no namespace' % (i, what, n, found[1])
                if found[0] and found[1] and not any((found[1], found[0]) in w[1].items() for w in want[:i + 1]) and found[1] != 'xml':
                    return 'at event %d, %s, the namespace %r of %s is said to have the prefix %r' % (i, what, found[0], n, found[1])
        if stream and any(cb.prefixes.values()):
            return 'after the document the prefixes are %r' % cb.prefixes


CHECKS = {c.id: c for c in (X01, X02, X03)}
