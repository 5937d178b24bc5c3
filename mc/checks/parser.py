"""P01-P05: the MicroXML parser"""
import contextlib, io, itertools
from .. import gen, refxml
from ..core import Check, Family
from ..observe import Feed, collector, canon_event, feed, ref_events, canon_tree, markup, merged, tree_of_events, Rejected


def due(events, offset):
    """How many of the reference events must have been sent once the input up to offset was fed"""
    return sum(1 for e in events if e[-1] <= offset)


CORPUS = [
    '<a></a>', '<a>x</a>', '<a b="c"></a>', "<a b='c'></a>", '<a><b></b></a>', '<a>&lt;</a>', '<a>&#x41;</a>',
    '<a b=""></a>', ' <a></a> ', '<a >x</a >', '<a\n>\n</a\n>', '<a>\r\n</a>', '<a>\r</a>', '<a>x\ry</a>', '<a>\r\r\n\n</a>',
    '<a b="&amp;"></a>', "<a b='&#xA;'></a>", '<a b="\r\n"></a>', '<a b="\t"></a>', "<a b='\"'></a>", '<a b="\'"></a>',
    '<a b = "c"></a>', '<a b\n=\t"c"\r></a>', '<a b="c" d="e"></a>', '<a  b="c"\n d=\'e\' ></a>',
    '<a><b>1</b>2<c>3</c></a>', '<a>1<b>2</b>3</a>', '<a>&lt;&gt;&amp;&quot;&apos;</a>', '<a>x&lt;y&#x10FFFD;z</a>',
    '<a b="x&lt;y" c=\'&#x41;&apos;\'>z&amp;</a>', '<ab.c-d1 e_f.g-2="h"></ab.c-d1>', '<\u00e9\u4e2d>\U0001F600</\u00e9\u4e2d>',
    '<a><b><c><d>x</d></c></b></a>', '<a><a><a></a></a><a></a></a>', '<a>  <b> </b>  </a>\n', '\n\t <a></a>\n\t ',
    '< a></ a>', '< /a>', '<a>< /a>', '<a></a ><b></b>', '<a></a>x', 'x<a></a>', '<a></b>', '<a><b></a></b>', '<a', '<a>', '<a b',
    '<a b=', '<a b="', '<a b="c', '<a b="c"', '<a b="c">', '<a></a', '<a>&', '<a>&l', '<a>&#x4', '<a>&bogus;</a>', '<a>&#65;</a>',
    '<a>&#x;</a>', '<a>&#x0;</a>', '<a>&#xG;</a>', '<a>\x01</a>', '<a b="<"></a>', '<a b="c" b="d"></a>', '<a b=c></a>',
    '<a b></a>', '<1></1>', '<a>]]>x</a>', '<a b=">"></a>', '', ' ', '\n', '</a>', '<>', '<a><></></a>', '<a/>', '<a><b/></a>',
    '<!--c--><a></a>', '<a><!--c--></a>', '<?p?><a></a>', '<a b="c"d="e"></a>', '\ufeff<a></a>', '<a>x\ufeffy</a>', '<a></a>\ufeff',
]

SCALE_DOCS = [
    ('name', lambda k: '<%s></%s>' % ('n' * k, 'n' * k)),
    ('attname', lambda k: '<a %s="v"></a>' % ('n' * k)),
    ('attvalue', lambda k: '<a b="%s"></a>' % ('v' * k)),
    ('attrefs', lambda k: '<a b="%s"></a>' % ('&lt;x' * k)),
    ('text', lambda k: '<a>%s</a>' % ('t' * k)),
    ('refs', lambda k: '<a>%s</a>' % ('&#x41;x&amp;' * k)),
    ('spaces', lambda k: '<a%sb%s=%s"c"%s>%s</a%s>%s' % ((' ' * k,) * 7)),
    ('lead', lambda k: '%s<a></a>' % ('\n ' * k)),
    ('attrs', lambda k: '<a%s></a>' % ''.join(' a%d="%d"' % (i, i) for i in range(k))),
    ('width', lambda k: '<a>%s</a>' % ('<b>x</b>y' * k)),
    ('depth', lambda k: '<b>x' * k + '</b>y' * (k - 1) + '</b>'),
    ('hexref', lambda k: '<a>&#x%s41;</a>' % ('0' * k)),
    ('crlf', lambda k: '<a>%s</a>' % ('\r\n' * k)),
    ('bushy', lambda k: markup(gen.bushy(k // 4 + 1))),
]


def compare_run(doc, frags, final, whole, events):
    """None or a message; whole = (accepted, events) of the implementation, events of the reference (with due offsets)"""
    f = Feed()
    fed = 0
    for frag in frags:
        if not f.send(frag):
            break
        fed += len(frag)
        if whole[0] and len(f.acc) < due(events, fed):
            return 'after %r of the input only %d of %d events due were sent (fragments %r)' % (
                doc[:fed][-60:], len(f.acc), due(events, fed), frags[:12])
    f.send(final, True)
    if f.error is None:
        f.close()
    got = (f.error is None, f.acc)
    if got != whole:
        n = next((i for i, (x, y) in enumerate(itertools.zip_longest(got[1], whole[1])) if x != y), len(got[1]))
        return 'fragments %r + final %r: accepted %s, events from #%d %r, but as a whole: accepted %s, events %r (error %r)' % (
            [x[:20] for x in frags[:12]], final[:20], got[0], n, got[1][n:n + 3], whole[0], whole[1][n:n + 3], f.error)
    return None


class P01(Check):
    id = 'P01'
    assumptions = ('Fragments are str; a handler that does not raise.',
                   'All fragmentations are explored only for documents up to the bound in length; longer ones with up to 2 (3) cuts and all uniform sizes.')

    def families(self, tier):
        self.tier = tier
        full = 11 if tier == 'quick' else 13
        def short():
            for doc in self.docs(full):
                yield [doc]
        def cuts():
            for doc in CORPUS:
                yield [doc, 2 if tier == 'quick' or len(doc) > 40 else 3]
        def products():
            # every pair of constructs in one document
            parts = ['x', '&lt;', '&#x41;', '\r\n', '<b></b>', '<b c="d"></b>', '<b c=\'&amp;\'>y</b>', '<b >\n</b >', ' ', '\r']
            for p in itertools.product(parts, repeat=2):
                yield ['<a>%s</a>' % ''.join(p), 2]
            attrs = [' b="c"', " b='c'", ' b = "&lt;"', '\nb\r=\t"\r\n"', ' b="\'"', " b.c-1='&#x41;x'"]
            for x, y in itertools.product(attrs, repeat=2):
                yield ['<a%s%s>z</a>' % (x, y.replace('b', 'd', 1)), 2]
        def scale():
            for name, make in SCALE_DOCS:
                for k in gen.sizes(300, most=300 if tier == 'quick' else 1000):
                    for size in (1, 2, 3, 7, 64, 1000):
                        if k * (k // size + 1) <= 200000:
                            yield [name, k, size]
            big = 70000 if tier == 'quick' else 300000
            for name in ('text', 'attvalue', 'name', 'attname', 'lead', 'refs', 'width', 'hexref', 'crlf'):
                for parts in (1, 2, 5):
                    yield [name, big if name not in ('width', 'refs') else big // 5, big // parts + 1]
        def deep():
            for k in (100, 3000, 20000):
                yield ['depth', k, k]
        def contents():
            for a, b in gen.contents():
                doc = markup(('a', (('x', a),), (b, ('b', (('y', b), ('z', a)), ()), a)))
                if len(doc) < 90:
                    yield [doc, 1]
            for m, n in gen.confusable():
                doc = markup((m, ((n, m),), ((n, ((m, '1'), (n, '2')), (m,)), n)))
                if len(doc) < 90:
                    yield [doc, 1 if tier == 'quick' else 2]
        return [
            Family('contents', contents, 'all pairs of %d texts and of %d groups of names that could be taken for one another (documents of less than 90 characters): every cut, every uniform size' % (len(gen.CONTENTS), len(gen.CONFUSABLE)), self.run_cuts),
            Family('all-cuts', short, 'every fragmentation, two ways to end, of every corpus and grammar document of up to %d characters' % full, self.run_all),
            Family('cuts', cuts, 'every corpus document, every placement of up to 2 (3) cuts, each fragmentation also with empty fragments, and every uniform size', self.run_cuts),
            Family('pairs', products, 'all pairs of 10 content and 6 attribute constructs, all placements of up to 2 cuts', self.run_cuts),
            Family('scale', scale, '13 dimensions, size 1 to 70000 (300000), uniform fragments', self.run_scale),
            Family('api', cuts, 'parse and parsefrags for the corpus', self.run_api),
        ]

    def docs(self, limit):
        seen = set()
        for doc in CORPUS:
            if len(doc) <= limit and doc not in seen:
                seen.add(doc)
                yield doc
        atoms = ['x', ' ', '&lt;', '&#x9;', '<b>', '</b>', '\r', '\n', '\r\n', '<', '>', '&', ';', '\u4e2d', '/']
        heads = ['<a>', '<a >', '<a b="', "<a b='", '<a ', '<', '<a b', '']
        tails = ['</a>', '"></a>', "'></a>", '></a>', '']
        for n in (1, 2):
            for mid in itertools.product(atoms, repeat=n):
                for h in heads:
                    for t in tails:
                        doc = h + ''.join(mid) + t
                        if len(doc) <= limit and doc not in seen and refxml.parse(doc)[0] != 'no':
                            seen.add(doc)
                            yield doc

    def run_all(self, case, st):
        doc, = case
        whole = feed([], doc)
        events = refxml.parse(doc)[1]
        for cuts in gen.all_cuts(len(doc)):
            frags = gen.split(doc, cuts)
            for final in (False, True):
                msg = compare_run(doc, frags[:-1] if final else frags, frags[-1] if final else '', whole, events)
                if msg:
                    return msg
            st.step(2 * len(frags) + 1)
            st.trace(2)
        for i in range(len(doc) + 1):
            st.state((doc[:i],))
        st.outcome('accepted' if whole[0] else 'rejected')

    def run_cuts(self, case, st):
        doc, k = case
        whole = feed([], doc)
        events = refxml.parse(doc)[1]
        for cuts in gen.all_cuts(len(doc), k):
            frags = gen.split(doc, cuts)
            variants = [(frags, ''), (frags[:-1], frags[-1])]
            if len(cuts) <= 1:
                variants.append(([''] + [x for f in frags for x in (f, '')], ''))
                variants.append((['', ''] + frags, ''))
            for fr, final in variants:
                msg = compare_run(doc, fr, final, whole, events)
                if msg:
                    return msg
                st.step(len(fr) + 1)
                st.trace()
        for size in range(1, len(doc)):
            frags = gen.uniform(doc, size)
            msg = compare_run(doc, frags, '', whole, events) \
                or compare_run(doc, [x for f in frags for x in (f, '')], '', whole, events)
            if msg:
                return msg
            st.step(len(frags) * 3)
            st.trace(2)
        for i in range(len(doc) + 1):
            st.state((doc[:i],))
        st.outcome('accepted' if whole[0] else 'rejected')

    def run_scale(self, case, st):
        name, k, size = case
        doc = dict(SCALE_DOCS)[name](k)
        verdict, events, _ = refxml.parse(doc)
        whole = feed([], doc)
        if not whole[0] or whole[1] != ref_events(events):
            return 'the whole document is rejected or misread'
        frags = gen.uniform(doc, size)
        if len(frags) > 2000:       # only the ends, or the events due would take too long to count
            events = []
        msg = compare_run(doc, frags, '', whole, events)
        if msg:
            return msg[:600]
        st.step(len(frags) + 1)
        st.trace()
        st.state((name, k, size))

    def run_api(self, case, st):
        from amara3.uxml.parser import parse, parsefrags
        doc = case[0]
        ok, events = feed([], doc)
        runs = [('parse(%r)' % doc, lambda: parse(doc)), ('parsefrags([doc])', lambda: parsefrags([doc]))]
        for cut in range(1, len(doc)):
            runs.append(('parsefrags(%r)' % ((doc[:cut], doc[cut:]),), lambda cut=cut: parsefrags((doc[:cut], doc[cut:]))))
        runs.append(('parsefrags(iter(chars))', lambda: parsefrags(iter(doc))))
        runs.append(('parsefrags(chars)', lambda: parsefrags(doc)))
        for what, run in runs:
            try:
                got = (True, [canon_event(e) for e in run()])
            except Exception as e:
                got = (False, None)
            if got[0] != ok or got[0] and got[1] != events:
                return '%s gives %r, the parser coroutine %r' % (what, got, (ok, events))
            st.step()
            st.trace()
        st.state((doc, ok))


# ---------------------------------------------------------------------------------------------- P02

def judge(doc, run=None):
    """None or message: one whole-document parse against the reference"""
    verdict, events, note = refxml.parse(doc)
    ok, got = feed([], doc) if run is None else run(doc)
    if verdict == 'yes' and not ok:
        return 'MicroXML document %r is rejected' % doc[:300]
    if verdict == 'no' and ok:
        return '%r is accepted, with events %r, but should be rejected (%s)' % (doc[:300], got[:8], note)
    if ok and verdict != 'no' and got != ref_events(events):
        want = ref_events(events)
        n = next(i for i, (x, y) in enumerate(itertools.zip_longest(got, want)) if x != y)
        return '%r: event %d is %r instead of %r' % (doc[:300], n, got[n:n + 1], want[n:n + 1])
    return None


class P02(Check):
    id = 'P02'
    assumptions = ('The reference parser in mc/refxml.py (written from the MicroXML specification) defines the events.',)

    def families(self, tier):
        thorough = tier != 'quick'
        texts = ['x', ' ', '\n', '\r', '\t', '&lt;', '&gt;', '&amp;', '&quot;', '&apos;', '&#x41;', '&#xa;', '"', "'", ';', '=', '/', '#',
                 'lt;', '\u00e9', '\U0001F600', ']', '-', '!', '?', '\u00a0', '&#x9;', '&#x1F600;', '&#x00003c;', '&#x26;']
        n_text = 3 if not thorough else 4
        def text():
            for n in range(0, n_text + 1):
                pool = texts if n < 4 else texts[:15]
                for c in itertools.product(pool, repeat=n):
                    yield ['t', ''.join(c)]
        vals = [t for t in texts if t not in ('"',)]
        def values():
            for n in range(0, n_text):
                for c in itertools.product(vals, repeat=n):
                    v = ''.join(c)
                    yield ['a', '"' + v + '"']
            for n in range(0, n_text):
                for c in itertools.product([t for t in texts if t != "'"], repeat=n):
                    yield ['a', "'" + ''.join(c) + "'"]
        def tags():
            ws = ['', ' ', '\n', '\t', '\r\n', '  ']
            ws1 = ws[1:]
            for lead, after in itertools.product(ws, repeat=2):
                for inner, end in itertools.product(ws, repeat=2):
                    yield ['d', '%s<a%s>x</a%s>%s' % (lead, inner, end, after)]
            for s1, s2, s3, s4 in itertools.product(ws1[:4], ws, ws, ws):
                for q in '"\'':
                    yield ['d', '<a%sb%s=%s%sc%s%s></a>' % (s1, s2, s3, q, q, s4)]
            names = ['a', 'b', 'lt', 'x1', 'a.b', 'a-b', '_', 'a_b', '\u00e9', 'A', 'a\u00b7', '\U00010000', 'xmlns', 'xml', 'aa', 'ab']
            for e, x, y in itertools.product(names, repeat=3):
                if x != y:
                    yield ['d', '<%s %s="1" %s=\'2\'></%s>' % (e, x, y, e)]
        def confusable():
            for m, n in gen.confusable():
                yield ['d', markup(gen.confusable_tree(m, n))]
                yield ['d', '<%s %s="1" %s="2"><%s></%s></%s>' % (m, n, m, n, n, m)]
        def contents():
            for a, b in gen.contents():
                yield ['x', gen.content_tree(a, b)]
        def longs():
            for t in gen.long_trees(thorough):
                yield ['x', t]
        def characters():
            for t in gen.character_trees(thorough):
                yield ['x', t]
                yield ['d', '<a>%s</a>' % ''.join('<b x="&#x%x;" y=\'&#x0%X;x&#x%x;\'>&#x%x;</b>&#x%X;x&#x0%x;' % ((c,) * 6) for c in (ord(b[2][0]) for b in t[2][::2]))]
        def breaks():
            for d in gen.break_docs(3 if not thorough else 4):
                yield ['d', d]
        def digits():
            for k in gen.sizes():
                for ref in ('&#x%s41;' % ('0' * k), '&#x%s1F600;' % ('0' * k), '&#x%sfdf0;' % ('0' * k), '&#x%sA;' % ('0' * k)):
                    yield ['d', '<a b="%sx" c=\'y%s\'>%s<b></b>z%s</a>' % (ref, ref, ref, ref)]
        def shapes():
            # every tree shape up to a bound, names that are prefixes of each other, text and white space in every gap
            bound = 5 if not thorough else 6
            slots = ('', 'x') if not thorough else ('', 'x')
            for t in gen.trees(4, ('a', 'ab'), ('', 'x', ' ')):
                if gen.count_elements(t) < 4:
                    yield ['x', t]
            for t in gen.trees(bound - 1, ('a', 'ab'), slots):
                yield ['x', t]
            for t in gen.trees(bound, ('a', 'b'), ('',), bound):
                yield ['x', t]
        def attributed():
            sets = [(), (('a', '1'),), (('a', '1'), ('b', '2')), (('b', '1'), ('a', '')), (('b', 'x y'), ('a', '1'), ('c', '&'))]
            for t in gen.trees(3, ('a', 'b'), ('', 'x')):
                if gen.count_elements(t) == 3 and any(isinstance(c, str) for c in t[2]):
                    continue
                for u in gen.with_attrs(t, sets):
                    yield ['x', u]
        def scale():
            for name, make in SCALE_DOCS:
                for k in gen.sizes(2000, 2047, 2048, 2049, 4095, 4096, 4097, 8192, 10000):
                    yield ['s', name, k]
                if name not in ('depth', 'attrs', 'width', 'refs', 'attrefs'):
                    for k in (65535, 65536, 70000, 200000):
                        yield ['s', name, k]
        return [Family('text', text, 'all sequences of up to %d of %d text atoms' % (n_text, len(texts)), self.run_doc),
                Family('values', values, 'attribute values of up to %d of these atoms, in both quotes' % (n_text - 1), self.run_doc),
                Family('tags', tags, 'white space at every place in tags (6 forms); 16 names as element and attribute names', self.run_doc),
                Family('confusable', confusable, 'all ordered pairs of %d groups of names that are easily taken for one another, as names of elements and attributes' % len(gen.CONFUSABLE), self.run_doc),
                Family('contents', contents, 'all pairs of %d texts and values that could be taken for one another, or for something else than text' % len(gen.CONTENTS), self.run_doc),
                Family('characters', characters, 'every character of the BMP and at the ends of each plane (thorough: all), alone and at both ends of texts and values, as such and as references', self.run_doc),
                Family('long', longs, 'texts and values of up to 70000 characters: all sequences of up to 2 (3) of %d characters over and over, with 8 others in the middle' % len(gen.LONG), self.run_doc),
                Family('line-breaks', breaks, 'all sequences of up to 3 (4) of %d line breaks, and characters that might be taken for one, as text and in values' % len(gen.BREAKS), self.run_doc),
                Family('digits', digits, 'references with up to 1025 leading zeros', self.run_doc),
                Family('shapes', shapes, 'all trees of up to 4 (5) elements with 2 names, one being a prefix of the other, and texts in every gap', self.run_doc),
                Family('attributes', attributed, 'all trees up to 3 elements times 5 attribute sets per element', self.run_doc),
                Family('scale', scale, '13 dimensions up to 200000', self.run_doc)]

    def make(self, case):
        from ..observe import markup
        kind = case[0]
        if kind == 't':
            return '<a>%s</a>' % case[1]
        if kind == 'a':
            return '<a b=%s></a>' % case[1]
        if kind == 'd':
            return case[1]
        if kind == 'x':
            return markup(case[1])
        return dict(SCALE_DOCS)[case[1]](case[2])

    def run_doc(self, case, st):
        doc = self.make(case)
        if refxml.parse(doc)[0] != 'yes':
            st.outcome('skipped')
            return
        msg = judge(doc)
        if msg is None and case[0] != 's' and len(doc) < 1000:
            msg = judge(doc, lambda d: feed(list(d)))
            if msg:
                msg = 'fed by characters: ' + msg
        st.state(tuple(feed([], doc)[1]) if len(doc) < 300 else tuple(case[1:]))
        st.step(len(doc) if case[0] != 's' and len(doc) < 1000 else 1)
        st.trace()
        return msg


# ---------------------------------------------------------------------------------------------- P03

ATOMS = ['<', '>', '/', 'a', 'b', ' ', '=', '"', "'", '&', ';', '#', 'x', 'lt', '4', '!', '-', '?', '\x01', '\r', ']', '.', '\ufffe']
BLOCKS = ['<a>', '</a>', '<b>', '</b>', 't', ' ', '<a', ' c="1"', " d='2'", '>', '</', '<', '&lt;', '&', ';', '"', '/>', '=', '<!--c-->', '\x0b',
          ' c', '&#x3c;', '<?p?>', '\n']


def eof_state(s):
    """Reference parser at the end of s: None if s cannot start a document, else its open elements"""
    p = refxml._Parser(s)
    try:
        p.document()
        return []
    except refxml.Reject as e:
        why = str(e)
        if p.i >= p.n or why.startswith('unterminated reference'):
            stack = []
            for ev in p.events:
                if ev[0] == 's':
                    stack.append(ev[1])
                elif ev[0] == 'e':
                    stack.pop()
            return stack
        return None


HEADS = ['', '>', '">', "'>", ';', ';">', '="">', 'a>', '"', "''>", '=\'\'>', 'lt;', '->', '-->', '/>', ' >', '/a>', '</a>', '/b>']


SUBSTITUTES = list('abcx_0`"\'<>/=&;#!?-:.,()[]{}|\\@%*+~^$ \t\n\r\x0b\x0c\x00\x7f\x85\xa0\xab\xb4\xb7\xe9') + \
    ['\u0130', '\u2018', '\u2019', '\u201c', '\u201d', '\u2028', '\u2039', '\u2032', '\u3000', '\ufeff', '\uff02', '\uff07', '\uff1c', '\uff1e', '\uff1d', '\uff0f', '\uff06', '\uff1b', '\U0001d51e', '', '  ', '""', "''"]


class P03(Check):
    id = 'P03'
    assumptions = ('Where MicroXML and the present code differ (white space after "<", comments, empty-element tags, a byte order mark) rejection and the plain meaning are both accepted.',)

    def families(self, tier):
        depth = 3 if tier == 'quick' else 5
        bdepth = 2 if tier == 'quick' else 4
        def prefixes(seed, atoms, depth):
            yield [seed]
            if depth:
                for a in atoms:
                    if eof_state(seed + a) is not None:
                        yield from prefixes(seed + a, atoms, depth - 1)
        def chars():
            yield from prefixes('', ATOMS, depth)
        def inner():
            for seed, d in (('<a b', 2), ('<a b="', 2), ("<a b='", 2), ('<a>', 2), ('<a>&', 2), ('<a>t</', 2), ('<a b="c"', 2), ('<a></a', 2),
                            ('<a></a>', 2), ('<a><b></b>', 1), ('<a>&#x', 2), ('<a b="&#x', 2), ('<a\n', 2)):
                yield from prefixes(seed, ATOMS, d + (1 if tier != 'quick' else 0))
        def blocks():
            yield from prefixes('', BLOCKS, bdepth + 1)
            yield from prefixes('<a><b>', BLOCKS, bdepth - 1)
        def raw():
            # all strings over a small alphabet, without any pruning
            for n in range(0, 6 if tier == 'quick' else 7):
                for c in itertools.product('<>/a &;"=', repeat=n):
                    yield [''.join(c)]
        def edits():
            # every single character deleted, inserted or replaced in every document of the corpus, and every truncation
            for doc in CORPUS:
                if len(doc) > 1 and refxml.parse(doc)[0] != 'no':
                    yield ['e', doc]
        def scale():
            for name, make in SCALE_DOCS:
                for k in gen.sizes(300, 5000):
                    yield [name, min(k, 1000) if name == 'depth' else k]
        def references():
            names = set()
            for n in ('lt', 'gt', 'amp', 'quot', 'apos'):
                names |= {''.join(c) for c in itertools.product(*[(x, x.upper()) for x in n])}      # every mix of cases
                names |= {n[:i] for i in range(len(n))} | {n[i:] for i in range(len(n))} | {n + n, n + 'x', 'x' + n, n + ' ', ' ' + n, n + '\n', n + '#', '#' + n, '#x' + n, n + '1'}
                names |= {n[:i] + c + n[i:] for i in range(len(n) + 1) for c in 'la -\u00e9\uff4c'} | {n[:i] + c + n[i + 1:] for i in range(len(n)) for c in 'lapx\u0131'}
            names |= {'nbsp', 'copy', 'eacute', 'LT', 'AMP', 'hellip'}
            for n in sorted(names):
                yield [n]
            for k in range(0, 5 if tier == 'quick' else 6):
                for c in itertools.product('#xX01aG_+ -', repeat=k):
                    if '#' in c[:1] or k < 4:
                        yield [''.join(c)]
            # hexadecimal digits: all strings of up to 3 of them, and the edges of the ranges
            for k in range(1, 4):
                for c in itertools.product('0189aAfFdD', repeat=k):
                    yield ['#x' + ''.join(c)]
            for n in (0x7e, 0x7f, 0x9f, 0xa0, 0xd7ff, 0xd800, 0xdfff, 0xe000, 0xfdcf, 0xfdd0, 0xfdef, 0xfdf0, 0xfffd, 0xfffe, 0xffff, 0x10000, 0x1fffd, 0x1fffe, 0x1ffff, 0x20000, 0x10fffd, 0x10fffe,
                      0x10ffff, 0x110000, 0x1000000, 2 ** 32 + 0x41, 2 ** 64 + 0x41):
                for z in range(0, 9):
                    yield ['#x%s%x' % ('0' * z, n)]
                    yield ['#x%s%X' % ('0' * z, n)]
                yield ['#%d' % n]
            for k in gen.sizes():
                for d in ('', '41', '1F600', 'fdf0', '110000', '100000041', 'g', '0'):
                    yield ['#x%s%s' % ('0' * k, d)]
                yield ['#x%s' % ('1' * k)]
                yield ['#' + '0' * k + '65']
        def confusable():
            for m, n in gen.confusable():
                for doc in ('<%s></%s>', '<%s>x</%s >', '<a><%s></%s></a>', '<%s><%s/></%s>', '<%s><b></%s></b>', '<%s><%s></%s></%s>'):
                    for names in itertools.product((m, n), repeat=doc.count('%s')):
                        yield [doc % names]
                for names in itertools.product((m, n), repeat=3):
                    yield ['<a %s="1" %s="2" b="" %s="3"></a>' % names]
                    yield ['<a %s="1" %s="2"></a>' % names[:2]]
        def delimiters():
            # one or two delimiters written as another character, the same for both: quoted by letters, say
            seen = set()
            docs = ['<a b="c"/>', "<a b='c' d=\"e\">f</a>", '<a  b = "cxc" >x&lt;y&#x41;z</a >', '<a><b>x</b><b/></a>'] + (CORPUS if tier != 'quick' else [])
            for doc in docs:
                for c in '<>/="\'&;# \n':
                    where = [i for i, x in enumerate(doc) if x == c][:8]
                    for i, j in itertools.combinations_with_replacement(where, 2):
                        for r in SUBSTITUTES:
                            s = doc[:i] + r + doc[i + 1:] if i == j else doc[:i] + r + doc[i + 1:j] + r + doc[j + 1:]
                            if r != c and s not in seen:
                                seen.add(s)
                                yield [s]
        return [Family('confusable', confusable, 'all ordered pairs of %d groups of names that are easily taken for one another: in start and end tags, as attributes' % len(gen.CONFUSABLE), self.run_raw),
                Family('delimiters', delimiters, 'every one or two equal delimiters of a document written as each of %d other characters' % len(SUBSTITUTES), self.run_raw),
                Family('references', references, 'all mixes of cases, beginnings, ends and single edits of the reference names; all references of up to 4 (5) of 11 characters, of up to 3 of 10 hexadecimal digits, and the edges of the ranges with up to 8 (some with 1025) leading zeros; in text and both kinds of attribute values', self.run_reference),
                Family('characters', chars, 'every viable prefix of up to %d of %d lexical atoms, followed by every atom and each of %d completions' % (depth, len(ATOMS), len(HEADS)), self.run_prefix),
                Family('inner', inner, 'the same, from 13 lexical states inside a document', self.run_prefix),
                Family('blocks', blocks, 'every viable prefix of up to %d of %d tags and constructs, followed by every other and the completions' % (bdepth + 1, len(BLOCKS)), self.run_blocks),
                Family('raw', raw, 'all strings of up to 5 (6) of 9 characters', self.run_raw),
                Family('edits', edits, 'every deletion, insertion and replacement of one character (of 14), every truncation and every swap in each corpus document', self.run_edits),
                Family('scale', scale, 'truncations and errors at the end of large documents', self.run_scale)]

    def verify(self, s, st, deep=False):
        msg = judge(s)
        st.step()
        st.trace()
        if msg is None and deep:
            from amara3.uxml import tree
            verdict, events, _ = refxml.parse(s)
            try:
                t = tree.parse(s)
                ok = True
            except Exception:
                ok = False
            if ok != feed([], s)[0]:
                return 'tree.parse(%r) %s, unlike the parser' % (s, 'succeeds' if ok else 'fails')
            if ok and (None if t is None else canon_tree(t)) != tree_of_events(ref_events(events)):
                return 'tree.parse(%r) gives another tree' % s
        return msg

    def explore(self, s, atoms, st):
        stack = eof_state(s)
        msg = self.verify(s, st, deep=True)
        if msg:
            return msg
        st.state((s,))
        closers = ''.join('</%s>' % n for n in reversed(stack))
        for a in [''] + atoms:
            for h in HEADS:
                for c in {closers, '</a>' + closers, '</b>' + closers}:
                    msg = self.verify(s + a + h + c, st)
                    if msg:
                        return msg

    def run_reference(self, case, st):
        st.state((case[0],))
        for doc in ('<a>&%s;</a>', '<a>x&%s;y</a>', '<a b="&%s;"></a>', "<a b='x&%s;y'>z</a>", '<a>&%s</a>', '<a>&%s;&lt;</a>'):
            msg = self.verify(doc % case[0], st, deep=True)
            if msg:
                return msg

    def run_prefix(self, case, st):
        return self.explore(case[0], ATOMS, st)

    def run_blocks(self, case, st):
        return self.explore(case[0], BLOCKS, st)

    def run_raw(self, case, st):
        st.state((case[0],))
        return self.verify(case[0], st, deep=True)

    def run_edits(self, case, st):
        doc = case[1]
        alphabet = SUBSTITUTES
        out = []
        for i in range(len(doc) + 1):
            out.append(doc[:i])
            for c in alphabet:
                out.append(doc[:i] + c + doc[i:])
                out.append(doc[:i] + c + doc[i + 1:])
            out.append(doc[:i] + doc[i + 1:])
            out.append(doc[:i] + doc[i:i + 1] * 2 + doc[i + 1:])
            out.append(doc[:i] + doc[i + 1:i + 2] + doc[i:i + 1] + doc[i + 2:])
        for s in out:
            st.state((s,))
            msg = self.verify(s, st, deep=True)
            if msg:
                return msg
            ok, events = feed(list(s))
            if (ok, events) != feed([], s):
                return '%r fed by characters: accepted %s, events %r' % (s, ok, events)

    def run_scale(self, case, st):
        name, k = case
        doc = dict(SCALE_DOCS)[name](k)
        cuts = sorted({0, 1, 2, len(doc) // 2, len(doc) - 1, len(doc) - 2, len(doc) - 3, len(doc) - 5} | {min(x, len(doc)) for x in (255, 256, 1024, 4096)})
        for i in cuts:
            for s in (doc[:i], doc[:i] + '\x00' + doc[i:], doc[:i] + '<' + doc[i:], doc + doc[:i + 1], doc[:i] + '&' + doc[i:]):
                msg = self.verify(s, st)
                if msg:
                    return msg[:500]
        st.state((name, k))


# ---------------------------------------------------------------------------------------------- P04

POSITIONS = {
    'element-start': ('<%s></%s>', 'start'), 'element-rest': ('<a%s></a%s>', 'rest'),
    'attribute-start': ('<a %s="v"></a>', 'start'), 'attribute-rest': ('<a b%s="v"></a>', 'rest'),
    'text': ('<a>x%sy</a>', 'char'), 'double-quoted': ('<a b="x%sy"></a>', 'value'), 'single-quoted': ("<a b='x%sy'></a>", 'value'),
    'reference': ('<a>x&#x%X;y</a>', 'ref'), 'reference-in-value': ("<a b='x&#x%x;y'></a>", 'ref'),
}
SPECIAL = set(map(ord, '<>&"\'\r\n\t =/;#'))


class P04(Check):
    id = 'P04'
    CHUNK = 256
    every = False

    def families(self, tier):
        self.every = tier != 'quick'
        def blocks():
            for pos in POSITIONS:
                for base in range(0, 0x110000, self.CHUNK):
                    yield [pos, base]
        return [Family('code-points', blocks, 'all 1,114,112 code points at 9 lexical positions, each alone where the reference rejects or is undetermined (and all below U+0400), else in blocks', self.run_block)]

    def legal(self, c, kind):
        if kind in ('start', 'rest'):
            ok = refxml.is_name_start(c) if kind == 'start' else refxml.is_name_char(c)
            return ok and not refxml.nonchar(c)
        return refxml.is_char(c)

    def run_block(self, case, st):
        pos, base = case
        template, kind = POSITIONS[pos]
        st.distinct(self.CHUNK)     # (position, code point), each in one case only
        good = []
        for c in range(base, base + self.CHUNK):
            if base >= 0x400 and self.legal(c, kind) and c not in SPECIAL:
                good.append(c)
                continue
            if kind == 'ref':
                doc = template % c
            else:
                doc = template.replace('%s', chr(c))
            msg = judge(doc)
            st.step()
            st.trace()
            if msg:
                return 'U+%04X as %s: %s' % (c, pos, msg)
            st.outcome('alone')
        if good:
            if kind == 'ref':
                head, _, tail = template.partition('&#x%X;' if '%X' in template else '&#x%x;')
                doc = head + ''.join('&#x%X;' % c for c in good) + tail
            elif kind in ('start',):
                one = template.replace('<a ', '<b ').replace('</a>', '</b>')
                doc = '<r>' + ''.join(one.replace('%s', chr(c)) for c in good) + '</r>'
            else:
                doc = template.replace('%s', ''.join(map(chr, good)))
            if refxml.parse(doc)[0] != 'yes':
                return 'internal: reference'
            msg = judge(doc)
            st.step()
            st.trace()
            st.outcome('block')
            if msg:
                return 'U+%04X.. as %s: %s' % (base, pos, msg)
            if kind != 'start' and (self.every or base < 0x10000 or base % 0x10000 in (0, 0xff00)):
                # and each in an element of its own, with nothing else
                one = template.replace('<a', '<b').replace('</a', '</b').replace(' b=', ' c=').replace(' b%s', ' c%s').replace('x%s', '%s').replace('%sy', '%s').replace('x&', '&').replace(';y', ';')
                doc = '<r>' + ''.join(one % c if kind == 'ref' else one.replace('%s', chr(c)) for c in good) + '</r>'
                msg = judge(doc)
                st.step()
                st.outcome('each')
                if msg:
                    return 'U+%04X.. as %s: %s' % (base, pos, msg)


# ---------------------------------------------------------------------------------------------- P05

class P05(Check):
    id = 'P05'
    assumptions = ('One thread (for several see Q11). Steps: a fragment fed to a parser, a token taken from the scanner, a tree built by a builder, a query expression parsed.',)

    DOCS = [['<a', ' b="1">x', '</a>'], ['<c>&l', 't;<d>', 'y</d></c>'], ['<a b=', '"2', '"></a>'], ['<x>', '</y>', ''], ['<p><q>', 'z&', '']]

    def setup(self):
        from amara3.uxml import tree, treeiter, lex, xml, uxpath, html5    # noqa: imported before the workers are forked
        # What each use gives in a fresh process
        self.alone = {}
        with contextlib.redirect_stdout(io.StringIO()):     # the scanner reports errors there
            for b in self.BUILDERS:
                for u in self.USES:
                    self.alone[b, u] = self.canon_use(self.one_use(b, self.make_builder(b), self.USES[u]))

    BUILDERS = ('tree.treebuilder', 'amara3.uxml.parse', 'xml.treebuilder', 'tree.parse', 'sender', 'lex.run', 'parser.parse', 'html')

    @staticmethod
    def canon_use(t):
        from amara3.uxml import tree
        return canon_tree(t) if isinstance(t, tree.element) else t

    def families(self, tier):
        def parsers():
            for i, j in itertools.product(range(len(self.DOCS)), repeat=2):
                for order in gen.interleavings((4, 4)):
                    yield ['parsers', [i, j], list(order)]
        def three():
            for i, j, k in itertools.product(range(len(self.DOCS)), repeat=3):
                if tier == 'quick' and not (i <= j <= k):
                    continue
                for order in gen.interleavings((2, 2, 2) if tier == 'quick' else (3, 2, 2)):
                    yield ['parsers', [i, j, k], list(order)]
        kinds = ['parser', 'treebuilder', 'scanner', 'xpath', 'sender', 'fromparser', 'xmlsender', 'xmlbuilder', 'fail', 'scanfail']
        def mixed():
            for x, y in itertools.product(kinds, repeat=2):
                for order in gen.interleavings((4, 4)):
                    yield ['mixed', [x, y], list(order)]
        uses = ['ok1', 'ok2', 'bad', 'cut', 'blank', 'deepbad', 'attr']
        def histories():
            for n in (1, 2, 3) if tier == 'quick' else (1, 2, 3, 4):
                for h in itertools.product(uses, repeat=n):
                    for b in self.BUILDERS:
                        if b == 'html' and n > 2:
                            continue
                        yield [b, list(h)]
        def nested():
            for outer, inner in itertools.product(range(len(self.DOCS)), repeat=2):
                for at in range(0, 7):
                    for what in ('parser', 'amara3.uxml.parse', 'xml', 'xpath', 'sender', 'scanner'):
                        yield ['nested', outer, inner, at, what]
        def long():
            for b in self.BUILDERS:
                for a, c in itertools.product(uses, repeat=2):
                    for n in (9, 17, 33, 65, 129) if tier == 'quick' else (9, 17, 33, 65, 129, 257, 1025):
                        if b != 'html' or n < 30 and a == 'ok1':
                            yield [b, [a, c, 'ok1'] * (n // 3)]
        def changed():
            docs = [markup(t) for t in gen.trees(3, ('a', 'b'), ('', 'x'))] + ['<a i="1"><b j="2" k="3">x<c></c></b><b></b></a>', '<c></c>', '<c i="2">y</c>']
            for kind in ('late', 'at once', 'cut', 'xml', 'namespaces', 'tree.treebuilder', 'amara3.uxml.parse', 'tree.parse', 'xml.treebuilder', 'sender', 'xmlsender'):
                for i, d in enumerate(docs):
                    yield [kind, [d, d, docs[-2 if i % 2 else -1], d]]
                for ds in itertools.product(docs[-3:], repeat=3):
                    yield [kind, list(ds)]
        return [Family('changed', changed, '11 kinds of use: events, lists, attributes and trees given are changed by the receiver, at once or later', self.run_changed),
                Family('long', long, 'histories of up to 129 (1025) uses in all repeating patterns of 3', self.run_history),
                Family('two-parsers', parsers, 'all 70 interleavings of the steps of two parsers, 25 pairs of documents', self.run_mixed),
                Family('three-parsers', three, 'all interleavings of three parsers', self.run_mixed),
                Family('mixed', mixed, 'all interleavings (4+4 steps) of all pairs of 10 kinds of instances', self.run_mixed),
                Family('histories', histories, 'all histories of up to 3 (4) uses of 7 kinds, on 8 builders', self.run_history),
                Family('nested', nested, 'another parse started from within the handler at every event', self.run_nested)]

    # an instance is a generator: each next() is a step; its result is what it returns
    def instance(self, kind, n):
        if kind == 'parser':
            return self.parser_steps(self.DOCS[n])
        return getattr(self, 'i_' + kind)(n)

    def parser_steps(self, frags):
        f = Feed()
        for frag in frags:
            f.send(frag)
            yield
        f.send('', True)
        if f.error is None:
            f.close()
        yield
        return (f.error is None, list(f.acc))

    def i_fail(self, n):
        return (yield from self.parser_steps(['<a>', '<b></a', '>', '']))

    def i_treebuilder(self, n):
        from amara3.uxml import tree
        docs = ['<t%d><u>1</u>2</t%d>' % (n, n), '<v a="%d"></v>' % n, '<w><', '<x>y</x>']
        b = tree.treebuilder()
        out = []
        for d in docs:
            try:
                out.append(b.parse(d))
            except Exception:
                out.append(None)
            yield
        return [t if t is None else canon_tree(t) for t in out]

    def i_fromparser(self, n):
        from amara3 import uxml
        out = []
        for d in ('<t%d><u>1</u>2</t%d>' % (n, n), '<v a="%d"></v>' % n, '<w><z></w>', '<x>y</x>'):
            try:
                out.append(uxml.parse(d))
            except Exception:
                out.append(None)
            yield
        return [t if t is None else canon_tree(t) for t in out]

    def i_xmlbuilder(self, n):
        from amara3.uxml import xml
        b = xml.treebuilder()
        out = []
        for d in ('<t%d><u>1</u>2</t%d>' % (n, n), '<v a="%d"/>' % n, '<w><z></w>', '<x>y</x>'):
            try:
                out.append(b.parse(d))
            except Exception:
                out.append(None)
            yield
        return [t if t is None else canon_tree(t) for t in out]

    def i_scanner(self, n):
        from amara3.uxml import lex
        texts = ['<a\nb="c">d&lt;\n</a>', "<e f='g'>&#x41;\n<!--h--></e>"]
        out = []
        it = lex.run(texts[n % 2])
        for i in range(3):
            for t in itertools.islice(it, 4):
                out.append((t.type, t.value, t.lexpos, t.lineno))
            yield
        for t in it:
            out.append((t.type, t.value, t.lexpos, t.lineno))
        yield
        return out

    def i_scanfail(self, n):
        from amara3.uxml import lex
        out = []
        it = lex.run('<a "b')
        for i in range(3):
            for t in itertools.islice(it, 1):
                out.append((t.type, t.value, t.lexpos, t.lineno))
            yield
        it.close()
        yield
        return out

    def i_xpath(self, n):
        from amara3.uxml.uxpath import parse
        from amara3.uxml.uxpath.xast import serialize
        out = []
        for e in (['a/b[1]', '"x', '//c|@d', 'a['], ['count(a)', '..', 'e//f', '$g=1'])[n % 2]:
            try:
                out.append(serialize(parse(e)))
            except Exception:
                out.append(None)
            yield
        return out

    def sink(self, acc):
        while True:
            e = yield
            acc.append(canon_tree(e))

    def i_sender(self, n):
        from amara3.uxml import treeiter
        acc = []
        s = treeiter.sender(('a', 'b'), self.sink(acc))
        for d in ('<a><b>%d</b><b>2</b></a>' % n, '<a><b>', '<a><b>3</b></a>', '<b></b>'):
            try:
                s.parse(d)
            except Exception:
                acc.append('rejected')
            yield
        return acc

    def i_xmlsender(self, n):
        from amara3.uxml import xmliter
        acc = []
        s = xmliter.sender(('a', 'b'), self.sink(acc))
        for d in ('<a><b>%d' % n, '</b><b x="2"', '>y</b', '></a>'):
            s.parse(d)
            yield
        return acc

    def run_mixed(self, case, st):
        what, kinds, order = case
        def make(i, k):
            return self.parser_steps(self.DOCS[k]) if what == 'parsers' else self.instance(k, i)
        alone = []
        for i, k in enumerate(kinds):
            g = make(i, k)
            steps = 0
            while True:
                try:
                    next(g)
                    steps += 1
                except StopIteration as e:
                    alone.append(e.value)
                    break
        gens = [make(i, k) for i, k in enumerate(kinds)]
        results = [None] * len(gens)
        done = [0] * len(gens)
        for i in order:
            next(gens[i], None)
            done[i] += 1
            st.step()
            st.state((what, tuple(kinds), tuple(done)))
        for i, g in enumerate(gens):        # to the end, whatever the order left over
            while True:
                try:
                    next(g)
                    st.step()
                except StopIteration as e:
                    if e.value is not None:
                        results[i] = e.value
                    break
        st.trace()
        for i, k in enumerate(kinds):
            if results[i] != alone[i]:
                return '%s %r gives %r when interleaved as %r, but %r alone' % (what, k, results[i], order, alone[i])

    USES = {'ok1': '<a b="1">x<c>y</c></a>', 'ok2': '<d>z</d>', 'bad': '<a><b></a>', 'cut': '<a b="1">x<c', 'blank': ' ',
            'deepbad': '<e><f><g>t</g></f>&zz;</e>', 'attr': '<a h="1" i="2'}

    def one_use(self, builder, obj, doc):
        from amara3 import uxml
        from amara3.uxml import tree, lex, xml, treeiter, parser, html5
        try:
            if builder == 'sender':
                s, acc = obj
                before = len(acc)
                s.parse(doc)
                return acc[before:]
            if builder == 'lex.run':
                return [(t.type, t.value) for t in lex.run(doc)]
            if builder == 'parser.parse':
                return [canon_event(e) for e in parser.parse(doc)]
            t = {'tree.treebuilder': lambda: obj.parse(doc), 'xml.treebuilder': lambda: obj.parse(doc), 'tree.parse': lambda: tree.parse(doc),
                 'amara3.uxml.parse': lambda: uxml.parse(doc), 'html': lambda: html5.parse(doc)}[builder]()
            return t
        except Exception:
            return 'rejected'

    def make_builder(self, builder):
        from amara3.uxml import tree, xml, treeiter
        if builder == 'sender':
            acc = []
            return treeiter.sender([('a', '*'), ('*',)], [self.sink(acc), self.sink(acc)]), acc
        return {'tree.treebuilder': tree.treebuilder, 'xml.treebuilder': xml.treebuilder}.get(builder, lambda: None)()

    def run_history(self, case, st):
        from amara3.uxml import tree
        builder, uses = case
        obj = self.make_builder(builder)
        kept = []
        for u in uses:
            got = self.one_use(builder, obj, self.USES[u])
            kept.append((u, got))
            st.step()
            canon = self.canon_use
            for v, g in kept[-5:]:     # earlier trees too must stay as they were
                w = self.alone[builder, v]
                if canon(g) != w:
                    return '%s: %r in history %r gives %r, but %r on its own' % (builder, v, uses[-12:], canon(g), w)
            fresh = canon(self.one_use(builder, self.make_builder(builder), self.USES[u]))
            if fresh != self.alone[builder, u]:
                return '%s: %r gives %r in a new instance after history %r, but %r on its own' % (builder, u, fresh, uses[-12:], self.alone[builder, u])
            if builder in ('tree.treebuilder', 'amara3.uxml.parse', 'tree.parse'):
                verdict, events, _ = refxml.parse(self.USES[u])
                if verdict == 'yes' and canon(got) != tree_of_events(ref_events(events)):
                    return '%s: wrong tree for %r in %r' % (builder, u, uses)
        st.state((builder, tuple(uses)))
        st.trace()

    @staticmethod
    def wreck(x):
        from amara3.uxml import tree
        if isinstance(x, dict):
            x.clear()
            x['wrecked'] = 'w'
        elif isinstance(x, list):
            x[:] = ['wrecked']
        elif isinstance(x, tuple):
            for y in x:
                P05.wreck(y)
        elif isinstance(x, tree.element):
            for c in list(x.xml_children):
                P05.wreck(c)
                x.xml_remove(c)
            P05.wreck(x.xml_attributes)
            x.xml_name = 'wrecked'
            x.xml_append('wrecked')

    def run_changed(self, case, st):
        import xml.parsers.expat
        from amara3.uxml import parser, xml as axml, treeiter, xmliter
        kind, docs = case
        got = []
        def events():
            while True:
                ev = yield
                got.append(canon_event(ev))
                self.wreck(ev)
        def trees():
            while True:
                e = yield
                got.append(canon_tree(e))
                self.wreck(e)
        builder = self.make_builder(kind)
        for d in docs:
            del got[:]
            want = ref_events(refxml.parse(d)[1])
            if kind == 'late':
                evs = list(parser.parse(d))
                got.extend(map(canon_event, evs))
                self.wreck(tuple(evs))
            elif kind in ('at once', 'cut'):
                p = parser.parser(events())
                for piece in [d] if kind == 'at once' else d:
                    p.send((piece, False))
                p.send(('', True))
            elif kind in ('xml', 'namespaces'):
                h = (axml.expat_callbacks if kind == 'xml' else axml.ns_expat_callbacks)(events())
                p = xml.parsers.expat.ParserCreate(namespace_separator=' ')
                p.StartElementHandler, p.EndElementHandler, p.CharacterDataHandler = h.start_element, h.end_element, h.char_data
                p.Parse(d, True)
            else:
                want = [tree_of_events(want)]
                if kind in ('sender', 'xmlsender'):
                    (treeiter if kind == 'sender' else xmliter).sender(('*',), trees()).parse(d + (' ' * 300 if kind == 'xmlsender' else ''))
                else:
                    e = self.one_use(kind, builder, d)
                    got.append(canon_tree(e))
                    self.wreck(e)
            st.step()
            if got != want:
                return '%s: %r gives %r instead of %r, after the receiver changed what it got earlier, of %r' % (kind, d, got, want, docs)
        st.state(repr(case))
        st.trace()

    def inner(self, what, n):
        doc = ''.join(self.DOCS[n])
        from amara3 import uxml
        from amara3.uxml import xml, lex
        from amara3.uxml.uxpath import qquery
        try:
            if what == 'parser':
                return feed(self.DOCS[n])
            if what == 'amara3.uxml.parse':
                return canon_tree(uxml.parse(doc))
            if what == 'xml':
                return canon_tree(xml.treebuilder().parse(doc))
            if what == 'xpath':
                return [i.xml_name for i in qquery(doc, '//*')]
            if what == 'scanner':
                return [(t.type, t.value) for t in lex.run(doc)]
            g = self.i_sender(n)
            for _ in g:
                pass
            return 'done'
        except Exception:
            return 'rejected'

    def run_nested(self, case, st):
        _, outer, inner, at, what = case
        alone_outer = feed(self.DOCS[outer])
        alone_inner = self.inner(what, inner)
        acc, res = [], []
        def handler():
            while True:
                ev = yield
                acc.append(canon_event(ev))
                if len(acc) == at + 1:
                    res.append(self.inner(what, inner))
        f = Feed(handler())
        for frag in self.DOCS[outer]:
            f.send(frag)
            st.step()
        f.send('', True)
        if (f.error is None, acc) != alone_outer:
            return 'the outer parse gives %r instead of %r' % ((f.error is None, acc), alone_outer)
        if res and res[0] != alone_inner:
            return 'the inner parse gives %r instead of %r' % (res[0], alone_inner)
        st.trace()
        st.state((outer, inner, at, what, bool(res)))


CHECKS = {c.id: c for c in (P01, P02, P03, P04, P05)}
