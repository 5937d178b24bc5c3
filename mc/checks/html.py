"""H01-H04: HTML parsing, against html5lib's own etree builder"""
import io, itertools, re, warnings
from .. import again, gen, refpat, refxp
from ..core import Check, Family
from ..observe import canon_tree, markup, merged, merge, tup, BadTree

GENERAL = ['<p>', '</p>', '<b>', '</b>', '<a>', '</a>', '<table>', '</table>', '<tr>', '<td>', 'x', '<!--c-->', '<i>', '</i>', '<div>', '</div>', '<select>', '<option>', '<form>', '<svg>',
           '<title>', '<body k=v>', '<html l=w>', ' ', '</body>', '<frameset>', '<template>', '<math>', '<br>', '<li>', '<p:b>', '</p:b>', '<p:x q:y=1>', '<rt>', '<mi>', '<tbody>',
           '<caption>', '<a b=1 b=2 c>']
FOCUS = {
    'formatting': (['<b>', '</b>', '<i>', '</i>', '<p>', '</p>', '<a h=1>', '</a>', 'x', '<div>', '</div>'], 5, 6),
    'table': (['<table>', '</table>', '<tr>', '<td>', 'x', '<b>', '<caption>', '<p>', '<input type=hidden>', '<form>', '<!--c-->', ' ', '<col>'], 4, 5),
    'foreign': (['<svg viewbox=1>', '</svg>', '<title>', '<foreignObject>', '<math definitionurl=1>', '<mi>', '<p>', '<a xlink:href=1 href=2>', 'x', '<x:y>', '<annotation-xml encoding=text/html>'], 4, 5),
    'document': (['<html a=1>', '<html a=2 b=3>', '<head>', '</head>', '<title>', '<body c=1>', '<body c=2 d=3>', '<frameset>', '<frame>', 'x', ' ', '<!--c-->', '<meta>', '</body>', '</html>',
                  '<!DOCTYPE html>', '<noframes>'], 4, 5),
    'select': (['<select>', '</select>', '<option>', '<optgroup>', '<input>', '<table>', '<td>', '<b>', 'x', '<p>'], 5, 5),
    'lists': (['<ul>', '</ul>', '<li>', '<dl>', '<dt>', '<dd>', '<p>', 'x', '<h1>', '</h1>', '<button>', '<ruby>', '<rt>'], 4, 5),
    'raw': (['<script>', '</script>', '<style>', '<textarea>', '</textarea>', '\n', '&amp;', '&lt', '<plaintext>', '<p>', 'x<y', '&notit;', '<!--', '-->', '\r\n'], 4, 5),
    'colons': (['<p:b>', '</p:b>', '<b>', '</b>', '<q:p>', '<p>', '</p>', '<p:table>', '<tr>', 'x', '<b:b a:c=1 c=2>', '</b:b>', '<b:i>', '</i>', '<a:b:p>', '</a:b:p>', '<p: a:b:c=1 b:c=2 :d=3 e:=4>', '</p:>'], 4, 5),
    'attributes': (['<p', ' ', 'a=1', ' a:b=2', ' b="&amp;<"', " xmlns='u'", ' xmlns:q=v', ' A=3', '/', '>', ' \u00e9=\u00e9', ' =', '<svg', ' xlink:title=4', ' xml:lang=5'], 4, 5),
}


NS = re.compile(r'\{http://[^}]*\}')


def local(name):
    return NS.sub('', name, 1).split(':')[-1]


def canon_et(e):
    children = [e.text or '']
    for c in e:
        if isinstance(c.tag, str):
            children.append(canon_et(c))
        children.append(c.tail or '')
    attrs = {NS.sub('', k, 1): v for k, v in e.attrib.items() if not k.startswith(('xmlns', '{http://www.w3.org/2000/xmlns/}'))}
    return (local(e.tag), tuple(sorted(attrs.items())), merge(children))


def reference(source):
    """Tree of html5lib's etree builder, or None where html5lib itself fails"""
    import html5lib
    try:
        return canon_et(html5lib.parse(source, treebuilder='etree', namespaceHTMLElements=True))
    except Exception:
        return None


def canon(e):
    return merged(canon_tree(e, attr_order=False))


def sequences(toks, lo, hi):
    for n in range(lo, hi + 1):
        for s in itertools.product(toks, repeat=n):
            yield ''.join(s)


NAME = re.compile(r'[A-Za-z_][-.A-Za-z0-9_]*')


def encodable(t):
    """Whether all of the tree can be written as MicroXML"""
    if isinstance(t, str):
        return all(c in '\t\n' or c >= ' ' for c in t)
    return (bool(NAME.fullmatch(t[0])) and all(NAME.fullmatch(k) and k != 'xmlns' and encodable(v) for k, v in t[1])
            and all(encodable(c) for c in t[2]))


CONTENTS_TEXT = 'all ordered pairs of %d groups of names and of %d texts that are easily taken for one another, or for something else' % (len(gen.CONFUSABLE), len(gen.CONTENTS))


def likely_confused():
    for m, n in gen.confusable():
        yield markup(gen.confusable_tree(m, n))
        yield markup(gen.confusable_tree('x-' + m, 'x-' + n))
    for a, b in gen.contents():
        yield markup(gen.content_tree(a, b)).replace('<c', '<div').replace('</c', '</div').replace('<b', '<p').replace('</b', '</p')
    for u, v in itertools.permutations(gen.NAMESPACES, 2):
        yield '<p:a xmlns:p="%s" q:x="1"><q:a xmlns:q="%s" p:x=2>x</q:a><svg xmlns="%s"><a/></svg></p:a>' % (gen.quote(u), gen.quote(v), gen.quote(u))


AGAIN = [(d, d) for d in ('<p i=1>x<b>y</b>', '<p i=1>x<b>y</b>z', '<ul>')] + [(b'<p i=1>x<b>y</b>', '<p i=1>x<b>y</b>')]


class HtmlCheck(Check):
    def setup(self):
        warnings.simplefilter('ignore')
        import html5lib
        from amara3.uxml import html5, html5iter

    def encodings(self):
        texts = ['', 'x', '<p>\u0416', '\u0416<b a="\u0430\u0416">x</b>', '<p>\u00e9', '<p a=\u00e9>\u00e9<p>x', '<title>\u3042</title>\u3042', '<p>\u20ac\u00b7', '&eacute;&#x416;', '<p>x\r\n\u0416']
        metas = ['', '<meta charset=utf-8>', '<meta charset=koi8-r>', '<meta http-equiv=content-type content="text/html; charset=shift_jis">', '<!--' + 'c' * 1100 + '-->']
        for enc in ('utf-8', 'koi8-r', 'windows-1251', 'windows-1252', 'shift_jis', 'euc-jp', 'utf-16le', 'utf-16be', 'gb18030', 'iso-8859-5', 'UTF-8', None):
            for m in metas:
                for t in texts:
                    try:
                        (m + t).encode(enc or 'utf-8')
                    except UnicodeEncodeError:
                        continue
                    yield [m + t, enc]

    def texts(self, t):
        for c in t[2]:
            if isinstance(c, str):
                yield c
            else:
                yield from self.texts(c)

    def run_encoding(self, case, st):
        import html5lib
        from amara3.uxml import html5
        s, enc = case
        st.state((s, enc))
        data = s.encode(enc or 'utf-8')
        if enc:
            want = reference(s)
        else:   # as html5lib finds out
            want = canon(html5.parse(data))
            tree = html5lib.HTMLParser(tree=html5lib.getTreeBuilder('etree'), namespaceHTMLElements=False).parse(data)
            if ''.join(tree.itertext()) != ''.join(self.texts(want)):
                return '%r: text %r instead of %r' % (data, ''.join(self.texts(want)), ''.join(tree.itertext()))
        body = next(c for c in want[2] if c[0] == 'body')
        for f in (lambda: data, lambda: io.BytesIO(data)):
            for kw in ([dict(encoding=enc)] if enc else [{}, dict(encoding=None)]):
                st.step(2)
                got = canon(html5.parse(f(), **kw))
                if got != want:
                    return 'parse(%r, %r) gives %r instead of %r' % (data, kw, got, want)
                got = merged(canon_tree(html5.markup_fragment(f(), **kw), check_parent=False, attr_order=False))
                if got != body:
                    return 'markup_fragment(%r, %r) gives %r instead of %r' % (data, kw, got, body)
                first = next((c for c in body[2] if not isinstance(c, str)), None)
                if first is not None and canon(html5.parse_lax_xml(f(), **kw)) != first:
                    return 'parse_lax_xml(%r, %r) does not give %r' % (data, kw, first)
        for f in (s, io.StringIO(s, newline='')):
            if canon(html5.parse(f, encoding=enc)) != reference(s):
                return 'parse(%r, %r) gives %r' % (s, enc, canon(html5.parse(f, encoding=enc)))
        st.trace()


class H01(HtmlCheck):
    id = 'H01'
    technique = 'exhaustive bounded exploration: all sequences of markup tokens, against another tree builder of html5lib'
    assumptions = ('html5lib 1.1 with its etree builder is the reference; inputs on which it fails itself are only required not to hang.',)

    def families(self, tier):
        q = tier == 'quick'
        def general():
            yield ['', '', 0]
            for a in GENERAL:
                yield [a, '', 0]
                for b in GENERAL:
                    yield [a, b, 1 if q else 2]
        def focus(name):
            toks, lo, hi = FOCUS[name]
            n = lo if q else hi
            def gen_():
                for k in range(1, 3):
                    for s in itertools.product(range(len(toks)), repeat=k):
                        yield [name, list(s), n]
            return gen_
        def deep():
            for t in ('<b>', '<a>', '<i><b>', '<p><b>', '<div>', '<table><tr><td>', '<font><div>', '<svg>', '<b><p>', '<p:q>', '<ul><li>'):
                for n in range(1, 15):
                    for end in ('', 'x', '</b>x', '</a>x', '</p>x', '<p>x</p>y', '</div></b>x', '<table>x<tr>y'):
                        yield [t * n + end]
            for m, n in itertools.product(range(1, 12), repeat=2):
                yield ['<a>' * m + '<div>' * n + '</a>x']
                yield ['<b>' * m + '<p>' * n + '</b>x</p>y']
            for n in (100, 300):
                yield ['<p>x<b>' * n]
                yield ['<table><tr><td>x' * (n // 10)]
        def chars():
            for base in gen.blocks(64, not q):
                cs = [chr(c) for c in range(max(base, 0x250), base + 64) if not 0xd800 <= c < 0xe000]
                if cs:
                    yield ['<div>' + ''.join('<p a="%s" b=%s>%s</p>%sy%s' % (c, c, c, c, c) for c in cs)]
            for c in range(0, 0x250):
                for f in ('x%sy', '<p a="%s">', '<p%s>', '<p a%s=1>', '<%s>', '<title>%s', '<p>%s<table>%s'):
                    yield [f.replace('%s', chr(c))]
                yield ['&#%d;' % c]
                yield ['<p a="&#x%x">' % c]
        names = ['id', 'class', 'style', 'href', 'name', 'title', 'lang', 'xml:lang', 'q:w', 'data-x', 'disabled', 'onclick', 'role', 'xlink:href', 'xmlns', 'W', '_', '1', '\u00e9', 'type']
        def clones():
            # elements that html5lib makes copies of, with attributes
            frames = ['<%(e)s%(a)s><p>x</%(e)s>y', '<p><%(e)s%(a)s>x<p>y<p>z', '<%(e)s%(a)s><div>x</%(e)s>y<p>z', '<table><tr><%(e)s%(a)s>x<td>y', '<%(e)s%(a)s><%(e)s%(b)s><p>x</%(e)s>y</%(e)s>z',
                      '<%(e)s%(a)s><%(e)s%(a)s><%(e)s%(b)s><%(e)s%(a)s><%(e)s%(a)s><p>x</p></%(e)s>y<p>z', '<ul><li><%(e)s%(a)s>x<li>y</%(e)s>']
            values = ['="1"', '=""', '', '=\' &amp;"\'', '="%(e)s"']
            for e in ('b', 'a', 'nobr', 'font', 'code', 'p:b') if not q else ('b', 'a', 'font'):
                for f in frames:
                    for n in names:
                        for v in values:
                            yield [f % {'e': e, 'a': ' ' + n + v % {'e': e} if '%' in v else ' ' + n + v, 'b': ' ' + n + '="2"'}]
                    for n, m in itertools.permutations(names, 2):
                        yield [f % {'e': e, 'a': ' %s=1 %s=2' % (n, m), 'b': ' %s=2 %s=1' % (m, n)}]
        def attributes():
            for e in ('p', 'html', 'body', 'svg', 'math', 'input', 'table', 'p:q', 'a', 'form', 'br', 'script', 'option', 'image', 'isindex'):
                for n in names:
                    for v in ('="1"', '=""', '', "='\"'", '="%s"' % n, '="%s"' % e):
                        yield ['<%s %s%s>x' % (e, n, v)]
                        yield ['<p><%s %s%s>x</%s><%s %s=2 %s=3>' % (e, n, v, e, e, n, n)]
        def confused():
            for x in likely_confused():
                yield [x]
        def longs():
            for t in gen.long_trees(not q):
                yield [markup(t).replace('<b', '<p').replace('</b', '</p')]
        return ([Family('again', lambda: again.cases(1, len(AGAIN)), again.TEXT % (len(AGAIN), 1), self.run_again), Family('confusable', confused, CONTENTS_TEXT, self.run_one), Family('long', longs, 'texts and values of up to 70000 characters: all sequences of up to 2 (3) of %d characters over and over, with 8 others in the middle' % len(gen.LONG), self.run_one), Family('general', general, 'all sequences of up to 3 (4) of %d tokens' % len(GENERAL), self.run_general)]
                + [Family(n, focus(n), 'all sequences of up to %d (%d) of %d tokens' % (v[1], v[2], len(v[0])), self.run_focus) for n, v in FOCUS.items()]
                + [Family('clones', clones, 'formatting elements (3 (6) names) that html5lib copies in 7 situations, with all pairs of 20 attributes', self.run_one),
                   Family('tags', attributes, '15 elements with 20 attributes and 6 values each', self.run_one),
                   Family('deep', deep, 'nesting up to 14 of 11 kinds with 8 endings, adoption of up to 11 by 11 elements', self.run_one),
                   Family('characters', chars, 'characters up to U+024F in 7 places, as such and as references; all of the BMP and at the ends of each plane (thorough: all) alone and at both ends of texts and values', self.run_one)])

    def compare(self, source, st):
        from amara3.uxml import html5
        st.step()
        want = reference(source)
        try:
            got = html5.parse(source)
        except Exception as e:
            if want is None:
                st.outcome('html5lib fails')
                return None
            return '%r: unexpected %r' % (source, e)
        if want is None:
            st.outcome('html5lib fails with etree only')
            return None
        try:
            got = canon(got)
        except BadTree as e:
            return '%r: %s' % (source, e)
        if got != want:
            return '%r gives %r instead of %r' % (source, got, want)
        return None

    def run_again(self, case, st):
        from amara3.uxml import html5
        return again.run(case, st, [('parse', html5.parse, reference)], AGAIN)

    def run_general(self, case, st):
        a, b, more = case
        n = 0
        for s in sequences(GENERAL, 0, more):
            n += 1
            msg = self.compare(a + b + s, st)
            if msg:
                return msg
        st.distinct(n)
        st.trace(n)

    def run_focus(self, case, st):
        name, head, n = case
        toks = FOCUS[name][0]
        head = [toks[i] for i in head]
        k = 0
        for s in sequences(toks, 0, n - 2 if len(head) == 2 else 0):
            k += 1
            msg = self.compare(''.join(head) + s, st)
            if msg:
                return msg
        st.distinct(k)
        st.trace(k)

    def run_one(self, case, st):
        st.state(case[0])
        msg = self.compare(case[0], st)
        st.trace()
        return msg


DOCS = ['', 'x', '<p>x', '<p><b>x</p>y', '<table>x<tr><td>y', '<a><p>x</a>y', '<svg><a xlink:href=1>x</a></svg>', '<!--c-->', '<p>x<!--c-->y</p>', '<b>1<p>2</b>3', '<p:b>x</p:b>', '<ul><li>1<li>2</ul>',
        '<title>t</title><p a=1 b=2>', '<html l=w><body k=v>x', '<select><option>1<option>2', '<script>a<b</script>', '<form><input></form>', '<i><b><u>x</i>y</u>z', '<br><hr>', '<frameset><frame>',
        '<p>a</p> <p>a</p> <p>a</p>', '<!DOCTYPE html><html><head></head><body></body></html>', '<table><tr><td><table>x</table>', '<math><mi>x</mi></math>', '<template><p>x</template>', '<b>' * 12 + 'x',
        '&amp;&lt;&#233;\u00e9', '<div><div><p></div>x</div>']


class H02(HtmlCheck):
    id = 'H02'
    technique = 'exhaustive bounded exploration: all sequences of markup tokens, invariants of every tree; all histories of parses'
    assumptions = ('Names that are not MicroXML names make the encoding unparseable; parsing it again is checked for the others.',)
    QUERIES = ['//node()', '//@*', '/html/body', '//text()|//*', '//*/..', '//b/ancestor::*', '//node()[2]', 'count(//*)', 'string(/)', '//text()/following::node()', '//*/preceding-sibling::node()']

    def families(self, tier):
        q = tier == 'quick'
        n = 3 if q else 4
        def general():
            for s in sequences(GENERAL, 0, 2):
                yield [s, 0]
            for a in GENERAL if not q else GENERAL[:22]:
                for b in GENERAL:
                    yield [a + b, 1]
        def focus():
            for name, (toks, lo, hi) in FOCUS.items():
                for s in sequences(toks, 0, 2):
                    yield [s, 0]
                if name in ('formatting', 'table', 'foreign', 'colons'):
                    for s in sequences(toks, 3, n):
                        yield [s, 0]
        def histories():
            for a, b in itertools.product(range(len(DOCS)), repeat=2):
                yield [[a, b]]
            if not q:
                for h in itertools.product(range(0, len(DOCS), 2), repeat=3):
                    yield [list(h)]
        def edits():
            for s in DOCS:
                yield [s]
            for s in sequences(GENERAL[:20], 2, 2):
                yield [s]
        def scale():
            for k in gen.sizes(most=257 if q else 1025):
                for t in ('<p>x', '<b>', '<b>x</b>', '<div>x', '<br>', '<i>x<p>', '<td>x', '<li>x', 'x<!--c-->', '<a>x', '<table>x', '<svg><a>x</a></svg>'):
                    if k <= 35 or t in ('<p>x', '<b>x</b>', '<br>', 'x<!--c-->'):
                        yield ['s' if k <= 35 else 'l', ('<table><tr>' if t == '<td>x' else '') + t * k]
                yield ['l', '<p ' + ' '.join('k%d="%d"' % (i, i) for i in range(k)) + '>' + 'x' * k]
        def confused():
            for x in likely_confused():
                yield [x, 0]
        def longs():
            for t in gen.long_trees(not q):
                m = markup(t).replace('<b', '<p').replace('</b', '</p')
                if len(m) < 9000 or '&' not in m and len(t[2]) < 100:    # (html5lib reads character references slowly)
                    yield [m, 0]
        return [Family('long', longs, 'texts and values of up to 70000 characters: all sequences of up to 2 (3) of %d characters over and over, with 8 others in the middle' % len(gen.LONG), self.run_case),
                Family('confusable', confused, CONTENTS_TEXT, self.run_case),
                Family('encodings', self.encodings, '12 encodings given (or none) times 5 declarations in the document and 10 texts, for each function, from bytes and files', self.run_encoding),
                Family('scale', scale, '12 tokens up to 35 times, 4 up to 257 (1025) times, also from one parser', self.run_scale),
                Family('general', general, 'all sequences of up to 3 of %d tokens (the first of 22)' % len(GENERAL), self.run_case),
                Family('focused', focus, 'sequences of up to 3 (4) tokens of special sets', self.run_case),
                Family('histories', histories, 'all sequences of 2 (3) parses of %d documents, each from str, bytes and files' % len(DOCS), self.run_history),
                Family('edits', edits, 'each element of the tree taken out and put back', self.run_edits)]

    def run_case(self, case, st):
        s, more = case
        for t in ([s] if not more else [s + x for x in GENERAL]):
            msg = self.invariants(t, st)
            if msg:
                return '%r: %s' % (t, msg)
        st.trace()

    def invariants(self, s, st):
        from amara3.uxml import html5, tree, uxpath
        from .xpath import Bound, query, expected
        st.state(s)
        st.step()
        if reference(s) is None:
            st.outcome('html5lib fails')
            return None
        e = html5.parse(s)
        t = canon_tree(e, attr_order=False)
        if t[0] != 'html':
            return 'the top element is %s' % t[0]
        seen = set()
        stack = [e]
        while stack:
            x = stack.pop()
            if id(x) in seen:
                return '%r is in the tree twice' % x
            seen.add(id(x))
            if isinstance(x, tree.element):
                stack += x.xml_children
            elif x.xml_children:
                return 'text with children'
        m = merged(t)
        if encodable(m):
            again = canon(tree.parse(e.xml_encode()))
            if again != m:
                return 'encoded as %r' % e.xml_encode()
        else:
            st.outcome('names that are not MicroXML')
        if e.xml_value != ''.join(x for x in self.texts(m)):
            return 'value %r' % e.xml_value
        b = Bound(canon_tree(e), e)
        for text in self.QUERIES:
            if not hasattr(self, 'asts'):
                self.asts = {}
            if text not in self.asts:
                self.asts[text] = refxp.parse(text)
            got = [b.canon(x) for x in e.xml_xpath(text)]
            if got != expected(self.asts[text], b.doc[0]):
                return 'query %s gives %r' % (text, got)
        return None

    def run_scale(self, case, st):
        from amara3.uxml import html5
        kind, s = case
        if kind == 's':
            msg = self.invariants(s, st)
            if msg:
                return '%r: %s' % (s, msg[:1500])
        st.state(s)
        want = reference(s)
        e = html5.parse(s)
        st.step()
        if canon(e) != want:
            return '%r... gives %s instead of %s' % (s[:50], repr(canon(e))[:600], repr(want)[:600])
        st.trace()

    def run_history(self, case, st):
        from amara3.uxml import html5
        h = case[0]
        st.state(tuple(h))
        kept = []
        for k, i in enumerate(h):
            s = DOCS[i]
            want = reference(s)
            forms = [s, io.StringIO(s)]
            if s.isascii():
                forms += [s.encode('ascii'), io.BytesIO(s.encode('ascii'))]
            for f in forms:
                e = html5.parse(f)
                st.step()
                if canon(e) != want:
                    return '%r as %s gives %r after %r' % (s, type(f).__name__, canon(e), [DOCS[j] for j in h[:k]])
                kept.append((e, want, s))
        for e, want, s in kept:
            if canon(e) != want:
                return 'the tree for %r was changed later: %r' % (s, canon(e))
        st.trace()

    def run_edits(self, case, st):
        from amara3.uxml import html5, tree
        s = case[0]
        e = html5.parse(s)
        st.state(s)
        elements = []
        def rec(x):
            for c in x.xml_children:
                if isinstance(c, tree.element):
                    elements.append(c)
                    rec(c)
        rec(e)
        for x in elements:
            before = canon_tree(e)
            p = x.xml_parent
            i = next(k for k, c in enumerate(p.xml_children) if c is x)
            p.xml_remove(x)
            st.step()
            if x.xml_parent is not None:
                return '%r: %r has a parent after its removal' % (s, x)
            canon_tree(e), canon_tree(x)
            p.xml_insert(x, i)
            if canon_tree(e) != before:
                return '%r: %r put back at %d gives %r' % (s, x, i, canon_tree(e))
        st.trace()


class H03(HtmlCheck):
    id = 'H03'
    technique = 'exhaustive bounded exploration: all sequences of markup tokens, against the tree of the whole document'
    assumptions = ('Documents without a body (framesets) and inputs on which html5lib fails are not covered.',)

    def families(self, tier):
        q = tier == 'quick'
        def general():
            for s in sequences(GENERAL, 0, 1):
                yield [s]
            for a in GENERAL:
                for b in GENERAL:
                    yield [a + b, GENERAL if not q else GENERAL[::2]]
        lax = ['<a>', '</a>', '<b x="1">', '</b>', '<b/>', '<?pi x?>', '<!--c-->', 'x', ' ', '<![CDATA[x]]>', '<!DOCTYPE a>', '&amp;', '<p:a xmlns:p="u">', '<A>', '<head>', '</head>', '<body>']
        def xmlish():
            for s in sequences(lax, 0, 2):
                yield [s, lax]
            if not q:
                for s in sequences(lax, 3, 3):
                    yield [s, lax]
        def confused():
            for x in likely_confused():
                yield [x]
        def longs():
            for t in gen.long_trees(not q):
                yield [markup(t).replace('<b', '<p').replace('</b', '</p')]
        return [Family('again', lambda: again.cases(3, 3), again.TEXT % (3, 3), self.run_again),
                Family('long', longs, 'texts and values of up to 70000 characters: all sequences of up to 2 (3) of %d characters over and over, with 8 others in the middle' % len(gen.LONG), self.run_case),
                Family('confusable', confused, CONTENTS_TEXT, self.run_case),
                Family('encodings', self.encodings, '12 encodings given (or none) times 5 declarations in the document and 10 texts, for each function, from bytes and files', self.run_encoding),
                Family('general', general, 'all sequences of up to 3 tokens (the last of 19)', self.run_case),
                Family('lax', xmlish, 'all sequences of up to 3 (4) of 17 tokens of careless XML', self.run_case)]

    def run_again(self, case, st):
        from amara3.uxml import html5
        def body(doc):
            return next(c for c in reference(doc)[2] if not isinstance(c, str) and c[0] == 'body')
        return again.run(case, st, [('markup_fragment', html5.markup_fragment, body), ('parse_lax_xml', html5.parse_lax_xml, lambda doc: next(c for c in body(doc)[2] if not isinstance(c, str))), ('parse', html5.parse, reference)], AGAIN)

    def run_case(self, case, st):
        for x in case[1] if len(case) > 1 else ['']:
            msg = self.judge(case[0] + x, st)
            if msg:
                return '%r: %s' % (case[0] + x, msg)
        st.trace()

    def judge(self, s, st):
        from amara3.uxml import html5, tree
        st.state(s)
        ref = reference(s)
        if ref is None:
            return None
        body = next((c for c in ref[2] if c[0] == 'body' and not isinstance(c, str)), None)
        if body is None:
            st.outcome('no body')
            return None
        first = next((c for c in body[2] if not isinstance(c, str)), None)
        st.step(2)
        frag = html5.markup_fragment(s)
        got = merged(canon_tree(frag, check_parent=False, attr_order=False))
        if got != body:
            return 'markup_fragment gives %r instead of %r' % (got, body)
        try:
            e = html5.parse_lax_xml(s)
        except ValueError as ex:
            st.outcome('ValueError')
            return None if first is None else 'ValueError: %s' % ex
        if first is None:
            return 'parse_lax_xml gives %r, although there is no element' % e
        if e.xml_parent is not None:
            return 'parse_lax_xml: still has a parent'
        if canon(e) != first:
            return 'parse_lax_xml gives %r instead of %r' % (canon(e), first)
        if encodable(first) and canon(tree.parse(e.xml_encode())) != first:
            return 'encoded as %r' % e.xml_encode()
        st.outcome('element')


class H04(HtmlCheck):
    id = 'H04'
    technique = 'exhaustive bounded exploration: all sequences of markup tokens and patterns, against a declarative matcher'
    assumptions = ('Reference: mc/refpat.py over the tree of html5lib; outermost matches only, as for MicroXML.',)

    def families(self, tier):
        q = tier == 'quick'
        toks = ['<p>', '</p>', '<b>', '</b>', '<div a=1>', '</div>', 'x', '<table>', '<td>', '<!--c-->', '<p:b>', ' ', '<ul>', '<li>', '<a h=1 i=2>', '</a>']
        pats = [('html',), ('html', 'body'), ('html', 'body', '*'), ('**', 'p'), ('**', 'b'), ('html', '*', 'p', 'b'), ('html', 'head'), ('**', 'body', '**', 'b'), ('**', ('p', 'div', 'td')),
                ('html', 'body', '**', 'a'), ('**', 'table', '**', 'td'), ('**', 'li'), ('p',), ('html', 'body', ('ul', 'p'), '*'), ('**', 'nothing')]
        def general():
            for s in sequences(toks, 0, 3 if q else 4):
                yield [s, pats]
        def several():
            for s in DOCS:
                for a, b in itertools.product(range(len(pats)), repeat=2):
                    yield [s, [pats[a], pats[b]], 'both']
        def scale():
            for k in gen.sizes(most=257 if q else 1025):
                for t in ('<p>x', '<b>x</b>', '<div>x</div><p>', '<ul><li>1<li>2</ul>'):
                    yield [t * k, pats if k < 36 else pats[2:5] + pats[11:12]]
                if k < 36:
                    yield ['<div>' * k + 'x', pats]
                    yield ['<p><b>x</b><ul><li>y', (pats * 3)[:k], 'both']
        def confused():
            for m, n in gen.confusable():
                for a, b in ((m, n), ('x-' + m, 'x-' + n)):
                    yield [markup(gen.confusable_tree(a, b)), [('**', b.lower()), ('html', 'body', '*', b), ('**', a.lower(), b.lower()), ('html', 'body', (a.lower(), 'p')), ('**', (b + 'x', b.lower()))]]
            for a, b in gen.contents():
                yield [markup(gen.content_tree(a, b)).replace('<c', '<div').replace('</c', '</div').replace('<b', '<p').replace('</b', '</p'), [('html', 'body'), ('**', 'p'), ('**', 'div'), ('html', 'body', '*')]]
        def steps():
            for t, ps in gen.long_patterns(('x-a', 'x-b'), 65 if q else 129):
                ps = [('html', 'body') + tup(p) for p in ps]
                for i in range(0, len(ps), 8):
                    yield [markup(t), ps[i:i + 8]]
        def sources():
            starts = [b'', b'\xef\xbb\xbf', b'\xff\xfe', b'\xfe\xff', b' ', b'\n', b'<?xml version="1.0" encoding="koi8-r"?>', b'<!--\xff-->']
            metas = [b'', b'<meta charset=utf-8>', b'<meta charset=koi8-r>', b'<meta http-equiv=content-type content="text/html; charset=shift_jis">', b'<!--' + b'c' * 1100 + b'-->', b'c' * 10240]
            texts = [b'', b'<p>x', b'<p>a\xffb</p>', b'<p a=\xe9>\xc3\xa9', b'<p>\xc3', b'<p>\xed\xa0\x80', b'<p>\x83\x41<b>\x81', b'<p>a\x00b', b'<p>x\r\ny\r', b'<p>x \n', b'<p>x\xc2\xa0', b'<p>x\xa0', b'<p>\x1a\x0c', b'<\x00p\x00>\x00\x16\x04', b'\x00<\x00p\x00>\x04\x16']
            for s, m, t in itertools.product(starts, metas, texts):
                yield [(s + m + t).decode('latin-1')]
        def joints():
            for t, a, b in gen.joints('x-'):
                yield [markup(t), [('html', 'body') + p if p[0] != '**' else p for p in gen.joint_patterns(a, b)]]
        def longs():
            for t in gen.long_trees(not q):
                yield [markup(t).replace('<b', '<p').replace('</b', '</p'), pats[:4] + [('**', 'p', '*'), ('html', 'body', '*', 'p')]]
        return [Family('long', longs, 'texts and values of up to 70000 characters: all sequences of up to 2 (3) of %d characters over and over, with 8 others in the middle' % len(gen.LONG), self.run_case),
                Family('confusable', confused, CONTENTS_TEXT, self.run_case),
                Family('joints', joints, '%d pairs of paths whose names give the same when put together, 20 patterns' % len(gen.JOINTS), self.run_case),
                Family('sources', sources, '8 starts, 6 declarations, 15 contents (other encodings, bytes that are none, white space at the end), as bytes, str and files', self.run_source),
                Family('steps', steps, 'chains of up to 65 (129) elements, patterns of as many stages: names, or a wildcard, "**", tuple or other name at one place', self.run_case),
                Family('scale', scale, '4 tokens up to 257 (1025) times; up to 35 levels, patterns', lambda c, st: self.run_several(c, st) if len(c) > 2 else self.run_case(c, st)),
                Family('tokens', general, 'all sequences of up to 3 (4) of %d tokens, %d patterns' % (len(toks), len(pats)), self.run_case),
                Family('several', several, '%d documents, all pairs of patterns in one sender, used twice' % len(DOCS), self.run_several)]

    def deliver(self, s, pats, twice=False):
        from amara3.uxml import html5iter
        accs = [[] for _ in pats]
        def sink(acc):
            while True:
                e = yield
                acc.append(canon(e))
                exact.append(canon_tree(e, attr_order=False))
        exact = self.exact = []
        sender = html5iter.sender([p for p in pats], [sink(a) for a in accs])
        sender.parse(s)
        if twice:
            first = [list(a) for a in accs]
            for a in accs:
                a.clear()
            sender.parse(s)
            return accs if first == accs else [first, accs]
        return accs

    def run_case(self, case, st):
        s, pats = tup(case)
        ref = reference(s)
        st.state(s)
        if ref is None:
            return
        for p in pats:
            want = list(refpat.outermost(p, ref))
            got, = self.deliver(s, [p])
            st.step()
            if got != want:
                return '%r of %r delivers %r instead of %r' % (p, s, got, want)
            if p == ('html',) and len(s) > 1000 and '<!' not in s:    # All of it, and each text as one
                from amara3.uxml import html5
                want = canon_tree(html5.parse(s), attr_order=False)
                if self.exact != [want]:
                    return '%r of %r delivers %r instead of %r' % (p, s, self.exact, want)
        st.trace()

    def run_source(self, case, st):
        from amara3.uxml import html5
        data = case[0].encode('latin-1')
        st.state(case[0])
        for what, make in (('bytes', lambda: data), ('str', lambda: case[0]), ('BytesIO', lambda: io.BytesIO(data)), ('StringIO', lambda: io.StringIO(case[0]))):
            try:
                ref = canon(html5.parse(make()))
            except Exception as e:
                ref = type(e).__name__
            for p in (('html',), ('**', 'p'), ('html', 'body')):
                st.step()
                try:
                    got, = self.deliver(make(), [p])
                except Exception as e:
                    got = type(e).__name__
                want = ref if isinstance(ref, str) else list(refpat.outermost(p, ref))
                if got != want:
                    return '%r of %r as %s delivers %r instead of %r' % (p, data, what, got, want)
        st.trace()

    def run_several(self, case, st):
        s, pats, _ = tup(case)
        ref = reference(s)
        st.state((s, pats))
        if ref is None:
            return
        got = self.deliver(s, pats, True)
        want = [list(refpat.outermost(p, ref)) for p in pats]
        st.step()
        if got != want:
            return '%r of %r deliver %r instead of %r' % (pats, s, got, want)
        st.trace()


CHECKS = {c.id: c for c in (H01, H02, H03, H04)}
