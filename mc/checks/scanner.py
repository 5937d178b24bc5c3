"""P06: the MicroXML scanner"""
import io, itertools, sys
from .. import gen, refxml
from ..core import Check, Family
from ..observe import tup

ENTITIES = {'&amp;': 'AMP_ENT', '&lt;': 'LT_ENT', '&gt;': 'GT_ENT', '&quot;': 'QUOT_ENT', '&apos;': 'APOS_ENT'}
QUOTES = {"'": 'SGL_QUOTE', '"': 'DBL_QUOTE'}


class Doc:
    """A document put together of pieces, with the tokens that spell it: (type, value, offset)"""
    def __init__(self):
        self.s, self.tokens, self.open = '', [], []

    def put(self, source, type_=None, value=None):
        if type_ == 'CHARDATA' and self.tokens and self.tokens[-1][0] == 'CHARDATA' and self.tokens[-1][2] + len(self.tokens[-1][1]) == len(self.s):
            t = self.tokens.pop()
            self.tokens.append((t[0], t[1] + source, t[2]))
        elif type_:
            self.tokens.append((type_, source if value is None else value, len(self.s)))
        self.s += source

    def chars(self, pieces):
        for p in pieces:
            if p in ENTITIES:
                self.put(p, ENTITIES[p])
            elif p.startswith('&#x'):
                self.put(p, 'NUM_ENT', p[3:-1])
            else:
                self.put(p, 'CHARDATA')

    def start(self, name, attrs=(), end='', empty=False):
        """attrs: (space, name, space, space, quote, pieces)"""
        first = '<' + name + (attrs[0][0] if attrs else end)
        self.put(first, 'STARTTAG', name)
        for i, (space, aname, before, after, quote, pieces) in enumerate(attrs):
            if i:
                self.put(space)
            self.put(aname, 'NAME')
            self.put(before)
            self.put('=', 'EQ')
            self.put(after)
            self.put(quote, QUOTES[quote])
            self.chars(pieces)
            self.put(quote, QUOTES[quote])
        if attrs:
            self.put(end)
        if empty:
            self.put('/>', 'EMPTYGT')
        else:
            self.put('>', 'GT')
            self.open.append(name)

    def end(self, space=''):
        name = self.open.pop()
        self.put('</%s%s>' % (name, space), 'ENDTAG', name)

    def comment(self, text):
        self.put('<!--%s-->' % text, 'COMMENT', text)

    def close(self):
        while self.open:
            self.end()
        return self


SPACES = [' ', '\n', '\t', '  \n', ' ' * 5]
VALUE = ['x', ' ', '\n', '\t', '=', '/', '#', 'a="', '&amp;', '&lt;', '&gt;', '&quot;', '&apos;', '&#x41;', '&#x10FFFD;', '\u00e9', '\U0001F600', ';', '-', '\\', ']', '#text']
CONTENT = ['x', ' ', '\n', '\t', '"', "'", '=', '/', '-->', '--', ']]', '&amp;', '&lt;', '&gt;', '&quot;', '&apos;', '&#x41;', '&#xa;', '\u00e9', '\U0001F600', 'a', '!', '\\',
           '<a>', '<b c="d">', '<a/>', '</>', '</ >', '<!---->', '<!--x-->', '<!--<a>-->', '<!-- & -->', '<!--a - b-->', '<!--\n-->', "<!--'-->", '<!-->-->', '<!--<!-->']
COMMENT = ['-', 'x', ' ', '<', '>', '&', '\n', '"', '!', '<!--', '/', '\u00e9', '&amp;', '</a>']


class P06(Check):
    id = 'P06'
    technique = 'exhaustive bounded exploration: all documents put together of pieces up to a bound, with the tokens that spell them'
    assumptions = ('Documents are well-formed MicroXML, without a byte order mark; > in data and white space after < are not covered. Adjacent CHARDATA tokens count as one.',)

    def setup(self):
        from amara3.uxml import lex     # noqa

    def families(self, tier):
        q = tier == 'quick'
        def content():
            for n in range(0, 3):
                for p in itertools.product(range(len(CONTENT)), repeat=n):
                    yield [list(p), 1 if n == 2 else 0, q]
        def values():
            for quote in QUOTES:
                for n in range(0, 2):
                    for p in itertools.product(range(len(VALUE)), repeat=n):
                        yield [quote, list(p), (2 if q else 3) if n == 1 else 0]
        def tags():
            for spaces in itertools.product([0, 1, 3] if q else [0, 1, 2, 3], repeat=4):
                yield list(spaces)
        def comments():
            for n in range(0, 2):
                for p in itertools.product(range(len(COMMENT)), repeat=n):
                    yield [list(p), (3 if q else 4) if n == 1 else 0]
        def chars():
            for base in range(0, 0x110000, 64):
                if base < 0x10000 or base % 0x10000 < 64 or (base + 64) % 0x10000 < 64 or not q:
                    yield [base]
        def breaks():
            for n in range(1, 5 if q else 7):
                for p in itertools.product(['\r', '\n', '\r\n', 'x', '<b>', '&amp;'], repeat=n):
                    yield [list(p)]
            # what other functions take for line breaks
            for n in range(1, 4 if q else 5):
                for p in itertools.product(['\r', '\n', '\u2028', '\u2029', '\t', '<b>', 'x'], repeat=n):
                    yield [list(p)]
            # many
            for n in (1, 2, 3):
                for p in itertools.product(['\r', '\n', '\r\n', '\u2028', 'x', '<b>'], repeat=n):
                    for times in (12, 300):
                        yield [list(p) * times]
        def scale():
            for k in gen.sizes(3000) if q else gen.sizes(3000, 100000):
                for what in ('text', 'value', 'name', 'comment', 'refs', 'depth', 'width', 'attributes', 'spaces', 'digits'):
                    yield [what, k]
        def trees():
            for m, n in gen.confusable():
                yield [gen.confusable_tree(m, n)]
            for a, b in gen.contents():
                yield [gen.content_tree(a, b)]
            for t in gen.character_trees(not q):
                yield [t]
            for t in gen.trees(3, ('a', 'ab'), ('', 'x', ' ')):
                yield [t]
        return [Family('trees', trees, 'trees of up to 3 elements; all pairs of names and of texts that could be taken for one another; every character alone and at both ends of texts and values', self.run_tree),
                Family('content', content, 'all sequences of up to 3 of %d pieces of content' % len(CONTENT), self.run_content),
                Family('values', values, 'attribute values of up to 3 (4) of %d pieces, in either quotes, first or second attribute' % len(VALUE), self.run_values),
                Family('tags', tags, 'tags with up to 2 attributes, white space of 3 (4) kinds in every place, end and empty-element tags', self.run_tags),
                Family('comments', comments, 'comments of up to 4 (5) of %d pieces' % len(COMMENT), self.run_comments),
                Family('characters', chars, 'every BMP character (thorough: every character) in data, values, comments, and names of elements and attributes', self.run_chars),
                Family('line-breaks', breaks, 'all sequences of up to 4 (6) pieces (up to 3 repeated up to 300 times) with the three line breaks in data, values, comments and tags', self.run_breaks),
                Family('scale', scale, 'up to 3000 (100000) characters, elements, attributes', self.run_scale)]

    def judge(self, doc, st, source=None):
        from amara3.uxml import lex
        st.step()
        saved, sys.stderr = sys.stderr, io.StringIO()
        try:
            toks = list(lex.run(doc.s if source is None else source))
            noise = sys.stderr.getvalue()
        except Exception as e:
            return '%r: unexpected %r' % (doc.s[:200], e)
        finally:
            sys.stderr = saved
        got = []
        for t in toks:
            if t.type == 'CHARDATA' and got and got[-1][0] == 'CHARDATA' and got[-1][2] + len(got[-1][1]) == t.lexpos:
                got[-1] = ('CHARDATA', got[-1][1] + t.value, got[-1][2])
            else:
                got.append((t.type, t.value, t.lexpos))
        if got != doc.tokens:
            i = next((i for i, (x, y) in enumerate(zip(got, doc.tokens)) if x != y), min(len(got), len(doc.tokens)))
            return '%r gives tokens %r instead of %r from the %dth on' % (doc.s[:200], got[i:i + 4], doc.tokens[i:i + 4], i)
        if noise:
            return '%r: complains %r' % (doc.s[:200], noise[:200])
        st.state(doc.s)

    def piece(self, d, p):
        if p == '<a>':
            d.start('a')
        elif p == '<b c="d">':
            d.start('b', [(' ', 'c', '', '', '"', ['d'])])
        elif p == '<a/>':
            d.start('a', empty=True)
        elif p in ('</>', '</ >'):
            if len(d.open) > 1:
                d.end(p[2:-1])
        elif p.startswith('<!--') and len(p) > 5:
            d.comment(p[4:-3])
        elif p.startswith('<!-'):
            d.comment(p[4:-3])
        elif p == '-->':
            d.put('--', 'CHARDATA')
        else:
            d.chars([p])

    def run_tree(self, case, st):
        def pieces(text, quote=''):
            for c in text:
                yield {'&': '&amp;', '<': '&lt;', '>': '&gt;', quote: '&quot;' if quote == '"' else '&apos;'}.get(c, c)
        d = Doc()
        def rec(n, i):
            if isinstance(n, str):
                d.chars(pieces(n))
                return
            q = '"\''[i % 2]
            d.start(n[0], [(' ', a, '', '', q, list(pieces(v, q))) for a, v in n[1]], empty=not n[2] and i % 3 == 0)
            for k, c in enumerate(n[2]):
                rec(c, i + k + 1)
            if n[2] or i % 3:
                d.end()
        for i in range(2):
            d.__init__()
            rec(tup(case[0]), i)
            msg = self.judge(d, st)
            if msg:
                return msg
        st.trace()

    def run_content(self, case, st):
        ix, more, q = case
        for rest in itertools.product(CONTENT, repeat=more):
            d = Doc()
            d.start('r')
            for p in [CONTENT[i] for i in ix] + list(rest):
                if p == '<!-->-->':
                    continue        # not a comment
                self.piece(d, p)
            msg = self.judge(d.close(), st)
            if msg:
                return msg
        st.trace()

    def run_values(self, case, st):
        quote, ix, more = case
        for k in range(more + 1):
            for rest in itertools.product(VALUE, repeat=k):
                pieces = [VALUE[i] for i in ix] + list(rest)
                if quote == '"':
                    pieces = [p.replace('"', "'") for p in pieces]
                other = "'" if quote == '"' else '"'
                pieces = pieces + [other] if k == 1 else pieces
                d = Doc()
                if k == more and more > 1:
                    d.start('r', [(' ', 'a', '', '', quote, pieces)])
                else:
                    d.start('r', [(' ', 'a', '', '', other, ['x']), (' ', 'b', '', '', quote, pieces)])
                d.put('y', 'CHARDATA')
                msg = self.judge(d.close(), st)
                if msg:
                    return msg
        st.trace()

    def run_tags(self, case, st):
        sp = ['', ' ', '\n', '\t  ']
        a, b, c, e = (sp[i] for i in case)
        for quote in QUOTES:
            for names in (['b', 'c'], ['a', 'a.b-c'], ['\u00e9', '_']):
                for n in (0, 1, 2):
                    for empty in (False, True):
                        for end in sp:
                            d = Doc()
                            attrs = [(a or ' ', names[0], b, c, quote, ['v']), (c or '\n', names[1], c, b, "'", ['w'])][:n]
                            d.start('r', (), end)
                            d.put(b, 'CHARDATA') if b else None
                            d.start('e', attrs, e, empty)
                            d.put('x', 'CHARDATA')
                            while d.open:
                                d.end(end)
                            msg = self.judge(d, st)
                            if msg:
                                return msg
        st.trace()

    def run_comments(self, case, st):
        ix, more = case
        for k in range(more + 1):
            for rest in itertools.product(COMMENT, repeat=k):
                text = ''.join([COMMENT[i] for i in ix] + list(rest))
                if '--' in text or text.endswith('-') or text.startswith(('>', '->')):
                    continue
                d = Doc()
                if k == 1:
                    d.comment(text)
                d.start('r')
                d.comment(text)
                d.put('x', 'CHARDATA')
                d.comment(text)
                d.comment('')
                msg = self.judge(d.close(), st)
                if msg:
                    return msg
        st.trace()

    def run_chars(self, case, st):
        base, = case
        ok = [chr(c) for c in range(base, base + 64) if refxml.is_char(c)]
        for c in ok:
            if c not in '<>&':
                d = Doc()
                d.start('r', [(' ', 'a', '', '', q, ['x', c]) for q in QUOTES if q != c])
                d.chars([c, 'x', c])
                if c != '-':
                    d.comment(c)
                d.start('b')
                d.chars([c])
                msg = self.judge(d.close(), st)
                if msg:
                    return msg
            n = ord(c)
            for name in [x for x, fine in ((c, refxml.is_name_start(n)), ('a' + c, refxml.is_name_char(n)), ('a' + c + 'b', refxml.is_name_char(n))) if fine]:
                d = Doc()
                d.start(name, [(' ', name, '', '', '"', [name])])
                d.start(name)
                d.end(' ')
                d.start(name, empty=True)
                msg = self.judge(d.close(), st)
                if msg:
                    return msg
        st.trace()

    def run_breaks(self, case, st):
        pieces, = case
        for where in ('content', 'value', 'comment', 'tag'):
            source = Doc()
            for norm in (False, True):
                d = Doc()
                # decided on the whole text, since \r before \n makes one line break
                text = ''.join(pieces)
                if norm:
                    text = text.replace('\r\n', '\n').replace('\r', '\n')
                if where == 'content':
                    d.start('r')
                    for part in text.replace('<b>', '\0<\0').replace('&amp;', '\0&\0').split('\0'):
                        if part == '<':
                            d.start('b')
                        elif part == '&':
                            d.chars(['&amp;'])
                        elif part:
                            d.chars([part])
                elif where == 'comment':
                    d.start('r')
                    d.comment(text)
                elif '<b>' in pieces or '&amp;' in pieces or where == 'tag' and set(pieces) & {'x', '\u2028', '\u2029'}:
                    d = None
                    break
                elif where == 'value':
                    d.start('r', [(' ', 'a', '', '', '"', [text] if text else [])])
                else:
                    d.start('r', [(text, 'a', text, text, "'", ['v'])], text)
                d.close()
                if not norm:
                    source = d
            if d is not None:
                msg = self.judge(d, st, source.s)
                if msg:
                    return '%s (from %r)' % (msg, source.s)
        st.trace()

    def run_scale(self, case, st):
        what, k = case
        d = Doc()
        if what == 'name':
            d.start('n' * k, [(' ', 'n' * k, '', '', '"', ['x'])])
        elif what == 'value':
            d.start('r', [(' ', 'a', '', '', q, ['x' * k, '&lt;', 'y' * k]) for q in QUOTES])
        elif what == 'attributes':
            d.start('r', [(' ', 'a%d' % i, '', '', '"', [str(i)]) for i in range(k)])
        elif what == 'digits':
            refs = ['&#x%s41;' % ('0' * k), 'x', '&#x%sA;' % ('0' * k), '&#x%sfdf0;' % ('0' * k)]
            d.start('r', [(' ', 'a', '', '', q, refs) for q in QUOTES])
            d.chars(refs)
        elif what == 'spaces':
            d.start('r', [(' ' * k, 'a', '\n' * k, '\t' * k, '"', ['x'])], ' ' * k)
            d.end(' ' * k)
        else:
            d.start('r')
        if what == 'text':
            d.put('x\n' * k, 'CHARDATA')
        elif what == 'comment':
            d.comment('x<' * k)
        for i in range(k if what in ('refs', 'depth', 'width') else 0):
            if what == 'refs':
                d.chars(['&#x41;', 'x', '&amp;'])
            else:
                d.start('b')
                d.put('x', 'CHARDATA')
                if what == 'width':
                    d.end()
                    d.put('y', 'CHARDATA')
        msg = self.judge(d.close(), st)
        st.trace()
        return msg and 'scale %r: %s' % (case, msg)


CHECKS = {c.id: c for c in (P06,)}
