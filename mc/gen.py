"""Generators of documents, trees, cuts and interleavings. All deterministic, simplest first."""
import itertools


def all_cuts(n, k=None):
    """Cut positions within 1..n-1, fewest first; up to k cuts"""
    k = n - 1 if k is None else min(k, n - 1)
    for size in range(0, max(k, 0) + 1):
        yield from itertools.combinations(range(1, n), size)


def split(s, cuts):
    out, last = [], 0
    for c in cuts:
        out.append(s[last:c])
        last = c
    out.append(s[last:])
    return out


def uniform(s, k):
    return [s[i:i + k] for i in range(0, len(s), k)]


def shapes(n):
    """Ordered forests with n nodes as tuples of trees (each a tuple of children)"""
    if n == 0:
        yield ()
        return
    for first in range(1, n + 1):
        for sub in shapes(first - 1):
            for rest in shapes(n - first):
                yield (sub,) + rest


def trees_of_shape(shape, names, slots):
    """All labelings: a name for each element, a text ('' for none) for each slot around and between children"""
    names, slots = list(names), list(slots)

    def label(sh):
        kids = [list(label(c)) for c in sh]
        for name in names:
            for texts in itertools.product(slots, repeat=len(sh) + 1):
                for combo in itertools.product(*kids):
                    children = []
                    for t, c in itertools.zip_longest(texts, combo):
                        if t:
                            children.append(t)
                        if c is not None:
                            children.append(c)
                    yield (name, (), tuple(children))
    yield from label(shape)


def trees(max_elements, names, slots, min_elements=1):
    for n in range(min_elements, max_elements + 1):
        for forest in shapes(n - 1):
            yield from trees_of_shape(forest, names, slots)


def elements_only(max_elements, names, min_elements=1):
    yield from trees(max_elements, names, ('',), min_elements)


def with_attrs(t, attr_sets):
    """All assignments of attribute sets to the elements of t"""
    def rec(x):
        if isinstance(x, str):
            yield x
            return
        kids = [list(rec(c)) for c in x[2]]
        for attrs in attr_sets:
            for combo in itertools.product(*kids):
                yield (x[0], attrs, tuple(combo))
    yield from rec(t)


def interleavings(lengths):
    """All sequences of instance numbers in which instance i occurs lengths[i] times"""
    def rec(left):
        if not any(left):
            yield ()
            return
        for i, n in enumerate(left):
            if n:
                nxt = list(left)
                nxt[i] -= 1
                for rest in rec(nxt):
                    yield (i,) + rest
    yield from rec(list(lengths))


def count_elements(t):
    return 0 if isinstance(t, str) else 1 + sum(map(count_elements, t[2]))


# Sizes for families that look for thresholds: all small ones, and those around powers of 2 and 10
SWEEP = list(range(0, 36)) + [49, 50, 51, 63, 64, 65, 66, 99, 100, 101, 127, 128, 129, 199, 200, 255, 256, 257]
LARGE = [499, 500, 501, 511, 512, 513, 999, 1000, 1001, 1023, 1024, 1025]


def sizes(*more, most=10**9):
    """SWEEP, LARGE and more, without 0"""
    return [k for k in sorted(set(SWEEP[1:]) | set(LARGE) | set(more)) if k <= most]


def bushy(k, names='ab', text='x', attrs=True):
    """k elements next to each other, nested to different depths, with elements of their own before and after"""
    def nest(i):
        t = (names[i % len(names)], (('i', str(i)),) if attrs and i % 3 else (), (text,) if i % 2 else ())
        for j in range(i % 4):
            kids = (t,) + ((names[j % len(names)], (), ()),) * (i % 3)
            t = (names[(i + j) % len(names)], (('i', str(j)), ('j', '')) if attrs and j == 1 else (), (text,) * (i % 2) + (kids if i % 5 else kids[::-1]) + (text + 'z',) * (j % 2))
        return t
    return ('r', (), tuple(nest(i) for i in range(k)))


# Names that a careless comparison could take for one another, in groups
CONFUSABLE = [
    ('ab', 'aB', 'AB', 'abc', 'bab', 'ba', 'aab'),
    ('k', 'K', '\u212a', '\u03ba'),
    ('s', '\u017f', 'ss', '\u00df', '\u1e9e'),
    ('\u00e9', 'e\u0301', 'e', 'E'),
    ('\u0130', 'i', 'I', '\u0131', 'i\u0307'),
    ('a.b', 'a-b', 'a_b', 'a1b', 'aab', 'a\u00b7b'),
    ('a1', 'a01', 'a10', 'a-1', '_a1'),
    ('x' * 40 + 'a', 'x' * 40 + 'b', 'x' * 40, 'y' + 'x' * 39 + 'a'),
    ('x' * 300 + 'a', 'x' * 300 + 'b', 'x' * 299 + 'a', 'y' + 'x' * 299 + 'a'),
    ('\U00010000', '\ud7ff', '\ufdf0', '\U00010001', '\U00020000'),
    ('class', 'Class', 'CLASS', 'class_', '_class'),
    ('id', 'Id', 'ID', 'xid', 'i-d'),
]


def confusable():
    """Ordered pairs of different names of one group"""
    for group in CONFUSABLE:
        yield from itertools.permutations(group, 2)


def confusable_tree(m, n):
    """A tree in which m and n name elements and attributes and occur as texts and values"""
    return (m, ((n, m), (m, n)), ((n, ((m, '1'),), (m,)), (m, (), ()), (n, (), ((m, ((n, '2'),), ((n, (), (n,)),)),)),
                                  m, (m, ((m, m), (n, n)), ((m, (), ()), n, (n, (), ()))), (n, (), ())))


def confusable_xml():
    """Those pairs whose names are also names for expat (XML 1.0 before its fifth edition)"""
    from . import refet
    for m, n in confusable():
        if refet.parse('<%s %s="1"/>' % (m, n))[0] == 'yes':
            yield m, n


# Names of namespaces that a program could take apart, or take for one another
NAMESPACES = ['urn:a', 'urn:a/', 'urn:A', 'URN:a', 'urn:a#', 'urn:a#b', 'urn:a?b=c', 'urn:a\tb', 'urn:a\nb', 'urn:a\u00a0b', 'urn:a\u2003b', 'urn:a\u3000', '\u00a0u', 'a:b', 'b', 'p', 'it\'s"a"', 'a&b<c', '\u00e9', 'e\u0301',
              'a%20b', 'a%2520b', '1', '-', '.', '../r', '*', '@', '@c', '\U0001F600', 'u' * 300 + 'a', 'u' * 300 + 'b', 'http://www.w3.org/1999/xhtml', 'None', '(', 'a,b', 'a;b', 'a=b', 'a\\b', 'a\u2028b', 'a\x85b']


def quote(s):
    """As an attribute value in XML, with all that is normalized escaped"""
    return s.replace('&', '&amp;').replace('<', '&lt;').replace('"', '&quot;').replace('\t', '&#9;').replace('\n', '&#10;').replace('\r', '&#13;')


# Texts and values that a program could take for one another, for nothing, or for something else than text
CONTENTS = ['x', 'X', 'xx', 'spam!', 'spam! ', ' spam!', 'spam!\n', '\nspam!', '\n\n', '\n', ' ', '  ', '\t', '\u00a0', '\u2003x', 'x\u2028', 'x y', 'x  y', 'x\ny', ' \t\n', 'x' * 70, 'x' * 70 + 'y', 'y' + 'x' * 70, 'x' * 1030, 'x\n' * 600,
            '&', '<', '>', ']]>', '"', "'", '"\'', '&amp;', '&lt', '&#xA;', '<b>', '</a>', '<!--x-->', '--', '<![CDATA[x]]>', '0', '-0', '1', '01', '1.0', '-1', '1e3', 'NaN', 'Infinity', 'true', 'false', 'None', '#text', 'a', 'b', '/', '//', '.', '*', '@x', '$s',
            '{}', '%s', '\\n', '\u00e9', 'e\u0301', '\u00c9', '\u00df', 'ss', '\U0001F600', '\ufdf0', '[1]', '(x)', '|', ';', ',', 'x,y', '=']


LONG = ['x', ' ', '\n', '<', '&', '>', '"', "'", '\t', '\u00e9', '\U0001F600', '1', ']']


def long_texts(thorough=False):
    """One to three characters over and over, to lengths from 40 on"""
    for n in (1, 2, 3) if thorough else (1, 2):
        for c in itertools.product(LONG, repeat=n):
            if n > 1 and len(set(c)) == 1:
                continue
            for k in (41, 102, 211, 260, 1030) + ((4100, 70000) if n == 1 and not thorough else (4100,) if n < 3 and thorough else ()):
                yield (''.join(c) * k)[:k]


def long_trees(thorough=False):
    """Trees with such texts and values, also next to others; in some a line break or space in the middle"""
    for s in long_texts(thorough):
        yield ('a', (('k', s),), (s, ('b', (('k', 'x' + s), ('l', '')), ('x' + s + 'y',))) if len(s) < 5000 else (s,))
        if len(s) in (102, 260) and s[0] == s[1]:
            for m in ('  \n', '\n\n', ' \t', 'y', ' y ', '\n  y', '<', ' & '):
                t = s[1:] + m + s
                yield ('a', (('k', t),), (t, ('b', (), (t + 'z',)), m + s, ('c', (), ()), s + m))
    for k in (300, 3000) if not thorough else (300, 3000, 20000):
        yield many_names(k)


def many_names(k):
    """As many names of elements and attributes, all different, each used twice"""
    return ('a', tuple(('m%d' % i, str(i)) for i in range(0, k, 10)),
            tuple(('n%d' % (i % k), (('m%d' % (i % k), 'v%d' % i),), ('t%d' % i,)) for i in range(2 * k)))


BREAKS = ['\r', '\n', '\r\n', '\u2028', '\u2029', '\x85', '\t', 'x', '&#xD;', '&#x2028;', '&#xa;', '<b></b>']


def break_docs(n=3):
    """Documents with line breaks, and what else might be taken for one, as text and in values"""
    for k in range(1, n + 1):
        for c in itertools.product(BREAKS, repeat=k):
            for times in (1, 12, 300) if k < 3 else (1,):
                d = ''.join(c) * times
                yield '<a>%s</a>' % d
                d = d.replace('<b></b>', ' ')
                yield '<a b="%s" c=\'%s\'>y%sz</a>' % (d, d, d)


def contents():
    """Ordered pairs of them, also equal ones"""
    return itertools.product(CONTENTS, repeat=2)


def content_tree(s, t):
    """A tree in which s and t occur as texts and values, next to, within and far from themselves and each other"""
    return ('a', (('x', s), ('y', t)), (s, ('b', (('x', t),), (t,)), ('b', (('y', s), ('x', t)), (s, ('c', (), (s,)), t)), ('c', (('x', s),), ()), t, ('b', (), (('b', (), (t,)), s))))


def long_patterns(names=('a', 'b'), most=129):
    """(chain of elements with decoys, patterns as long as it): names only, or one stage that is something else"""
    for k in sizes(most=most):
        if k > 36 and k not in (49, 50, 51, 63, 64, 65, 99, 100, 127, 128, 129):
            continue
        ns = [names[(i * i // 3 + i // 2) % 2] for i in range(k)]
        t = None
        for i in reversed(range(k)):
            t = (ns[i], (('i', str(i)),), (('x', (), ()),) + ((t, ) if t is not None else ()) + (((ns[i + 1], (), ()),) if i + 1 < k else ((names[0], (), ()), (names[1], (), ((names[0], (), ()),)))))
        ps = [tuple(ns), tuple(ns[:-1]) or ('x',), tuple(ns) + (names[0],), tuple(ns) + (names[1], names[0]), ('*',) * k, ('*',) * (k - 1) + (ns[-1],)]
        for i in sorted({0, 1, 2, k // 2, k - 3, k - 2, k - 1} & set(range(k))):
            other = names[ns[i] == names[0]]
            for stage in ('*', '**', ('y', ns[i]), ('y', other), other, 'y'):
                p = tuple(ns[:i]) + (stage,) + tuple(ns[i + 1:])
                if p[-1] != '**':
                    ps.append(p)
            ps.append(tuple(ns[:i]) + ('**',) + tuple(ns[i:]))
            ps.append(tuple(ns[:i]) + ('**',) + (ns[-1],))
            ps.append(tuple(ns[:i]) + ('x',))
        yield t, ps


# Paths of names that come out the same when put together without, or with, something in between that can be in a name
JOINTS = [(('ab', 'c'), ('a', 'bc')), (('a', 'b', 'c'), ('ab', 'c')), (('a', 'b', 'c'), ('abc',)), (('a', 'bb'), ('ab', 'b')), (('a', 'aa'), ('aa', 'a')), (('a', 'a'), ('aa',)), (('aab', 'a', 'b'), ('a', 'abab')),
          (('a-b', 'c'), ('a', 'b-c')), (('a', 'b'), ('a-b',)), (('a.b', 'c'), ('a', 'b.c')), (('a', 'b'), ('a.b',)), (('a_b', 'c'), ('a', 'b_c')), (('a', 'b'), ('a_b',)), (('a__b', 'c'), ('a', 'b__c')),
          (('a1', 'b2'), ('a1b', 'b')), (('b', 'a'), ('a', 'b')), (('a', 'b', 'a'), ('b', 'a', 'a')), (('c', 'ab', 'ab'), ('ca', 'ba', 'b')), (('ab', 'ab'), ('a', 'b', 'a', 'b'))]


def joints(prefix=''):
    """(tree, path, other path): a tree with both paths below its top, in both orders"""
    def chain(path, i):
        t = ('v%d' % i,)
        for x in reversed(path):
            t = ((x, (('i', str(i)),), t),)
        return t[0]
    for p, q in JOINTS:
        p, q = tuple(prefix + x for x in p), tuple(prefix + x for x in q)
        for p, q in ((p, q), (q, p)):
            yield ('r', (), (chain(p, 1), chain(q, 2), 't', chain(p, 3), chain(q, 4))), p, q


def joint_patterns(p, q):
    out = []
    for x in (p, q):
        out += [('r',) + x, ('**',) + x, ('r', '*') + x[1:], ('r',) + x[:-1] + ('*',), ('r', '**', x[-1]), ('**', x[0]), ('r',) + x[:1], ('r', '**') + x, ('r',) + x[:-1] + ((x[-1], 'z'),), ('r', (x[0], 'z')) + x[1:]]
    return out


def blocks(size=64, full=False):
    """Starts of blocks of code points: all, or those of the BMP and at the ends of each plane"""
    for base in range(0, 0x110000, size):
        if full or base < 0x10000 or base % 0x10000 < size or (base + size) % 0x10000 < size:
            yield base


def character_trees(full=False, allowed=None, size=64):
    if allowed is None:
        from .refxml import is_char as allowed
    for base in blocks(size, full):
        t = character_tree(base, allowed, size)
        if t is not None:
            yield t


def character_tree(base, allowed, size=64):
    """A tree with each of the characters alone as text, alone as a value, and at each end of both; None if none is allowed"""
    cs = [chr(c) for c in range(base, base + size) if not 0xd800 <= c < 0xe000 and allowed(c)]
    if not cs:
        return None
    return ('a', (), tuple(x for c in cs for x in (('b', (('x', c), ('y', c + 'x' + c)), (c,)), c + 'x' + c)) )
