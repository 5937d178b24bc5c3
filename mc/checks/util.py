"""U01-U03: tree utilities"""
import itertools, re
from .. import gen, refpat
from ..core import Check, Family
from ..observe import canon_tree, markup, build, merged, tup, value_of, merge
from .streams import STAGES, with_tests


def pairs(t, e):
    """(canonical, implementation) pairs of all nodes in document order"""
    yield t, e
    if not isinstance(t, str):
        for ct, ce in zip(t[2], e.xml_children):
            yield from pairs(ct, ce)


def same(got, want):
    """Whether two lists hold the very same nodes"""
    return len(got) == len(want) and all(a is b for a, b in zip(got, want))


class U01(Check):
    id = 'U01'

    def families(self, tier):
        q = tier == 'quick'
        def trees():
            for t in gen.trees(3, ('a', 'b'), ('', 'x', ' ')):
                yield [t]
            for t in gen.trees(3, ('a', 'b'), ('', 'a', '#text')):
                yield [t]
            for t in gen.trees(4, ('a', 'b'), ('', 'x') if not q else ('',), 4):
                yield [t]
            for t in gen.elements_only(6 if q else 7, ('a', 'ab'), 5):
                yield [t]
        def attributed():
            sets = [(), (('i', '1'),), (('j', '1'), ('i', '')), (('i', '2'),)]
            for t in gen.elements_only(4, ('a',)):
                for u in gen.with_attrs(t, sets):
                    yield [u]
        def siblings():
            # equal texts next to each other, which only the tree API can make
            kids = ['x', 'x', 'y', '', ('a', (), ()), ('b', (), ('x',))]
            for n in range(1, 5 if q else 6):
                for c in itertools.product(kids, repeat=n):
                    yield [('r', (), c)]
        def iters():
            for t in gen.trees(2, ('a', 'b'), ('', 'x')):
                for u in gen.trees(2, ('a', 'b'), ('', 'x')):
                    yield [t, u]
        def names():
            for m, n in gen.confusable():
                yield [m, n]
        def contents():
            for a, b in gen.contents():
                yield [a, b]
        def characters():
            for t in gen.character_trees(not q):
                yield [t]
        def scale():
            for k in gen.sizes():
                yield [('r', (), tuple(('ab'[i % 2], (('i', str(i)),) if i % 3 else (), ('x',)) if i % 5 else 'x' for i in range(k))), k]
                if k < 300:
                    yield [('r', (), (('a' * k, (('i' * k, '1' * k),), ('x' * k,)), 'x' * k, ('b', tuple(('k%d' % i, str(i)) for i in range(k)), ('x',) * k))), k]
                if k < 130:
                    t = ('a', (), ('x',))
                    for i in range(k):
                        t = ('ab'[i % 2], (), (t, 'y') if i % 3 else ('y', ('b', (), ()), t))
                    yield [t, k]
                if k < 300:
                    yield [gen.bushy(k), k]
        return [Family('scale', scale, 'up to 1025 children, nested children, 129 levels, 257 attributes, names and texts of up to 257 characters', self.run_scale),
                Family('trees', trees, 'all trees of up to 3 elements (2 names, 3 texts per gap), 4, shapes up to 6 (7); every utility from every element', self.run_tree),
                Family('attributes', attributed, 'all trees of up to 4 elements, 4 sets of attributes', self.run_tree),
                Family('siblings', siblings, 'all sequences of up to 4 (5) of 6 children, equal text nodes included', self.run_tree),
                Family('names', names, 'all ordered pairs of %d groups of names that are easily taken for one another, as names of elements and attributes, values, texts' % len(gen.CONFUSABLE), self.run_names),
                Family('contents', contents, 'all pairs of %d texts and values that could be taken for one another, or for something else than text' % len(gen.CONTENTS), self.run_contents),
                Family('characters', characters, 'every character of the BMP and at the ends of each plane (thorough: all), alone and at both ends of texts and values: selected by both', self.run_characters),
                Family('iterables', iters, 'pairs of trees as lists, iterators and generators of nodes', self.run_iters)]

    def select(self, source, nodes, label):
        """source: fresh source per call; nodes: list of (canonical, node) it stands for"""
        from amara3.uxml import treeutil as tu
        elems = [(t, e) for t, e in nodes if not isinstance(t, str)]
        def expect(what, got, want):
            got = list(got)
            if not same(got, [e for t, e in want]):
                return '%s of %s yields %r instead of %r' % (what, label, got, [t for t, e in want])
        yield expect('select_elements', tu.select_elements(source()), elems)
        for n in ('a', 'b', 'ab', '#text', '*', ''):
            yield expect('select_name(%r)' % n, tu.select_name(source(), n), [x for x in elems if x[0][0] == n])
        for pat in ('a', 'a$', '.b', 'b|a', '', 'A', '[^a]'):
            yield expect('select_name_pattern(%r)' % pat, tu.select_name_pattern(source(), re.compile(pat)), [x for x in elems if re.match(pat, x[0][0])])
        for n in ('i', 'j', 'k'):
            yield expect('select_attribute(%r)' % n, tu.select_attribute(source(), n), [x for x in elems if n in dict(x[0][1])])
            for v in ('1', '', '2'):
                yield expect('select_attribute(%r, %r)' % (n, v), tu.select_attribute(source(), n, v), [x for x in elems if dict(x[0][1]).get(n) == v])
                yield expect('select_attribute(%r, val=%r)' % (n, v), tu.select_attribute(source(), n, val=v), [x for x in elems if dict(x[0][1]).get(n) == v])
        for v in ('x', '', 'xx', ' ', 'x ', 'y', 'nope', 'a'):
            yield expect('select_value(%r)' % v, tu.select_value(source(), v), [x for x in elems if value_of(x[0]) == v])

    def run_names(self, case, st):
        from amara3.uxml import treeutil as tu
        m, n = case
        t = gen.confusable_tree(m, n)
        e = build(t)
        st.state(t)
        below = [x for x in pairs(t, e)][1:]
        elems = [x for x in below if not isinstance(x[0], str)]
        for src, nodes in ((lambda: e, list(zip(t[2], e.xml_children))), (lambda: tu.descendants(e), elems), (lambda: [y for x, y in below], below)):
            nodes = [x for x in nodes if not isinstance(x[0], str)]
            for name in (m, n, m + n):
                sel = [('select_name', tu.select_name(src(), name), [y for x, y in nodes if x[0] == name]),
                       ('select_name_pattern', tu.select_name_pattern(src(), re.compile(re.escape(name))), [y for x, y in nodes if x[0].startswith(name)]),
                       ('select_name_pattern $', tu.select_name_pattern(src(), re.compile(re.escape(name) + '$')), [y for x, y in nodes if x[0] == name]),
                       ('select_attribute', tu.select_attribute(src(), name), [y for x, y in nodes if name in dict(x[1])]),
                       ('select_value', tu.select_value(src(), name), [y for x, y in nodes if value_of(x) == name])]
                for v in (m, n):
                    sel.append(('select_attribute value', tu.select_attribute(src(), name, v), [y for x, y in nodes if (name, v) in x[1]]))
                for what, got, want in sel:
                    st.step()
                    got = list(got)
                    if not same(got, want):
                        return '%s of %r in %r yields %r' % (what, name, t, got)
        st.trace()

    def run_characters(self, case, st):
        from amara3.uxml import treeutil as tu
        t = tup(case[0])
        e = build(t)
        st.state(t)
        below = [x for x in pairs(t, e)][1:]
        elems = [x for x in below if not isinstance(x[0], str)]
        if not same(list(tu.descendants(e)), [y for x, y in elems]):
            return 'descendants of %r' % (t,)
        for b in t[2][::2]:
            c = b[2][0]
            for v in (c, c + 'x' + c, c + c):
                want = [('select_value', tu.select_value(e, v), [y for x, y in elems if value_of(x) == v])]
                for n in 'xy':
                    want.append(('select_attribute ' + n, tu.select_attribute(e, n, v), [y for x, y in elems if (n, v) in x[1]]))
                for what, got, w in want:
                    st.step()
                    got = list(got)
                    if not same(got, w):
                        return '%s %r of %s... yields %r instead of %d elements' % (what, v, repr(t)[:200], got, len(w))
        st.trace()

    def run_contents(self, case, st):
        from amara3.uxml import treeutil as tu
        a, b = case
        t = gen.content_tree(a, b)
        e = build(t)
        st.state(t)
        below = [x for x in pairs(t, e)][1:]
        elems = [x for x in below if not isinstance(x[0], str)]
        for src, nodes in ((lambda: e, list(zip(t[2], e.xml_children))), (lambda: tu.descendants(e), elems), (lambda: [y for x, y in below], below)):
            nodes = [x for x in nodes if not isinstance(x[0], str)]
            sel = [('select_name', tu.select_name(src(), n), [y for x, y in nodes if x[0] == n]) for n in 'abc']
            for v in (a, b, a + b, b + a, a + a + b):
                sel.append(('select_value %r' % v, tu.select_value(src(), v), [y for x, y in nodes if value_of(x) == v]))
                for n in 'xy':
                    sel.append(('select_attribute %r %r' % (n, v), tu.select_attribute(src(), n, v), [y for x, y in nodes if (n, v) in x[1]]))
            for what, got, want in sel:
                st.step()
                got = list(got)
                if not same(got, want):
                    return '%s in %r yields %r' % (what, t, got)
        for i, c in enumerate(e.xml_children):
            if not same(list(tu.following_siblings(c)), e.xml_children[i + 1:]):
                return 'following_siblings of child %d of %r yields %r' % (i, t, list(tu.following_siblings(c)))
        if canon_tree(e) != t:
            return 'the utilities changed %r to %r' % (t, canon_tree(e))
        st.trace()

    def run_scale(self, case, st):
        from amara3.uxml import treeutil as tu
        t, k = tup(case[0]), case[1]
        e = build(t)
        st.state(t)
        below = list(pairs(t, e))[1:]
        elems = [x for x in below if not isinstance(x[0], str)]
        st.step()
        if not same(list(tu.descendants(e)), [n for c, n in elems]):
            return 'descendants with %d: %d instead of %d' % (k, len(list(tu.descendants(e))), len(elems))
        for src, nodes in ((lambda: e, list(zip(t[2], e.xml_children))), (lambda: tu.descendants(e), elems)):
            for msg in self.select(src, nodes, 'size %d' % k):
                if msg:
                    return msg[:1500]
            sel = [(tu.select_name(src(), 'a' * k), [n for c, n in nodes if c[0] == 'a' * k and not isinstance(c, str)]),
                   (tu.select_attribute(src(), 'i' * k), [n for c, n in nodes if not isinstance(c, str) and 'i' * k in dict(c[1])]),
                   (tu.select_attribute(src(), 'i', str(k - 1)), [n for c, n in nodes if not isinstance(c, str) and ('i', str(k - 1)) in c[1]]),
                   (tu.select_attribute(src(), 'k%d' % (k - 1)), [n for c, n in nodes if not isinstance(c, str) and ('k%d' % (k - 1), str(k - 1)) in c[1]]),
                   (tu.select_value(src(), 'x' * k), [n for c, n in nodes if not isinstance(c, str) and value_of(c) == 'x' * k])]
            for i, (got, want) in enumerate(sel):
                if not same(list(got), want):
                    return 'selection %d with size %d' % (i, k)
        kids = e.xml_children
        for i in sorted({0, 1, len(kids) // 2, len(kids) - 2, len(kids) - 1} & set(range(len(kids)))):
            if not same(list(tu.following_siblings(kids[i])), kids[i + 1:]):
                return 'following_siblings of child %d of %d' % (i, len(kids))
        st.trace()

    def run_tree(self, case, st):
        from amara3.uxml import treeutil as tu
        t = tup(case[0])
        e = build(t)
        st.state(t)
        for ct, ce in pairs(t, e):
            if isinstance(ct, str):
                continue
            below = [x for x in pairs(ct, ce)][1:]
            st.step()
            if not same(list(tu.descendants(ce)), [n for c, n in below if not isinstance(c, str)]):
                return 'descendants of %r yields %r' % (ct, list(tu.descendants(ce)))
            for msg in self.select(lambda: ce, list(zip(ct[2], ce.xml_children)), ct):
                if msg:
                    return msg
            for msg in self.select(lambda: tu.descendants(ce), [x for x in below if not isinstance(x[0], str)], 'descendants of %r' % (ct,)):
                if msg:
                    return msg
            for i, c in enumerate(ce.xml_children):
                got = list(tu.following_siblings(c))
                if not same(got, ce.xml_children[i + 1:]):
                    return 'following_siblings of child %d of %r yields %r' % (i, ct, got)
        if canon_tree(e) != t:
            return 'the utilities changed %r to %r' % (t, canon_tree(e))
        st.trace()

    def run_iters(self, case, st):
        a, b = tup(case[0]), tup(case[1])
        ea, eb = build(a), build(b)
        nodes = list(pairs(a, ea)) + list(pairs(b, eb))
        mixed = list(reversed(nodes))
        st.state((a, b))
        st.step()
        for label, order in (('list', nodes), ('reversed', mixed)):
            for src in (lambda: [n for c, n in order], lambda: iter([n for c, n in order]), lambda: (n for c, n in order)):
                for msg in self.select(src, order, label):
                    if msg:
                        return '%r, %r: %s' % (a, b, msg)
        st.trace()


class U02(Check):
    id = 'U02'
    assumptions = ('Trees without adjacent text nodes (as parsers make them).',)

    def families(self, tier):
        q = tier == 'quick'
        def trees():
            for t in gen.trees(3, ('a',), ('', 'x', ' ', '\n  ', ' y ')):
                yield [t]
            for t in gen.trees(4, ('a',), ('', 'x', ' '), 4):
                yield [t]
            for t in gen.elements_only(7 if q else 8, ('a',)):
                yield [t]
            for t in gen.trees(3, ('a', 'b'), ('', 'x')):
                for u in gen.with_attrs(t, [(), (('k', ' v '),)]):
                    yield [u]
            if not q:
                for t in gen.trees(5, ('a',), ('', 'x'), 5):
                    yield [t]
        def nbsp():
            for t in gen.trees(2, ('a',), ('', '\u00a0', '\u2003', '\u200b', '\t', '\x85')):
                yield [t]
        def contents():
            for a, b in gen.contents():
                yield [gen.content_tree(a, b)]
        def characters():
            for t in gen.character_trees(not q):
                yield [t]
                yield [('a', (), tuple(x for c in t[2][::2] for x in (c[2][0], ('b', (), (' ' + c[2][0] + '\n',)))))]
        def longs():
            for t in gen.long_trees(not q):
                yield [t]
        def empty():
            kids = ['', ' ', 'x', ('b', (), ()), ('b', (), ('',)), ('b', (), ('', ('c', (), ('',)), ''))]
            for n in range(1, 6 if q else 7):
                for c in itertools.product(kids, repeat=n):
                    if not any(isinstance(x, str) and isinstance(y, str) for x, y in zip(c, c[1:])):
                        yield [('a', (), c)]
        def deep():
            for k in gen.sizes(150, most=150):
                for extra in ((), ('x',), (' ',)):
                    t = ('a', (), ())
                    for i in range(k):
                        t = ('a', (), extra + (t,) + extra)
                    yield [t]
        def wide():
            for k in gen.sizes(3000):
                for gap in ('', ' ', 'x'):
                    yield [('a', (), ((gap,) if gap else ()) + (('b', (('i', '1'),), ('y',)), *([gap] if gap else [])) * k)]
                if k < 1100:
                    yield [gen.bushy(k, 'ab', ' ' if k % 2 else 'x')]
                yield [('a', (), ('x' * k, ('b', (), (' ' * k,)), '\n' * k, ('b', tuple(('k%d' % i, '') for i in range(min(k, 300))), (('c', (), ()), ' ' * k + 'x')), ' ' * k))]
        return [Family('wide', wide, 'up to 3000 children with no, blank or other text between; texts of up to 3000 characters', self.run_tree),
                Family('trees', trees, 'all trees of up to 3 elements (5 texts per gap), 4 (3 texts), shapes up to 7 (8)', self.run_tree),
                Family('contents', contents, 'all pairs of %d texts and values that could be taken for one another, or for something else than text' % len(gen.CONTENTS), self.run_tree),
                Family('characters', characters, 'every character of the BMP and at the ends of each plane (thorough: all), alone and at both ends of texts and values', self.run_tree),
                Family('space', nbsp, 'other kinds of space', self.run_tree),
                Family('long', longs, 'texts and values of up to 70000 characters: all sequences of up to 2 (3) of %d characters over and over, with 8 others in the middle' % len(gen.LONG), self.run_tree),
                Family('empty', empty, 'all lists of up to 5 (6) children of 6, empty text nodes among them, no two texts next to each other', self.run_tree),
                Family('deep', deep, 'depth up to 150', self.run_tree)]

    def run_tree(self, case, st):
        from amara3.uxml import treeutil as tu
        t = tup(case[0])
        st.state(t)
        for indent, depth, args in (('  ', 0, {}), ('\t', 0, {'indent': '\t'}), (' ', 1, {'indent': ' ', 'depth': 1})):
            e = build(t)
            kept = [n for n in pairs(t, e)]
            r = tu.make_pretty(e, **args)
            st.step()
            if r is not e:
                return 'make_pretty returns %r' % (r,)
            got = canon_tree(e)
            msg = self.compare(t, got, depth, indent)
            if msg:
                return 'make_pretty of %r (%r) gives %r: %s' % (t, args, got, msg)
            if not same([n for n in [e] + list(tu.descendants(e))], [n for c, n in kept if not isinstance(c, str)]):
                return 'make_pretty of %r replaces elements' % (t,)
            r = tu.make_pretty(e, **args)
            if r is not e or canon_tree(e) != got:
                return 'make_pretty of %r (%r) gives %r, but again %r' % (t, args, got, canon_tree(e))
            # and what it prints is what it is
        st.trace()

    def compare(self, old, new, depth, indent):
        if old[:2] != new[:2]:
            return '%r became %r' % (old[:2], new[:2])
        if [c for c in old[2] if not isinstance(c, str) or c.strip()] and False:
            return
        def split(t):
            gaps, elems = [[]], []
            for c in t[2]:
                if isinstance(c, str):
                    gaps[-1].append(c)
                else:
                    elems.append(c)
                    gaps.append([])
            return gaps, elems
        og, oe = split(old)
        ng, ne = split(new)
        if len(oe) != len(ne):
            return '<%s> has %d elements instead of %d' % (old[0], len(ne), len(oe))
        for i, (o, n) in enumerate(zip(og, ng)):
            if [x for x in o if x.strip()] != [x for x in n if x.strip()]:
                return 'text %r became %r' % (o, n)
            if len(n) > 1:
                return 'adjacent texts %r' % n
            if oe and not any(x.strip() for x in o):
                # blank: the place before a child element, or before the end tag
                want = '\n' + indent * (depth + 1 if i < len(oe) else depth)
                if ''.join(n) != want:
                    return 'white space %d in <%s> is %r instead of %r' % (i, old[0], n, want)
        for o, n in zip(oe, ne):
            msg = self.compare(o, n, depth + 1, indent)
            if msg:
                return msg


class U03(Check):
    id = 'U03'
    assumptions = ('Reference: declarative matcher mc/refpat.py. Patterns that end in "**" are not covered.',)

    def families(self, tier):
        q = tier == 'quick'
        pats = list(refpat.patterns(STAGES, 3))
        def trees():
            for t in gen.elements_only(5 if q else 6, ('a', 'b')):
                yield [t, pats]
        def longer():
            ps = [p for p in refpat.patterns(['a', 'b', '*', '**'], 4 if q else 5) if len(p) > 3]
            for t in gen.elements_only(5, ('a', 'b')):
                yield [t, ps]
        def names():
            ps = list(refpat.patterns(['a', 'ab', '*', '**', ['a'], ['b', 'ab'], ['c', 'b', 'a']], 2))
            for t in gen.trees(3, ('a', 'b', 'ab', 'c'), ('',)):
                yield [t, ps]
            ps = list(refpat.patterns(['a', 'x', '#text', '', '*', '**', ['a', '#text'], ['x', '']], 2))
            for t in gen.trees(3, ('a', 'b'), ('', 'x', 'a')):
                yield [t, ps]
        def confusable():
            for m, n in gen.confusable():
                yield [gen.confusable_tree(m, n), list(refpat.patterns([m, n, '*', '**', [m], [m, 'x'], [n + 'x', m]], 2))]
        def contents():
            ps = list(refpat.patterns(['a', 'b', '*', '**', ['c', 'b']], 3))
            for a, b in gen.contents():
                yield [gen.content_tree(a, b), ps[len(a) % 3::3]]
        def steps():
            for t, ps in gen.long_patterns():
                yield [('r', (), ('x', t, ('a', (), ()), t)), ps]
        def joints():
            for t, a, b in gen.joints():
                yield [('top', (), (t, t)), gen.joint_patterns(a, b)]
        def tests():
            # functions of the node as alternatives
            ps = [p for p in refpat.patterns(['a', '**', '*', ['b', '#even'], ['#even', 'b'], ['#last', '#even', 'x']], 3) if any('#even' in s for s in p)]
            for t in gen.elements_only(5 if q else 6, ('a', 'b')):
                yield [refpat.numbered(t), ps, 'tests']
        def chains():
            ps = [('**', 'a', 'b'), ('**', 'a', '**', 'b'), ('*', '**', 'a', '*', 'b'), ('**', 'a', 'a', 'b'), ('**', '*', '*', 'a'),
                  ('**', 'b', '**', 'a'), ('**', ('a', 'b'), 'a', 'b'), ('**', 'a', '*', 'a', 'b'), ('**', '**', 'a', 'a')]
            for k in range(5, 11 if q else 13):
                for ns in itertools.product('ab', repeat=k):
                    t = None
                    for x in ns:
                        t = (x, (), () if t is None else (t,))
                    yield [t, ps]
        def scale():
            ps = [('b',), ('**', 'b'), ('*', 'c'), ('**', 'b', '**', 'c'), ('**', '*', '**', 'c')]
            for k in gen.sizes(10000):
                yield [('a', (), (('b', (), ('x', ('c', (), ()))),) * k), ps]
                if k < 300:
                    yield [gen.bushy(k, 'bcb'), ps]
            for k in gen.sizes(60, most=66):
                t = ('b', (), (('c', (), ()),))
                for i in range(k):
                    t = ('b', (), ('x', t))
                yield [t, ps]
        return [Family('trees', trees, 'all trees of up to 5 (6) elements, 2 names; all %d patterns of up to 3 of 5 stages; from every element' % len(pats), self.run_tree),
                Family('long-patterns', longer, 'trees of up to 5 elements, all patterns of 4 (5) of 4 stages', self.run_tree),
                Family('names', names, 'trees of up to 3 elements with 4 names, or text; all patterns of up to 2 of 7 (8) stages, names of texts included', self.run_tree),
                Family('confusable', confusable, 'all ordered pairs of %d groups of names that are easily taken for one another, all patterns of up to 2 of 7 stages' % len(gen.CONFUSABLE), self.run_tree),
                Family('contents', contents, 'all pairs of %d texts and values that could be taken for one another, or for something else than text: patterns of up to 3 of 5 stages' % len(gen.CONTENTS), self.run_tree),
                Family('steps', steps, 'chains of up to 129 elements, patterns of as many stages: names, or a wildcard, "**", tuple or other name at one place', self.run_tree),
                Family('joints', joints, '%d pairs of paths whose names give the same when put together, 20 patterns' % len(gen.JOINTS), self.run_tree),
                Family('tests', tests, 'trees of up to 5 (6) elements, patterns of up to 3 of 6 stages, with functions as alternatives that give any true or false value', self.run_tree),
                Family('chains', chains, 'all chains of 5 to 10 (12) elements with 2 names, 9 patterns with "**"', self.run_tree),
                Family('scale', scale, 'width up to 10000, depth up to 60', self.run_tree)]

    def run_tree(self, case, st):
        from amara3.uxml import tree, treeutil as tu
        t, ps = tup(case[0]), [tup(p) for p in case[1]]
        e = build(t)
        args, named = ps, t
        if len(case) > 2:
            # any true or false values
            def tests(k):
                return {'#even': lambda n: isinstance(n, tree.element) and refpat.ANSWERS[int(n.xml_attributes['i']) % 2 == 0][(int(n.xml_attributes['i']) + k) % 5],
                        '#last': lambda n: isinstance(n, tree.element) and refpat.ANSWERS[n.xml_attributes['i'] == '4'][(int(n.xml_attributes['i']) + k // 5) % 5]}
            args = [tuple(s if isinstance(s, str) else tuple(tests(k).get(x, x) for x in s) for s in p) for k, p in enumerate(ps)]
            named = with_tests(t)
        tops = [(ct, ce) for ct, ce in pairs(named, e) if not isinstance(ct, str)]
        if len(tops) > 12:
            tops = tops[:1]
        st.state(t)
        for ct, ce in tops:
            below = []
            def rec(c, n, path):
                for x, y in zip(c[2], n.xml_children):
                    if not isinstance(x, str):
                        below.append((path + (x[0],), x, y))
                        rec(x, y, path + (x[0],))
            rec(ct, ce, ())
            for p, arg in zip(ps, args):
                want = [(x, n) for path, x, n in below if refpat.matches(p, path)]
                got = list(tu.select_pattern(ce, arg))
                st.step()
                if not same(got, [n for x, n in want]):
                    return '%r from %r yields %r instead of %r' % (p, repr(ct)[:500], repr(got)[:500], repr([x for x, n in want])[:500])
        st.distinct(len(tops) * len(ps))
        st.trace()
        if len(tops) < 12 and canon_tree(e) != t:
            return 'select_pattern changed the tree'


CHECKS = {c.id: c for c in (U01, U02, U03)}
