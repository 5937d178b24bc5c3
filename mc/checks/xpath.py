"""Q01-Q10: MicroXPath"""
import gc, itertools
from .. import gen, refxp
from ..core import Check, Family
from ..observe import canon_tree, markup, build, merged, tup
from ..refxp import AXES, parse as rparse, evaluate, show, Error, canon as rcanon

TESTS = ['a', 'b', '*', 'node()', 'text()']
STEPS = [('step', x, t) for x in AXES for t in TESTS]


def decorate(t, text='x', attrs=True):
    """Texts (all equal, so that only identity tells them apart) in every place; attributes i and b on every element"""
    count = [0]
    def rec(x):
        count[0] += 1
        n = count[0]
        kids = [text]
        for c in x[2]:
            kids += [rec(c), text]
        return (x[0], (('i', str(n)), ('b', 'x')) if attrs else (), tuple(kids))
    return rec(t)


def scale_doc(shape, k):
    if shape == 'wide':
        kids = ()
        for i in range(1, k + 1):
            kids += (('b', (('i', str(i)),), (str(i),)),) + (('x',) if i % 3 else ())
        return ('a', (('i', str(k)),), kids)
    if shape == 'deep':
        t = ('b', (('i', '0'),), ('0',))
        for i in range(1, k + 1):
            t = ('ab'[i % 2], (('i', str(i)),), ('x', t) if i % 3 else (t, ('b', (), ())))
        return t
    if shape == 'bushy':
        return gen.bushy(k)
    if shape == 'attributes':
        return ('a', (), (('b', tuple(('k%d' % i, str(i)) for i in range(1, k + 1)), ()), ('b', (('k%d' % k, 'x'),), ('x' * k,))))
    return ('a', (), tuple(('b', (('i', str(i)),), tuple(('b', (), (str(j),)) for j in range(1, 6))) for i in range(1, k // 5 + 2)))


class Bound:
    """A document both as implementation tree and as reference model, with each other's nodes matched up"""
    def __init__(self, t, elem=None, doc=None):
        self.t = t
        self.elem = build(t) if elem is None else elem
        self.doc = refxp.make_doc(t) if doc is None else doc
        self.by_id = {}
        def rec(r, e):
            r.impl = e
            self.by_id[id(e)] = r
            for c, ce in zip(r.children, e.xml_children):
                rec(c, ce)
        rec(self.doc[0].children[0], self.elem)

    def match(self, item):
        """Reference node for a node of the implementation, or None"""
        r = self.by_id.get(id(item))
        if r is not None:
            return r
        kids = getattr(item, 'xml_children', None)
        if kids is not None and not isinstance(item, str):
            if len(kids) == 1 and kids[0] is self.elem and item.xml_parent is None:
                return self.doc[0]
            owner = self.by_id.get(id(item.xml_parent)) if item.xml_parent is not None else None
            if owner is not None and not kids:
                for a in owner.attrs:
                    if a.name == item.xml_name and a.value == item.xml_value:
                        return a
        return None

    def canon(self, item):
        r = self.match(item)
        return rcanon(item if r is None else r)

    def node(self, r):
        """Implementation node for a reference node"""
        from amara3.uxml import uxpath
        if r.kind == 'root':
            if self.doc[0].impl is None:
                self.doc[0].impl, = compiled('/').compute(uxpath.context(self.elem))
            return self.doc[0].impl
        if r.kind == 'attr' and r.impl is None:
            got = list(compiled('@' + r.name).compute(uxpath.context(r.parent.impl, force_root=False)))
            if len(got) != 1:
                raise AssertionError('@%s of %r gives %r' % (r.name, r.parent.impl, got))
            r.impl = got[0]
        return r.impl

    def item(self, v):
        return self.node(v) if isinstance(v, refxp.Node) else v


_compiled = {}


def compiled(text):
    from amara3.uxml import uxpath
    if text not in _compiled:
        if len(_compiled) > 60000:
            _compiled.clear()
        _compiled[text] = uxpath.parse(text)
    return _compiled[text]


def query(bound, text, item, env=None, expr=None):
    """Canonical results of the implementation from a reference item"""
    from amara3.uxml import uxpath
    variables = {k: bound.item(v) for k, v in env.items() if k[0] != '#'} if env else None
    tables = {'lookuptables': env['#tables']} if env and '#tables' in env else {}
    ctx = uxpath.context(bound.item(item), variables=variables, force_root=False, **tables)
    return [bound.canon(x) for x in (expr or compiled(text)).compute(ctx)]


def expected(ast, item, env=None):
    return [rcanon(v) for v in evaluate(ast, item, env or {})]


class XPathCheck(Check):
    technique = 'exhaustive bounded exploration: all small documents, contexts and expressions, against a reference evaluator'

    def setup(self):
        from amara3.uxml import uxpath
        gc.collect()
        gc.freeze()

    # Families of growing documents and expressions, to find what only happens from some size on
    SCALE = ()
    scale_contexts = 2      # for large documents

    def scale(self, tier, what='children, depth, attributes, lengths of expressions'):
        sizes = gen.SWEEP + (gen.LARGE if tier != 'quick' else gen.LARGE[1::3])
        def cases():
            for shape in ('wide', 'deep', 'attributes', 'nested', 'bushy'):
                for k in sizes:
                    if shape in ('wide', 'attributes') or k <= (200 if shape != 'bushy' else 66):
                        yield [shape, k]
        return Family('scale', cases, 'documents with up to 1025 children or attributes, or depth 200: sizes 0 to 35, and around powers of 2 and 10', self.run_scale)

    # Expressions for names M and N that are easily taken for one another
    CONFUSABLE = ()

    def confusable(self):
        def cases():
            for m, n in gen.confusable():
                yield [m, n]
        return Family('confusable', cases, 'all ordered pairs of %d groups of names that are easily taken for one another, as names, values, texts, variables, tables: %d expressions' % (len(gen.CONFUSABLE), len(self.CONFUSABLE)), self.run_confusable)

    def run_confusable(self, case, st):
        m, n = case
        t = merged(gen.confusable_tree(m, n))
        b = Bound(t)
        env = {m: 'M', n: 7.0, 'v': b.doc[1], '#tables': {m: {m: 'mm', n: 'mn'}, n: {m: 'nm', n: 2.0, '': 'x'}}}
        contexts = [c for c in b.doc if c.kind == 'elem' and c.children][:5] + b.doc[:1] + b.doc[-1:]
        for text in self.CONFUSABLE:
            text = text.replace('N', '\0').replace('M', m).replace('\0', n)
            st.state(text)
            msg = self.agree(b, rparse(text), text, contexts, st, env)
            if msg:
                return msg
        st.trace()

    # Expressions for texts $s and $t, or literals of them, that could be taken for one another or for something else than text
    CONTENTS = ()

    def contents(self):
        def cases():
            for s, t in gen.contents():
                yield [s, t]
        return Family('contents', cases, 'all pairs of %d texts that could be taken for one another, or for something else than text, as texts, values, variables, literals, keys: %d expressions' % (len(gen.CONTENTS), len(self.CONTENTS)), self.run_contents)

    def run_contents(self, case, st):
        s, t = case
        b = Bound(gen.content_tree(s, t))
        env = {'s': s, 't': t, '#tables': {'k': {s: 'ks', t: 'kt'}, s: {'k': 'sk'}, t: {t: 'tt'}}}
        literals = [next((q + v + q for q in '"\'' if q not in v), None) for v in case]
        nodes = b.doc[:3] + b.doc[4:8] + b.doc[-3:]
        for i, text in enumerate(self.CONTENTS):
            if '{s}' in text and literals[0] is None or '{t}' in text and literals[1] is None:
                continue
            text = text.replace('{s}', '\0').replace('{t}', literals[1] or '').replace('\0', literals[0] or '')
            st.state((text, s, t))
            at = (len(s) + len(t) + i) % 3
            msg = self.agree(b, rparse(text), text, nodes[at::3], st, env)
            if msg:
                return msg
        st.trace()

    # The same expressions in documents with empty text nodes
    def empties(self, tier):
        kids = ['x', '', ('b', (('x', ''),), ('',)), ('b', (('y', 'x'),), ('', 'x')), ('c', (), ('', ('b', (), ()), ''))]
        texts = [x for x in self.CONTENTS] + [x.replace('K1', '2').replace('KH', '1').replace('K_', '1').replace('K', '1') for x in self.SCALE]
        def cases():
            for n in range(0, 4 if tier == 'quick' else 5):
                for c in itertools.product(kids, repeat=n):
                    yield [('a', (('x', 'x'),), c)]
        def run(case, st):
            b = Bound(tup(case[0]))
            env = dict(ENV, s='', t='x', n=b.doc[-1])
            st.state(str(case))
            for i, text in enumerate(texts):
                text = text.replace('{s}', '""').replace('{t}', '"x"')
                msg = self.agree(b, rparse(text), text, b.doc[i % 2::2] if len(b.doc) > 6 else b.doc, st, env)
                if msg:
                    return msg
            st.trace()
        return Family('empties', cases, 'elements with up to 3 (4) of 5 children, empty text nodes at all places among them: %d expressions' % len(texts), run)

    # Each step as operand of a predicate, from nodes at all positions up to 20
    WITHIN = ('node()', '//node()', '*', '//b', '//@*', '(//text(), //b, //@i)')

    def within(self):
        wide = ('a', (('i', '0'), ('b', 'x')), tuple(x for i in range(7) for x in ('t%d' % (i // 2), ('b', (('i', str(i)), ('b', 'y'))[:1 + i % 2], ('u', ('a', (), ()), 'u')[:i % 4]))))
        deep = ('a', (), (('b', (('i', '1'),), ('x',)), ('b', (), (('a', (), ('x', ('b', (), (('a', (('b', '2'),), (('b', (), ('x', ('a', (), ()))),)),)), 'y')),)), ('a', (), ())))
        def cases():
            for t in (wide, deep):
                for l in self.WITHIN:
                    for x in AXES:
                        for test in TESTS:
                            yield [t, l, x, test]
        return Family('within', cases, '%d left sides times 60 steps, as operand of 14 predicates, in documents with up to 15 children' % len(self.WITHIN), self.run_within)

    def run_within(self, case, st):
        t, l, axis, test = case
        b = Bound(tup(t))
        step = '%s::%s' % (axis, test)
        st.state((l, step))
        for text in ['%s[%s]' % (l, step), '%s[not(%s)]' % (l, step), '%s[%s[1]]' % (l, step), '%s[true()][string(%s)="x"]' % (l, step), '%s[.=%s]' % (l, step)] + ['%s[count(%s)=%d]' % (l, step, k) for k in range(9)]:
            msg = self.agree(b, rparse(text), text, b.doc[:2], st)
            if msg:
                return msg
        st.trace()

    def run_scale(self, case, st):
        shape, k = case
        b = Bound(scale_doc(shape, k))
        st.state((shape, k))
        n = len(b.doc)
        contexts = [b.doc[i] for i in sorted({0, 1, min(2, n - 1), n // 2, n - 1})]
        for text in self.SCALE:
            if k > 100 and '..//' in text:       # quadratic
                continue
            text = text.replace('K1', str(k + 1)).replace('KH', str(max(1, k // 2))).replace('K_', str(max(0, k - 1))).replace('K', str(k))
            msg = self.agree(b, rparse(text), text, contexts[:self.scale_contexts] if k > 150 else contexts, st, dict(ENV, n=b.doc[-1]))
            if msg:
                return 'scale %r: %s' % (case, msg[:1500])
        st.trace()

    def agree(self, bound, ast, text, contexts, st, env=None):
        for c in contexts:
            try:
                want = expected(ast, c, env)
            except Error:
                st.outcome('outside the domain')
                continue
            got = query(bound, text, c, env)
            st.step()
            if got != want:
                return '%s from %r in %s gives %s instead of %s' % (text, c, markup(bound.t)[:300], repr(got)[:400], repr(want)[:400])
        return None


class Q01(XPathCheck):
    id = 'Q01'
    SCALE = ['%s::%s' % (x, y) for x in AXES for y in ('b', 'node()')] + ['.', '..', '@kKH', 'b/@kK', 'descendant::b/@*', 'b/b/b', '*/..', 'node()/following-sibling::text()[1]']
    scale_contexts = 9
    assumptions = ('Reference evaluator mc/refxp.py.', 'Steps from items that are not nodes are not covered.')

    CONFUSABLE = ['%s::%s' % (x, y) for x in AXES for y in 'MN'] + ['*/%s::%s' % (x, y) for x in AXES for y in 'MN'] + ['@M', '@N', 'M', 'N', '*/@M', '*/@N', 'M/N', 'N/M']

    CONTENTS = ['text()', 'descendant::text()', '*/text()', 'following-sibling::node()', 'preceding-sibling::node()', 'following::text()', 'preceding::node()', '@*', '*/@x', 'node()/..', 'descendant::b/@x', 'text()/following-sibling::*', 'text()/preceding::text()', 'descendant-or-self::node()/@y', 'ancestor-or-self::*/@x', '../text()', 'following-sibling::b/text()', 'self::text()', 'descendant::c/parent::*']

    def families(self, tier):
        q = tier == 'quick'
        def axes():
            for t in gen.elements_only(4 if q else 5, ('a', 'b')):
                yield [decorate(t), 'all']
        def content():
            for t in gen.trees(3, ('a', 'b'), ('', 'x')):
                yield [t, 'all']
            for t in gen.elements_only(6 if q else 7, ('a',), 5):
                yield [t, 'all']
        def adjacent():
            for n in range(0, 4 if q else 5):
                for kids in itertools.product(['x', 'x', '', ('b', (), ('x', 'x')), ('a', (('b', 'x'),), ())], repeat=n):
                    yield [('a', (), kids), 'all']
        def two():
            for t in gen.elements_only(3, ('a', 'b')):
                for axis in AXES:
                    yield [decorate(t), 'two', axis]
        def three():
            docs = [decorate(('a', (), (('b', (), (('a', (), ()),)), ('b', (), ()))))]
            if not q:
                docs.append(('a', (('b', '1'),), ('x', ('b', (), ()), ('b', (('i', ''),), ('x', ('a', (), ('x',)))), 'x')))
            for t in docs:
                for a, b in itertools.product(AXES, repeat=2):
                    yield [t, 'three', a, b]
        def names():
            ns = ['a', 'ab', 'A', '\u00e9', 'a.b-c', 'or', 'div', 'text', 'node', 'self', 'count', '_1']
            for t in [('a', (), tuple((n, ((n, 'v'),), ((m, (), ()),)) for n, m in zip(ns, reversed(ns)))), ('r', tuple((n, n) for n in ns), ())]:
                for n in ns:
                    yield [t, 'name', n]
        return [Family('axes', axes, 'all trees of up to 4 (5) elements, 2 names, with equal texts in every place and 2 attributes each: 12 axes, 5 node tests, both notations, from every node', self.run_doc),
                Family('content', content, 'all trees of up to 3 elements (2 names, 2 texts per gap), shapes up to 6 (7)', self.run_doc),
                Family('adjacent', adjacent, 'elements with up to 3 (4) of 5 children, equal and empty adjacent texts included', self.run_doc),
                Family('two-steps', two, 'all paths of 2 of the 60 steps from every node of all trees of up to 3 elements', self.run_doc),
                Family('three-steps', three, 'all paths of 3 axes with * or node() from every node of a document', self.run_doc),
                Family('names', names, 'names that are also operators, axes, functions, node types', self.run_doc),
                self.within(), self.confusable(), self.contents(), self.empties(tier), self.scale(tier)]

    def run_doc(self, case, st):
        t, mode, *args = tup(case)
        b = Bound(t)
        contexts = b.doc
        st.state(t)
        if mode == 'all':
            asts = STEPS
        elif mode == 'two':
            asts = [('path', x, y) for x in STEPS if x[1] == args[0] for y in STEPS]
        elif mode == 'three':
            ts = ('*', 'node()')
            asts = [('path', ('path', ('step', args[0], u), ('step', args[1], v)), ('step', c, w))
                    for u in ts for v in ts for c in AXES for w in ts]
        elif mode == 'name':
            asts = [('step', x, args[0]) for x in AXES] + [('path', ('step', 'descendant-or-self', '*'), ('step', x, args[0])) for x in AXES]
        else:
            asts = [('step', x, y) for x in AXES for y in ('b', 'node()')]
            contexts = [b.doc[i] for i in (0, 1, 2, 3, len(b.doc) // 3, len(b.doc) // 2, len(b.doc) - 1)]
        st.distinct(len(contexts) * len(asts))
        for ast in asts:
            for long in ((False, True) if mode != 'two' and mode != 'three' else (False,)):
                msg = self.agree(b, ast, show(ast, long=long), contexts, st)
                if msg:
                    return msg
        for abbr, ast in (('.', ('dot',)), ('..', ('dotdot',))):
            msg = self.agree(b, ast, abbr, contexts, st)
            if msg:
                return msg
        if canon_tree(b.elem) != t:
            return 'the queries changed the document'
        st.trace()


RELS = ([('step', 'child', t) for t in TESTS] + [('step', 'attribute', t) for t in ('i', 'b', '*', 'node()')] + [('dot',), ('dotdot',)]
        + [('step', 'self', 'b'), ('step', 'descendant', 'b'), ('step', 'descendant-or-self', '*'), ('step', 'parent', '*'), ('step', 'ancestor', 'node()'),
           ('step', 'following-sibling', '*'), ('step', 'preceding', 'text()')])


class Q02(XPathCheck):
    id = 'Q02'
    SCALE = ['/', '/a', '/*/b', '//b', '//text()', '/*/@*', '//@i', '//b/..', './/b', './/b//text()', '*//b', '/*/b/@i', '//*/*/@i', '/descendant::b', '//b//b', '/*//@kK', '//@kK_', './/@i/..', '/b/a/b/a/b', '../..//b',
             '/' + '/'.join(['*'] * 30), '//' + '/..//'.join(['*'] * 2)]
    assumptions = ('Reference evaluator mc/refxp.py.', '/node() and //node() are taken to include the root node, as the tests of the repository require.')

    CONFUSABLE = ['/M', '/N', '//M', '//N', '//@M', '//@N', '/M/N', '/M//M', '/N//N', '//M//N', '//N//M', '//M/N', './/M', './/N/@M', '//M/@N/..', '/*/N', '/*/M//text()', '//N/text()']

    CONTENTS = ['//.', '//self::node()', '//self::text()', '//self::*', '//descendant::text()', './/self::text()', '//following-sibling::node()', '//preceding::text()', '//..', '//attribute::node()', '//ancestor::*', './/descendant-or-self::node()', '/descendant-or-self::text()', '//b/.', '//text()', '//@x', '/a/text()', '//b//text()', '/*', '//@*/..', '//text()/..', '/a/b/b/text()', './/text()', '//c/@x', '//node()', '/a/@y']

    def families(self, tier):
        q = tier == 'quick'
        docs = [decorate(t) for t in gen.elements_only(3, ('a', 'b'))]
        more = [decorate(t) for t in gen.elements_only(4, ('a', 'b'), 4)]
        def absolute():
            for t in docs + more:
                yield [t, 'abs1']
            for t in docs[:7] + docs[7::2] if q else docs:
                yield [t, 'abs2']
        def relative():
            for t in docs + more:
                yield [t, 'rel1']
            for t in docs if q else docs + more:
                yield [t, 'rel2']
            for t in docs[7::3] if q else docs:
                yield [t, 'rel3']
        def mixed():
            for t in docs + (more[::4] if q else more):
                yield [t, 'mixed']
        def detached():
            for t in docs + more:
                for i in range(6):
                    yield [t, 'detached', i]
        def names():
            ns = ['b', 'ab', 'A', '\u00e9', 'or', 'and', 'div', 'mod', 'text', 'node', 'comment', 'self', 'child', 'parent', 'attribute', 'descendant', 'ancestor', 'count', 'last', 'true', 'xmlns', '_']
            for n in ns:
                for t in ((n, ((n, n),), ()), (n, ((n, 'v'),), (n, (n, (), ((n, ((n, ''),), ('x',)), ('c', (), ((n, (), ()),)))), n)), ('c', (), (n, (n, ((n, n),), (n,)), ('c', ((n, 'c'),), ((n, (), ()),))))):
                    yield [t, 'name:' + n]
        return [Family('names', names, '22 names, those of operators, axes, functions and node types included: /, // and all axes', self.run_doc),
                Family('absolute', absolute, '/, /x, //x, and x of 2 steps from 18 steps with / and //, from every node of all trees of up to 4 (3) elements', self.run_doc),
                Family('relative', relative, 'x//y, x//y/z, x//y//z and x/y//z of 18 steps, from every node of all trees of up to 4 (3) elements', self.run_doc),
                Family('mixed', mixed, 'absolute and // paths within unions, predicates, arguments, comparisons and sequences', self.run_doc),
                Family('detached', detached, 'the same after a node was taken out: for it and for the rest', self.run_detached), self.confusable(), self.contents(), self.empties(tier), self.scale(tier)]

    def asts(self, mode):
        if mode == 'abs1':
            yield ('root',)
            for r in STEPS + [('dot',), ('dotdot',)]:
                yield ('abs', r)
                yield ('absd', r)
        elif mode == 'abs2':
            for r, s in itertools.product(RELS, repeat=2):
                for op in ('path', 'dpath'):
                    yield ('abs', (op, r, s))
                    yield ('absd', (op, r, s))
        elif mode.startswith('name:'):
            n = mode[5:]
            some = [('step', x, n) for x in AXES] + [('step', 'child', '*'), ('step', 'child', 'node()'), ('step', 'child', 'text()'), ('dot',), ('dotdot',)]
            for r in some:
                yield ('abs', r)
                yield ('absd', r)
                for u in some:
                    for op in ('path', 'dpath'):
                        yield ('abs', (op, r, u))
                        yield ('absd', (op, r, u))
                        yield (op, r, u)
        elif mode == 'rel1':
            for r, s in itertools.product(RELS, STEPS + [('dot',), ('dotdot',)]):
                yield ('dpath', r, s)
        elif mode == 'rel2':
            few = RELS[:4] + RELS[5:6] + RELS[9:12]
            for r, s, u in itertools.product(few, few, RELS):
                yield ('path', ('dpath', r, s), u)
                yield ('dpath', ('path', r, s), u)
        elif mode == 'rel3':
            few = RELS[:4] + RELS[5:6] + RELS[9:12]
            for r, s, u in itertools.product(few, RELS, few):
                yield ('dpath', ('dpath', r, s), u)
            for p in (('abs', few[0]), ('absd', few[1]), ('pred', few[2], (('num', 1),)), ('seq', (few[0], few[1])), ('root',), ('var', 'v')):
                for s, u in itertools.product(RELS, few):
                    yield ('dpath', p, s)
                    yield ('dpath', p, ('path', s, u))
                    yield ('path', p, ('dpath', u, s))
                    yield ('dpath', p, ('dpath', u, s))
        else:
            ps = [('root',), ('abs', ('step', 'child', 'a')), ('absd', ('step', 'child', 'b')), ('abs', ('dpath', ('step', 'child', '*'), ('step', 'child', 'b'))),
                  ('absd', ('step', 'attribute', 'i')), ('dpath', ('dot',), ('step', 'child', '*')), ('absd', ('step', 'child', 'node()')), ('abs', ('step', 'child', 'node()'))]
            for p in ps:
                yield ('call', 'count', (p,))
                yield ('pred', ('step', 'child', 'node()'), (p,))
                yield ('pred', ('step', 'descendant-or-self', 'node()'), (('bin', '=', ('call', 'count', (p,)), ('num', 1)),))
                yield ('call', 'for-each', (('step', 'descendant-or-self', 'node()'), ('str', show(p))))
                for r in ps + [('step', 'child', 'b'), ('dot',), ('step', 'attribute', '*')]:
                    yield ('union', p, r)
                    yield ('union', r, p)
                    yield ('seq', (p, r))
                    yield ('bin', '=', p, r)
                    yield ('pred', p, (r,))
                    yield ('pred', p, (('num', 1), r))

    def run_doc(self, case, st):
        from amara3.uxml.uxpath import xast
        t, mode = tup(case)
        b = Bound(t)
        st.state((t, mode))
        n = 0
        env = {'v': b.doc[-2]}
        for ast in self.asts(mode):
            text = show(ast)
            before = xast.serialize(compiled(text))
            msg = self.agree(b, ast, text, b.doc, st, env)
            if msg:
                return msg
            if xast.serialize(compiled(text)) != before:
                return 'computing %s changes it to %s' % (text, xast.serialize(compiled(text)))
            n += 1
        st.distinct(n * len(b.doc))
        if canon_tree(b.elem) != t:
            return 'the queries changed the document'
        st.trace()

    def run_detached(self, case, st):
        t, mode, i = tup(case)
        b = Bound(t)
        elems = [n for n in b.doc if n.kind == 'elem'][1:]
        if i >= len(elems):
            return
        compiled('//node()|//@*')
        query(b, '//node()|//@*', b.doc[1])
        gone = elems[i].impl
        gone.xml_parent.xml_remove(gone)
        st.state((t, mode, i))
        for e in (gone, b.elem):
            part = Bound(canon_tree(e), e)
            for ast in [('root',)] + [(op, r) for op in ('abs', 'absd') for r in RELS]:
                msg = self.agree(part, ast, show(ast), part.doc, st)
                if msg:
                    return 'after child %d was removed: %s' % (i, msg)
        st.trace()


PREDS = ['0', '1', '2', '3', '2.0', '1.5', '-1', "number('x')", 'count(*)', 'string-length(.)', 'true()', 'false()', 'not(b)', "''", "'x'", 'string(.)', 'b', '@i', 'text()',
         '..', './/a', '()', "('')", '(0)', '(2)', ".='x'", '@i=2', '@i>2', 'count(b)>1', 'b and @i', 'b or false()', "not(.='x')", '. = .', 'name()', "name()='b'", '$one', '$two', '$t', '$f']
ENV = {'one': 1, 'two': 2, 't': True, 'f': False, 's': 'x', 'e': '', 'inf': float('inf'), 'ninf': float('-inf'), 'nz': -0.0, 'big': 1e21, 'nan': float('nan')}
LEFTS = ['*', '//b', '//node()', '//@*', 'a/b', 'b/text()', './/*', '(1,2,3)', "('','x',0,1,true(),false())", '//*/@i', 'ancestor-or-self::*', '(//b,//b)', '.', '..', '//a/*', '//text()',
         '(2,1,2)', 'preceding::node()', '*|text()', '()', '$two', "'x'", '/a', '(b)/a']


class Q03(XPathCheck):
    id = 'Q03'
    SCALE = ['*[K]', '*[K1]', '*[K_]', '*[KH]', 'b[KH][1]', 'b[.=K]', 'b[.!=1][KH]', '//b[K]', '//b[@i=K]', '//b[@i>=KH]', '//b[@i][K_]', 'node()[K]', '//node()[K]', 'b[count(../b)=K]', '//@*[K]', 'b/@*[KH]', '//b[@kK]',
             '//*[count(@*)=K]', '*[text()][KH]', 'b[b[3]]', 'b[b[5]=5][KH]', 'preceding::node()[K_]', 'ancestor::*[KH]', 'descendant::b[K]', '//text()[.=K]', '//b[string-length(.)=K]', '(//b,//b)[K1]',
             'b' + '[true()]' * 12, 'b' + '[.>0]' * 5 + '[KH]']
    assumptions = ('Reference evaluator mc/refxp.py.', 'A predicate applies to the whole sequence before it, so a/b[1] is (a/b)[1], as the tests of the repository require.')

    CONFUSABLE = [l + x for l in ('//*', '*', '//text()', '//@*') for x in ('[M]', '[N]', '[@M]', '[@N]', '[@M="N"]', '[@N="M"]', '[@M="M"]', '[.="M"]', '[.="N"]', '[name()="M"]', '[name()="N"]', '[M][1]', '[1][N]', '[N/@M]', '[.=$M]', '[$N]')]

    CONTENTS = ['//*[.=$s]', '//*[@x=$t]', '//@*[.=$s]', '//text()[.=$t]', '//*[text()]', '//*[$s]', '//b[@y]', '//*[@x={s}]', '//text()[.={t}][1]', '//b[.=$s][1]', '//*[not(.={s})]', '//b[@x=$s][@y=$t]', '($s, $t, 1)[.=$t]', '($s, $t)[2]', '//text()[. != $s]', '//*[@x]/text()[.={s}]', '//*[{s}]', '//*[.]', '//@*[.]', '//text()[.]', '//*[@x=@y]', '//b[text()=@x]']

    def families(self, tier):
        q = tier == 'quick'
        docs = [decorate(t) for t in gen.elements_only(3, ('a', 'b'))]
        docs += [('a', (), (('b', (('i', '1'),), ('x',)), 'x', ('b', (('i', '2'),), (('a', (), ()), ('b', (), ('x', 'x')))), ('a', (('i', '3'),), ('2',)), ('b', (), ())))]
        big = docs[-1]
        # empty values and texts, names as texts
        blank = [('a', (('i', ''), ('b', '')), ('', ('b', (('i', ''),), ('',)), 'x', '', ('b', (('b', 'a'),), ('', 'b')), ('a', (), ()), ' ')),
                 ('b', (('i', '0'),), ('a', ('a', (('i', 'b'),), ('0',)), '', ('b', (('b', '#text'),), ('#text',)), 'false'))]
        def one():
            for t in docs + blank:
                for l in LEFTS:
                    yield [t, l, 'one']
        def two():
            for t in [big] + blank if q else docs[7:] + blank:
                for l in LEFTS:
                    for p in PREDS:
                        yield [t, l, 'two', p]
        def three():
            few = PREDS[1:5] + ['true()', 'b', '@i', ".='x'", 'false()', "''"]
            for l in LEFTS:
                for p in few:
                    yield [big, l, 'three', p]
        def nested():
            for t in [big] + ([] if q else docs[7:]):
                for l in LEFTS:
                    for x in ('*', 'b', './/node()', '(1,2)', '..', '../*', '//b', '@*', '(.,.)'):
                        yield [t, l, 'nested', x]
        def inpath():
            for t in docs if not q else docs[7:]:
                for l in LEFTS:
                    yield [t, l, 'inpath']
        def position():
            for t in docs[5:] + blank:
                for l in LEFTS:
                    yield [t, l]
            for k in gen.SWEEP + (gen.LARGE if not q else gen.LARGE[1::3]):
                yield [scale_doc('wide', k), '//b']
        def last():
            yield [big, 'last', 'a/b[last()]']
            yield [big, 'last', '//b[last()]']
            yield [big, 'last', '(1,2,3)[last()]']
        return [Family('one', one, '%d left sides times %d predicates, from every node of all trees of up to 3 elements and one larger one' % (len(LEFTS), len(PREDS)), self.run_case),
                Family('two', two, 'the same with all pairs of predicates on 3 documents (and all trees of 3 elements)', self.run_case),
                Family('three', three, 'the same with all triples of 10 predicates on one document', self.run_case),
                Family('nested', nested, 'predicates within predicates: 9 inner left sides', self.run_case),
                Family('in-path', inpath, 'steps after predicates, predicates after those', self.run_case),
                Family('last', last, 'last()', self.run_last), self.within(), self.confusable(), self.contents(), self.empties(tier), self.scale(tier),
                Family('position', position, 'the position that a function given by the caller finds in its context, for 24 left sides and all pairs of them, on 10 documents, and with up to 1025 items', self.run_position)]

    def texts(self, l, mode, args):
        if mode == 'one':
            for p in PREDS:
                yield '%s[%s]' % (l, p)
        elif mode == 'two':
            for p in PREDS:
                yield '%s[%s][%s]' % (l, args[0], p)
                yield '(%s[%s])[%s]' % (l, args[0], p)
        elif mode == 'three':
            few = PREDS[1:5] + ['true()', 'b', '@i', ".='x'", 'false()', "''"]
            for p, r in itertools.product(few, repeat=2):
                yield '%s[%s][%s][%s]' % (l, args[0], p, r)
        elif mode == 'nested':
            for p in PREDS:
                yield '%s[%s[%s]]' % (l, args[0], p)
                yield '%s[count(%s[%s])=1]' % (l, args[0], p)
                yield '%s[%s[%s]][1]' % (l, args[0], p)
                yield '%s[%s[%s]=2]' % (l, args[0], p)
        else:
            for p in ('1', '2', 'b', 'true()', '@i'):
                for r in ('*', '@i', '..', 'b', '.', 'text()', 'following-sibling::*'):
                    yield '%s[%s]/%s' % (l, p, r)
                    yield '%s[%s]//%s' % (l, p, r)
                    for s in ('1', '2', 'false()', ".='x'"):
                        yield '%s[%s]/%s[%s]' % (l, p, r, s)

    def run_case(self, case, st):
        t, l, mode, *args = tup(case)
        b = Bound(t)
        contexts = b.doc if mode == 'one' else [b.doc[0], b.doc[1], b.doc[len(b.doc) // 2], b.doc[-1]]
        n = 0
        for text in self.texts(l, mode, args):
            n += 1
            msg = self.agree(b, rparse(text), text, contexts, st, ENV)
            if msg:
                return msg
        st.distinct(n * len(contexts))
        st.trace()

    def run_position(self, case, st):
        from amara3.uxml import uxpath
        from amara3.uxml.uxpath.functions import BUILTIN_FUNCTIONS
        t, l = tup(case)
        b = Bound(t)
        seen = []
        def position(ctx):
            yield ctx.pos
        def note(ctx):
            seen.append(ctx.pos)
            yield True
        funcs = dict(BUILTIN_FUNCTIONS, position=position, note=note)
        st.state((t, l))
        large = len(b.doc) > 60
        n = len(b.doc)
        texts = [('%s[position()=%d]' % (l, k), '%s[%d]' % (l, k)) for k in ((1, 2, 3) if not large else (1, n // 3, n - 2, 255, 256, 257, 1000))]
        texts += [('%s[position()]' % l, l), ('%s[true()][position()=2]' % l, '%s[2]' % l), ('%s[position()=2][position()=1]' % l, '%s[2]' % l), ('%s[note()]' % l, l)]
        if not large:
            texts += [('%s[%s[position()=2]]' % (l, m), '%s[%s[2]]' % (l, m)) for m in ('*', '../*', '@*')]
            texts += [('%s[b[position()=1]][position()=1]' % l, '%s[b[1]][1]' % l), ('%s[*][position()=2]' % l, '%s[*][2]' % l)]
        env = {k: v for k, v in ENV.items()}
        for c in b.doc if not large else b.doc[:2]:
            for text, same in texts:
                try:
                    want = expected(rparse(same), c, env)
                except Error:
                    continue
                del seen[:]
                ctx = uxpath.context(b.node(c), variables=env, functions=funcs, force_root=False)
                got = [b.canon(x) for x in compiled(text).compute(ctx)]
                st.step()
                if got != want:
                    return '%s from %r in %s gives %s instead of %s' % (text, c, markup(t)[:300], repr(got)[:400], repr(want)[:400])
                if '[note()]' in text and '|' not in l and seen != list(range(1, len(want) + 1)):
                    return '%s from %r in %s: the positions are %r' % (text, c, markup(t)[:300], seen)
        st.trace()

    def run_last(self, case, st):
        t, mode, text = tup(case)
        b = Bound(t)
        st.state(text)
        return self.agree(b, rparse(text), text, [b.doc[0]], st, ENV)


VALUES = ["''", "' '", "'\n\t'", "'X'", "'false'", "'x'", "'abc'", "' 12 '", "'-1.5'", "'1e3'", "'.5'", "'5.'", "'+1'", "'NaN'", "'Infinity'", "'1_0'", "'\u0663'", "'\u00a01'", "'- 1'", "'--1'", "'2'", "'0'", "'true'",
          '0', '1', '2', '3', '1.5', '0.5', '2.5', '-1', '-0.5', '--2', 'true()', 'false()', '()', '$nan', '$inf', '$ninf', '$nz', '$big', '$t', '$s', '$e',
          '.', 'b', '@i', 'text()', '(/)', '//b', 'b[9]', "(1,'a')", "('',1)", '(0,1)', '//@i', "('b','x')", '..', '$n']


# Numbers of all magnitudes, and next to others, as literals
MAGNITUDES = sorted({m for k in range(0, 22) for m in ('0.' + '0' * k + '1', '0.' + '0' * k + '5', '0.' + '9' * (k + 1), '1.' + '0' * k + '1', '0.4' + '9' * k, '2.5' + '0' * k + '1', '1' + '0' * k + '.0', '1' + '0' * min(k, 15),
                                                         '9' * (min(k, 14) + 1), '9' * (min(k, 14) + 1) + '.5')} | {'0.' + '0' * 323 + '1', '0.' + '0' * 300 + '1', '0.' + '0' * 100 + '1', '1' + '0' * 100 + '.0', '0', '0.0'},
                    key=lambda m: (float(m), len(m), m))


TABLES = {'x': {'x': 'y', '': 'none', '2': 2.0, '1': '', '12': 'x', 'true': False, 'NaN': '2', 'Infinity': 0}, '2': {'2': 'x', 'x': '2'}, '': {'': '', 'x': 'X'}, 'empty': {}}


def value_doc():
    return ('a', (('i', '2'), ('k', '')), ('x', ('b', (('i', '1'),), ('12',)), ('b', (), ('x',)), 'b', ('c', (), ())))


class Q04(XPathCheck):
    id = 'Q04'
    SCALE = ['//b = K', '//b = K1', '//b > K_', '//b > K', '//b != //b', '//b/@i = //b', 'b < 1', 'b <= KH', "//b = 'K'", '//@* = K', '//@* > K_', "'K' = K", 'K < K1', "'K' < 'K1'", 'K >= K_', '//text() = //@*', 'count(//b) = K', 'count(b) > KH',
             'b[K] or b[K1]', 'b[K] and b[KH]', 'string-length(.) = K', '//b[K] = K', "'%s' = '%s'" % ('x' * 300, 'x' * 300), "'%sy' != '%sz'" % ('x' * 300, 'x' * 300), ' or '.join(['false()'] * 20 + ['b']), ' and '.join(['true()'] * 20 + ['b']), '//b = (K,K1)']
    assumptions = ('Reference evaluator mc/refxp.py; comparison as stated in the property.',)
    OPS = ['=', '!=', '<', '>', '<=', '>=', 'and', 'or']
    MANY = ["for-each((1, 2), '.')", "for-each((3, 2, 12), '.')", "for-each(//b, 'string(.)')", "for-each(('', 'x'), '(., true())')", "for-each((), '1')", "for-each(*, '@i')", "for-each((1, 2), '//b')",
            '((1, "x"), (), (2, b))', '(1, 2, 12)', '("12", "x", false())', '(b | c)', '(//text() | //@*)', '(b, b)[2]', '(5, 2, "x")[. > 1]', '//b[1]', '//node()[. = 12 or self::c]', '*/text()', '//b/@i', '(-1, -b, 1 = 1)', 'b//text()',
            "for-each((12, 'b'), 'for-each((., 1), \".\")')"]

    CONFUSABLE = ['"%s" %s "%s"' % (x, o, y) for o in ('=', '!=') for x in 'MN' for y in 'MN'] + ['%s %s "%s"' % (x, o, y) for o in ('=', '!=') for x in ('.', '//text()', '//@*', '//N', '*', '@M', 'name()', '(1, "N")', '("M", "N")', 'text()') for y in 'MN'] + ['//@M = //@N', '//@M != //M', '@M = @N', '//M = //N', 'M != N', 'M or N', '@N and M', '$M = $N', '$M = "M"']

    CONTENTS = ['$s = $t', '$s != $t', '{s} = $t', '{s} = {t}', '$s < $t', '. = $s', '@x = $t', '//text() = $s', '//@x != $t', '//b = //c', '($s, 1) = $t', 'b/@x = //@y', '$s and $t', 'not($s) or @x', '$s >= number($t)', '//@* = {t}', 'b = {s}', '{s} or {t}', '$s = 1', '$s = true()', '1 <= //@x', 'text() = {s}', '//text() != //text()', '//text() > //@y']

    def families(self, tier):
        q = tier == 'quick'
        def pairs():
            for x in VALUES:
                for y in VALUES:
                    yield [x, y]
        def sequences():
            atoms = ["''", "'1'", "'b'", '0', '1', 'true()', 'false()', '$nan', 'b', '//text()', '@i', '()']
            seqs = ['(%s)' % ','.join(s) for n in (0, 1, 2) for s in itertools.product(atoms, repeat=n)]
            for x in seqs:
                yield [x, seqs[::5] if q else seqs]
        def chains():
            few = ['()', '0', '1', "'x'", 'true()', 'b', '$nan', "''"]
            for s in itertools.product(few, repeat=3):
                yield [list(s)]
        def nested():
            for x in VALUES[::3]:
                for y in VALUES[::4]:
                    yield ['n', x, y]
        def producers():
            for x in self.MANY:
                yield [x, self.MANY]
        def magnitudes():
            for i, m in enumerate(MAGNITUDES):
                for n in MAGNITUDES[max(i - 5, 0):i + 6] + MAGNITUDES[i % 9::9 if q else 2]:
                    yield [m, n]
        return [Family('producers', producers, 'all pairs of %d kinds of expressions that give several items: for-each, nested sequences, unions, predicates, paths' % len(self.MANY), self.run_pair),
                Family('pairs', pairs, 'all pairs of %d operands, 8 operators, 5 contexts' % len(VALUES), self.run_pair),
                Family('sequences', sequences, 'all pairs of sequences of up to 2 of 12 items (a fifth of the right sides)', self.run_pair),
                Family('chains', chains, 'all triples of 8 operands with all pairs of 8 operators', self.run_chain),
                Family('magnitudes', magnitudes, '%d numbers of all magnitudes, each with those close to it and a ninth (half) of the others, in 14 expressions' % len(MAGNITUDES), self.run_magnitude),
                Family('nested', nested, 'comparisons as operands of comparisons, within not, predicates and count', self.run_nested), self.confusable(), self.contents(), self.empties(tier), self.scale(tier)]

    def bound(self):
        if not hasattr(self, '_b'):
            self._b = Bound(value_doc())
            self._ctx = [self._b.doc[i] for i in (0, 1, 2)] + [n for n in self._b.doc if n.name == 'b' and n.kind == 'elem'][:1] + [n for n in self._b.doc if n.kind == 'text'][:1]
        return self._b, self._ctx

    def check(self, text, st, contexts=None):
        b, ctx = self.bound()
        st.state(text)
        env = dict(ENV, n=b.doc[-1])
        if 'lookup(' in text:
            env['#tables'] = TABLES
        return self.agree(b, rparse(text), text, ctx if contexts is None else contexts, st, env)

    def run_pair(self, case, st):
        x, ys = case
        b, ctx = self.bound()
        for y in ys if isinstance(ys, list) else [ys]:
            for op in self.OPS:
                msg = self.check('%s %s %s' % (x, op, y), st, ctx[1:3] if isinstance(ys, list) else None)
                if msg:
                    return msg
        st.trace()

    def run_magnitude(self, case, st):
        m, n = case
        for f in ('M = N', 'M != N', 'M < N', 'M >= N', '-M > -N', 'M > -N', '"M" = N', 'number("-M") <= N', 'M and N', 'false() or M', 'M and not(-N)', '(0, M) = (N, 0.0)', 'true() = M', 'not(M) = not(N)'):
            msg = self.check(f.replace('M', m).replace('N', n), st, self.bound()[1][1:2])
            if msg:
                return msg
        st.trace()

    def run_chain(self, case, st):
        x, y, z = case[0]
        for o, p in itertools.product(self.OPS, repeat=2):
            msg = self.check('%s %s %s %s %s' % (x, o, y, p, z), st, self.bound()[1][1:2])
            if msg:
                return msg
        st.trace()

    def run_nested(self, case, st):
        _, x, y = case
        for op in self.OPS:
            c = '%s %s %s' % (x, op, y)
            for f in ('not(%s)', '//*[%s]', 'count((%s))', 'string(%s)', '(%s) = true()', '(%s) < 1', 'boolean(%s) and b', '-(%s)'):
                msg = self.check(f % c, st)
                if msg:
                    return msg
        st.trace()


class Q05(Q04):
    id = 'Q05'
    SCALE = ['count(//b)', 'count(//@*)', 'count(//node())', 'count((//b,//b))', 'string(.)', 'string(b[K])', 'string(@i)', 'string(K)', "number('K')", 'number(@i)', 'string-length(.)', 'string-length(string(b[2]))', "boolean('%s')" % (' ' * 300),
             "contains(., 'K')", "starts-with(., '1')", "substring-before(., 'K')", "substring-after(., 'K')", 'substring(., K, 2)', 'substring(., 1, K)', 'substring(., KH, KH)', 'name(b[K])', 'not(b[K])', 'boolean(b[K1])', "concat(name(.), 'K', string(b[KH]))",
             "for-each(b, '@i')", "for-each(//b, 'string(.)')", "for-each(*, '..')", "count(for-each(//b, '(.,.)'))", 'concat(%s)' % ', '.join(["'%d'" % i for i in range(40)]), '-K', '--K', '-count(//b)', "for-each(b, 'K')", 'number(.)', 'name(//@*[K])']
    assumptions = ('Reference evaluator mc/refxp.py, after the documentation of the functions and XPath 1.0.',
                   'concat() of sequences of several items and functions that raise NotImplementedError are not covered.')

    CONFUSABLE = ['%s(%s, "%s")' % (f, x, y) for f in ('starts-with', 'contains', 'substring-before', 'substring-after', 'concat') for x in ('"M"', '"N"', '"xMN"', '"NNM"', 'name()', '.') for y in 'MN'] + ['lookup("%s", "%s")' % (x, y) for x in ('M', 'N', 'MN', '') for y in ('M', 'N', '')] + ['string-length("M")', 'string-length("N")', 'name(//M)', 'name(//N)', 'name(@M)', 'name(//@N)', 'substring("MN", 2, 30)', 'substring("NM", 2, 3)', 'number("M")', 'count(//M)', 'count(//@N)', 'for-each(//M, "N")', 'string(//N)', '$M', '$N', 'concat($M, $N, "M")', 'boolean($M)']

    CONTENTS = ['concat($s, $t)', 'concat({s}, {t}, {s})', 'starts-with($s, $t)', 'contains($s, {t})', 'contains(., $s)', 'substring-before($s, $t)', 'substring-after($s, $t)', 'substring-before(., {t})', 'string-length({s})', 'string-length(.)', 'substring({s}, 2, 3)', 'substring($s, 1, 1)', 'number($s)', 'number({t})', 'boolean($s)', 'boolean({t})', 'string(.)', 'string({s})', 'string($t)', 'string(//b)', 'starts-with(@x, $s)', 'starts-with(., {t})', 'lookup("k", $s)', 'lookup($s, "k")', 'lookup({t}, $t)', 'lookup("k", {s})', 'name(//text())', 'count(//text())', 'not($s)', 'for-each(//text(), "string(.)")', 'for-each((@x, @y), ".")', '$s', '$t', '($s, $t)', '{s}', '({t}, {s})', 'number(@x)', 'number(//b)', 'concat(@y, string(//@y), .)']

    def families(self, tier):
        q = tier == 'quick'
        def zero():
            for f in ('string', 'number', 'string-length', 'name', 'true', 'false'):
                yield ['%s()' % f]
            for v in VALUES:
                yield ['for-each(%s, "string()")' % v]
                yield ['for-each(%s, "number()")' % v]
                yield ['for-each(%s, "string-length()")' % v]
                yield ['for-each(%s, "name()")' % v]
        def one():
            for v in VALUES:
                yield ['-%s' % v]
                yield ['-(%s)' % v]
                for f in ('string', 'number', 'boolean', 'not', 'name', 'count', 'string-length'):
                    yield ['%s(%s)' % (f, v)]
                    for g in ('string', 'number', 'boolean', 'not', 'name', 'count', 'string-length'):
                        yield ['%s(%s(%s))' % (f, g, v)]
        def two():
            for v, w in itertools.product(VALUES, repeat=2):
                for f in ('starts-with', 'contains', 'substring-before', 'substring-after'):
                    yield ['%s(%s, %s)' % (f, v, w)]
                if not ({v, w} & {"(1,'a')", "('',1)", '(0,1)', "('b','x')", '//b', '//@i', 'b', 'text()'}):
                    yield ['concat(%s, %s)' % (v, w)]
            abc = [''] + [''.join(x) for n in (1, 2, 3) for x in itertools.product('ab', repeat=n)]
            abc += [''.join(x) for n in (1, 2) for x in itertools.product('aA .', repeat=n) if set(x) - set('a')]
            if not q:
                abc += [''.join(x) for x in itertools.product('ab', repeat=4)]
            for v, w in itertools.product(abc, repeat=2):
                for f in ('starts-with', 'contains', 'substring-before', 'substring-after', 'concat'):
                    yield ['%s("%s", "%s")' % (f, v, w)]
        def three():
            nums = ['0', '1', '2', '3', '1.5', '0.5', '2.5', '-1', '-0.5', '-1.5', '$nan', '$inf', '$ninf', '$nz', "'2'", 'true()', '()', '@i', "'x'", '0.49', '100', '2.49']
            for s in ("'abcd'", "''", "'\U0001F600b'", 'b', '()', '12345', '.', 'true()'):
                for x, y in itertools.product(nums, repeat=2):
                    yield ['substring(%s, %s, %s)' % (s, x, y)]
            for x in itertools.product(["'a'", '1', 'true()', '()', "''", '@i', '1.5', '.'], repeat=3):
                yield ['concat(%s)' % ', '.join(x)]
        def foreach():
            for v in VALUES + ['*', '//node()', '//*/@*', '(b,c,.)']:
                for e in ('.', '1', "'y'", '(.,.)', '()', 'string(.)', '$one', 'count(.)', 'boolean(.)', '.=1', '-.'):
                    yield ['for-each(%s, "%s")' % (v, e)]
            for v in ('*', '//node()', '//*/@*', '.', '..', '//b', '()', '$n'):
                for e in ('*', '..', '@*', '//b', '/', 'b[1]', 'name(..)', 'count(//*)', "for-each(*, 'name()')", "for-each(../*, '.')", 'following::*', '.|..'):
                    yield ['for-each(%s, "%s")' % (v, e)]
                    yield ['count(for-each(%s, "%s"))' % (v, e)]
        def numerals():
            chars = ['1', '0', '.', '-', ' ', 'e', '+', '\t', 'x', '\n']
            for n in range(0, 5 if q else 6):
                for s in itertools.product(chars, repeat=n):
                    yield ['number("%s")' % ''.join(s)]
            for n in ('0.1', '1.25', '100.5', '1234567.875', '0.001', '3.0', '1000000000000000.0', '123456789012.5', '0.0001', '0.00001', '0.000012', '.00000000000123456', '0.0000001', '0.' + '0' * 320 + '5',
                      '1' + '0' * 22 + '.0', '123456789012345678', '9' * 30, '0.1234567890123456789'):
                for f in ('string(%s)', 'string(-%s)', 'string-length(%s)', 'concat(%s, "x")', 'number(string(%s))', 'contains(%s, ".")', '%s = string(%s)', 'substring-before(-%s, ".")'):
                    yield [f.replace('%s', n)]
        def lookup():
            for v, w in itertools.product(VALUES, VALUES):
                yield ['lookup(%s, %s)' % (v, w)]
            for v, w in itertools.product(["'x'", "'2'", '.', "'nothing'", '()', '$one'], VALUES):
                yield ['count(lookup(%s, %s))' % (v, w)]
                yield ['lookup(lookup(%s, %s), %s)' % (v, w, w)]
                yield ['//*[lookup(%s, .) = %s]' % (v, w)]
                yield ['for-each((%s, %s), "lookup(\'x\', .)")' % (w, v)]
        def characters():
            for base in gen.blocks(64, not q):
                yield [base]
        def magnitudes():
            for m in MAGNITUDES:
                for f in ('string(%s)', 'string(-%s)', 'boolean(%s)', 'boolean(-%s)', 'not(%s)', 'number(%s)', 'number("%s")', 'number(" -%s")', 'string(number("%s"))', 'number(string(%s))', 'boolean(number("%s"))', 'string-length(%s)',
                          'concat(%s, "", -%s)', 'starts-with(%s, "0.")', 'contains(-%s, "00")', 'substring-after(%s, ".")', 'substring("12345", %s, 2)', 'substring("12345", 2, %s)', 'substring("12345", -%s, 3)', '//*[%s]', '(3, 4)[not(%s)]',
                          'boolean((%s, 0))', 'for-each((%s, 1), "string(.)")', 'lookup("x", %s)', '%s = number(string(%s))'):
                    yield [f.replace('%s', m)]
            for n in range(2 ** 52 - 6, 2 ** 52 + 7):
                for d in range(0, 8):
                    yield ['substring("12345", -%d, %d)' % (n, n + d)]
                    yield ['substring("12345", -%d, %d.0)' % (n, n + d)]
                    yield ['substring("12345", -%d.5, %d.5)' % (n - 2 ** 51, n - 2 ** 51 + d)]
        def arguments():
            items = ["'x'", '1', '@i', '.', 'true()', '2.5', '""', "concat('y', 'z')", '$one', '-1', 'string(.)']
            for k in gen.sizes(most=257 if q else 1025):
                for o in range(3):
                    c = [items[(i * 5 + o) % 11] if o else "'%d'" % i for i in range(k)]
                    if k > 1:
                        yield ['concat(%s)' % ', '.join(c)]
                        yield ['string-length(concat(%s))' % ', '.join(c)]
                    yield ['(%s)' % ', '.join(c)]
                    yield ['count((%s))' % ', '.join(c)]
                    yield ['for-each((%s), "string(.)")' % ', '.join(c)]
                    yield ['string((%s))' % ', '.join(c)]
                    yield ['number((%s))' % ', '.join(c)]
                    yield ['boolean((%s))' % ', '.join(c)]
                    yield ['(%s)[%d]' % (', '.join(c), k)]
                    yield ['count((%s)[. = "x"])' % ', '.join(c)]
        fam = self.run_text
        return [Family('arguments', arguments, 'up to 257 (1025) arguments and items, of 11 kinds, in 10 functions', fam),
                Family('magnitudes', magnitudes, '%d numbers of all magnitudes in 25 expressions; parts of texts whose positions are around 4503599627370496' % len(MAGNITUDES), fam),
                Family('contexts', zero, 'functions without argument, from 5 nodes and %d values' % len(VALUES), fam),
                Family('lookup', lookup, 'lookup() of all pairs of arguments in 4 tables, in functions, predicates and for-each()', fam),
                Family('one', one, '7 functions, pairs of them, and minus on %d arguments' % len(VALUES), fam),
                Family('two', two, '4 (5) functions on all pairs of arguments; of strings of up to 3 characters of 2', fam),
                Family('three', three, 'substring() of 8 strings, 22 starts and lengths; concat() of triples', fam),
                Family('for-each', foreach, '23 expressions for each of %d sequences' % (len(VALUES) + 4), fam),
                Family('characters', characters, 'every character of the BMP and at the ends of each plane (thorough: all), alone, doubled, and at both ends of "x": 24 expressions', self.run_characters),
                Family('numerals', numerals, 'number() of all strings of up to 4 (5) of 10 characters', fam), self.confusable(), self.contents(), self.empties(tier), self.scale(tier)]

    def run_characters(self, case, st):
        base, = case
        b = self.bound()[0]
        for c in range(base, base + 64):
            if 0xd800 <= c < 0xe000:
                continue
            c = chr(c)
            st.state(c)
            env = {'c': c, 'd': c + c, 'e': c + 'x' + c}
            for text in ('string($c)', 'string-length($d)', 'string-length($e)', 'boolean($c)', 'number($c)', 'number(concat("1", $c))', 'number(concat($c, "1"))', 'number(concat("1", $c, "1"))', 'concat($c, $e)', 'contains($e, $c)', 'contains("x", $c)', 'starts-with($e, $c)', 'starts-with("x", $c)',
                         'substring-before($e, "x")', 'substring-after($e, "x")', 'substring-before($e, $c)', 'substring-after($e, $c)', 'substring($e, 2, 2)', 'substring($e, 2, 1)', 'substring($d, 1, 1)', '$c = $d', '$c = "x"', '$c < 1', 'not($c)'):
                msg = self.agree(b, self.ast(text), text, b.doc[1:2], st, env)
                if msg:
                    return msg
        st.trace()

    def ast(self, text):
        cache = self.__dict__.setdefault('asts', {})
        if text not in cache:
            cache[text] = rparse(text)
        return cache[text]

    def run_text(self, case, st):
        text = case[0]
        msg = self.check(text, st, self.bound()[1] if not text.startswith('number("') else self.bound()[1][:1])
        st.trace()
        return msg


class Q06(XPathCheck):
    id = 'Q06'
    SCALE = ['//b|//text()', '//@*|//*|/', 'b[K]|b[1]', 'b[KH]|b[K]|b[1]|b[KH]', '//b|//b', '//text()|//@*', 'descendant::node()|ancestor::node()', 'b[K]/@*|.', '//@kK|//@k1|//b', '@*|*', '(//b|..)|(.|*)', 'b[K]|b[K_]', '//@*|//@*', 'following::*|preceding::*|.']
    assumptions = ('Reference evaluator mc/refxp.py. Between trees, order of first appearance.',)
    NODES = ['.', '..', '*', '@*', 'text()', 'node()', '/', '//b', '//a', '//@*', '//text()', 'ancestor::node()', 'following::node()', 'preceding::node()', '@i', '//*', 'b', './/b/..',
             'preceding-sibling::node()', '()', '(//b,//a)', 'b[2]|b[1]', '//node()', '//*/@b']

    CONFUSABLE = ['//M|//N', '//@M|//@N', '//M|//@M', '*|M', 'N|*', '//N|//M|//N', '//text()|//N', '@*|@N', '(//M|.)|(//N|..)']

    CONTENTS = ['//text()|//@x', '//b|//text()', '@*|text()', 'b|.|text()', '(//text()|//@y)[.=$s]', '//text()[.=$s]|//text()[.=$t]', '//@x|//@y', '*|*/text()']

    def families(self, tier):
        q = tier == 'quick'
        docs = [decorate(t) for t in gen.elements_only(3, ('a', 'b'))]
        more = [decorate(t) for t in gen.elements_only(4, ('a', 'b'), 4)]
        adj = [('a', (('b', ''), ('i', '')), k) for n in (1, 2, 3) for k in itertools.product(['x', 'x', ('b', (('i', '1'), ('b', '1')), ('x',))], repeat=n)]
        def pairs():
            for t in docs + (more[::5] if q else more) + adj:
                yield [t, 'pairs']
        def triples():
            for t in docs[7:10] if q else docs:
                for x in self.NODES[:19]:
                    yield [t, 'triples', x]
        def edited():
            for t in docs[2:] + adj:
                for i in range(4):
                    yield [t, 'edited', i]
        def trees():
            small = [decorate(t) for t in gen.elements_only(2, ('a', 'b'))] + [('a', (), ())]
            for t, u in itertools.product(small, repeat=2):
                yield [t, u]
        def wide():
            yield [('a', (), (('b', (('i', '1'),), ('x',)), 'x') * (60 if q else 300)), 'few']
        def large():
            for k in (2049, 4097, 5000) if q else (2049, 4097, 5000, 8193, 16385):
                for shape in ('wide', 'attributes'):
                    yield [shape, k]
        return [Family('large', large, '5000 (16385) children or attributes: %d expressions' % len(self.LARGE), self.run_large),
                Family('pairs', pairs, 'unions of all pairs of %d expressions from every node of trees of up to 4 elements, adjacent equal texts included' % len(self.NODES), self.run_doc),
                Family('triples', triples, 'unions of all triples of 19 expressions, both groupings, on 3 (22) documents', self.run_doc),
                Family('edited', edited, 'after nodes were moved to other places', self.run_edited),
                Family('trees', trees, 'nodes of two or three documents in one union, all pairs of documents of up to 2 elements', self.run_trees),
                Family('wide', wide, '60 (300) children', self.run_doc), self.confusable(), self.contents(), self.empties(tier), self.scale(tier)]

    LARGE = ['b[K]|b[1]|b[KH]|b[K_]', 'b[K_]|b[K]', '@kK|@k1|@kKH', '@kK_|@kK', '//b|//b', '@*|@*', '@*|b', 'b[KH]|@kKH|.']

    def run_large(self, case, st):
        shape, k = case
        b = Bound(scale_doc(shape, k))
        st.state((shape, k))
        for text in self.LARGE:
            text = text.replace('KH', str(max(1, k // 2))).replace('K_', str(max(0, k - 1))).replace('K', str(k))
            msg = self.agree(b, rparse(text), text, b.doc[1:2], st, ENV)
            if msg:
                return 'large %r: %s' % (case, msg[:1500])
        st.trace()

    def run_doc(self, case, st):
        t, mode, *args = tup(case)
        b = Bound(t)
        return self.unions(b, mode, args, st)

    def unions(self, b, mode, args, st):
        st.state((b.t, mode))
        if mode == 'triples':
            texts = [f % (args[0], y, z) for y, z in itertools.product(self.NODES[:19], repeat=2) for f in ('%s|%s|%s', '%s|(%s|%s)')]
            contexts = [b.doc[1], b.doc[len(b.doc) // 2], b.doc[-1]]
        elif mode == 'few':
            texts = ['//b|//text()', '//@*|//*|/', '//text()|//b/@i']
            contexts = [b.doc[1]]
        else:
            texts = ['%s|%s' % p for p in itertools.product(self.NODES, repeat=2)]
            contexts = b.doc
        st.distinct(len(texts) * len(contexts))
        for text in texts:
            msg = self.agree(b, rparse(text), text, contexts, st)
            if msg:
                return msg
        st.trace()

    def run_edited(self, case, st):
        t, mode, i = tup(case)
        e = build(t)
        list(e.xml_xpath('//node()|//@*'))
        kids = list(e.xml_children)
        if i == 0:
            c = kids[0]
            e.xml_remove(c)
            e.xml_append(c) if not isinstance(c, str) else e.xml_append(str(c))
        elif i == 1:
            c = kids[-1]
            e.xml_remove(c)
            e.xml_insert(c if not isinstance(c, str) else str(c), 0)
        elif i == 2:
            from amara3.uxml import tree
            n = tree.element('b', {'b': 'x', 'i': '9'})
            e.xml_insert(n, 1)
            n.xml_append('x')
        else:
            e.xml_attributes['a'] = 'new'
            e.xml_attributes.pop('i', None)
            e.xml_append('x')
        return self.unions(Bound(canon_tree(e), e), 'pairs', (), st)

    def run_trees(self, case, st):
        from amara3.uxml import uxpath
        t, u = tup(case)
        bs = [Bound(t), Bound(u), Bound(t)]
        st.state((t, u))
        def canon(v):
            for k, b in enumerate(bs):
                r = b.match(v)
                if r is not None:
                    return (k, r.ord)
            return repr(v)
        number = {id(n): (k, n.ord) for k, b in enumerate(bs) for n in b.doc}
        for texts in itertools.permutations(['$u', '$v', '$w', '//node()', '$u//node()', '$v//@*', '$v/text()', '$w/..', '$u', '$v/*'], 3):
            text = '|'.join(texts)
            env = {'u': bs[0].doc[1], 'v': bs[1].doc[1], 'w': bs[2].doc[-1]}
            want = evaluate(rparse(text), bs[0].doc[1], env)
            got = list(compiled(text).compute(uxpath.context(bs[0].elem, variables={k: bs[i].node(v) for i, (k, v) in enumerate(env.items())})))
            st.step()
            g, w = [canon(x) for x in got], [number[id(n)] for n in want]
            # each node once; document order within each document
            if sorted(map(str, g)) != sorted(map(str, w)) or any([x for x in g if x[0] == k] != [x for x in w if x[0] == k] for k in range(3)):
                return '%s over %s, %s, %s gives %r instead of %r' % (text, markup(t), markup(u), markup(t), g, w)
        st.trace()


class Q07(XPathCheck):
    id = 'Q07'
    technique = 'exhaustive exploration of all interleavings of query iterators in the real code'
    assumptions = ('One thread (threads: Q11).',)
    DOC = ('a', (('i', '1'),), ('x', ('b', (('k', '2'),), ('y',)), ('b', (), (('c', (), ()), 'x')), 'x'))
    EXPRS = ['//b', '//node()', 'b/text()', '//@*', 'b[1]', '//b|//c|//@i', 'count(//*)', "for-each(*, 'name()')", 'b/../b', '//b[.="y"]', '(1, b, "s")', 'a/b', '//c/ancestor::*', 'b//node()',
             '$v/text()', "concat('a', 'b')", '//*[b]', '*[2]/preceding::node()', '/', './/text()[2]', '-count(b)', 'b = "y"', '//b and //zz', 'b/@k | //text()']

    def families(self, tier):
        q = tier == 'quick'
        n = len(self.EXPRS)
        def pairs():
            for x, y in itertools.product(range(n), repeat=2):
                yield [x, y]
        def triples():
            few = [0, 2, 4, 5, 7, 9, 16] if q else [0, 2, 4, 5, 7, 9, 14, 16, 17, 19]
            for s in itertools.product(few, repeat=3):
                yield list(s)
        def same():
            for x in range(n):
                yield [x]
        def histories():
            few = list(range(0, n, 3)) if q else list(range(n))
            for k in (1, 2, 3):
                for h in itertools.product(few, repeat=k):
                    yield ['h', list(h)]
        def documents():
            for x in range(n):
                for d in range(len(self.DOCS)):
                    yield [x, d]
        def bindings():
            for x in range(len(self.BOUND)):
                yield [x]
        def scale():
            for k in gen.SWEEP + (gen.LARGE[1::3] if q else gen.LARGE):
                for x in range(len(self.LONG)):
                    yield [k, x]
        return [Family('scale', scale, '5 expressions with up to 1025 results: two results of one parsed expression in step, one ahead of the other by each of up to 12 distances, and up to 257 results at a time', self.run_scale),
                Family('pairs', pairs, 'all pairs of %d expressions, one or two contexts: every interleaving of their steps' % n, self.run_pair),
                Family('documents', documents, '2 or 3 results of one parsed expression for different documents (5): every interleaving, and every place to abandon one', self.run_documents),
                Family('triples', triples, 'all triples of 7 (10) expressions: every interleaving', self.run_many),
                Family('same', same, '2 or 3 results of one parsed expression for different contexts: every interleaving, and every place to abandon one', self.run_same),
                Family('forms', lambda: ([x] for x in range(len(self.FORMS))), 'each of %d forms of expression (axis and test, join of steps, operator and operands, function and arguments, predicate), parsed once: '
                       'results for all ordered pairs of 12 nodes of 3 documents, all of one after each item of the other, and in step; and one after the other' % len(self.FORMS), self.run_form),
                Family('bindings', bindings, '2 or 3 results of one parsed expression (of 20) with different variables, functions and lookup tables: every interleaving, and one after the other', self.run_bindings),
                Family('histories', histories, 'all sequences of up to 3 of 8 (24) expressions with one context object: each twice, before and after the others', self.run_history)]

    BOUND = ['$v', 'f()', "lookup('t', 'k')", '($v, f(), lookup("t", "k"))', 'b[f()]', 'b[$v]', '//*[. = $w]', '//*[. = lookup("t", "w")]', "for-each((1, 2), '$v')", "for-each(b, 'f()')",
             "for-each(b, 'lookup(\"t\", \"k\")')", 'concat($w, f())', '-$v', '-f()', '$v = f()', '$w | b', '(b, $v)[f()]', 'count(($v, f()))', '//node()[$v]', 'string($w)', "concat(lookup('t', 'k'), $v)"]

    FORMS = (['%s::%s' % (x, t) for x in AXES for t in ('node()', 'b', 'text()')]
             + ['%s%s%s%s' % (a, x, c, y) for a in ('', '/', '//') for x in ('a', '*', '..', './/b') for c in ('/', '//') for y in ('b', '@*', '..', 'text()') if not (a and x[0] == '.')]
             + ['%s %s %s' % (l, op, r) for op in ('=', '!=', '<', '<=') for l, r in (('.//text()', '"y"'), ('"y"', './/text()'), ('/*/@*', '2'), ('2', '/*/@*'), ('.//@*', '//b'), ('//b', './/@*'), ('$v', '.'), ('(b, "x", 2)', '(., //c)'))]
             + ['%s %s %s' % (l, op, r) for op in ('and', 'or') for l, r in (('.//b', '//c'), ('//c', './/b'), ('not(b)', '"x"'))]
             + ['%s | %s' % (l, r) for l, r in (('.//b', '//text()'), ('//text()', '.'), ('/', '..'), ('.//@*', './/*'), ('$v', 'b'))]
             + ['%s(%s)' % (f, a) for f in ('count', 'string', 'number', 'boolean', 'not', 'name', 'string-length') for a in ('.', './/b', '//b', '/', '$v', '(b, 1)', '1')]
             + [f for f in ('name()', 'string()', 'number()', 'string-length()', 'true()')]
             + ['%s(%s, %s)' % (f, a, b) for f in ('starts-with', 'contains', 'substring-before', 'substring-after') for a, b in (('.', '"y"'), ('//b', './/text()'), ('"xyx"', '.'), ('/', '//b'))]
             + ['concat(., "y")', 'concat(string(//b), ., count(.//text()))', 'substring(., 1, count(.//b))', 'substring(/, count(.//b), 2)', 'lookup(name(), .)', "lookup('t', //b)", "for-each(.//b, '..')", "for-each(//b, 'node()')", "for-each((., //b), 'name()')", "for-each(.//*, '//b')", '-.', '-//b', '-count(.//*)']
             + ['%s[%s]' % (l, p) for l in ('.//node()', '//*', '(b, //b, 1)', '//@*', 'ancestor-or-self::node()') for p in ('1', '2', './/b', '//b', 'string(.)', '. = //b', 'count(//b)', 'node()[2]', '$v')]
             + [outer % inner for outer in ('%s/node()', '%s//text()', '%s/..', '%s[1]', '%s[. = "y"]', '(%s)[2]', '(%s, 1)[1]', '*[%s]', '//node()[%s]', 'count(%s)', 'string(%s)', '%s = //text()', '"y" != %s', 'not(%s) or b', '%s | .', 'for-each(%s, ".//text()")')
                for inner in ('//b[node()]', '//*[b]', '/*', '/a/b', 'b', './/text()', '(//b)[1]', '//b[2]/..', '$v', './/@k', 'ancestor::*[1]', '(.)', '(b, //c)', '//c[1]/ancestor::*', '/*/*[2]', '(//b | //c)')]
             + ['//b[1][2]', './/node()[2][1]', '//*[b[.="y"]]', '//*[b][1]', '(//b)[2]', '(.//node())[3]', '(1, (b, //b), $v)', '()', '"x"', '2.5', '.', '..', '/', '//.', '//..', '/node()', '/*', '/text()', '//node()/..'])

    def run_form(self, case, st):
        from amara3.uxml import uxpath
        text = self.FORMS[case[0]]
        st.state(text)
        ast = rparse(text)
        e = uxpath.parse(text)
        places = []
        for t in (self.DOC, self.DOCS[1], self.DOCS[3]):
            b = Bound(t)
            env = {'v': b.doc[1], '#tables': {'t': {'y': 'ty', '': 't-'}, 'b': {'y': 1}, '': {'x': 'y'}}}
            nodes = [b.doc[0], b.doc[1], [n for n in b.doc if n.kind == 'text'][-1]] + ([n for n in b.doc if n.kind == 'attr'][:1] + [n for n in b.doc if n.kind == 'elem'][1:3] if t is self.DOC else [])
            for c in nodes:
                try:
                    places.append((b, c, env, expected(ast, c, env)))
                except Error:
                    st.outcome('outside the domain')
        def start(b, c, env):
            return e.compute(uxpath.context(b.node(c), variables={k: b.item(v) for k, v in env.items() if k[0] != '#'}, lookuptables=env['#tables'], force_root=False))
        def tell(b, c):
            return '%r in %s' % (c, markup(b.t))
        for (b, c, env, want), (d, f, env2, want2) in itertools.product(places, repeat=2):
            for k in range(min(len(want), 4) + 1):
                it = start(b, c, env)
                got = [b.canon(v) for v in itertools.islice(it, k)]
                got2 = [d.canon(v) for v in start(d, f, env2)]
                got += [b.canon(v) for v in it]
                st.step()
                if got != want or got2 != want2:
                    return '%s gives %r instead of %r for %s, and for %s, after %d items of the first, %r instead of %r' % (text, got, want, tell(b, c), tell(d, f), k, got2, want2)
            its, got = [start(b, c, env), start(d, f, env2)], [[], []]
            for i, v in enumerate(itertools.chain.from_iterable(itertools.zip_longest(*its, fillvalue=st))):
                if v is not st:
                    got[i % 2].append((b, d)[i % 2].canon(v))
            st.step()
            if got != [want, want2]:
                return '%s in step for %s and %s gives %r instead of %r' % (text, tell(b, c), tell(d, f), got, [want, want2])
        for reverse in (False, True):
            for b, c, env, want in places[::-1 if reverse else 1]:
                got = [b.canon(v) for v in start(b, c, env)]
                st.step()
                if got != want:
                    return '%s gives %r instead of %r for %s, after others' % (text, got, want, tell(b, c))
        st.trace()

    def binding(self, b, i):
        """Variables, functions and tables, and what they are in the reference"""
        def f(ctx):
            yield i + 1 if ctx.extras.get('n') == i else -1
        node = [b.doc[1], [x for x in b.doc if x.kind == 'elem'][1], [x for x in b.doc if x.kind == 'text'][-1]][i]
        env = {'v': [1, 2, 3][i], 'w': node, '#tables': {'t': {'k': 'k%d' % i, 'w': ['y', 'x', ''][i]}}}
        def rev(e):
            if not isinstance(e, tuple):
                return e
            return ('num', i + 1) if e[:2] == ('call', 'f') else tuple(rev(x) for x in e)
        return env, f, rev

    def run_bindings(self, case, st):
        from amara3.uxml import uxpath
        from amara3.uxml.uxpath.functions import BUILTIN_FUNCTIONS
        b = Bound(self.DOC)
        text = self.BOUND[case[0]]
        st.state(text)
        e = uxpath.parse(text)
        c = b.doc[1]
        starts, wants = [], []
        for i in range(3):
            env, f, rev = self.binding(b, i)
            def start(env=env, f=f, i=i):
                ctx = uxpath.context(b.node(c), variables={k: b.item(v) for k, v in env.items() if k[0] != '#'}, functions=dict(BUILTIN_FUNCTIONS, f=f),
                                     lookuptables=env['#tables'], extras={'n': i}, force_root=False)
                return e.compute(ctx)
            starts.append(start)
            if text == "for-each(b, 'f()')":
                wants.append([rcanon(i + 1)] * len(expected(rparse('b'), c)))
            else:
                wants.append(expected(rev(rparse(text)), c, env))
        for order in itertools.product(range(3), repeat=4):
            for i in order:
                got = [b.canon(v) for v in starts[i]()]
                st.step()
                if got != wants[i]:
                    return '%s with the bindings %d gives %r instead of %r in the order %r' % (text, i, got, wants[i], order)
        for x, y in itertools.product(range(3), repeat=2):
            msg = self.explore([starts[x], starts[y]], [wants[x], wants[y]], b, st, '%s with bindings %d and %d' % (text, x, y), 4)
            if msg:
                return msg
        return self.explore(starts, wants, b, st, '%s with 3 bindings' % text, 2)

    LONG = ['//b', '//b/@i', '//b|//text()', "for-each(//b, 'string(.)')", '//b[@i]/..//text()[. > 0]']

    def run_scale(self, case, st):
        from amara3.uxml import uxpath
        k, x = case
        if x == 4 and k > 70:
            return
        text = self.LONG[x]
        st.state((k, x))
        bs = [Bound(scale_doc('wide', k)), Bound(scale_doc('wide', k // 2))]
        wants = [expected(rparse(text), b.doc[1]) for b in bs]
        e = compiled(text)
        def run(i):
            return e.compute(uxpath.context(bs[i].elem, force_root=False))
        n = len(wants[0])
        for ahead in sorted({0, 1, 2, 3, 15, 16, 17, n // 2, n - 1, n, 99, 100} & set(range(n + 1))):
            its = [run(0), run(1), run(0)]
            got = [[], [], []]
            for _ in range(ahead):
                got[0].append(bs[0].canon(next(its[0])))
            live = {0, 1, 2}
            while live:
                for i in sorted(live):
                    v = next(its[i], self)
                    st.step()
                    if v is self:
                        live.discard(i)
                    else:
                        got[i].append(bs[i % 2].canon(v))
            if got != [wants[0], wants[1], wants[0]]:
                return '%s over %d, %d elements, the first %d ahead: %d, %d, %d results, %r' % ((text, k, k // 2, ahead) + tuple(map(len, got)) + (got,))
        if k <= 257:
            its = [run(i % 2) for i in range(k)]
            for i in reversed(range(k)):
                v = next(its[i], None)
                w = wants[i % 2][0] if wants[i % 2] else None
                st.step()
                if (bs[i % 2].canon(v) if v is not None else None) != w:
                    return '%s: the first item of result %d of %d at a time is %r instead of %r' % (text, i, k, v, w)
            for i in range(k):
                for v, w in itertools.islice(itertools.zip_longest(map(bs[i % 2].canon, its[i]), wants[i % 2][1:]), 3):
                    if v != w:
                        return '%s: an item of result %d of %d at a time is %r instead of %r' % (text, i, k, v, w)
        st.trace()

    def contexts(self, b):
        return [b.doc[1], [x for x in b.doc if x.kind == 'elem'][2]]

    def start(self, b, i, c, ctxs=None):
        from amara3.uxml import uxpath
        ctx = uxpath.context(b.node(c), variables={'v': b.elem}, force_root=False)
        if ctxs is not None:
            ctxs.append((ctx, self.snapshot(ctx)))
        return compiled(self.EXPRS[i]).compute(ctx)

    def snapshot(self, ctx):
        def value(v):
            return (id(v), tuple((k, id(x)) for k, x in v.items())) if isinstance(v, dict) else v if isinstance(v, int) else id(v)
        return [value(getattr(ctx, k, None)) for k in ('item', 'pos', 'variables', 'functions', 'extras', 'parent')]

    def explore(self, starts, wants, b, st, label, cut=99):
        """Every interleaving of the steps of the iterators (a step: one item, or the end); after (cut) items they are abandoned"""
        bs = b if isinstance(b, (tuple, list)) else [b] * len(wants)
        lengths = [min(len(w) + 1, cut) for w in wants]
        wants = [w[:cut] for w in wants]
        for order in gen.interleavings(lengths):
            its = [s() for s in starts]
            got = [[] for _ in its]
            for i in order:
                try:
                    got[i].append(bs[i].canon(next(its[i])))
                except StopIteration:
                    pass
            st.step(len(order))
            st.distinct(1)
            if got != wants:
                return '%s: in the order %r they give %r instead of %r' % (label, order, got, wants)
            st.trace()

    def run_pair(self, case, st):
        from amara3.uxml.uxpath import xast
        b = Bound(self.DOC)
        x, y = case
        ctxs = []
        before = [xast.serialize(compiled(self.EXPRS[i])) for i in case]
        for c, d in ((0, 0), (0, 1)):
            cs = self.contexts(b)
            wants = [self.want(b, i, cs[k]) for i, k in ((x, c), (y, d))]
            msg = self.explore([lambda: self.start(b, x, cs[c], ctxs), lambda: self.start(b, y, cs[d], ctxs)], wants, b, st,
                               '%s and %s' % (self.EXPRS[x], self.EXPRS[y]), 5)
            if msg:
                return msg
        for ctx, snap in ctxs:
            if self.snapshot(ctx) != snap:
                return '%s and %s: the context was changed' % (self.EXPRS[x], self.EXPRS[y])
        if [xast.serialize(compiled(self.EXPRS[i])) for i in case] != before:
            return 'an expression was changed'
        if canon_tree(b.elem) != self.DOC:
            return 'the document was changed'

    def want(self, b, i, c):
        return expected(rparse(self.EXPRS[i]), c, {'v': b.doc[1]})

    def run_many(self, case, st):
        b = Bound(self.DOC)
        cs = self.contexts(b)
        wants = [self.want(b, x, cs[i % 2]) for i, x in enumerate(case)]
        return self.explore([lambda x=x, i=i: self.start(b, x, cs[i % 2]) for i, x in enumerate(case)], wants, b, st,
                            ', '.join(self.EXPRS[i] for i in case), 2)

    def run_same(self, case, st):
        x = case[0]
        b = Bound(self.DOC)
        nodes = b.doc
        for c, d in itertools.product(nodes, repeat=2):
            try:
                wants = [self.want(b, x, c), self.want(b, x, d)]
            except Error:
                continue
            msg = self.explore([lambda: self.start(b, x, c), lambda: self.start(b, x, d)], wants, b, st, '%s from %r and %r' % (self.EXPRS[x], c, d), 3)
            if msg:
                return msg
        for c in nodes:
            w = self.want(b, x, c)
            for k in range(len(w) + 1):
                it = self.start(b, x, c)
                for _ in range(k):
                    next(it)
                it.close()
                for d in nodes:
                    got = [b.canon(v) for v in self.start(b, x, d)]
                    if got != self.want(b, x, d):
                        return '%s from %r gives %r after another was abandoned after %d items' % (self.EXPRS[x], d, got, k)
                st.step()
        wants = [self.want(b, x, c) for c in nodes[1:4]]
        return self.explore([lambda c=c: self.start(b, x, c) for c in nodes[1:4]], wants, b, st, self.EXPRS[x], 2)

    # Other documents, where most expressions give something else
    DOCS = [('a', (('i', '2'),), (('b', (), (('c', (), ()), 'y')), 'z')), ('b', (('k', '1'),), ('w', ('a', (), (('b', (('i', '3'),), ()), ('b', (), ('v',)))))), ('a', (), ()),
            ('c', (), (('b', (), (('b', (), (('b', (), ('y',)),)),)),))]

    def run_documents(self, case, st):
        x, d = case
        ds = [self.DOC] + self.DOCS
        bs = [Bound(self.DOC), Bound(self.DOCS[d]), Bound(self.DOCS[(d + 1) % len(self.DOCS)])]
        st.state((x, d))
        places = [(b, c) for b in bs for c in (b.doc[0], b.doc[1], b.doc[-1])]
        for (b, c), (e, f) in itertools.product(places, repeat=2):
            if b is e:
                continue
            wants = [self.want(b, x, c), self.want(e, x, f)]
            for cut in (1, 99) if max(map(len, wants)) < 6 else (1, 5):
                msg = self.explore([lambda: self.start(b, x, c), lambda: self.start(e, x, f)], wants, (b, e), st,
                                   '%s from %r in %s and %r in %s' % (self.EXPRS[x], c, markup(b.t), f, markup(e.t)), cut)
                if msg:
                    return msg
            # all steps of one at each point of the other
            for k in range(len(wants[0]) + 1):
                it = self.start(b, x, c)
                got = [b.canon(next(it)) for _ in range(k)]
                other = [e.canon(v) for v in self.start(e, x, f)]
                got += [b.canon(v) for v in it]
                st.step()
                if [got, other] != wants:
                    return '%s from %r in %s gives %r, and for %r in %s after %d items of the first %r' % (self.EXPRS[x], c, markup(b.t), got, f, markup(e.t), k, other)
        wants = [self.want(b, x, b.doc[1]) for b in bs]
        return self.explore([lambda b=b: self.start(b, x, b.doc[1]) for b in bs], wants, bs, st, '%s over 3 documents' % self.EXPRS[x], 2)

    def run_history(self, case, st):
        from amara3.uxml import uxpath
        from amara3.uxml.uxpath import xast
        b = Bound(self.DOC)
        ctx = uxpath.context(b.elem, variables={'v': b.elem}, force_root=False)
        snap = self.snapshot(ctx)
        h = case[1]
        st.state(tuple(h))
        for i in h + h[::-1]:
            e = compiled(self.EXPRS[i])
            s = xast.serialize(e)
            for how in (e.compute, e):
                got = [b.canon(v) for v in how(ctx)]
                st.step()
                if got != self.want(b, i, b.doc[1]):
                    return '%s gives %r after %r' % (self.EXPRS[i], got, [self.EXPRS[j] for j in h])
            if xast.serialize(e) != s:
                return '%s was changed to %s' % (self.EXPRS[i], xast.serialize(e))
            if self.snapshot(ctx) != snap:
                return '%s changes its context' % self.EXPRS[i]
        if canon_tree(b.elem) != self.DOC:
            return 'the document was changed'
        st.trace()


class Q08(XPathCheck):
    id = 'Q08'
    technique = 'exhaustive exploration of histories of tree changes and queries on the real code, against a reference evaluator'
    assumptions = ('Reference evaluator mc/refxp.py on the state of the tree.',)
    QUERIES = ['/', '//node()', '//@*', '..', 'ancestor::node()', 'following::node()', 'preceding::node()', 'preceding-sibling::node()', 'following-sibling::node()', '//b[1]', '//text()|//*|//@*|/',
               'count(//*)', 'name(/*)', '/a/b', '/*', 'string(/)', '//*[@n]', './/b|..', '/descendant::b[2]', 'string(.)']
    STARTS = [('a', (), (('b', (), ()),)), ('a', (('i', '1'),), ('x', ('b', (('k', '2'),), ('y', ('c', (), ()))), ('b', (), ('x',)), 'x')),
              ('a', (), (('b', (), (('b', (), (('b', (), ()),)),)),)), ('a', (), ('x', 'x', 'x'))]

    def ops(self, n):
        """Operations, by node number (in document order of the forest of trees)"""
        for i in range(n):
            yield ['ae', i]      # append a new element
            yield ['at', i]      # append text
            yield ['ie', i]      # insert a new element first
            yield ['it', i]
            yield ['rm', i]      # remove from its parent
            yield ['sa', i]      # set an attribute
            yield ['da', i]      # delete an attribute
            for j in range(n):
                if i != j:
                    yield ['mv', i, j]   # move below another
                    yield ['mf', i, j]   # the same, as first child

    def families(self, tier):
        q = tier == 'quick'
        def single():
            for s in range(len(self.STARTS)):
                for op in self.ops(8):
                    yield [s, [op]]
        def double():
            for s in (0, 2, 3) if q else range(4):
                for x, y in itertools.product(list(self.ops(4 if q else 6)), repeat=2):
                    yield [s, [x, y]]
        def triple():
            small = [o for o in self.ops(3)]
            for s in (0,) if q else (0, 3):
                for c in itertools.product(small, repeat=3):
                    yield [s, list(c)]
        def long():
            n = len(self.PROGRAMS)
            for k in (20, 40, 70) if q else (20, 40, 70, 140, 300):
                for x in range(n):
                    for w in (1, 7, 50):
                        yield ['long', k, x, w]
        def direct():
            for s in range(len(self.STARTS)):
                for n in (1, 2) if q else (1, 2, 3):
                    for c in itertools.product([(k, i) for k in self.DIRECT for i in range(6 if n == 1 else 4 if n == 2 else 2)], repeat=n):
                        yield ['direct', s, c]
        def contents():
            for s, t in gen.contents():
                yield ['contents', s, t]
        return [Family('direct', direct, '4 documents, all pairs (triples) of 11 direct changes of names, attributes and lists of children of the first 4 (6, 2) elements, queries after each', self.run_direct),
                Family('contents', contents, 'texts and values changed to each of %d others that could be taken for them: 8 queries after each of 6 changes' % len(gen.CONTENTS), self.run_contents),
                Family('long', long, 'histories of 20, 40, 70 (300) changes in 10 repeating patterns on documents of 1, 7, 50 children, queries after each', self.run_long),
                Family('single', single, '4 documents, all single operations', self.run_case),
                Family('double', double, '3 (4) documents, all pairs of operations on the first 4 (6) nodes', self.run_case),
                Family('triple', triple, '1 (2) documents, all triples of operations on the first 3 nodes', self.run_case)]

    # What to do at each turn i of a long history with an element e of n children
    PROGRAMS = {
        'append': lambda e, i: e.xml_append(Q08.new(i)),
        'append text': lambda e, i: e.xml_append('t%d' % i),
        'insert first': lambda e, i: e.xml_insert(Q08.new(i), 0),
        'insert amid': lambda e, i: e.xml_insert(Q08.new(i) if i % 3 else 't%d' % i, len(e.xml_children) // 2),
        'remove first, append': lambda e, i: Q08.cycle(e, 0, None),
        'remove last, insert first': lambda e, i: Q08.cycle(e, -1, 0),
        'swap': lambda e, i: Q08.cycle(e, i % len(e.xml_children), (i * 7) % len(e.xml_children)),
        'attributes': lambda e, i: e.xml_attributes.__setitem__('k%d' % i, str(i)),
        'attribute, same': lambda e, i: e.xml_attributes.__setitem__('n', str(i)),
        'below the last': lambda e, i: Q08.deepest(e).xml_append(Q08.new(i)),
    }

    @staticmethod
    def new(i):
        from amara3.uxml import tree
        return tree.element('ab'[i % 2], {'n': str(i)})

    @staticmethod
    def cycle(e, at, to):
        c = e.xml_children[at]
        e.xml_remove(c)
        c = str(c) if isinstance(c, str) else c
        e.xml_append(c) if to is None else e.xml_insert(c, to)

    @staticmethod
    def deepest(e):
        while e.xml_children and not isinstance(e.xml_children[-1], str):
            e = e.xml_children[-1]
        return e

    @staticmethod
    def text(v, e):
        from amara3.uxml import tree
        return tree.text(v, e)

    @staticmethod
    def element(name, attrs, e):
        from amara3.uxml import tree
        return tree.element(name, attrs, e)

    # The classes are meant to be changed directly, too
    DIRECT = {
        'rename': lambda e: setattr(e, 'xml_name', 'b' if e.xml_name != 'b' else 'c'),
        'value': lambda e: e.xml_attributes.update({k: v + '1' for k, v in e.xml_attributes.items()}),
        'new attributes': lambda e: setattr(e, 'xml_attributes', {'k': '9', 'n': e.xml_attributes.get('i', '')}),
        'reordered attributes': lambda e: setattr(e, 'xml_attributes', dict([('n', '0')] + list(e.xml_attributes.items())[::-1])),
        'reverse': lambda e: e.xml_children.reverse(),
        'clear': lambda e: e.xml_children.clear(),
        'text replaced': lambda e: e.xml_children.__setitem__(slice(None), [Q08.text(c + 'z', e) if isinstance(c, str) else c for c in e.xml_children]),
        'new children': lambda e: setattr(e, 'xml_children', [Q08.text('w', e), Q08.element('b', {'n': '1'}, e), Q08.text('w', e)]),
        'element replaced': lambda e: e.xml_children.__setitem__(slice(-1, None), [Q08.element('b', {'i': '5'}, e)]),
        'pop': lambda e: e.xml_children and e.xml_children.pop(),
        'put first': lambda e: e.xml_children.insert(0, Q08.element('c', None, e)),
    }

    def run_direct(self, case, st):
        from amara3.uxml import tree
        if not hasattr(self, 'asts'):
            self.asts = {x: rparse(x) for x in self.QUERIES}
        _, s, ops = case
        top = tree.parse(markup(self.STARTS[s])) if s != 3 else build(self.STARTS[s])
        msg = self.verify([top], st, False)
        for i, (k, at) in enumerate(ops):
            elements = [e for e in self.forest([top]) if isinstance(e, tree.element)]
            if msg or at >= len(elements):
                return msg
            self.DIRECT[k](elements[at])
            msg = self.verify([top], st, i == len(ops) - 1)
            if msg:
                msg = 'after %r: %s' % (ops[:i + 1], msg)
        st.trace()
        return msg

    def run_contents(self, case, st):
        from amara3.uxml import tree
        _, s, t = case
        top = build(gen.content_tree(s, s))
        env = {'s': s, 't': t}
        texts = ['//*[.=$s]', '//*[@x=$t]', 'string(.)', '//text()[.=$t]', '//@x', '//b[@x=$s]/text()', 'count(//text()[.=$s])', '//@*[.=$t]/..']
        def change(i):
            b = [e for e in self.forest([top]) if isinstance(e, tree.element)]
            if i == 1:
                b[1].xml_attributes['x'] = t
            elif i == 2:
                b[1].xml_remove(b[1].xml_children[0])
                b[1].xml_append(t)
            elif i == 3:
                top.xml_children[0] = tree.text(t, top)
            elif i == 4:
                b[2].xml_attributes = {'x': t, 'y': s}
            elif i == 5:
                c = next(c for c in top.xml_children[1:] if isinstance(c, str))
                top.xml_remove(c)
            elif i == 6:
                b[1].xml_attributes['x'] = s
        for i in range(7):
            change(i)
            b = Bound(canon_tree(top), top)
            st.state((i, b.t))
            for j, text in enumerate(texts):
                for c in ((b.doc[0], b.doc[1], b.doc[-2])[(i + j) % 3],):
                    got, want = query(b, text, c, env), expected(rparse(text), c, env)
                    st.step()
                    if got != want:
                        return 'after %d changes from %r to %r: %s from %r gives %r instead of %r' % (i, s, t, text, c, got, want)
        st.trace()

    def run_long(self, case, st):
        from amara3.uxml import tree
        _, k, x, width = case
        name = list(self.PROGRAMS)[x]
        top = build(('a', (('i', '1'),), tuple(('b', (('i', str(i)),), ('x',)) if i % 4 else 'x' for i in range(1, width + 1))))
        queries = ['//@*|//node()', '/*/node()', 'count(//node())', '//b[3]', '/*/*[1]', 'string(.)', '//@n', 'following-sibling::node()', 'ancestor::node()', 'preceding::node()']
        asts = [rparse(t) for t in queries]
        for i in range(k):
            self.PROGRAMS[name](top, i)
            b = Bound(canon_tree(top), top)
            st.state((x, b.t))
            for j, (text, ast) in enumerate(zip(queries, asts)):
                for c in (b.doc[0], b.doc[-1]) if j > 6 or i % 7 == 0 else (b.doc[0],):
                    got, want = query(b, text, c), expected(ast, c)
                    st.step()
                    if got != want:
                        return '%s, %d times on %d children: %s from %r gives %r instead of %r' % (name, i + 1, width, text, c, got, want)
        st.trace()

    def forest(self, tops):
        out = []
        def rec(e):
            out.append(e)
            for c in e.xml_children:
                rec(c)
        for t in tops:
            rec(t)
        return out

    def apply(self, op, tops):
        """False if the operation does not apply"""
        from amara3.uxml import tree
        nodes = self.forest(tops)
        if any(i >= len(nodes) for i in op[1:]):
            return False
        n = nodes[op[1]]
        k = op[0]
        is_el = isinstance(n, tree.element)
        if k in ('ae', 'at', 'ie', 'it', 'sa', 'da'):
            if not is_el:
                return False
            if k == 'ae':
                n.xml_append(tree.element('b', {'n': '1'}))
            elif k == 'at':
                n.xml_append('x')
            elif k == 'ie':
                n.xml_insert(tree.element('a'), 0)
            elif k == 'it':
                n.xml_insert('x', 0)
            elif k == 'sa':
                n.xml_attributes['n'] = 'new'
            else:
                if not n.xml_attributes:
                    return False
                n.xml_attributes.pop(next(iter(n.xml_attributes)))
            return True
        parent = n.xml_parent
        if k == 'rm':
            if parent is None or not is_el:
                return False
            parent.xml_remove(n)
            tops.append(n)
            return True
        target = nodes[op[2]]
        if not is_el or not isinstance(target, tree.element):
            return False
        t = target
        while t is not None:
            if t is n:
                return False
            t = t.xml_parent
        if parent is not None:
            parent.xml_remove(n)
        else:
            tops[:] = [x for x in tops if x is not n]
        if k == 'mv':
            target.xml_append(n)
        else:
            target.xml_insert(n, 0)
        return True

    def verify(self, tops, st, full):
        for top in tops:
            b = Bound(canon_tree(top), top)
            st.state((b.t, len(tops)))
            for c in b.doc:
                for text in self.QUERIES if full else self.QUERIES[:3]:
                    got = query(b, text, c)
                    want = expected(self.asts[text], c)
                    st.step()
                    if got != want:
                        return '%s from %r in %s gives %r instead of %r' % (text, c, markup(b.t), got, want)
            for text in self.QUERIES:
                got = [b.canon(v) for v in top.xml_xpath(text)]
                if got != expected(self.asts[text], b.doc[0]):
                    return 'xml_xpath: %s in %s gives %r' % (text, markup(b.t), got)

    def run_case(self, case, st):
        from amara3.uxml import tree
        if not hasattr(self, 'asts'):
            self.asts = {x: rparse(x) for x in self.QUERIES}
        s, ops = case
        top = tree.parse(markup(self.STARTS[s])) if s != 3 else build(self.STARTS[s])
        tops = [top]
        msg = self.verify(tops, st, False)
        if msg:
            return msg
        done = []
        for op in ops:
            if not self.apply(op, tops):
                st.outcome('does not apply')
                return
            done.append(op)
            msg = self.verify(tops, st, op is ops[-1])
            if msg:
                return 'after %r on %s: %s' % (done, markup(self.STARTS[s]), msg)
        st.trace()


def describe(v):
    """A result, without its identity"""
    if hasattr(v, 'xml_attributes'):
        return v.xml_encode()
    return (type(v).__name__, getattr(v, 'xml_name', None), v if isinstance(v, (bool, float, int)) else str(getattr(v, 'xml_value', v)))


class Q09(XPathCheck):
    id = 'Q09'
    assumptions = ('Reference evaluator mc/refxp.py gives the expected result of all.',)

    def families(self, tier):
        q = tier == 'quick'
        docs = [decorate(t) for t in gen.elements_only(3, ('a', 'b'))] + [value_doc()]
        foreign = ('\u00e9', (('\u00fc', '\u00df'),), ('\u00e9\u20ac\U0001F600', ('\u6f22', (('i', '\u00bd'),), ('\u00a0',)), 'x', ('b', (), ('\u00ff',))))
        if not q:
            docs += [decorate(t) for t in gen.elements_only(4, ('a', 'b'), 4)]
        exprs = Q07.EXPRS[:14] + ['.', '..', '/a', 'a', 'b', '@i', '*', 'text()', 'string(.)', 'name()', '$s', '$one', 'b[$two]', '()', "'\u00e9'", '1', 'ancestor::node()', '//text()', 'a/b/@i', './/@b']
        def agree():
            for t in docs + [foreign]:
                for e in exprs:
                    yield [t, e]
            for e in ('\u00e9/\u6f22', '\u00e9/@\u00fc', '//\u6f22/@i', '//text()', 'string(.)', '//*[.="\u00a0"]', '//b[.="\u00ff"]', 'name(*)', 'string-length(.)', "starts-with(., '\u00e9\u20ac\U0001F600\u00a0')", "concat('\u6f22', .)"):
                for t in (foreign, docs[0]):
                    yield [t, e]
        def functions():
            for t in docs:
                for e in ('twice(b)', 'item()', 'count(twice(//*))', '//*[item()]', 'b[yes()]', 'twice(twice(.))', "for-each(b, 'item()')", 'twice(1)|..', 'args(1,b,"x")', '-one()', 'b[one()]'):
                    yield [t, e, 'f']
        def overrides():
            kinds = ['xml_xpath', 'qquery', 'qquery text', 'compute', 'call']
            for n in (1, 2) if q else (1, 2, 3):
                for h in itertools.product(kinds, repeat=n):
                    for names in (['count'], ['name', 'string'], ['true'], ['extra'], ['for-each', 'not']):
                        for part in ('whole', 'first', 'none'):
                            yield [list(h), names, part]
        def many():
            for n in (1, 10, 17, 33, 65, 129, 257) if q else (1, 10, 17, 33, 65, 129, 257, 513, 1025):
                for pad in (0, 40, 300):
                    yield ['many', n, pad]
        def encodings():
            for bad in self.NOT_UTF8:
                for i in range(len(self.FRAMES)):
                    for text in ('string(.)', '1', '/', '//@*', '()', 'nothing'):
                        yield [i, list(bad), text]
        def confusable():
            for m, n in gen.confusable():
                yield [m, n]
        def contents():
            for s, t in gen.contents():
                yield [s, t]
        def characters():
            for t in gen.character_trees(not q):
                yield [markup(t), 0]
        def sources():
            from .parser import CORPUS
            for d in CORPUS:
                yield [d, 1]
        def lone():
            for s in ['', ' ', 'x', '0', '\n', 'xy', 'None', '\u00e9']:
                for text in exprs + ['string-length(.)', 'string()', 'node()', '//node()', '..', '../..', '/', '/..', 'self::text()', '/text()', 'count(//text())', 'following::node()', 'ancestor-or-self::node()', 'count((.,..,/))', '.="%s"' % s]:
                    yield ['text', s, text]
                    yield ['within', s, text]
                    yield ['element', s, text]
        return [Family('characters', characters, 'every character of the BMP and at the ends of each plane (thorough: all), alone and at both ends of texts and values, in str and bytes', self.run_source),
                Family('sources', sources, 'the parser corpus, and each with one character left out, or one of 12 put in at any place: as str and bytes, accepted or not', self.run_source),
                Family('lone', lone, '8 texts as text nodes without parent and in an element, and elements with no other content: %d expressions' % (len(exprs) + 15), self.run_lone),
                Family('confusable', confusable, 'all ordered pairs of %d groups of names that are easily taken for one another, as variables, functions and lookup tables of the caller, both given or only the other: 5 ways' % len(gen.CONFUSABLE), self.run_confusable),
                Family('contents', contents, 'all pairs of %d texts that could be taken for one another, or for something else than text, in 8 expressions one after the other: 6 ways' % len(gen.CONTENTS), self.run_contents),
                Family('bytes', encodings, '%d byte sequences that are not UTF-8, and 6 that are, in %d places' % (len(self.NOT_UTF8) - 6, len(self.FRAMES)), self.run_bytes),
                Family('many', many, 'up to 257 (1025) different expressions with a common beginning of up to 300 characters, one after the other and again, in 2 documents, 3 ways, with variables', self.run_many),
                Family('agree', agree, '%d documents, %d expressions, some with characters beyond ASCII: 12 ways' % (len(docs) + 1, len(exprs) + 11), self.run_case),
                Family('functions', functions, 'functions given by the caller', self.run_functions),
                Family('overrides', overrides, 'all sequences of up to 2 (3) of 5 ways to run a query with functions and variables of the caller (5 sets, new and built-in names), completed, begun or not begun; then each way without', self.run_overrides)]

    def run_confusable(self, case, st):
        from amara3.uxml import uxpath
        from amara3.uxml.uxpath.functions import BUILTIN_FUNCTIONS
        m, n = case
        def function(v):
            def f(ctx):
                yield v
            return f
        e = build(('a', (), (('b', (), ('x',)),)))
        both = ({m: 'vm', n: 7}, dict(BUILTIN_FUNCTIONS, **{m: function('fm'), n: function('fn')}), {m: {m: 'mm', n: 'mn'}, n: {m: 'nm', n: 'nn'}})
        other = ({n: 7}, dict(BUILTIN_FUNCTIONS, **{n: function('fn')}), {n: {n: 'nn'}})
        st.state((m, n))
        for given, wants in ((both, [('$M', ['vm']), ('$N', [7]), ('($N, $M, $N)', [7, 'vm', 7]), ('M()', ['fm']), ('N()', ['fn']), ('(M(), N())', ['fm', 'fn']), ('for-each(b, "$M")', ['vm']), ('concat($M, M(), $N, N())', ['vmfm7fn']), ('b[$N = 7]/text()', ['x'])]),
                             (other, [('$N', [7]), ('N()', ['fn']), ('$M', None), ('M()', None), ('count(b[M()])', None), ('($N, $M)', None)])):
            variables, functions, tables = given
            for text, want in wants:
                text = text.replace('N', '\0').replace('M', m).replace('\0', n)
                parsed = uxpath.parse(text)
                for way, run in (('xml_xpath', lambda: e.xml_xpath(text, vars=variables, funcs=functions)), ('xml_xpath parsed', lambda: e.xml_xpath(parsed, vars=variables, funcs=functions)),
                                 ('qquery', lambda: uxpath.qquery(e, text, vars=variables, funcs=functions)), ('qquery text', lambda: uxpath.qquery('<a><b>x</b></a>', text, vars=variables, funcs=functions)),
                                 ('compute', lambda: parsed.compute(uxpath.context(e, variables=variables, functions=functions, force_root=False)))):
                    if 'for-each' in text or text.startswith('b[') or text.startswith('count'):
                        if way in ('xml_xpath', 'xml_xpath parsed', 'qquery', 'qquery text'):
                            where = text.replace('b[', 'a/b[').replace('(b,', '(a/b,')
                            run = {'xml_xpath': lambda: e.xml_xpath(where, vars=variables, funcs=functions), 'xml_xpath parsed': lambda: e.xml_xpath(uxpath.parse(where), vars=variables, funcs=functions),
                                   'qquery': lambda: uxpath.qquery(e, where, vars=variables, funcs=functions), 'qquery text': lambda: uxpath.qquery('<a><b>x</b></a>', where, vars=variables, funcs=functions)}[way]
                    st.step()
                    try:
                        got = list(run())
                    except Exception as x:
                        if want is not None:
                            return '%s with %s of %r and %r: %s fails: %r' % (way, 'both', m, n, text, x)
                        st.outcome('not known')
                        continue
                    if want is None:
                        return '%s with nothing named %r, but %r: %s gives %r' % (way, m, n, text, got)
                    if [str(x) for x in got] != [str(x) for x in want]:
                        return '%s with variables and functions %r and %r: %s gives %r instead of %r' % (way, m, n, text, got, want)
            for a, b in itertools.product((m, n), repeat=2):
                text = 'lookup("%s", "%s")' % (a, b)
                got = list(uxpath.parse(text).compute(uxpath.context(e, lookuptables=tables, force_root=False)))
                want = tables.get(a, {}).get(b)
                st.step()
                if got != ([] if want is None else [want]):
                    return '%s of tables %r gives %r' % (text, tables, got)
        if (sorted(both[0]), sorted(other[0])) != (sorted((m, n)), [n]):
            return 'the variables given became %r, %r' % (both[0], other[0])
        st.trace()

    def run_contents(self, case, st):
        from amara3.uxml import uxpath
        s, t = case
        b = Bound(gen.content_tree(s, t))
        data = markup(b.t)
        env = {'s': s, 't': t}
        for text in ('//text()', '{s}', '{t}', '//text()[.={s}]', '//*[@x={t}]/@x', 'concat({s},"|",{t})', 'concat({t},"|",{s})', 'concat($t, {s})', '//b[.=$t]'):
            qs, qt = (next((q + v + q for q in '"\'' if q not in v), None) for v in case)
            if '{s}' in text and qs is None or '{t}' in text and qt is None:
                continue
            text = text.replace('{s}', '\0').replace('{t}', qt or '').replace('\0', qs or '')
            want = expected(rparse(text), b.doc[0], env)
            for way, run in (('xml_xpath', lambda: b.elem.xml_xpath(text, vars=env)), ('xml_xpath parsed', lambda: b.elem.xml_xpath(uxpath.parse(text), vars=env)), ('qquery', lambda: uxpath.qquery(b.elem, text, vars=env)),
                             ('compute', lambda: uxpath.parse(text).compute(uxpath.context(b.elem, variables=env)))):
                st.step()
                got = [b.canon(v) for v in run()]
                if got != want:
                    return '%s: %r in %s gives %s instead of %s' % (way, text, data[:300], repr(got)[:300], repr(want)[:300])
            for way, src in (('qquery text', data), ('qquery bytes', data.encode('utf-8'))):
                st.step()
                got, plain = ([describe(v) for v in r] for r in (uxpath.qquery(src, text, vars=env), b.elem.xml_xpath(text, vars=env)))
                if got != plain:
                    return '%s: %r in %s gives %s instead of %s' % (way, text, data[:300], repr(got)[:300], repr(plain)[:300])
        st.state((s, t))
        st.trace()

    def run_source(self, case, st):
        """A query of str or bytes gives what it gives of the tree that tree.parse makes of it, or fails as that does"""
        from amara3.uxml import uxpath, tree
        doc, more = case
        docs = [doc]
        if more and len(doc) < 200:
            docs += [doc[:i] + doc[i + 1:] for i in range(len(doc))]
            docs += [doc[:i] + c + doc[i:] for i in range(len(doc) + 1) for c in ('<', '&', '\x00', '\ufeff', '\ufffe', 'x', '\r', '"', '>', '\x85', ' ', '<b>')]
        for d in docs:
            st.state(d)
            try:
                e = tree.parse(d)
            except Exception:
                e = False
            try:
                data = d.encode('utf-8')
            except UnicodeEncodeError:
                data = None
            for text in ('/', '//text()', '//@*', 'string(.)', '/*', 'count(//node())') if more else ('//text()', '//@*', 'string(.)'):
                want = [self.whole(v) for v in e.xml_xpath(text)] if e else []
                for way, src in (('str', d), ('bytes', data)):
                    if src is None:
                        continue
                    st.step()
                    try:
                        got = [self.whole(v) for v in uxpath.qquery(src, text)]
                    except Exception as x:
                        if e is not False:
                            return 'qquery of %r, as %s, fails: %r' % (d[:300], way, x)
                        st.outcome('refused')
                        continue
                    if e is False:
                        return 'qquery of %r, as %s, which is not accepted by tree.parse, gives %r for %s' % (d[:300], way, got[:5], text)
                    if got != want:
                        return 'qquery of %r, as %s, gives %r for %s instead of %r' % (d[:300], way, got[:5], text, want[:5])
                    st.outcome('read')
        st.trace()

    def whole(self, v):
        from amara3.uxml import tree
        if isinstance(v, tree.element):
            return canon_tree(v, check_parent=v.xml_parent is None or not isinstance(v.xml_parent, tree.element))
        return describe(v) if not type(v).__name__ == 'root_node' else ('root', [self.whole(c) for c in v.xml_children])

    def run_lone(self, case, st):
        from amara3.uxml import uxpath, tree
        kind, s, text = case
        st.state((kind, s, text))
        if kind == 'text':
            node = tree.text(s)
            want = None
        elif kind == 'within':
            e = build(('a', (), (('b', (), ()), s, ('b', (), ()))))
            node = e.xml_children[1]
        else:
            node = build(('a', (), (s,)))
        parsed = uxpath.parse(text)
        def same(x, y):
            if x is y or type(x).__name__ == type(y).__name__ == 'root_node' and same(x.xml_children[0], y.xml_children[0]):
                return True
            return not isinstance(x, tree.node) and describe(x) == describe(y)
        force = {'force_root': kind != 'within'}
        results = []
        for way, run in (('xml_xpath', lambda: node.xml_xpath(text, vars=ENV)), ('xml_xpath parsed', lambda: node.xml_xpath(parsed, vars=ENV)), ('qquery', lambda: uxpath.qquery(node, text, vars=ENV)),
                         ('qquery parsed', lambda: uxpath.qquery(node, parsed, vars=ENV)), ('compute', lambda: parsed.compute(uxpath.context(node, variables=ENV, **force)))):
            st.step()
            try:
                got = list(run())
            except Exception as x:
                got = type(x).__name__
            if results and (isinstance(got, str) != isinstance(results[0], str) or isinstance(got, list) and (len(got) != len(results[0]) or not all(map(same, got, results[0])))):
                return '%s of %s %r: %s gives %r, but xml_xpath %r' % (way, kind, s, text, got, results[0])
            results.append(got)
        st.trace()

    def run_many(self, case, st):
        from amara3.uxml import uxpath
        _, n, pad = case
        st.state((n, pad))
        bs = [Bound(scale_doc('wide', min(n, 70))), Bound(scale_doc('wide', min(n, 70) // 2))]
        head = "concat('%s', string(" % ('x' * pad) if pad else ''
        texts = [head + e + ('))' if pad else '') for i in range(1, n + 1) for e in ('//b[%d]' % i if i % 2 else '//b[%d]/@i' % i, '$k%d' % i if i % 3 == 0 else 'count(//b[. > %d])' % i)][:n]
        values = {'k%d' % i: 'v%d' % i for i in range(n + 1)}
        for turn in (0, 1):
            for i, t in enumerate(texts):
                for j, b in enumerate(bs if i % 5 == 0 or turn else bs[turn:turn + 1]):
                    want = expected(rparse(t), b.doc[0], values)
                    for name, way in (('xml_xpath', lambda: b.elem.xml_xpath(t, vars=values)), ('qquery', lambda: uxpath.qquery(b.elem, t, vars=values)),
                                      ('parse', lambda: uxpath.parse(t).compute(uxpath.context(b.elem, variables=values)))):
                        got = [b.canon(v) for v in way()]
                        st.step()
                        if got != want:
                            return '%s: %s, the %d. of %d expressions, gives %r instead of %r in turn %d' % (name, t, i + 1, n, got, want, turn)
        st.trace()

    def run_overrides(self, case, st):
        from amara3.uxml import uxpath, tree
        from amara3.uxml.uxpath.functions import BUILTIN_FUNCTIONS
        history, names, part = case
        st.state((tuple(history), tuple(names), part))
        before = dict(BUILTIN_FUNCTIONS)
        b = Bound(value_doc())
        def mine(ctx, *seqs):
            yield 'mine'
            yield 'too'
        # With funcs the caller's functions are used; whether the built-in ones as well, only where they are among them
        funcs = dict(BUILTIN_FUNCTIONS, **{n: mine for n in names})
        given, vars_ = dict(funcs), {'one': 7, 'mine': 'm'}
        ways = {'xml_xpath': lambda t, kw: b.elem.xml_xpath(t, **kw),
                'qquery': lambda t, kw: uxpath.qquery(b.elem, t, **kw),
                'qquery text': lambda t, kw: uxpath.qquery(markup(b.t), t, **kw),
                'compute': lambda t, kw: uxpath.parse(t).compute(uxpath.context(b.elem, variables=kw.get('vars'), functions=kw.get('funcs'))),
                'call': lambda t, kw: compiled(t)(uxpath.context(b.elem, variables=kw.get('vars'), functions=kw.get('funcs')))}
        try:
            pending = []
            for h in history:
                for n in names:
                    it = iter(ways[h]('(%s(), $one)' % n, dict(funcs=funcs, vars=vars_)))
                    if part == 'whole':
                        got = list(it)
                        st.step()
                        if got != ['mine', 'too', 7]:
                            return '%s with a function %s gives %r' % (h, n, got)
                    elif part == 'first':
                        if next(it) != 'mine':
                            return '%s with a function %s gives something else' % (h, n)
                    pending.append(it)
                if funcs != given or vars_ != {'one': 7, 'mine': 'm'}:
                    return '%s changed the functions or variables it was given' % h
            for name, way in ways.items():
                for text in ('count(//b)', 'name(a)', 'string(a/@i)', 'true()', "for-each(a/b, 'string(.)')", 'not(a)', "a/b[@i='1']/text()"):
                    want = expected(rparse(text), b.doc[0])
                    got = list(way(text, {}))
                    if name != 'qquery text':
                        got = [b.canon(x) for x in got]
                    elif not isinstance(want[0], (str, float, int)):
                        continue
                    else:
                        got = [rcanon(x) for x in got]
                    st.step()
                    if got != want:
                        return '%s: %s gives %r instead of %r after %r with functions %r' % (name, text, got, want, history, names)
                for text in ('extra()', '$mine'):
                    for kw in ({}, dict(vars={'two': 2})):
                        try:
                            got = list(way(text, kw))
                        except Exception:
                            continue
                        if got:
                            return '%s: %s gives %r after %r with functions %r' % (name, text, got, history, names)
            for it in pending if part == 'first' else []:
                got = list(it)
                if got != ['too', 7]:
                    return 'the rest of a query begun before the others is %r' % got
            if BUILTIN_FUNCTIONS != before:
                return 'the built-in functions were changed by %r' % history
        finally:
            BUILTIN_FUNCTIONS.clear()
            BUILTIN_FUNCTIONS.update(before)
        st.trace()

    NOT_UTF8 = [b'\xe9', b'\xff', b'\xfe', b'\x80', b'\xbf', b'\xc3', b'\xe2\x82', b'\xf0\x9f\x98', b'\xc0\xaf', b'\xc1\xbf', b'\xe0\x80\xaf', b'\xed\xa0\x80', b'\xed\xbf\xbf', b'\xf0\x80\x80\xaf', b'\xf4\x90\x80\x80', b'\xf5\x80\x80\x80',
                b'\xf8\x88\x80\x80\x80', b'\xc3\xc3\xa9', b'\xa9\xc3', b'\xc3\xa9', b'\xe2\x82\xac', b'\xf0\x9f\x98\x80', b'\xc2\xa0', b'\xef\xbf\xbd', b'x']
    FRAMES = [(b'<a>', b'</a>'), (b'<a>x', b'y</a>'), (b'<a b="', b'"></a>'), (b"<a><b c='", b"'>z</b></a>"), (b'<a><b>', b'</b>' + b'z' * 20 + b'</a>'), (b'<a>' + b'<b></b>' * 700, b'</a>')]

    def run_bytes(self, case, st):
        from amara3.uxml import uxpath
        i, bad, text = case
        doc = self.FRAMES[i][0] + bytes(bad) + self.FRAMES[i][1]
        st.state((doc, text))
        st.step()
        try:
            decoded = doc.decode('utf-8')
        except UnicodeDecodeError:
            decoded = None
        def results(source):
            return [x if not hasattr(x, 'xml_value') else (x.xml_name, x.xml_value) for x in uxpath.qquery(source, text)] if text != '/' else [x.xml_encode() for x in uxpath.qquery(source, text)]
        try:
            got = results(doc)
        except Exception as e:
            if decoded is not None:
                return 'qquery of %r is refused: %r' % (doc[:60], e)
            st.outcome('refused')
            return
        if decoded is None:
            return 'qquery of %r, which is not UTF-8, gives %r' % (doc[:60], got[:5])
        if got != results(decoded):
            return '%s in %r gives %r, but %r in the same string' % (text, doc[:60], got[:5], results(decoded)[:5])
        st.trace()

    def canon_by_position(self, b, items):
        return [b.canon(x) for x in items]

    def run_case(self, case, st):
        from amara3.uxml import uxpath, tree, xml
        t, text = tup(case)
        ast = rparse(text)
        st.state((t, text))
        doc = markup(t)
        env = dict(ENV)
        env.pop('nan')
        b = Bound(t)
        parsed = uxpath.parse(text)
        vars_ = dict(ENV, v=b.elem)
        want = expected(ast, b.doc[0], dict(ENV, v=b.doc[1]))
        ways = {
            'xml_xpath': lambda: b.elem.xml_xpath(text, vars=vars_),
            'xml_xpath parsed': lambda: b.elem.xml_xpath(parsed, vars=vars_),
            'qquery': lambda: uxpath.qquery(b.elem, text, vars=vars_),
            'qquery parsed': lambda: uxpath.qquery(b.elem, parsed, vars=vars_),
            'compute': lambda: parsed.compute(uxpath.context(b.elem, variables=vars_)),
            'call': lambda: parsed(uxpath.context(b.elem, variables=vars_)),
            'context of an inner node': lambda: parsed.compute(uxpath.context(b.doc[-1].impl if b.doc[-1].kind != 'attr' else b.elem, variables=vars_)),
            'context of the root': lambda: parsed(uxpath.context(b.node(b.doc[0]), variables=vars_)),
        }
        for name, way in ways.items():
            got = [b.canon(x) for x in way()]
            st.step()
            if got != want:
                return '%s: %s in %s gives %r instead of %r' % (name, text, doc, got, want)
        # any element or text within
        for c in b.doc[2:]:
            if c.kind == 'attr':
                continue
            w = expected(ast, c, dict(ENV, v=b.doc[1]))
            for name, way in (('xml_xpath', lambda: c.impl.xml_xpath(text, vars=vars_)), ('qquery', lambda: uxpath.qquery(c.impl, parsed, vars=vars_)),
                              ('xml_xpath parsed', lambda: c.impl.xml_xpath(parsed, vars=vars_)),
                              ('compute', lambda: parsed.compute(uxpath.context(c.impl, variables=vars_, force_root=False)))):
                got = [b.canon(x) for x in way()]
                st.step()
                if got != w:
                    return '%s from %r: %s in %s gives %r instead of %r' % (name, c, text, doc, got, w)
        # from text: the tree is another one each time, found through the results' ancestors
        if '$v' not in text:
            for name, source in (('str', doc), ('bytes', doc.encode('utf-8'))):
                for expr in (text, parsed):
                    got = self.foreign(uxpath.qquery(source, expr, vars=dict(ENV)), t)
                    st.step()
                    if got != want:
                        return 'qquery of %s: %s in %s gives %r instead of %r' % (name, text, doc, got, want)
        st.trace()

    def foreign(self, items, t):
        """Canonical results over a tree known only by them, and only while the query runs"""
        from amara3.uxml import tree
        b, out = None, []
        for x in items:
            if not isinstance(x, tree.node):
                out.append(rcanon(x))
                continue
            top = x
            while top.xml_parent is not None:
                top = top.xml_parent
            if not isinstance(top, (tree.element, tree.text)):
                top = top.xml_children[0]
            if b is None:
                if not isinstance(top, tree.element) or canon_tree(top) != merged(t):
                    return 'a node of another document: %r' % x
                b = Bound(merged(t), top)
            out.append(b.canon(x))
        return out

    def run_functions(self, case, st):
        from amara3.uxml import uxpath
        from amara3.uxml.uxpath.functions import BUILTIN_FUNCTIONS
        t, text, _ = tup(case)
        b = Bound(t)
        st.state((t, text))
        def twice(ctx, seq):
            items = list(seq.compute(ctx))
            yield from items + items
        def item(ctx):
            yield ctx.item
        def yes(ctx):
            yield True
        def one(ctx):
            yield 1
        def args(ctx, *seqs):
            yield len(seqs)
        funcs = dict(BUILTIN_FUNCTIONS, twice=twice, item=item, yes=yes, one=one, args=args)
        def rev(e):
            """Reference: the functions replaced by expressions that give the same"""
            if not isinstance(e, tuple):
                return e
            if e[0] == 'call':
                if e[1] == 'twice':
                    return ('seq', (rev(e[2][0]),) * 2)
                if e[1] == 'item':
                    return ('dot',)
                if e[1] == 'yes':
                    return ('call', 'true', ())
                if e[1] == 'one':
                    return ('num', 1)
                if e[1] == 'args':
                    return ('num', len(e[2]))
            return tuple(rev(x) for x in e)
        ast = rparse(text.replace("'item()'", "'.'"))
        if text == 'twice(1)|..':
            return
        parsed = uxpath.parse(text)
        for c in b.doc[1:]:
            if c.kind == 'attr':
                continue
            top = c is b.doc[1]
            want = expected(rev(ast), b.doc[0] if top else c)
            for name, way in (('xml_xpath', lambda: c.impl.xml_xpath(text, funcs=funcs)), ('qquery', lambda: uxpath.qquery(c.impl, text, funcs=funcs)),
                              ('compute', lambda: parsed.compute(uxpath.context(c.impl, functions=funcs, force_root=top)))):
                got = [b.canon(x) for x in way()]
                st.step()
                if got != want:
                    return '%s with functions from %r: %s in %s gives %r instead of %r' % (name, c, text, markup(t), got, want)
        st.trace()


class Q10(XPathCheck):
    id = 'Q10'
    technique = 'exhaustive exploration of token sequences and expression trees, against a reference parser and evaluator'
    assumptions = ('Reference parser and evaluator mc/refxp.py.',
                   'Left open: minus as operand of a union, predicates of a lone slash, node tests with arguments, multiplication.',
                   'Arithmetic and unknown functions are parsed, but not computed.')
    DOC = ('a', (('i', '2'), ('or', 'x')), ('x', ('b', (('i', '1'),), ('x',)), ('or', (), (('b', (), ('2',)),)), ('div', (), ()), ('b', (), (('a', (), ()),)), ('text', (), ('1',))))
    # Tokens that can be told apart from their neighbours without white space are also tried without
    SETS = {'structure': ['a', 'or', '/', '//', '[', ']', '(', ')', '.', '1', '|', '-', '='],
            'steps': ['a', 'b', '..', '/', '::', 'child', '@', '*', 'text', 'node', '(', ')', '$', 'and', 'self', 'foo', '[', ']', "'s'"],
            'operators': ['a', '1', '<', '!=', 'and', 'or', 'div', 'mod', '+', '-', '|', '(', ')', ',', '=', "''", '.', '>='],
            'names': ['or', 'and', 'div', 'mod', 'text', 'count', 'b', '/', '(', ')', '@', '[', ']', '=', ',']}

    def families(self, tier):
        q = tier == 'quick'
        def tokens(which, n):
            def gen_():
                toks = self.SETS[which]
                # a case: all sequences with a given beginning
                for k in range(0, 3):
                    for head in itertools.product(range(len(toks)), repeat=k):
                        if k < 2:
                            yield [which, list(head), 0]
                        else:
                            yield [which, list(head), n - 2]
            return gen_
        def precedence():
            for a in self.operator_trees(2, wide=True):
                yield [a]
            for a in self.operator_trees(3, wide=False):
                yield [a]
        def expressions():
            seen = set()
            for t in Q07.EXPRS + LEFTS + PREDS + VALUES + Q06.NODES + Q08.QUERIES:
                if t not in seen:
                    seen.add(t)
                    yield [t]
            for l, p in itertools.product(LEFTS, PREDS):
                yield ['%s[%s]' % (l, p)]
            for a, b in itertools.product(STEPS[::3], STEPS[::4]):
                yield [show(('path', a, b))]
                yield [show(('dpath', a, b))]
                yield [show(('abs', ('path', a, b)))]
                yield [show(('absd', ('dpath', a, b)))]
            for s in ("'it\"s'", '"it\'s"', "'<&\u00e9\U0001F600'", "'\n'", "'  '", '0.5', '.5', '5.', '00012', '1.50', "'[1]'", "concat('(', ')')"):
                yield [s]
        def literals():
            for n in range(0, 4 if q else 5):
                for c in itertools.product('\'"()[]/ $\\x&<', repeat=n):
                    c = ''.join(c)
                    for quote in '\'"':
                        if quote not in c:
                            yield [quote + c + quote]
                            yield ['concat(%s, "", %s)' % (quote + c + quote, quote + c + quote)]
        bad = ['', ')', 'a[', "'x", 'a b', '//', '#', 'foo::a', '(1,', '1 2', '@', '$', 'a[]', '!', '$1']
        good = ['//b', 'a/b[1]', 'or or or', "concat('a','b')", '-1', '.', "'x'", '(1,2)[2]']
        def histories():
            for n in (1, 2):
                for h in itertools.product(bad, repeat=n):
                    for g in good:
                        yield [list(h), g]
            for h in itertools.product(good, repeat=2):
                for g in good:
                    yield [list(h), g]
        def spaces():
            for t in ('a/b', 'a//b[1]/@i', 'count(b)=1', '-1', 'a or b', "concat('a',\"b\")", '$one|b', '//b[.=2]', 'ancestor-or-self::*', 'text()', 'b|or', '1.5<2', '..//b', 'child::b', '@or'):
                yield [t]
        def lists():
            preds = ['1', '2', '@i', '.="x"', "''", '()', 'b', '-1', '(2,1)', 'true()', '. = 2']
            lefts = ['b', '*', '//b', '(b,"x",div)', '@*', '..', 'node()', '$one', 'b|div'] if not q else ['b', 'node()', '(b,"x",div)', 'b|div']
            for left in lefts:
                for n in (1, 2, 3):
                    for c in itertools.product(preds, repeat=n):
                        if n < 3 or not q or left != '(b,"x",div)':
                            yield [left + ''.join('[%s]' % x for x in c)]
            args = ["'xy'", '"x"', "''", '1', '2.5', '-1', '()', "('x','z')", '(2,1)', 'b', '@i', '.', 'b[1]', 'b|div', 'true()', "concat('x')", "count((1,2))", '1=1', 'b/@i', '//b', "(('x'),'q')", 'text()', 'a or b']
            # concat() of an argument with several items is left open
            single = [x for x in args if x not in ("('x','z')", '(2,1)', 'b', 'b|div', 'b/@i', '//b', "(('x'),'q')", 'text()')]
            for f in ('starts-with', 'substring-before', 'contains', 'concat', 'substring-after'):
                for c in itertools.product(args if f != 'concat' else single, repeat=2):
                    yield ['%s(%s,%s)' % ((f,) + c)]
            for c in itertools.product(single, repeat=3):
                yield ['concat(%s,%s,%s)' % c]
            for c in itertools.product(args[:11], repeat=2):
                yield ["substring('abcdef',%s,%s)" % c]
            for n in (0, 1, 2, 3):
                for c in itertools.product(args[:13] if n < 3 or q else args, repeat=n):
                    yield ['(%s)' % ','.join(c)]
                    yield ['count((%s))' % ','.join(c)]
        def chars():
            for base in range(0, 0x110000, 64):
                if base < 0x10000 or base % 0x10000 < 64 or (base + 64) % 0x10000 < 64 or not q:
                    yield [base]
        def keywords():
            # operators, axes, node types and functions in every mix of cases, shortened, lengthened and changed
            words = ['or', 'and', 'div', 'mod', 'text', 'node', 'self', 'child', 'parent', 'count', 'true', 'string', 'not', 'name', 'attribute', 'following', 'ancestor-or-self', 'starts-with', 'preceding-sibling']
            seen = set()
            for w in words:
                out = [w, w.upper(), w.capitalize(), w.title(), w.swapcase()]
                if len(w) < 5 or not q:
                    out += [''.join(c) for c in itertools.product(*[(x, x.upper()) for x in w])] if len(w) < 9 else []
                out += [w[:i] + w[i].upper() + w[i + 1:] for i in range(len(w))] + [w[:i] + w[i + 1:] for i in range(len(w))] + [w[:i] for i in range(1, len(w))]
                out += [w[:i] + c + w[i:] for i in range(len(w) + 1) for c in 'xX-_.1'] + [w + w, w.replace('-', '_'), w.replace('-', ''), w.replace('o', '\u03bf').replace('a', '\u0430'), w.replace('s', '\u017f').replace('i', '\u0131')]
                for v in out:
                    if v and v not in seen:
                        seen.add(v)
                        yield [v]
        def lengths():
            for k in gen.SWEEP + gen.LARGE:
                yield ['lengths', k]
        return [Family('lengths', lengths, 'names, literals, numbers, white space of up to 1025 characters; up to 257 steps, operands, arguments, predicates; nesting of up to 35', self.run_lengths),
                Family('characters', chars, 'every character of the BMP and at the ends of each plane (thorough: all) as a name, after a name and a number, before a name and in a literal', self.run_chars),
                Family('literals', literals, 'literals of up to 3 (4) of 12 characters, both quotes among them', self.run_text),
                Family('keywords', keywords, 'operators, axes, node types and functions in other cases, shortened, lengthened and changed, in 22 places', self.run_keyword),
                Family('lists', lists, 'all lists of up to 3 of 11 predicates, pairs of 23 arguments and triples of 15, sequences of up to 3 of 13 (23) items', self.run_text),
                Family('structure', tokens('structure', 5 if q else 6), 'all sequences of up to 5 (6) of 13 tokens', self.run_tokens),
                Family('steps', tokens('steps', 4 if q else 5), 'all sequences of up to 4 (5) of 19 tokens', self.run_tokens),
                Family('operators', tokens('operators', 4 if q else 5), 'all sequences of up to 4 (5) of 18 tokens', self.run_tokens),
                Family('names', tokens('names', 4 if q else 5), 'all sequences of up to 4 (5) of 15 tokens', self.run_tokens),
                Family('precedence', precedence, 'all trees of up to 2 operators (9 kinds, 6 operands) and of 3 (2 operands), with minimal and full parentheses', self.run_ast),
                Family('expressions', expressions, 'the expressions of the other checks: serialization, and parse by the reference', self.run_text),
                Family('histories', histories, 'all sequences of up to 2 failing parses, or 2 good ones, then a good one', self.run_history),
                Family('spaces', spaces, 'every way to put a space between characters that are in different tokens', self.run_spaces)]

    def run_lengths(self, case, st):
        k = case[1]
        st.state(k)
        texts = []
        if k:
            texts += ['b' * k, 'count' * k + '()', "'%s'" % ('x' * k), '"%s"' % ('\u00e9' * k), '1' * min(k, 300), '0.' + '1' * k, '0' * k + '1', 'string(%s)' % ('1234567890' * 30)[:min(k, 300)], 'string(-1%s)' % ('0' * min(k, 300)), '@' + 'i' * k, 'b' + ' ' * k + '| a', '$' + 'v' * k, 'b' * k + '::a', '/%s/b' % ('a' * k), "'%s" % ('x' * k)]
        if 0 < k <= 257:
            texts += ['/'.join(['*'] * k), '//' + '/'.join(['*'] * k), '/'.join(['..'] * k), ' | '.join(['b'] * k), ' or '.join(['0'] * (k - 1) + ['b']), ' and '.join(['1'] * (k - 1) + ['zz']), '(%s)' % ','.join(map(str, range(k))),
                      'concat(%s)' % ','.join("'%d'" % i for i in range(k)), '(%s,b)[%d]' % (','.join(map(str, range(k))), k + 1), '|'.join('b[%d]' % i for i in range(1, k + 1)), '/' * k + 'a', 'b[' + ' and '.join(['.'] * k) + ']',
                      '/'.join(['.'] * k + ['b']), '/'.join(['self::node()'] * k + ['b'])]
        if 0 < k <= 35:
            texts += ['(' * k + 'b' + ')' * k, '-' * k + '1', 'b' + '[1]' * k, 'b' + '[.' * k + ']' * k, 'string(' * k + '.' + ')' * k, '(' * k + 'b' + ')' * (k - 1), ' = '.join(['1'] * k), ' < '.join(['1'] * k), 'not(' * k + 'b' + ')' * k,
                      'b' + '[self::b[1]' * k + ']' * k, '/'.join(['b[1]'] * k)]
        for text in texts:
            msg = self.judge(text, st, contexts=self.bound().doc[1:3])
            if msg:
                return 'size %d: %s' % (k, msg[:1500])
        st.trace()

    def run_keyword(self, case, st):
        w, = case
        for text in ('W', 'b W b', 'b W 1', '1 W 1', '(b)W(b)', '. W .', 'W W W', 'W()', 'b/W()', 'W::b', 'W::*', '//W::node()', '@W', '$W', 'b[W()]', 'W(b)', 'b W', '-W', '//W', 'b | W', "W('x', 'y')", 'a and b W c'):
            text = text.replace('W', w)
            st.state(text)
            msg = self.judge(text, st, contexts=() if w + '(' in text else None)
            if msg:
                return msg
        st.trace()

    def run_chars(self, case, st):
        from amara3.uxml import uxpath
        for c in range(case[0], case[0] + 64):
            if 0xd800 <= c < 0xe000:
                continue
            ch = chr(c)
            for text in (ch, 'b' + ch, '1' + ch, ch + 'b', '@i' + ch + '=1'):
                msg = self.judge(text, st, contexts=())
                if msg:
                    return 'U+%04X: %s' % (c, msg)
                st.distinct(1)
            if ch != '"':
                got = list(uxpath.qquery('<a></a>', '"%s"' % ch))
                if got != [ch]:
                    return 'U+%04X: "%s" gives %r' % (c, ch, got)
        st.trace()

    def operator_trees(self, n, wide):
        nodes = [('step', 'child', 'b'), ('absd', ('step', 'child', '*')), ('step', 'attribute', 'i'), ('dot',)] if wide else [('step', 'child', 'b'), ('dot',)]
        values = [('num', 1), ('str', 'x')] if wide else [('num', 1)]
        rels = nodes[:1] + [('step', 'attribute', '*')] if wide else nodes[:1]
        binops = ['or', 'and', '=', '!=', '<', '>='] if wide else ['or', 'and', '=', '<']
        from functools import lru_cache
        @lru_cache(None)
        def nodeset(k):
            if k == 0:
                return nodes
            out = []
            for i in range(k):
                for x in nodeset(i):
                    out += [('union', x, y) for y in nodeset(k - 1 - i)]
                    if i == k - 1:
                        out += [(op, x, r) for r in rels for op in ('path', 'dpath')]
                    out += [('pred', x, (y,)) for y in anything(k - 1 - i)]
            return out
        @lru_cache(None)
        def anything(k):
            if k == 0:
                return nodes + values
            out = list(nodeset(k))
            out += [('neg', x) for x in anything(k - 1)]
            for i in range(k):
                for x in anything(i):
                    for y in anything(k - 1 - i):
                        out += [('bin', op, x, y) for op in binops]
            return out
        for k in range(0, n + 1):
            yield from anything(k)

    def bound(self):
        if not hasattr(self, '_b'):
            self._b = Bound(self.DOC)
        return self._b

    def judge(self, text, st, ast=None, contexts=None):
        """None, or how parsing, computing or serializing text goes wrong"""
        from amara3.uxml import uxpath
        from amara3.uxml.uxpath import xast
        verdict = 'yes'
        if ast is None:
            try:
                ast = rparse(text)
            except refxp.Reject as e:
                verdict = 'no'
            except refxp.Unsure:
                verdict = 'may'
        st.step()
        try:
            e = uxpath.parse(text)
        except Exception as ex:
            if verdict == 'yes':
                return '%r is rejected: %r' % (text, ex)
            st.outcome('rejected')
            return None
        if verdict == 'no':
            return '%r is accepted as %s, although it is no expression' % (text, xast.serialize(e))
        st.outcome('accepted')
        s = xast.serialize(e)
        try:
            e2 = uxpath.parse(s)
        except Exception as ex:
            return '%r is serialized as %r, which is rejected: %r' % (text, s, ex)
        if xast.serialize(e2) != s:
            return '%r is serialized as %r, and that as %r' % (text, s, xast.serialize(e2))
        if verdict == 'may' or refxp.has_arith(ast):
            return None
        b = self.bound()
        env = dict(ENV, n=b.doc[-1], v=b.doc[1], a=1, b=2, foo='x', text=3, node=True, self=False, child=0, **{'or': 1, 'and': 2})
        for c in (b.doc[1], b.doc[0]) if contexts is None else contexts:
            try:
                want = expected(ast, c, env)
            except (Error, KeyError, IndexError, TypeError, AttributeError):
                st.outcome('not computed')
                continue
            for x, what in ((e, text), (e2, s)):
                got = query(b, None, c, env, expr=x)
                if got != want:
                    return '%r%s from %r gives %r instead of %r' % (what, '' if x is e else ' (serialized from %r)' % text, c, got, want)
        return None

    def run_tokens(self, case, st):
        which, head, more = case
        toks = self.SETS[which]
        n = 0
        for k in range(0, more + 1):
            for tail in itertools.product(toks, repeat=k):
                seq = [toks[i] for i in head] + list(tail)
                n += 1
                msg = self.judge(' '.join(seq), st)
                if msg is None and len(seq) <= 4:
                    msg = self.judge(self.tight(seq), st)
                if msg:
                    return msg
        st.distinct(n)
        st.trace(n)

    def tight(self, seq):
        out = ''
        for s in seq:
            if out and (s[0].isalnum() or s[0] in '-.') and (out[-1].isalnum() or out[-1] in '-.'):
                out += ' '
            elif out and (out[-1] + s[0]) in ('//', '::', '..', '<=', '>=', '!=') or out and out[-1] in '/:.' and s[0] in '/:.':
                out += ' '
            out += s
        return out

    def run_ast(self, case, st):
        ast = tup(case[0])
        st.state(ast)
        b = self.bound()
        for text in (show(ast), show(ast, full=True), show(ast, space=True)):
            if rparse(text) != ast and not self.same_but_parens(rparse(text), ast):
                return 'internal: %r' % text
            msg = self.judge(text, st, ast, (b.doc[1], b.doc[-3]))
            if msg:
                return msg
        st.trace()

    def same_but_parens(self, x, y):
        """Whether the ASTs are the same but for parentheses and the like, which refxp keeps"""
        b = self.bound()
        try:
            return all(expected(x, c, ENV) == expected(y, c, ENV) for c in b.doc[:3])
        except Error:
            return True

    def run_text(self, case, st):
        st.state(case[0])
        b = self.bound()
        msg = self.judge(case[0], st, None, b.doc)
        st.trace()
        return msg

    def run_history(self, case, st):
        from amara3.uxml import uxpath
        h, g = case
        st.state((tuple(h), g))
        for x in h:
            try:
                uxpath.parse(x)
            except Exception:
                st.outcome('rejected')
        st.trace()
        return self.judge(g, st, None, self.bound().doc[:2])

    def run_spaces(self, case, st):
        text = case[0]
        toks = refxp.tokenize(text)
        words = [v for k, v in toks]
        base = rparse(text)
        for mask in range(1 << (len(words) - 1)):
            out = words[0]
            for i, w in enumerate(words[1:]):
                gap = ' ' if mask >> i & 1 else ''
                if not gap and (w[0].isalnum() or w[0] in '-.') and (out[-1].isalnum() or out[-1] in '-.'):
                    gap = '\n\t'
                out += gap + w
            st.state(out)
            msg = self.judge(out, st, base)
            if msg:
                return msg
            msg = self.judge('  %s \r\n' % out, st, base)
            if msg:
                return msg
        st.trace()


CHECKS = {c.id: c for c in (Q01, Q02, Q03, Q04, Q05, Q06, Q07, Q08, Q09, Q10)}
