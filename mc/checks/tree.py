"""T01-T04: trees"""
import gc, io, itertools, weakref
from .. import again, gen, refxml
from ..core import Check, Family
from ..observe import (canon_tree, tree_of_events, ref_events, markup, build, merged, sort_attrs, value_of, escape, tup, BadTree)
from .parser import SCALE_DOCS, CORPUS


def walk(t, e, path=()):
    """Pairs of canonical node and implementation node, in document order"""
    yield t, e, path
    if not isinstance(t, str):
        for i, (ct, ce) in enumerate(zip(t[2], e.xml_children)):
            yield from walk(ct, ce, path + (i,))


AGAIN = [(d, t) for t in (('a', (('i', '1'),), ('x', ('b', (), ('y',)))), ('a', (('i', '1'),), ('x', ('b', (), ('y',)), 'z')), ('a', (), ())) for d in [markup(t)]]


class T01(Check):
    id = 'T01'
    assumptions = ('Reference parser mc/refxml.py; nesting up to 150 (the tree functions are recursive).',)

    def families(self, tier):
        thorough = tier != 'quick'
        def shapes():
            for m, n in gen.confusable():
                yield ['x', gen.confusable_tree(m, n)]
            for t in gen.trees(3, ('a', 'ab'), ('', 'x', ' ')):
                yield ['x', t]
            for t in gen.trees(4, ('a', 'b'), ('', 'x'), 4):
                yield ['x', t]
            for t in gen.trees(6 if not thorough else 7, ('a',), ('',), 5):
                yield ['x', t]
            if thorough:
                for t in gen.trees(5, ('a', 'b'), ('',), 5):
                    yield ['x', t]
        def contents():
            for a, b in gen.contents():
                yield ['x', gen.content_tree(a, b)]
        def characters():
            for t in gen.character_trees(thorough):
                yield ['x', t]
        def longs():
            for t in gen.long_trees(thorough):
                yield ['x', t]
        def attributed():
            sets = [(), (('a', '1'),), (('b', '2'), ('a', '')), (('id', 'x y'), ('a', '1'), ('c', '&<"\''))]
            for t in gen.trees(3, ('a', 'b'), ('', 'x')):
                if gen.count_elements(t) == 3 and any(isinstance(c, str) for c in t[2]):
                    continue
                for u in gen.with_attrs(t, sets):
                    yield ['x', u]
        def docs():
            for d in CORPUS:
                yield ['d', d]
            texts = ['x', ' ', '\n', '\r\n', '&lt;', '&#x41;', '<b></b>', '<b>y</b>', '<b c="&amp;">\r</b>', '\u00e9', '<c> </c>', '0']
            for n in range(0, 4 if not thorough else 5):
                for c in itertools.product(texts, repeat=n):
                    yield ['d', '<a>%s</a>' % ''.join(c)]
            for d in gen.break_docs(3 if not thorough else 4):
                yield ['d', d]
        def scale():
            for name, _ in SCALE_DOCS:
                for k in gen.sizes(150, 2048, 4096, 5000, 20000):
                    if name == 'depth' and k > 150:
                        continue
                    yield ['s', name, k]
        return [Family('again', lambda: again.cases(3, 3), again.TEXT % (3, 3), self.run_again),
                Family('contents', contents, 'all pairs of %d texts that could be taken for one another, or for something else than text' % len(gen.CONTENTS), self.run_doc),
                Family('characters', characters, 'every character of the BMP and at the ends of each plane (thorough: all), alone and at both ends of texts and values', self.run_doc),
                Family('long', longs, 'texts and values of up to 70000 characters: all sequences of up to 2 (3) of %d characters over and over, with 8 others in the middle' % len(gen.LONG), self.run_doc),
                Family('shapes', shapes, 'all trees of up to 3 elements (2 names, 3 texts per gap), 4 (2 texts), 5-6 (7) shapes', self.run_doc),
                Family('attributes', attributed, 'trees of up to 3 elements times 4 attribute sets per element', self.run_doc),
                Family('documents', docs, 'all sequences of up to 3 (4) of 12 pieces of content, and of 12 line breaks and the like; the parser corpus', self.run_doc),
                Family('scale', scale, '13 dimensions up to 20000, depth up to 150', self.run_doc)]

    def run_again(self, case, st):
        from amara3 import uxml
        from amara3.uxml import tree
        same = lambda t: t
        b = tree.treebuilder()
        return again.run(case, st, [('tree.parse', tree.parse, same), ('treebuilder.parse', b.parse, same), ('amara3.uxml.parse', uxml.parse, same)], AGAIN)

    def run_doc(self, case, st):
        from amara3 import uxml
        from amara3.uxml import tree
        doc = markup(case[1]) if case[0] == 'x' else case[1] if case[0] == 'd' else dict(SCALE_DOCS)[case[1]](case[2])
        verdict, events, _ = refxml.parse(doc)
        if verdict != 'yes':
            return
        want = tree_of_events(ref_events(events))
        for what, parse in (('tree.parse', tree.parse), ('treebuilder().parse', tree.treebuilder().parse), ('amara3.uxml.parse', uxml.parse)):
            e = parse(doc)
            st.step()
            if e is None:
                if want is not None:
                    return '%s(%r) gives nothing' % (what, doc[:200])
                continue
            try:
                got = canon_tree(e)
            except BadTree as ex:
                return '%s(%r): %s' % (what, doc[:200], ex)
            if got != want:
                return '%s(%r) gives %s instead of %s' % (what, doc[:200], repr(got)[:400], repr(want)[:400])
        if want is None:
            return
        for t, n, path in walk(want, e) if case[0] != 's' else [(want, e, ())]:
            v = value_of(t)
            if n.xml_value != v or tree.strval(n) != v:
                return '%r: value of the node at %r is %r, strval %r, instead of %r' % (doc[:200], path, n.xml_value, tree.strval(n), v)
            if isinstance(t, str):
                if str(n) != t or not isinstance(n, str):
                    return 'text %r' % n
            elif n.xml_name != t[0] or n.xml_attributes != dict(t[1]):
                return 'name or attributes'
            st.step()
        st.state(want)
        st.trace()


# ---------------------------------------------------------------------------------------------- T02

class Model:
    """Forest of named elements and texts, children in lists"""
    def __init__(self):
        self.kids = {'A': [], 'B': [], 'C': []}
        self.parent = {}
        self.texts = {}         # id of each text node -> value
        self.loose = []         # text nodes that were removed
        self.n = 0

    NAMES = {'A': 'a', 'B': 'b', 'C': 'b'}

    def top(self, e):
        while e in self.parent:
            e = self.parent[e]
        return e

    def canon(self, e):
        return (self.NAMES[e], (), tuple(self.texts[k] if k in self.texts else self.canon(k) for k in self.kids[e]))

    def key(self):
        return tuple((e, self.canon(e)) for e in 'ABC' if e not in self.parent) + (tuple(self.texts[t] for t in self.loose),)

    def ops(self, rich):
        """Operations that are possible now: (op, target, what, position)"""
        out = []
        loose = [e for e in 'BC' if e not in self.parent]
        for target in 'ABC' if rich else ('A', 'B'):
            things = ['s:x', 's:y', 'n:x'] + [e for e in loose if e != self.top(target)]
            if self.loose:
                things.append('l:0')
            if len(self.texts) >= 4:
                things = [t for t in things if t[1:2] != ':']
            size = len(self.kids[target])
            for thing in things:
                out.append(('append', target, thing, None))
                for pos in range(0, min(size, 3) + 1):
                    out.append(('insert', target, thing, pos))
                if size and thing == 's:x':
                    out.append(('insert', target, thing, size + 5))
            for i in range(size):
                out.append(('remove', target, i, None))
            out.append(('remove-other', target, 't', None))
            for e in 'ABC':
                if self.parent.get(e) != target:
                    out.append(('remove-other', target, e, None))
        return out

    def apply(self, op):
        """Changes the model; returns what happens: ('text', id) | ('element', e) | ('removed', x) | 'error'"""
        kind, target, what, pos = op
        if kind == 'remove-other':
            return 'error'
        kids = self.kids[target]
        if kind == 'remove':
            x = kids.pop(what)
            if x in self.texts:
                self.loose.append(x)
            else:
                del self.parent[x]
            return ('removed', x)
        if what[1:2] == ':':
            self.n += 1
            x = 't%d' % self.n
            if what[0] == 'l':
                old = self.loose.pop(int(what[2:]))
                self.texts[x] = self.texts[old]
                res = ('text', x, old)
            else:
                self.texts[x] = what[2:]
                res = ('text', x, None)
        else:
            x = what
            self.parent[x] = target
            res = ('element', x)
        if kind == 'append':
            kids.append(x)
        else:
            kids.insert(pos, x)
        return res


class T02(Check):
    id = 'T02'
    assumptions = ('Elements are not put into themselves or their descendants, nor twice into one element (the tree classes do not check this); position -1 means the end. Whether the element that had a moved element before still lists it is not observed.',
                   'Text nodes handed to append or insert may be copied, so their identity is not observed; removal of a text that is equal to a child but not the same object is not explored.')

    def families(self, tier):
        depth = 4 if tier == 'quick' else 5
        starts = [(), (('append', 'A', 's:x', None), ('append', 'A', 'B', None), ('append', 'A', 's:x', None), ('append', 'A', 'C', None)),
                  (('append', 'A', 'B', None), ('append', 'B', 'C', None), ('append', 'C', 's:x', None))]
        def histories(depth, rich):
            def gen_():
                def rec(m_ops, left):
                    yield m_ops
                    if left:
                        m = Model()
                        for op in m_ops:
                            m.apply(op)
                        for op in m.ops(rich):
                            yield from rec(m_ops + [op], left - 1)
                # prefixes are part of their extensions: only the longest are run
                for si, start in enumerate(starts):
                    def leaves(m_ops, left):
                        if not left:
                            yield [si, m_ops[len(start):]]
                            return
                        m = Model()
                        for op in m_ops:
                            m.apply(op)
                        for op in m.ops(rich):
                            yield from leaves(m_ops + [op], left - 1)
                    yield from leaves(list(start), depth - (1 if si else 0))
            return gen_
        self.starts = starts
        def long():
            # every operation repeated, and pairs of operations alternating, many times
            base = [('append', 'A', 's:x', None), ('insert', 'A', 's:y', 0), ('insert', 'A', 'n:x', 1), ('remove', 'A', 0, None)]
            for n in (10, 100, 1000):
                for x, y in itertools.product(base[:3], base):
                    yield [n, [x, y]]
        def positions():
            n = 4 if tier == 'quick' else 6
            for size in range(n + 1):
                for html in (0, 1):
                    for kinds in itertools.product('sne', repeat=2):
                        for pos in itertools.product(range(-n - 2, n + 3), repeat=2):
                            yield [size, html, kinds, pos]
        def widths():
            # every index from before the first to beyond the last, and every child removed
            for size in list(range(5, 41)) + [63, 64, 65, 127, 128, 129, 255, 256, 257] + ([] if tier == 'quick' else gen.LARGE):
                for html in (0, 1):
                    yield [size, html]
        def moved():
            for html in (0, 1):
                for old in (0, 1, 2):
                    for new in (0, 1, 2):
                        for pos in [None] + list(range(-1, new + 1)):
                            for what in 'en':
                                for then in (None, 'back', 'removed', 'third'):
                                    yield [html, old, new, pos, what, then]
        def contents():
            for a, b in gen.contents():
                yield [a, b]
        return [Family('contents', contents, 'all pairs of %d texts that could be taken for one another, or for something else than text: put in at all places, and each child removed and put back' % len(gen.CONTENTS), self.run_contents),
                Family('moved', moved, 'an element or text node put into another element while it still has a parent, and from there back, to a third, or removed', self.run_moved),
                Family('widths', widths, 'an insertion at every index, each child removed and put back there, among 5 to 40 and up to 257 (1025) children', self.run_widths),
                Family('positions', positions, 'two insertions (string, text node, element) at any positions, also negative and beyond the end, among up to 4 (6) children; also in elements of HTML trees', self.run_positions),
                Family('histories', histories(depth - 1, True), 'all histories of %d operations on three elements (two of equal name), 3 initial trees' % (depth - 1), self.run_history),
                Family('deeper', histories(depth, False), 'all histories of %d operations on two elements' % depth, self.run_history),
                Family('long', long, 'up to 1000 operations on one element', self.run_long),
                Family('independence', lambda: ([x, y] for x in range(4) for y in range(4)), 'attributes and children of elements made in different ways are independent', self.run_indep)]

    def run_contents(self, case, st):
        from amara3.uxml import tree
        a, b = case
        e = tree.element('a', {'x': a})
        kids = []
        def check(what):
            st.step()
            got = e.xml_children
            if len(got) != len(kids) or any(x is not y if not isinstance(y, str) else not isinstance(x, tree.text) or str(x) != y for x, y in zip(got, kids)):
                return '%s (%r, %r): children are %r instead of %r' % (what, a, b, got, kids)
            if any(c.xml_parent is not e for c in got):
                return '%s (%r, %r): a child has another parent' % (what, a, b)
            if e.xml_value != ''.join(k if isinstance(k, str) else k.xml_value for k in kids):
                return '%s (%r, %r): value %r' % (what, a, b, e.xml_value)
            st.state((what, a, b))
        for i, (c, pos) in enumerate(((a, None), (tree.element('b', {'y': b}), None), (b, 0), (a, 1), (tree.element('b'), 2), (tree.text(b), 5), (b, None))):
            if pos is None:
                e.xml_append(c)
                kids.append(c)
            else:
                e.xml_insert(c, pos)
                kids.insert(pos, c)
            kids[:] = [str(k) if isinstance(k, str) else k for k in kids]
            msg = check('put in %d' % i)
            if msg:
                return msg
        for i in range(len(kids)):
            c = e.xml_children[i]
            e.xml_remove(c)
            k = kids.pop(i)
            msg = check('removed %d' % i) or (c.xml_parent is not None and 'child %d that was removed still has a parent' % i)
            if msg:
                return msg
            e.xml_insert(c if i % 2 or not isinstance(k, str) else k, i)
            kids.insert(i, k)
            msg = check('put back %d' % i)
            if msg:
                return msg
        st.trace()

    def compare(self, m, impl):
        from amara3.uxml import tree
        for e in 'ABC':
            el = impl[e]
            if len(el.xml_children) != len(m.kids[e]):
                return 'children of %s: %r instead of %r' % (e, el.xml_children, m.kids[e])
            for k, c in zip(m.kids[e], el.xml_children):
                if c.xml_parent is not el:
                    return 'parent of %r is %r' % (c, c.xml_parent)
                if k in m.texts:
                    if k not in impl:
                        impl[k] = c
                    if c is not impl[k] or c.xml_value != m.texts[k] or not isinstance(c, tree.text):
                        return 'text child %r of %s, %r expected' % (c, e, m.texts[k])
                elif c is not impl[k]:
                    return 'child %r of %s, %s expected' % (c, e, k)
            if e not in m.parent and el.xml_parent is not None:
                return '%s should have no parent' % e
            t = m.canon(e)
            if el.xml_encode() != markup(t) or el.xml_value != value_of(t) or el.xml_name != t[0] or el.xml_attributes != {'id': e}:
                if el.xml_encode() != markup((t[0], (('id', e),), ())).replace('></', '>' + markup(t)[len(t[0]) + 2:-len(t[0]) - 3] + '</') \
                        and el.xml_encode() != self.expect(m, e):
                    return 'encoding of %s: %r' % (e, el.xml_encode())
                if el.xml_value != value_of(t):
                    return 'value of %s' % e
                if el.xml_attributes != {'id': e}:
                    return 'attributes of %s: %r' % (e, el.xml_attributes)
        for k in m.loose:
            if k in impl and (impl[k].xml_parent is not None or impl[k].xml_value != m.texts[k]):
                return 'removed text has parent %r' % impl[k].xml_parent

    def expect(self, m, e):
        return '<%s id="%s">%s</%s>' % (m.NAMES[e], e, ''.join(
            escape(m.texts[k]) if k in m.texts else self.expect(m, k) for k in m.kids[e]), m.NAMES[e])

    def run_history(self, case, st):
        from amara3.uxml import tree
        start, ops = case
        m = Model()
        impl = {e: tree.element(m.NAMES[e], {'id': e}) for e in 'ABC'}
        history = [tuple(o) for o in self.starts[start]] + [tuple(o) for o in ops]
        for i, op in enumerate(history):
            before = m.key()
            res = m.apply(op)
            kind, target, what, pos = op
            el = impl[target]
            try:
                if kind == 'remove':
                    r = el.xml_remove(impl[res[1]])
                elif kind == 'remove-other':
                    el.xml_remove(impl[what] if what != 't' else tree.text('other'))
                else:
                    if res[0] == 'element':
                        arg = impl[res[1]]
                    elif what[0] == 's':
                        arg = what[2:]
                    elif what[0] == 'n':
                        arg = tree.text(what[2:])
                    else:
                        arg = impl[res[2]]
                    if kind == 'append':
                        el.xml_append(arg)
                    else:
                        el.xml_insert(arg, pos)
                raised = False
            except Exception as ex:
                raised = True
                if res != 'error':
                    return 'operation %d of %r raises %r' % (i, history, ex)
            if res == 'error' and not raised:
                return 'operation %d of %r: removing what is not a child does not raise an exception' % (i, history)
            if i >= len(history) - 1 or i < len(self.starts[start]) or True:
                msg = self.compare(m, impl)
                if msg:
                    return 'after operation %d of %r: %s' % (i, history, msg)
            st.step()
            st.state(m.key())
        st.trace()

    def run_moved(self, case, st):
        from amara3.uxml import tree, html5
        html, old, new, pos, what, then = case
        cls = html5.element if html else tree.element
        p, q, r = (cls(n) for n in 'pqr')
        for e, n in ((p, old), (q, new), (r, 1)):
            for i in range(n):
                e.xml_append(cls('c'))
        if what == 'e':
            x = cls('c', {'k': 'v'})
            x.xml_append('t')
            p.xml_append(x)
        else:
            p.xml_append('t')
            x = p.xml_children[-1]
        st.state(str(case))
        def put(e, pos):
            kids = list(e.xml_children)
            e.xml_append(x) if pos is None else e.xml_insert(x, pos)
            at = len(kids) if pos in (None, -1) else pos
            st.step()
            got = list(e.xml_children)
            y = got[at] if len(got) == len(kids) + 1 else None
            if y is None or [id(c) for c in got[:at] + got[at + 1:]] != [id(c) for c in kids] or y.xml_value != 't' or (what == 'e' and y is not x):
                return 'children after a move to %s: %r instead of %r in %r' % (pos, got, x, kids)
            if any(c.xml_parent is not e for c in got):
                return 'parent of a child after a move to %s: %r' % (pos, [c.xml_parent for c in got])
            if what == 'e' and x.xml_encode() != '<c k="v">t</c>':
                return 'moved element has become ' + x.xml_encode()
        msg = put(q, pos)
        if not msg and then == 'back' and what == 'e':
            if x in p.xml_children:
                p.xml_children.remove(x)
            msg = put(p, 0)
        elif not msg and then == 'third':
            msg = put(r, 1) or put(cls('z'), None)
        elif not msg and then == 'removed':
            y = q.xml_children[new if pos in (None, -1) else pos]
            kids = [c for c in q.xml_children if c is not y]
            q.xml_remove(y)
            st.step()
            if y.xml_parent is not None or [id(c) for c in q.xml_children] != [id(c) for c in kids]:
                msg = 'removal after a move leaves parent %r and children %r' % (y.xml_parent, q.xml_children)
        st.trace()
        return msg and '%s (%r)' % (msg, case)

    def run_positions(self, case, st):
        from amara3.uxml import tree, html5
        size, html, kinds, positions = case
        cls = html5.element if html else tree.element
        e = cls('a')
        model = []
        for i in range(size):
            child = cls('c') if i % 2 else 'x'
            e.xml_append(child)
            model.append(child)
        for kind, pos in zip(kinds, positions):
            child = {'s': 'y', 'n': tree.text('z'), 'e': cls('d')}[kind]
            e.xml_insert(child, pos)
            if pos == -1:
                model.append(child)
            else:
                model.insert(pos, child)
            st.step()
        st.trace()
        st.state(str(case))
        got = list(e.xml_children)
        if len(got) != len(model) or any((str(g) != m if isinstance(m, str) else g is not m) for g, m in zip(got, model)):
            return 'insertion of %r at %r among %d children gives %r instead of %r' % (kinds, positions, size, got, model)
        if any(c.xml_parent is not e for c in got):
            return 'insertion of %r at %r among %d children: wrong parent' % (kinds, positions, size)

    def run_widths(self, case, st):
        from amara3.uxml import tree, html5
        size, html = case
        cls = html5.element if html else tree.element
        base = [cls('c') if i % 2 else tree.text('x') for i in range(size)]
        e = cls('a')
        for c in base:
            e.xml_append(c)
        base = [c if isinstance(c, cls) else t for c, t in zip(base, e.xml_children)]       # texts may be copied
        st.state(str(case))
        def wrong(what, model):
            got = e.xml_children
            if len(got) != len(model) or any(g is not m for g, m in zip(got, model)):
                return '%s among %d children gives %r instead of %r' % (what, size, got, model)
            if any(c.xml_parent is not e for c in got):
                return '%s among %d children: wrong parent' % (what, size)
        for pos in range(-size - 2, size + 3):
            for new in (cls('d'), tree.text('y'), 'z'):
                e.xml_insert(new, pos)
                st.step()
                if isinstance(new, str):
                    value = str(new)
                    new = [c for c in e.xml_children if not any(c is b for b in base)]
                    if len(new) != 1 or not isinstance(new[0], tree.text) or new[0].xml_value != value:
                        return 'insertion of %r at %d among %d children gives %r' % (value, pos, size, e.xml_children)
                    new = new[0]
                model = list(base)
                model.append(new) if pos == -1 else model.insert(pos, new)
                msg = wrong('insertion at %d' % pos, model)
                if msg:
                    return msg
                e.xml_remove(new)
                msg = wrong('removal of what was inserted at %d' % pos, base)
                if msg or new.xml_parent is not None:
                    return msg or 'removed child has a parent'
                st.trace()
        for i, c in enumerate(base):
            e.xml_remove(c)
            msg = wrong('removal of child %d' % i, base[:i] + base[i + 1:])
            if msg or c.xml_parent is not None:
                return msg or 'removed child %d has a parent' % i
            if i == size - 1:
                e.xml_append(c)
            else:
                e.xml_insert(c, i)
            if isinstance(c, tree.text):
                base[i] = e.xml_children[i]
                if not isinstance(base[i], tree.text) or base[i].xml_value != 'x':
                    return 'text %d taken out and put back: %r' % (i, e.xml_children)
            msg = wrong('child %d taken out and put back' % i, base)
            if msg:
                return msg
            st.step()
            st.trace()

    def run_long(self, case, st):
        from amara3.uxml import tree
        n, ops = case
        e = tree.element('a')
        model = []
        for i in range(n):
            kind, _, what, pos = ops[i % 2]
            if kind == 'remove':
                if model:
                    c = e.xml_children[len(model) // 2]
                    if c.xml_value != model[len(model) // 2]:
                        return 'wrong child at step %d' % i
                    e.xml_remove(c)
                    del model[len(model) // 2]
                    if c.xml_parent is not None:
                        return 'removed child has a parent'
            else:
                v = str(i % 3)
                e.xml_append(v) if kind == 'append' else e.xml_insert(v, pos)
                model.append(v) if kind == 'append' else model.insert(pos, v)
            st.step()
        if [c.xml_value for c in e.xml_children] != model or any(c.xml_parent is not e for c in e.xml_children):
            return 'children differ after %d operations' % n
        st.state((n, str(ops)))
        st.trace()

    def run_indep(self, case, st):
        from amara3.uxml import tree
        def make(k):
            return [lambda: tree.element('a'), lambda: tree.element('a', {'x': '1'}), lambda: tree.parse('<a x="1"></a>'), lambda: tree.element('a', None)][k]()
        a, b = make(case[0]), make(case[1])
        before = b.xml_encode()
        a.xml_attributes['y'] = '2'
        a.xml_append('t')
        st.step(2)
        st.trace()
        st.state(tuple(case))
        if b.xml_encode() != before:
            return 'a change to one element changes another: %r' % b.xml_encode()
        c = make(case[1])
        if c.xml_encode() != before:
            return 'a change to one element changes later ones: %r' % c.xml_encode()


# ---------------------------------------------------------------------------------------------- T03

SPECIALS = ['x', '&', '<', '>', '"', "'", ' ', '\n', '\t', ';', '#', ']', 'amp;', '\u00e9', '\U0001F600', '\u00a0']


class T03(Check):
    id = 'T03'
    assumptions = ('No carriage returns in values (MicroXML cannot represent them); names for the XML parser are such as expat 2.6 accepts; no xmlns attributes.',
                   'Adjacent text nodes are compared as one, since markup cannot tell them apart.')

    def families(self, tier):
        n = 3 if tier == 'quick' else 4
        def values():
            for k in range(0, n + 1):
                for c in itertools.product(SPECIALS, repeat=k):
                    yield ['v', ''.join(c)]
        def chars():
            for base in range(0, 0x110000, 64):
                if base < 0x10000 or base % 0x10000 < 64 or (base + 64) % 0x10000 < 64 or tier != 'quick':
                    yield ['c', base]
        def trees():
            for m, n in gen.confusable_xml():
                yield ['t', gen.confusable_tree(m, n)]
            for a, b in gen.contents():
                yield ['t', gen.content_tree(a, b)]
            for t in gen.trees(3, ('a', 'b.c-d'), ('', '<&>', ' \n')):
                yield ['t', t]
            for t in gen.trees(4, ('a',), ('', '&'), 4):
                yield ['t', t]
            sets = [(), (('a', '<'),), (('b', '"'), ('a', "'\"")), (('c', '\n\t'), ('b', '&amp;'), ('a', ''))]
            for t in gen.trees(3, ('a',), ('', 'x')):
                if gen.count_elements(t) == 3 and any(isinstance(c, str) for c in t[2]):
                    continue
                for u in gen.with_attrs(t, sets):
                    yield ['t', u]
            for a in itertools.permutations((('a', '1'), ('b', '2'), ('c', '3'), ('d', '"'))):
                yield ['t', ('e', a, ())]
        def adjacent():
            # built by operations: adjacent, empty and blank text nodes in every combination
            pieces = ['', 'x', ' ', '&', '\n', ('b', (), ()), ('b', (('a', '"'),), ('y',))]
            for k in range(0, 4 if tier == 'quick' else 5):
                for c in itertools.product(pieces, repeat=k):
                    yield ['t', ('a', (), tuple(c))]
        def scale():
            for k in gen.sizes(4096, 70000):
                yield ['t', ('a', (('b', '<&">' * k),), ('&<>' * k,))]
                yield ['t', ('n' * k, (('m' * k, 'v'),), ('t',))]
            for k in gen.sizes():
                yield ['t', ('a', tuple(('a%d' % i, str(i)) for i in range(k)), ('t',) * 3)]
                yield ['t', ('a', (), (('b', (), ('x',)), 'y') * k)]
                yield ['t', gen.bushy(k)]
            for k in gen.sizes(150, most=150):
                t = ('d', (), ('x',))
                for i in range(k):
                    t = ('d', (('i', str(i)),), ('<', t, '&'))
                yield ['t', t]
        def longs():
            for t in gen.long_trees(tier != 'quick'):
                yield ['t', t]
        return [Family('long', longs, 'texts and values of up to 70000 characters: all sequences of up to 2 (3) of %d characters over and over, with 8 others in the middle' % len(gen.LONG), self.run_case),
                Family('values', values, 'all strings of up to %d of %d special pieces as text, attribute value, both' % (n, len(SPECIALS)), self.run_case),
                Family('characters', chars, 'every character that MicroXML allows in the BMP and at the ends of each plane (thorough: all), as text and attribute value', self.run_case),
                Family('trees', trees, 'all trees of up to 3-4 elements with special texts, and attribute sets', self.run_case),
                Family('built', adjacent, 'all sequences of up to 3 (4) pieces of content, with adjacent and empty texts', self.run_case),
                Family('scale', scale, 'long values and names, many attributes and children, depth up to 150', self.run_case)]

    def run_case(self, case, st):
        kind = case[0]
        if kind == 'v':
            v = case[1]
            trees = [('a', (('b', v), ('c', v + 'z')), (v,)), ('a', (), (v, ('b', (('d', v),), ()), v))]
        elif kind == 'c':
            cs = [chr(c) for c in range(case[1], case[1] + 64) if refxml.is_char(c)]
            v = ''.join(cs)
            if not v:
                return
            trees = [('a', (('b', v),), (v,)), gen.character_tree(case[1], refxml.is_char)]
        else:
            trees = [tup(case[1])]
        for t in trees:
            msg = self.roundtrip(t, st, full=kind != 'c')
            if msg:
                return msg

    def roundtrip(self, t, st, full):
        from amara3.uxml import tree, xml, writer
        e = build(t)
        want = sort_attrs(merged(t))
        outputs = [('xml_encode', e.xml_encode())]
        if full:
            fp = io.StringIO()
            e.xml_write(fp)
            outputs.append(('xml_write', fp.getvalue()))
            if outputs[0][1] != outputs[1][1]:
                return 'xml_write of %s gives %r, unlike xml_encode: %r' % (repr(t)[:200], outputs[1][1][:300], outputs[0][1][:300])
            fp = io.StringIO()
            writer.write(e, writer.raw(fp))
            outputs.append(('writer.raw', fp.getvalue()))
            fp = io.StringIO()
            writer.write(e, writer.namespacer(fp))
            outputs.append(('writer.namespacer', fp.getvalue()))
        for what, out in outputs:
            for reader, parse in (('tree.parse', tree.parse), ('xml', xml.treebuilder().parse)):
                st.step()
                try:
                    back = canon_tree(parse(out), attr_order=False)
                except Exception as ex:
                    return '%s of %s gives %r, which %s rejects: %r' % (what, repr(t)[:200], out[:300], reader, ex)
                if back != want:
                    return '%s of %s gives %r, which %s reads as %s' % (what, repr(t)[:200], out[:300], reader, repr(back)[:300])
        # and a tree parsed from the encoding encodes the same, with the attributes in the same order
        if tree.parse(outputs[0][1]).xml_encode() != outputs[0][1]:
            return 'encoding again gives another document: %r' % outputs[0][1][:300]
        if [k for k, v in t[1]] != list(tree.parse(outputs[0][1]).xml_attributes):
            return 'attribute order'
        st.state(want)
        st.trace()


# ---------------------------------------------------------------------------------------------- T04

def given(ctx, obj):
    yield from obj.compute(ctx)


class T04(Check):
    id = 'T04'
    assumptions = ('CPython; released at the next gc.collect() at the latest.',)
    DOC = '<a i="1"><b j="2">x</b>y<b>z<c k="3"><d>w</d></c></b><e></e></a>'

    def setup(self):
        import amara3.uxml
        from amara3.uxml import tree, xml, html5, writer, treeutil, treeiter, xmliter, html5iter, uxpath
        self.tree, self.xml, self.html5, self.writer, self.tu, self.ux = tree, xml, html5, writer, treeutil, uxpath
        self.uxml = amara3.uxml
        gc.collect()
        gc.freeze()

    ACTIONS = ['encode', 'write', 'append', 'insert', 'remove', 'move', 'pretty', 'value', 'descendants', 'pattern', 'siblings',
               'q:/a/b', 'q://c', 'q://@k', 'q:count(//*)', 'q:.|//d|//@j', 'q:a/b[1]', 'q:a/b[.="x"]/following::*', 'q://d/ancestor::*', 'q:/', 'q:..',
               'q:name(.)', "q:for-each(//b, 'c')", 'lazy', 'error', 'qquery', 'parsed', 'vars', 'inner', 'attrs']
    QUERIES = ['/', '/*', '/a', '/node()', '//.', '//*', '//node()', '//text()', '//@*', '//b/c', '//b//d', '/a/b/..', '/a//c/../..', '.', '..', '*', 'node()', '@*', '@*/..', 'text()/..', './/*', './/text()', '*//..',
               'ancestor::node()', 'ancestor-or-self::*', 'descendant::*', 'descendant-or-self::node()', 'following::node()', 'following-sibling::node()', 'preceding::node()', 'preceding-sibling::node()', 'parent::node()',
               'self::node()', 'child::text()', 'attribute::i', '//*[1]', '//*[.="x"]', '//*[@i]', '//b[c]/c', '//node()[..]', '//*[/a]', '/a[//d]', '(//b, //c)', '(//b)[1]', '//b|//c', '.|/', '..|//@*', '//text()|//b',
               '//b="x"', '//b=//c', 'count(//*)', 'string(/)', 'string(//b)', 'name(/a)', 'concat(//b, //c)', 'contains(//b, //c)', 'number(/)', 'boolean(//b)', 'not(//z)', "for-each(//*, '/')", "for-each(//b, '..')", "for-each(//@*, '//*')",
               'string-length(/)', '$v', '$v/b', '$v/..', '//*[$v]', '-/a', '/a and //b', 'f(.)', 'f(/)', '//*[f(.)]']
    SOURCES = ['tree.parse', 'treebuilder', 'amara3.uxml.parse', 'xml', 'html5', 'lax', 'element', 'treebuilder-kept', 'xml-kept']

    def families(self, tier):
        acts = self.ACTIONS
        q = tier == 'quick'
        def seqs():
            for s in self.SOURCES:
                yield [s, [], -1]
                for a in acts:
                    yield [s, [a], -1]
            for s in self.SOURCES[:1] + self.SOURCES[3:5] if tier == 'quick' else self.SOURCES:
                for p in itertools.product(acts, repeat=2):
                    yield [s, list(p), -1]
            if tier != 'quick':
                for p in itertools.product(acts, repeat=3):
                    yield ['tree.parse', list(p), -1]
        def keep():
            for s in self.SOURCES:
                for a in [[]] + [[x] for x in acts]:
                    for k in range(0, 8):
                        yield [s, a, k]
        def parts():
            for s in self.SOURCES:
                for a in [[]] + [[x] for x in acts] + ([] if q else [list(p) for p in itertools.product(acts, repeat=2)]):
                    for how in self.PARTS:
                        yield [s, a, how]
        def queried():
            for s in self.SOURCES:
                for x in self.QUERIES:
                    for at in range(6):
                        for keep in (-1, 0, 1, 3):
                            yield [s, ['x:%d:%s' % (at, x)], keep]
        return [Family('queried', queried, '%d forms of expressions from 6 nodes, evaluated whole, in part, and by qquery; all of the tree dropped, or one node kept' % len(self.QUERIES), self.run_case),
                Family('dropped', seqs, 'all sequences of up to 2 (3) of %d uses, trees from %d sources' % (len(acts), len(self.SOURCES)), self.run_case),
                Family('one-kept', keep, 'the same with up to 1 use, one node of the tree being kept', self.run_case),
                Family('parts', parts, 'the same with up to 1 (2) uses, each child in turn put in and taken out again in %d ways, its former parent being kept, or only it' % len(self.PARTS), self.run_part)]

    def make(self, source):
        t = self.tree
        if source == 'tree.parse':
            return t.parse(self.DOC), None
        if source in ('treebuilder', 'treebuilder-kept'):
            b = t.treebuilder()
            return b.parse(self.DOC), b
        if source == 'amara3.uxml.parse':
            return self.uxml.parse(self.DOC), None
        if source in ('xml', 'xml-kept'):
            b = self.xml.treebuilder()
            return b.parse(self.DOC), b
        if source == 'html5':
            return self.html5.parse(self.DOC), None
        if source == 'lax':
            return self.html5.parse_lax_xml(self.DOC), None
        return build(('a', (('i', '1'),), (('b', (), ('x',)), 'y', ('b', (), ('z', ('c', (('k', '3'),), (('d', (), ('w',)),)))), ('e', (), ())))), None

    def act(self, e, a):
        if a == 'encode':
            e.xml_encode(); e.xml_encode(indent=' ')
        elif a == 'write':
            self.writer.write(e, self.writer.raw(io.StringIO()))
            self.writer.write(e, self.writer.namespacer(io.StringIO(), prefixes={'': 'urn:x'}))
        elif a == 'append':
            e.xml_append('s'); e.xml_append(self.tree.element('new'))
        elif a == 'insert':
            e.xml_insert('s', 0); e.xml_insert(self.tree.element('new'), 1)
        elif a == 'remove':
            c = e.xml_children[0]
            e.xml_remove(c)
            e.xml_append(c)
        elif a == 'move':
            c = e.xml_children[-1]
            e.xml_remove(c)
            other = self.tree.parse('<o></o>')
            other.xml_append(c)
            other.xml_xpath('//*')
            other.xml_remove(c)
            e.xml_append(c)
        elif a == 'pretty':
            self.tu.make_pretty(e)
        elif a == 'value':
            e.xml_value; self.tree.strval(e); repr(e); hash(e)
        elif a == 'descendants':
            list(self.tu.descendants(e)); next(self.tu.descendants(e), None); list(self.tu.select_name(e, 'b'))
            list(self.tu.select_attribute(e, 'i')); list(self.tu.select_value(e, 'x'))
        elif a == 'pattern':
            list(self.tu.select_pattern(e, ('**', 'c'))); next(self.tu.select_pattern(e, ('*',)), None)
        elif a == 'siblings':
            list(self.tu.following_siblings(e.xml_children[0])); next(self.tu.following_siblings(e.xml_children[0]))
        elif a.startswith('q:'):
            list(e.xml_xpath(a[2:]))
        elif a.startswith('x:'):
            at, x = a[2:].split(':', 1)
            nodes = [e]
            for n in nodes:
                nodes += n.xml_children
            n = nodes[int(at) % len(nodes)]
            ast = self.ux.parse(x)
            if not hasattr(self, 'funcs'):
                self.funcs = dict(self.ux.context(n).functions, f=given)
            for force in (True, False):
                for part in (None, 1):
                    r = ast.compute(self.ux.context(n, variables={'v': n}, functions=self.funcs, force_root=force))
                    r = list(itertools.islice(r, part))
            list(n.xml_xpath(x, vars={'v': n}, funcs=self.funcs))
            list(self.ux.qquery(n, x, vars={'v': n}, funcs=self.funcs))
        elif a == 'lazy':
            it = e.xml_xpath('//*'); next(it)
            it2 = e.xml_xpath('//node()|//@*')
            next(it2)
        elif a == 'error':
            for x in ('//*/nofunc()', '//*[nofunc(.)]', '(//*)[', 'sum(//*)', '//b/$v'):
                try:
                    list(e.xml_xpath(x))
                except Exception:
                    pass
        elif a == 'qquery':
            list(self.ux.qquery(e, '//b/..'))
        elif a == 'parsed':
            p = self.parsed
            list(p.compute(self.ux.context(e)))
            list(p(self.ux.context(e.xml_children[0], force_root=False)))
        elif a == 'vars':
            list(e.xml_xpath('$v/b|//c', vars={'v': e}))
        elif a == 'inner':
            n = e
            while any(isinstance(c, self.tree.element) for c in n.xml_children):
                n = [c for c in n.xml_children if isinstance(c, self.tree.element)][-1]
            list(n.xml_xpath('preceding::node()|ancestor::*|/a/b'))
        elif a == 'attrs':
            e.xml_attributes['new'] = '1'
            list(e.xml_xpath('//@*'))

    def use(self, source, actions, keep):
        e, builder = self.make(source)
        for a in actions:
            self.act(e, a)
        nodes = []
        def rec(n):
            nodes.append(n)
            for c in n.xml_children:
                rec(c)
        rec(e)
        kept = nodes[keep % len(nodes)] if keep >= 0 else None
        alive = []
        def rec2(n):
            alive.append(id(n))
            for c in n.xml_children:
                rec2(c)
        if kept is not None:
            rec2(kept)
        refs = []
        for n in nodes:
            refs.append((weakref.ref(n), repr(n)[:60], id(n) in alive))
        return refs, kept, builder if source.endswith('-kept') else None

    def run_case(self, case, st):
        source, actions, keep = case
        if not hasattr(self, 'parsed'):
            self.parsed = self.ux.parse('//b[1]/c|/*')
        refs, kept, builder = self.use(source, actions, keep)
        alive = [r for r in refs if r[0]() is not None and not r[2]]
        if alive:
            gc.collect()
            st.outcome('needs a collection')
        else:
            st.outcome('at once')
        st.step(len(actions) + 1)
        st.trace()
        st.state((source, tuple(actions), keep))
        for ref, what, stays in refs:
            if not stays and ref() is not None:
                holders = [type(x).__name__ for x in gc.get_referrers(ref())]
                return '%s is still in memory after %r on a tree from %s (kept: %r), held by %r' % (what, actions, source, kept, holders)
            if stays and ref() is None:
                return '%s is gone, although %r is kept' % (what, kept)
        if kept is not None and kept.xml_parent is not None:
            return 'the kept %r still has the parent %r' % (kept, kept.xml_parent)


    PARTS = ['removed', 'appended', 'inserted', 'inserted at end', 'text appended', 'text inserted', 'into another', 'from another', 'popped', 'cleared', 'pretty', 'queried', 'replaced', 'attributes', 'handed down']

    def run_part(self, case, st):
        """A node taken out of a tree is a tree of its own: it goes when the program drops it, whoever its parent was, and the reverse"""
        source, actions, how = case
        if not hasattr(self, 'parsed'):
            self.parsed = self.ux.parse('//b[1]/c|/*')
        st.state((source, tuple(actions), how))
        st.trace()
        for index in range(-1, 3):
            for keep in ('parent', 'child'):
                st.step(len(actions) + 2)
                msg = self.part(source, actions, how, index, keep)
                if msg:
                    return 'after %r on a tree from %s: a child (%d) is %s, %s is kept, %s' % (actions, source, index, how, keep, msg)

    def part(self, source, actions, how, index, keep):
        e, builder = self.make(source)
        for a in actions:
            self.act(e, a)
        t, new = self.tree, None
        if how in ('removed', 'popped', 'cleared', 'into another', 'pretty', 'queried', 'attributes', 'handed down'):
            c = e.xml_children[index % len(e.xml_children)]
        else:
            c = t.element('new', {'k': 'v'})
            c.xml_append('text'); c.xml_append(t.element('inner'))
        if how == 'appended':
            e.xml_append(c)
        elif how == 'inserted':
            e.xml_insert(c, max(index, 0))
        elif how == 'inserted at end':
            e.xml_insert(c, len(e.xml_children))
        elif how in ('text appended', 'text inserted'):
            if how == 'text appended':
                e.xml_append('another'); c = e.xml_children[-1]
            else:
                e.xml_insert('another', 1); c = e.xml_children[1]
        elif how == 'from another':
            new = t.parse('<o>1</o>')
            new.xml_append(c); new.xml_remove(c); new = None
            e.xml_append(c)
        elif how == 'pretty':
            self.tu.make_pretty(e)
            c = e.xml_children[index % len(e.xml_children)]
        elif how == 'queried':
            list(e.xml_xpath('//node()|//@*')); list(c.xml_xpath('ancestor::node()|following::node()')); list(self.ux.qquery(c, '..'))
        elif how == 'replaced':
            e.xml_insert(c, 0); e.xml_remove(c); e.xml_insert(c, 1)
        elif how == 'attributes':
            if isinstance(c, t.element):
                c.xml_attributes['z'] = '1'
            list(e.xml_xpath('*/@*'))
        e.xml_encode(); e.xml_value; t.strval(e)
        for n in e.xml_xpath('*') if not e.xml_parent else ():
            del n
        if how in ('popped', 'replaced', 'cleared'):
            if how == 'cleared':
                e.xml_children.clear()
            else:
                del e.xml_children[next(i for i, x in enumerate(e.xml_children) if x is c)]
        elif how == 'into another':
            e.xml_remove(c)
            new = t.parse('<o>1</o>')
            new.xml_append(c)
            if keep == 'child':
                c, new = new, None
        elif how == 'handed down':
            e.xml_remove(c)
            new = t.element('wrapper')
            new.xml_append(c)
            e.xml_append(new)
            e.xml_remove(new)
            c, new = new, None
        else:
            e.xml_remove(c)
        def nodes(n):
            yield n
            for x in n.xml_children:
                yield from nodes(x)
        gone, kept = (c, e) if keep == 'parent' else (e, c)
        refs = [(weakref.ref(n), repr(n)[:60]) for n in nodes(gone)]
        stay = [weakref.ref(n) for n in nodes(kept)]
        del gone, c, e, new
        if source.endswith('-kept') is False:
            builder = None
        if any(r() is not None for r, _ in refs):
            gc.collect()
        for r, what in refs:
            if r() is not None:
                return '%s is still in memory, held by %r' % (what, [type(x).__name__ for x in gc.get_referrers(r())])
        if not all(r() is not None for r in stay):
            return 'part of what is kept is gone'
        if kept.xml_parent is not None:
            return 'which has the parent %r' % kept.xml_parent


CHECKS = {c.id: c for c in (T01, T02, T03, T04)}
