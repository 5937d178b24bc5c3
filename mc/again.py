"""The same and other documents parsed one after the other, and the trees changed in between: every parse gives a new tree of the document"""
import itertools
from .observe import canon_tree, merged


def _deepest(e):
    from amara3.uxml import tree
    while True:
        kids = [c for c in e.xml_children if isinstance(c, tree.element)]
        if not kids:
            return e
        e = kids[0]


def _append(e):
    from amara3.uxml import tree
    e.xml_append(tree.element('new', {'a': '1'}))


def _text(e):
    from amara3.uxml import tree
    e.xml_insert(tree.text('new'), 0)


def _attribute(e):
    e.xml_attributes['new'] = '1'


def _clear(e):
    e.xml_attributes.clear()
    for c in list(e.xml_children):
        e.xml_remove(c)


def _name(e):
    e.xml_name = 'new'


EDITS = {'nothing': lambda e: None, 'append': _append, 'text': _text, 'attribute': _attribute, 'clear': _clear, 'name': _name}
TEXT = 'all sequences of 2 and 3 parses of %d documents with %d functions, the trees changed in 6 ways in between, kept or dropped'


def cases(functions, docs):
    uses = list(itertools.product(range(functions), range(docs)))
    for n in (2, 3):
        for seq in itertools.product(uses, repeat=n):
            for i, edit in enumerate(EDITS):
                if n == 2 or (sum(f + 2 * d for f, d in seq) + i) % 3 == 0:
                    for where in ('top', 'deep') if n == 2 else ('deep',) if i % 2 else ('top',):
                        for keep in (True, False) if n == 2 else (True,):
                            yield [[list(x) for x in seq], edit, where, keep]


def run(case, st, functions, docs, parents=True):
    """functions: (name, parse(source), wanted(doc)); docs: (source, what wanted is called with)"""
    seq, edit, where, keep = case
    kept = []
    st.state(tuple(map(tuple, seq)))
    for n, (f, d) in enumerate(seq):
        name, parse, wanted = functions[f]
        source, doc = docs[d]
        e = parse(source)
        st.step()
        got = merged(canon_tree(e, parent=e.xml_parent, attr_order=False))
        want = wanted(doc)
        if got != want:
            return '%s of %r gives %r instead of %r, after %s of the tree%s before' % (name, source, got, want, edit, '' if keep else ', dropped,')
        EDITS[edit](e if where == 'top' else _deepest(e))
        if keep:
            kept.append((e, merged(canon_tree(e, parent=e.xml_parent, attr_order=False))))
            seen = set()
            for x, now in kept:
                if merged(canon_tree(x, parent=x.xml_parent, attr_order=False, seen=seen)) != now:
                    return 'a tree of %s has changed to %r instead of %r' % (name, canon_tree(x, parent=x.xml_parent), now)
        e = None
    st.trace()
