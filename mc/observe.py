"""Runs the implementation through its public interface and puts what it did in a canonical form."""
import gc, io


class Rejected(Exception):
    pass


def canon_event(ev):
    kind = ev[0].name
    if kind == 'start_element':
        return ('s', ev[1], tuple(ev[2].items()), tuple(ev[3]))
    if kind == 'end_element':
        return ('e', ev[1], tuple(ev[2]))
    if kind == 'characters':
        return ('c', ev[1])
    return ('?', repr(ev))


def collector(acc):
    while True:
        ev = yield
        acc.append(canon_event(ev))


def ref_events(events):
    """Reference events without the offsets"""
    return [e[:-1] for e in events]


class Feed:
    """A MicroXML parser fed step by step"""
    def __init__(self, handler=None):
        from amara3.uxml.parser import parser
        self.acc = []
        self.error = None
        self.p = parser(handler or collector(self.acc))

    def send(self, frag, done=False):
        """False when rejected"""
        if self.error is not None:
            return False
        try:
            self.p.send((frag, done))
        except Exception as e:
            self.error = e
            return False
        return True

    def close(self):
        self.p.close()


def feed(frags, final=''):
    """(accepted, events) for fragments, followed by the end (with final as last fragment)"""
    f = Feed()
    for frag in frags:
        if not f.send(frag):
            break
    f.send(final, True)
    if f.error is None:
        f.close()
    return f.error is None, f.acc


# -- trees

def merge(children):
    """Adjacent texts put together, empty ones dropped"""
    out = []
    for c in children:
        if isinstance(c, str):
            if not c:
                continue
            if out and isinstance(out[-1], str):
                out[-1] += c
                continue
        out.append(c)
    return tuple(out)


def tree_of_events(events):
    """(name, attributes, children) for canonical events; children are str or tuples"""
    stack = [(None, None, [])]
    for ev in events:
        if ev[0] == 's':
            stack.append((ev[1], ev[2], []))
        elif ev[0] == 'c':
            stack[-1][2].append(ev[1])
        else:
            name, attrs, children = stack.pop()
            stack[-1][2].append((name, attrs, tuple(children)))
    return stack[0][2][0] if stack[0][2] else None


class BadTree(Exception):
    pass


def canon_tree(e, parent=None, check_parent=True, attr_order=True, seen=None):
    """(name, attributes, children), after checking parent links, types and that nothing occurs twice. Raises BadTree."""
    from amara3.uxml import tree
    seen = set() if seen is None else seen
    def once(x, what):
        if id(x) in seen:
            raise BadTree('the same %s %r occurs twice in the tree' % (what, x))
        seen.add(id(x))
    if not isinstance(e, tree.element):
        raise BadTree('%r is not an element' % (e,))
    if check_parent and e.xml_parent is not parent:
        raise BadTree('parent of <%s> is %r instead of %r' % (e.xml_name, e.xml_parent, parent))
    once(e, 'element')
    once(e.xml_attributes, 'mapping')
    kids = e.xml_children
    once(kids, 'list')
    children = []
    for c in kids:
        if isinstance(c, tree.element):
            children.append(canon_tree(c, e, check_parent, attr_order, seen))
        elif isinstance(c, tree.text):
            if check_parent and c.xml_parent is not e:
                raise BadTree('parent of text %r is %r instead of %r' % (c, c.xml_parent, e))
            once(c, 'text')
            children.append(c.xml_value)
        else:
            raise BadTree('child %r' % (c,))
    attrs = tuple(e.xml_attributes.items())
    return (e.xml_name, attrs if attr_order else tuple(sorted(attrs)), tuple(children))


def value_of(t):
    """String value of a canonical tree"""
    return t if isinstance(t, str) else ''.join(map(value_of, t[2]))


def sort_attrs(t):
    return t if isinstance(t, str) else (t[0], tuple(sorted(t[1])), tuple(map(sort_attrs, t[2])))


def merged(t):
    return t if isinstance(t, str) else (t[0], t[1], merge(map(merged, t[2])))


def escape(s, attr=False):
    s = s.replace('&', '&amp;').replace('<', '&lt;').replace('>', '&gt;')
    if attr:
        s = s.replace('"', '&quot;').replace('\t', '&#x9;').replace('\n', '&#xA;')
    return s


def markup(t):
    """MicroXML markup for a canonical tree"""
    if isinstance(t, str):
        return escape(t)
    return '<%s%s>%s</%s>' % (t[0], ''.join(' %s="%s"' % (k, escape(v, True)) for k, v in t[1]),
                              ''.join(map(markup, t[2])), t[0])


def build(t, parent=None):
    """Implementation tree for a canonical tree, made with the tree API rather than parsed"""
    from amara3.uxml import tree
    e = tree.element(t[0], dict(t[1]))
    for c in t[2]:
        e.xml_append(c if isinstance(c, str) else build(c))
    return e


def jsonable(t):
    return [jsonable(x) if isinstance(x, (list, tuple)) else x for x in t]


def tup(t):
    return tuple(tup(x) if isinstance(x, (list, tuple)) else x for x in t)
