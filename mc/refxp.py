"""Reference MicroXPath: node model, evaluator, printer and parser, written from XPath and the documentation alone.

Expressions are tuples:
  ('root',)  ('abs', rel)  ('absd', rel)              /  /rel  //rel
  ('step', axis, test)  ('dot',)  ('dotdot',)
  ('path', left, rel)  ('dpath', left, rel)           left/rel  left//rel
  ('pred', expr, (predicate, ...))
  ('str', s)  ('num', n)  ('var', name)  ('seq', (expr, ...))  ('call', name, (arg, ...))
  ('neg', e)  ('union', l, r)  ('bin', op, l, r)      op: = != < > <= >= and or
"""
import fractions, math, re
from . import refxml

NAN, INF = float('nan'), float('inf')


class Node:
    __slots__ = ('kind', 'name', 'value', 'parent', 'children', 'attrs', 'ord', 'doc', 'impl')

    def __init__(self, kind, name, value, parent, doc):
        self.kind, self.name, self.value, self.parent, self.doc = kind, name, value, parent, doc
        self.children, self.attrs, self.impl = [], [], None
        self.ord = len(doc)
        doc.append(self)

    def string(self):
        if self.kind in ('text', 'attr'):
            return self.value
        return ''.join(c.string() for c in self.children)

    def __repr__(self):
        return '<%s %d %s>' % (self.kind, self.ord, self.name or self.value)


def make_doc(t):
    """List of all nodes in document order (the root first) for a canonical tree"""
    doc = []
    root = Node('root', '', None, None, doc)
    def rec(t, parent):
        if isinstance(t, str):
            parent.children.append(Node('text', '#text', t, parent, doc))
            return
        e = Node('elem', t[0], None, parent, doc)
        parent.children.append(e)
        for k, v in t[1]:
            e.attrs.append(Node('attr', k, v, e, doc))
        for c in t[2]:
            rec(c, e)
    rec(t, root)
    return doc


def descendants(n):
    for c in n.children:
        yield c
        yield from descendants(c)


def ancestors(n):
    while n.parent is not None:
        n = n.parent
        yield n


def axis_nodes(n, axis):
    if axis == 'self':
        return [n]
    if axis == 'child':
        return list(n.children)
    if axis == 'attribute':
        return list(n.attrs)
    if axis == 'parent':
        return [n.parent] if n.parent is not None else []
    if axis == 'ancestor':
        return list(ancestors(n))
    if axis == 'ancestor-or-self':
        return [n] + list(ancestors(n))
    if axis == 'descendant':
        return list(descendants(n))
    if axis == 'descendant-or-self':
        return [n] + list(descendants(n))
    if axis == 'following':
        below = set(id(x) for x in descendants(n))
        return [x for x in n.doc[n.ord + 1:] if x.kind != 'attr' and id(x) not in below]
    if axis == 'preceding':
        above = set(id(x) for x in ancestors(n))
        return [x for x in reversed(n.doc[:n.ord]) if x.kind != 'attr' and id(x) not in above]
    if axis in ('following-sibling', 'preceding-sibling'):
        if n.kind == 'attr' or n.parent is None:
            return []
        sibs = n.parent.children
        i = next(i for i, x in enumerate(sibs) if x is n)
        return sibs[i + 1:] if axis[0] == 'f' else sibs[:i][::-1]
    raise ValueError(axis)


AXES = ['self', 'child', 'parent', 'ancestor', 'ancestor-or-self', 'descendant', 'descendant-or-self', 'following', 'following-sibling',
        'preceding', 'preceding-sibling', 'attribute']


def test_holds(n, axis, test):
    if test == 'node()':
        return True
    if test == 'text()':
        return n.kind == 'text'
    principal = 'attr' if axis == 'attribute' else 'elem'
    return n.kind == principal and test in ('*', n.name)


# -- values

def is_num(v):
    return isinstance(v, (int, float)) and not isinstance(v, bool)


def to_string(v):
    if v is None:
        return ''
    if isinstance(v, Node):
        return v.string()
    if isinstance(v, bool):
        return 'true' if v else 'false'
    if isinstance(v, str):
        return v
    if v != v:
        return 'NaN'
    if v in (INF, -INF):
        return 'Infinity' if v > 0 else '-Infinity'
    if v == int(v):
        return '%d' % v
    return plain(repr(v))


def plain(s):
    """A number as Python spells it, without exponent."""
    if 'e' not in s:
        return s
    mant, exp = s.split('e')
    sign, mant = ('-', mant[1:]) if mant[0] == '-' else ('', mant)
    whole, _, frac = mant.partition('.')
    exp = int(exp)
    assert exp < 0 and len(whole) == 1
    return sign + '0.' + '0' * (-exp - 1) + whole + frac


def to_number(v):
    if v is None:
        return NAN
    if isinstance(v, bool):
        return int(v)
    if is_num(v):
        return v
    s = to_string(v).strip(' \t\r\n')
    if re.fullmatch(r'-?([0-9]+(\.[0-9]*)?|\.[0-9]+)', s):
        return float(s)
    return NAN


def to_boolean(v):
    if v is None:
        return False
    if isinstance(v, Node):
        return True
    if isinstance(v, str):
        return v != ''
    return bool(v) and v == v


def compare(op, a, b):
    if op in ('=', '!='):
        if isinstance(a, bool) or isinstance(b, bool):
            a, b = to_boolean(a), to_boolean(b)
        elif is_num(a) or is_num(b):
            a, b = to_number(a), to_number(b)
        else:
            a, b = to_string(a), to_string(b)
    elif not (isinstance(a, str) and isinstance(b, str)):
        a, b = to_number(a), to_number(b)
    return {'=': a == b, '!=': a != b}[op] if op in ('=', '!=') else {'<': a < b, '>': a > b, '<=': a <= b, '>=': a >= b}[op]


class Error(Exception):
    pass


def first(seq):
    return seq[0] if seq else None


def round_half_up(n):
    return math.floor(fractions.Fraction(n) + fractions.Fraction(1, 2)) if n == n and n not in (INF, -INF) else n


def call(name, args, item, env):
    ev = lambda i: evaluate(args[i], item, env)
    one = lambda i: first(ev(i))
    if name == 'true':
        return True
    if name == 'false':
        return False
    if name == 'not':
        return not to_boolean(one(0))
    if name == 'boolean':
        return to_boolean(one(0))
    if name == 'string':
        return to_string(one(0) if args else item)
    if name == 'number':
        return to_number(one(0) if args else item)
    if name == 'string-length':
        return len(to_string(one(0) if args else item))
    if name == 'name':
        v = one(0) if args else item
        return v.name if isinstance(v, Node) else ''
    if name == 'count':
        return len(ev(0))
    if name == 'concat':
        return ''.join(to_string(one(i)) for i in range(len(args)))
    if name in ('starts-with', 'contains', 'substring-before', 'substring-after'):
        a, b = to_string(one(0)), to_string(one(1))
        if name == 'starts-with':
            return a[:len(b)] == b
        if name == 'contains':
            return b in a
        i = a.find(b)
        if i < 0:
            return ''
        return a[:i] if name == 'substring-before' else a[i + len(b):]
    if name == 'substring':
        s, start, length = to_string(one(0)), round_half_up(to_number(one(1))), round_half_up(to_number(one(2)))
        return ''.join(c for i, c in enumerate(s, 1) if i >= start and i < start + length)
    raise Error('unknown function ' + name)


def bare_node_step(rel):
    return rel == ('step', 'child', 'node()')


def evaluate(e, item, env):
    """List of items. env: variables"""
    op = e[0]
    if op == 'dot':
        return [item]
    if op == 'step':
        if not isinstance(item, Node):
            raise Error('step from a value')
        return [n for n in axis_nodes(item, e[1]) if test_holds(n, e[1], e[2])]
    if op == 'dotdot':
        if not isinstance(item, Node):
            raise Error('step from a value')
        return axis_nodes(item, 'parent')
    if op in ('root', 'abs', 'absd'):
        if not isinstance(item, Node):
            raise Error('path from a value')
        root = item.doc[0]
        if op == 'root':
            return [root]
        # /node() and //node() give the root node, too: a documented choice of the test suite
        out = [root] if bare_node_step(e[1]) else []
        for n in ([root] if op == 'abs' else [root] + list(descendants(root))):
            out += evaluate(e[1], n, env)
        return out
    if op == 'path':
        return [y for x in evaluate(e[1], item, env) for y in evaluate(e[2], x, env)]
    if op == 'dpath':
        return [y for x in evaluate(e[1], item, env) for y in below(e[2], x, env)]
    if op == 'pred':
        seq = evaluate(e[1], item, env)
        for p in e[2]:
            kept = []
            for i, x in enumerate(seq, 1):
                v = first(evaluate(p, x, dict(env, **{'#last': len(seq)})))
                if (v == i) if is_num(v) else to_boolean(v):
                    kept.append(x)
            seq = kept
        return seq
    if op in ('str', 'num'):
        return [e[1]]
    if op == 'var':
        return [env[e[1]]]
    if op == 'seq':
        return [y for x in e[1] for y in evaluate(x, item, env)]
    if op == 'neg':
        return [-to_number(first(evaluate(e[1], item, env)))]
    if op == 'union':
        nodes = evaluate(e[1], item, env) + evaluate(e[2], item, env)
        docs = {}
        for n in nodes:
            docs.setdefault(id(n.doc), len(docs))
        unique = {id(n): n for n in nodes}
        return sorted(unique.values(), key=lambda n: (docs[id(n.doc)], n.ord))
    if op == 'bin':
        if e[1] in ('and', 'or'):
            a, b = (to_boolean(first(evaluate(x, item, env))) for x in e[2:])
            return [a and b if e[1] == 'and' else a or b]
        left, right = evaluate(e[2], item, env), evaluate(e[3], item, env)
        return [any(compare(e[1], a, b) for a in left for b in right)]
    if op == 'call':
        if e[1] == 'for-each':
            inner = parse(to_string(first(evaluate(e[2][1], item, env))))
            return [y for x in evaluate(e[2][0], item, env) for y in evaluate(inner, x, env)]
        if e[1] == 'last':
            return [env['#last']]
        if e[1] == 'lookup':
            table = env.get('#tables', {}).get(to_string(first(evaluate(e[2][0], item, env))), {})
            key = to_string(first(evaluate(e[2][1], item, env)))
            return [table[key]] if key in table else []
        return [call(e[1], e[2], item, env)]
    raise ValueError(op)


def below(rel, x, env):
    """x//rel: rel from each node of the subtree, but with a child step as first its nodes in document order"""
    if not isinstance(x, Node):
        raise Error('path from a value')
    if rel[0] in ('path', 'dpath'):
        inner = below(rel[1], x, env)
        return [z for y in inner for z in (evaluate(rel[2], y, env) if rel[0] == 'path' else below(rel[2], y, env))]
    if rel[0] == 'step' and rel[1] == 'child':
        return [n for n in descendants(x) if test_holds(n, 'child', rel[2])]
    return [z for y in [x] + list(descendants(x)) for z in evaluate(rel, y, env)]


# -- printing

LEVEL = {'or': 1, 'and': 2, '=': 3, '!=': 3, '<': 4, '>': 4, '<=': 4, '>=': 4}


def level(e):
    if e[0] == 'bin':
        return LEVEL[e[1]]
    if e[0] == 'neg':
        return 7
    if e[0] == 'union':
        return 8
    if e[0] in ('path', 'dpath', 'abs', 'absd', 'root', 'pred', 'step', 'dot', 'dotdot'):
        return 9
    return 10


def is_rel(e):
    return e[0] in ('step', 'dot', 'dotdot') or e[0] in ('path', 'dpath') and is_rel(e[1])


def show(e, full=False, long=False, space=False):
    """Text of an expression: with no more parentheses than needed, or (full) around every operand.
    long: child:: and so on written out"""
    def sub(x, lv):
        s = show(x, full, long, space)
        return '(%s)' % s if (full and not is_rel(x)) or level(x) < lv else s
    op = e[0]
    if op == 'root':
        return '/'
    if op == 'abs':
        return '/' + show(e[1], False, long, space)
    if op == 'absd':
        return '//' + show(e[1], False, long, space)
    if op == 'step':
        if e[1] == 'child' and not long:
            return e[2]
        if e[1] == 'attribute' and not long:
            return '@' + e[2]
        return e[1] + '::' + e[2]
    if op == 'dot':
        return '.'
    if op == 'dotdot':
        return '..'
    if op in ('path', 'dpath'):
        left = sub(e[1], 9)
        if e[1][0] == 'root':
            left = '(/)'
        return left + ('/' if op == 'path' else '//') + show(e[2], False, long, space)
    if op == 'pred':
        left = sub(e[1], 9)
        if e[1][0] in ('root', 'pred'):     # a[1][2] is one list of predicates
            left = '(%s)' % show(e[1], full, long, space)
        return left + ''.join('[%s]' % show(p, full, long, space) for p in e[2])
    if op == 'str':
        q = "'" if '"' in e[1] else '"'
        return q + e[1] + q
    if op == 'num':
        return repr(e[1])
    if op == 'var':
        return '$' + e[1]
    if op == 'seq':
        return '(%s)' % (', ' if space else ',').join(show(x, full, long, space) for x in e[1])
    if op == 'call':
        return '%s(%s)' % (e[1], (', ' if space else ',').join(show(x, full, long, space) for x in e[2]))
    if op == 'neg':
        # a minus right after a minus, or a name, is told apart by the tokens alone
        return '-' + sub(e[1], 7)
    if op == 'union':
        return sub(e[1], 8) + (' | ' if space else '|') + sub(e[2], 9)
    lv = LEVEL[e[1]]
    left, right = sub(e[2], lv), sub(e[3], lv + 1)
    if left.endswith('/') and not full:
        left = '(%s)' % left
    if e[1] in ('and', 'or') or space:
        return '%s %s %s' % (left, e[1], right)
    return left + e[1] + right


# -- parsing

TOKEN = re.compile(r'''[ \t\r\n]*(?:(?P<num>[0-9]+\.[0-9]*|\.[0-9]+|[0-9]+)|(?P<str>"[^"]*"|'[^']*')|(?P<name>[A-Za-z_]|[^\x00-\x7f])|(?P<op>//|/|\.\.|\.|::|@|\(|\)|\[|\]|\||!=|=|<=|>=|<|>|\+|-|\*|,|\$))''')


class Reject(Exception):
    pass


class Unsure(Exception):
    """Not specified whether this is an expression"""


def tokenize(s):
    out, pos = [], 0
    s = s.rstrip(' \t\r\n')
    while pos < len(s):
        m = TOKEN.match(s, pos)
        if not m:
            raise Reject('unknown text at %d' % pos)
        kind = m.lastgroup
        value, pos = m.group(kind), m.end()
        if kind == 'name':
            if not refxml.is_name_start(ord(value)):
                raise Reject('unknown text at %d' % (pos - 1))
            while pos < len(s) and refxml.is_name_char(ord(s[pos])):
                value += s[pos]
                pos += 1
        out.append((kind, value))
    return out


class Parser:
    def __init__(self, s):
        self.toks = tokenize(s) + [('end', None)]
        self.i = 0

    def peek(self, k=0):
        return self.toks[min(self.i + k, len(self.toks) - 1)][1]

    def kind(self, k=0):
        return self.toks[min(self.i + k, len(self.toks) - 1)][0]

    def take(self, value=None):
        kind, v = self.toks[self.i]
        if value is not None and (v != value or kind not in ('op', 'name')):
            raise Reject('%r instead of %r' % (v, value))
        self.i += 1
        return v

    def isop(self, *ops):
        return self.kind() == 'op' and self.peek() in ops

    def top(self):
        e = self.expr()
        if self.kind() != 'end':
            raise Reject('%r left over' % (self.peek(),))
        return e

    def expr(self, lv=1):
        if lv > 6:
            return self.unary()
        left = self.expr(lv + 1)
        while True:
            k, v = self.toks[self.i]
            if k == 'name' and v in ('or', 'and') and LEVEL[v] == lv or k == 'op' and LEVEL.get(v) == lv:
                self.take()
                left = ('bin', v, left, self.expr(lv + 1))
            elif k == 'op' and v in ('+', '-') and lv == 5 or (k == 'name' and v in ('div', 'mod') or k == 'op' and v == '*') and lv == 6:
                if v == '*':
                    raise Unsure('multiplication is not implemented')
                self.take()
                left = ('arith', v, left, self.expr(lv + 1))
            else:
                return left

    def unary(self):
        if self.isop('-'):
            self.take()
            return ('neg', self.unary())
        return self.union()

    def union(self):
        left = self.path()
        while self.isop('|'):
            self.take()
            if self.isop('-'):
                raise Unsure('minus as operand of a union')
            left = ('union', left, self.path())
        return left

    def step_ahead(self):
        return self.kind() == 'name' or self.isop('.', '..', '@', '*')

    def path(self):
        if self.isop('/', '//'):
            op = self.take()
            if self.step_ahead():
                rel = self.relpath()
                e = ('abs' if op == '/' else 'absd', rel)
            elif op == '//':
                raise Reject('// without a path')
            else:
                e = ('root',)
                if self.isop('['):
                    raise Unsure('predicate of a lone slash')
                if self.isop('/', '//'):
                    raise Reject('slash after a lone slash')
        elif self.kind() == 'num':
            v = self.take()
            e = ('num', float(v) if '.' in v else int(v))
        elif self.kind() == 'str':
            e = ('str', self.take()[1:-1])
        elif self.isop('$'):
            self.take()
            if self.kind() != 'name':
                raise Reject('variable name')
            e = ('var', self.take())
        elif self.isop('('):
            self.take()
            items = []
            if not self.isop(')'):
                items.append(self.expr())
                while self.isop(','):
                    self.take()
                    items.append(self.expr())
            self.take(')')
            e = ('seq', tuple(items))
        elif self.kind() == 'name' and self.kind(1) == 'op' and self.peek(1) == '(' and self.peek() not in ('node', 'text'):
            name = self.take()
            self.take('(')
            args = []
            if not self.isop(')'):
                args.append(self.expr())
                while self.isop(','):
                    self.take()
                    args.append(self.expr())
            self.take(')')
            e = ('call', name, tuple(args))
        elif self.step_ahead():
            e = self.relpath()
        else:
            raise Reject('%r instead of an operand' % (self.peek(),))
        # suffixes
        while True:
            if self.isop('['):
                preds = []
                while self.isop('['):
                    self.take()
                    preds.append(self.expr())
                    self.take(']')
                e = ('pred', e, tuple(preds))
            elif self.isop('/', '//'):
                op = self.take()
                if not self.step_ahead():
                    raise Reject('%r instead of a step' % (self.peek(),))
                e = ('path' if op == '/' else 'dpath', e, self.relpath())
            else:
                return e

    def relpath(self):
        e = self.step()
        while self.isop('/', '//'):
            op = self.take()
            if not self.step_ahead():
                raise Reject('%r instead of a step' % (self.peek(),))
            e = ('path' if op == '/' else 'dpath', e, self.step())
        return e

    def step(self):
        if self.isop('.'):
            self.take()
            return ('dot',)
        if self.isop('..'):
            self.take()
            return ('dotdot',)
        if self.isop('@'):
            self.take()
            return ('step', 'attribute', self.nodetest())
        if self.kind() == 'name' and self.kind(1) == 'op' and self.peek(1) == '::':
            axis = self.take()
            self.take('::')
            if axis not in AXES:
                raise Reject('axis ' + axis)
            return ('step', axis, self.nodetest())
        return ('step', 'child', self.nodetest())

    def nodetest(self):
        if self.isop('*'):
            self.take()
            return '*'
        if self.kind() != 'name':
            raise Reject('%r instead of a node test' % (self.peek(),))
        name = self.take()
        if self.isop('('):
            if name not in ('node', 'text'):
                raise Reject('function call as a step')
            self.take()
            if not self.isop(')'):
                raise Unsure('node test with arguments')
            self.take(')')
            return name + '()'
        return name


def parse(s):
    """AST; raises Reject or Unsure"""
    return Parser(s).top()


def has_arith(e):
    return isinstance(e, tuple) and (e[:1] == ('arith',) or any(has_arith(x) for x in e))


# -- results

def canon(v):
    if isinstance(v, Node):
        return ('n', v.ord)
    if isinstance(v, bool):
        return ('b', v)
    if isinstance(v, str):
        return ('s', v)
    if isinstance(v, (int, float)):
        return ('d', 'nan' if v != v else float(v))
    return ('?', repr(v))
