"""Q11: threads. A controlled scheduler runs real threads one at a time and switches between them exactly at the
points a schedule names; all schedules up to a preemption bound are explored."""
import gc, io, itertools, os, sys, threading, time
import _thread
from ..core import Check, Family
from ..observe import build, canon_tree


def trace_opcodes():
    """From 3.12 on, there are events of bytecodes only from the next settrace() after some frame wanted them. Once they
    are on, Python 3.12.3 crashes if a frame that wants them (a generator left by a thread, say) goes on in a thread that
    is not traced: so this one is, too, from here on."""
    frame = sys._getframe()
    frame.f_trace_opcodes = True
    frame.f_trace_opcodes = False
    sys.settrace(lambda frame, event, arg: None)


class Scheduler:
    """Runs bodies in real threads, one at a time. A schedule has the order in which threads start (and take over from
    those that end), and preemptions {step: thread to run next}; steps count the switch points passed, by any thread."""
    def __init__(self, n, roots):
        self.n = n
        self.roots = roots
        self.wanted = {}        # code object -> True if its lines are switch points
        self.main = _thread.allocate_lock()
        self.main.acquire()
        self.gates = [_thread.allocate_lock() for i in range(n)]
        self.jobs = [None] * n
        self.idents = [None] * n
        self.generation = 0
        self.unit = None
        for gate in self.gates:
            gate.acquire()
        for i in range(n):
            threading.Thread(target=self.loop, args=(i,), daemon=True).start()
            self.main.acquire()

    def traces(self, code):
        w = self.wanted.get(code)
        if w is None:
            name = os.path.realpath(code.co_filename)
            w = self.wanted[code] = name.startswith(self.roots)
        return w

    def run(self, bodies, order, preemptions, unit):
        """(results, steps, [(step, thread) per segment], whether the schedule was followed)"""
        self.generation += 1
        self.bodies, self.order, self.preemptions, self.unit = bodies, order, preemptions, unit
        self.results = [None] * len(bodies)
        self.finished = set()
        self.step = 0
        self.current = order[0]
        self.segments = [(0, order[0])]
        self.free = False
        self.gates[order[0]].release()
        followed = True
        same = 0
        last = None
        while not self.main.acquire(timeout=0.03 if not self.free else 10):
            if self.free:
                raise TimeoutError('the threads %r do not end' % sorted(set(range(len(bodies))) - self.finished))
            frame = sys._current_frames().get(self.idents[self.current])
            where = (self.step, self.current, id(frame), frame.f_lasti if frame else None)
            same = same + 1 if where == last else 0
            if same == 2:
                # The current thread waits for something another one has: let all run
                followed = False
                self.free = True
                for i in range(len(bodies)):
                    if i != self.current and i not in self.finished:
                        self.open(i)
            last = where
        self.free = True    # no switches if something left over is finalized
        if not followed:
            for g in self.gates:    # as at the start
                g.acquire(blocking=False)
        return self.results, self.step, self.segments, followed

    def open(self, i):
        try:
            self.gates[i].release()
        except RuntimeError:    # open already, because the main thread took this one to be waiting
            pass

    def switch(self, me, to):
        self.current = to
        self.segments.append((self.step, to))
        self.open(to)
        self.gates[me].acquire()

    def point(self, me):
        if self.free:
            return
        n = self.step
        self.step = n + 1
        to = self.preemptions.get(n)
        if to is not None and to != me and to not in self.finished:
            self.switch(me, to)

    def loop(self, me):
        self.idents[me] = _thread.get_ident()
        gate = self.gates[me]
        generation = 0
        point, traces = self.point, self.traces

        def lines(frame, event, arg):
            if event == 'line':
                point(me)
            return lines

        def opcodes(frame, event, arg):
            if event == 'opcode':
                point(me)
            return opcodes

        def start(frame, event, arg):
            if not traces(frame.f_code):
                return None
            if self.unit == 'line':
                return lines
            if self.unit == 'opcode':
                frame.f_trace_opcodes = True
                frame.f_trace_lines = False
                return opcodes
            point(me)

        # Once and for all, so that the interpreter need not prepare code for tracing and back, time and again
        sys.settrace(start)
        self.main.release()
        while True:
            gate.acquire()
            if generation == self.generation:   # has run
                continue
            generation = self.generation
            body = self.bodies[me]
            try:
                r = body()
            except Exception as e:
                r = ('exception', type(e).__name__, str(e))
            self.results[me] = r
            self.end(me)

    def end(self, me):
        self.finished.add(me)
        left = [i for i in self.order if i not in self.finished]
        if not left:
            self.main.release()
        elif not self.free:
            self.current = left[0]
            self.segments.append((self.step, left[0]))
            self.open(left[0])


DOC = ('a', (('i', '0'),), (('b', (('i', '1'),), ('x',)), 'y', ('b', (('i', '2'),), (('a', (), ()), ('c', (), ('z',))))))
MARKUP = '<a i="0"><b i="1">x</b>y<b i="2"><a></a><c q="&amp;">z</c></b></a>'


def parse_expr(text):
    def make(k, shared):
        from amara3.uxml import uxpath
        from amara3.uxml.uxpath import xast
        t = text.replace('K', k)
        return lambda: ''.join(xast.serialize(uxpath.parse(t)))
    return make


def items(seq, root):
    from amara3.uxml import tree
    out = []
    for x in seq:
        if isinstance(x, tree.text):
            out.append(('text', str(x), x.xml_parent.xml_name if x.xml_parent is not None else None))
        elif isinstance(x, tree.element):
            out.append(('element', x.xml_name, x.xml_encode()))
        elif isinstance(x, tree.node):
            out.append((type(x).__name__, getattr(x, 'xml_name', None), str(getattr(x, 'xml_value', ''))))
        else:
            out.append(x)
    return out


def compute(text, share=True, at=None):
    """Computes an expression on the shared tree; share: with the parsed expression that all threads use"""
    def make(k, shared):
        from amara3.uxml import uxpath
        t = text.replace('K', k)
        item = shared['tree']
        for i in at or ():
            item = item.xml_children[i]
        if share:
            ast = shared['asts'].get(t)
            if ast is None:
                ast = shared['asts'][t] = uxpath.parse(t)
        else:
            ast = uxpath.parse(t)
        other = build(('o', (), (('p', (), (('q', (), ()), 'x')),)))

        def body():
            ctx = uxpath.context(item, variables={'v': k, 'o': other.xml_children[0]}, force_root=at is None)
            return items(ast.compute(ctx), shared['tree'])
        return body
    return make


def xml_xpath(text):
    def make(k, shared):
        t = text.replace('K', k)
        return lambda: items(shared['tree'].xml_xpath(t), shared['tree'])
    return make


def qquery(text):
    def make(k, shared):
        from amara3.uxml import uxpath
        t, m = text.replace('K', k), MARKUP.replace('x', k)
        return lambda: items(uxpath.qquery(m, t), None)
    return make


def microxml(markup, how='own'):
    def make(k, shared):
        import amara3.uxml
        from amara3.uxml import tree, parser
        m = markup.replace('K', k)
        if how == 'shared':
            return lambda: canon_tree(amara3.uxml.parse(m))
        if how == 'own':
            return lambda: canon_tree(tree.treebuilder().parse(m))

        def events():
            return [tuple(e) for e in parser.parse(m)]
        return events
    return make


def xml(markup, chunks=1):
    def make(k, shared):
        from amara3.uxml import xml, xmliter
        m = markup.replace('K', k).encode()
        if chunks == 1:
            return lambda: canon_tree(xml.treebuilder().parse(m))

        def stream():
            got = []
            def sink():
                while True:
                    got.append(canon_tree((yield)))
            s = sink()
            xmliter.sender(('**', 'b'), s).parse(m)
            return got
        return stream
    return make


def stream(markup, pattern):
    def make(k, shared):
        from amara3.uxml import treeiter
        m = markup.replace('K', k)

        def body():
            got = []
            def sink():
                while True:
                    got.append(canon_tree((yield)))
            treeiter.sender(pattern, sink()).parse(m)
            return got
        return body
    return make


def scan(text):
    def make(k, shared):
        from amara3.uxml import lex
        t = text.replace('K', k)
        return lambda: [(x.type, x.value, x.lexpos) for x in lex.run(t)]
    return make


def html(markup):
    def make(k, shared):
        from amara3.uxml import html5
        m = markup.replace('K', k)
        return lambda: canon_tree(html5.parse(m))
    return make


def encode():
    def make(k, shared):
        from amara3.uxml import writer

        def body():
            out = io.StringIO()
            writer.write(shared['tree'], writer.raw(out))
            return (out.getvalue(), shared['tree'].xml_encode(), shared['tree'].xml_value)
        return body
    return make


def namespaces(markup, streaming):
    """What a reader with namespaces finds"""
    def make(k, shared):
        import xml.parsers.expat
        from amara3.uxml import xml as axml
        m = markup.replace('K', k)

        def body():
            got = []
            def handler():
                while True:
                    ev = yield
                    got.append((ev[0].name,) + tuple(ev[1:]) + (dict(h.prefixes),))
            h = axml.ns_expat_callbacks(handler(), stream=streaming)
            p = xml.parsers.expat.ParserCreate(namespace_separator=' ')
            p.StartElementHandler, p.EndElementHandler, p.CharacterDataHandler = h.start_element, h.end_element, h.char_data
            p.StartNamespaceDeclHandler, p.EndNamespaceDeclHandler = h.start_namespace, h.end_namespace
            p.Parse(m, True)
            return got, h.ns_portfolio, h.prefixes
        return body
    return make


def write(how):
    def make(k, shared):
        from amara3.uxml import writer
        t = build(('a', (('i', k),), (('b', (('i', '2'),), (k,)), ('c', (), (('b', (), ()), '<')))))

        def body():
            out = io.StringIO()
            if how == 'namespaces':
                w = writer.namespacer(out, prefixes={'p': 'urn:' + k, '': 'urn:d'}, mapping={'b': ('urn:' + k, 'p'), '@i': ('urn:' + k, 'p'), 'a': ('urn:d', '')})
            else:
                w = writer.raw(out, indent=how)
            writer.write(t, w)
            return out.getvalue()
        return body
    return make


def utilities(shared_tree):
    def make(k, shared):
        from amara3.uxml import treeutil as tu
        t = shared['tree'] if shared_tree else build(('a', (), (('b', (('i', '1'),), (k,)), ('c', (), (('b', (), ()),)))))

        def body():
            out = [items(x, t) for x in (tu.select_pattern(t, ('**', 'b')), tu.select_pattern(t, ('*', ('a', 'c'))), tu.descendants(t), tu.select_name(t, 'b'),
                                         tu.select_value(t, k), tu.select_attribute(t, 'i', '2'), tu.following_siblings(t.xml_children[0]))]
            if not shared_tree:
                out.append(tu.make_pretty(t).xml_encode())
            return out
        return body
    return make


def changes(n):
    def make(k, shared):
        from amara3.uxml import tree
        t = build(('a', (), (('b', (('i', '1'),), (k,)), 'x', ('c', (), (('b', (), ()),)))))

        def body():
            b = t.xml_children[0]
            for i in range(n):
                t.xml_append(k)
                t.xml_insert(tree.element('d', {'i': k}), 1)
                t.xml_remove(b)
                t.xml_children[1].xml_append(b)
                b.xml_attributes[k] = '1'
                b.xml_parent.xml_remove(b)
                t.xml_insert(b, 0)
            return canon_tree(t), t.xml_encode(), t.xml_encode(indent=' ')
        return body
    return make


def html_stream(markup):
    def make(k, shared):
        from amara3.uxml import html5iter
        m = markup.replace('K', k)

        def body():
            got = []
            def sink():
                while True:
                    got.append(canon_tree((yield)))
            html5iter.sender(('**', 'b'), sink()).parse(m)
            return got
        return body
    return make


P1, P2, P3 = parse_expr('a/b[@i="K"]'), parse_expr('count(x) > 1 or "K"'), parse_expr("$v | concat('K', .)")
E1, E2 = parse_expr('a[1 = "K"'), parse_expr('"K" ! b')
C1, C2, C3 = compute('//b[@i != "K"]/text()'), compute('count(/ | //b | /) = 3'), compute('b/ancestor-or-self::node()', at=())
C4, C5 = compute('concat($v, b[@i=2]/c)', at=()), compute('following::node()[. != "K"]', at=(0, 0))
M1, M2 = microxml('<a i="K"><b>&lt;K</b>x</a>'), microxml("<c>K<d j='&#x41;'></d></c>")
M3 = microxml('<a><b></a>K')
X1, X2 = xml('<a i="K"><b>&lt;K</b>x</a>'), xml('<n:c xmlns:n="K">K<n:d/></n:c>')
L1, L2 = scan('<a b="K">K</a>'), scan("<c d='K'>&lt;</c><")

P0, Q0, E0 = parse_expr('"K"'), parse_expr('a[b]'), parse_expr('a[')
C6, C7 = compute('b[2]', at=()), compute('@i = 0 or $v', at=())
F1, F2 = compute("for-each(b, '@i')", at=()), compute("for-each(b, 'c')", at=())
F3 = compute('substring(concat(string($v), number(@i)), string-length(name()), count(b))', at=())
F4 = compute("(starts-with(b, 'x'), contains(., $v), substring-before(b[2], 'z'), substring-after(., 'x'), not(boolean(c)), -@i, true())", at=())

A1, A2 = (compute('(descendant::b, preceding::node(), ancestor::*, following-sibling::node(), $v)', at=x) for x in ((2,), (2, 1)))
A3, A4 = (compute('(following::a, preceding-sibling::node(), descendant-or-self::node(), //text(), @*)', at=x) for x in ((0,), (2,)))
A5, A6 = (compute('/a/b[@i > 1]//c[1] | .//a', at=x) for x in ((), (2,)))
A7, A8 = (compute("(. = //c, name() = $v or //c = ., count(.//node()), 'x' != b)", at=x) for x in ((), (2, 1)))

U1, U2, U3, U4 = (compute(t, at=()) for t in ('b | $o', '$o/q | b | $o', 'd | e', '$o/.. | . | $o/text()'))

# name, bodies, preemption bounds by switch point: quick, thorough
SCENARIOS = [
    ('parse expressions', [P1, P2], dict(line=1), dict(call=2, opcode=1)),
    ('parse small expressions', [P0, Q0], dict(call=2, opcode=1), dict(line=2)),
    ('parse the same expression', [Q0, Q0], dict(line=1), dict(call=2, opcode=1)),
    ('parse, and fail to parse', [P3, E1], dict(line=1), dict(call=2, opcode=1)),
    ('fail to parse', [E2, E1], dict(line=1, call=2), dict(line=2, opcode=1)),
    ('compute one parsed expression', [C1, C1], dict(line=1, opcode=1, call=2), dict(line=2)),
    ('compute one with predicates', [C4, C4], dict(call=2, opcode=1), dict(line=2)),
    ('compute one small expression', [C6, C6], dict(line=2, opcode=1), dict(opcode=2)),
    ('compute small expressions', [C7, C6], dict(line=1, call=2), dict(line=2, opcode=1)),
    ('compute from text nodes', [C5, C5], dict(line=1), dict(call=2, opcode=1)),
    ('compute unions with the root', [C2, C2], dict(line=1), dict(line=2, opcode=1)),
    ('compute ancestors', [C3, C2], dict(line=1), dict(line=2, opcode=1)),
    ('compute different expressions', [C1, C4], dict(line=1), dict(line=2)),
    ('for-each with different expressions', [F1, F2], dict(line=1), dict(opcode=1, call=2)),
    ('functions', [F3, F4], dict(line=1), dict(line=2, opcode=1)),
    ('functions and for-each', [F3, F1], dict(call=1), dict(line=1)),
    ('query with text', [xml_xpath('a/b'), xml_xpath('//a')], dict(call=1), dict(line=1, opcode=1)),
    ('quick queries', [qquery('//b'), qquery('concat("K", a)')], dict(call=1), dict(line=1, opcode=1)),
    ('MicroXML trees', [M1, M2], dict(line=1, call=2, opcode=1), dict(line=2)),
    ('MicroXML with the shared function', [microxml('<a>K<b c="d"></b></a>', 'shared'), microxml('<c>x</c>', 'shared')],
     dict(line=1, call=2), dict(line=2, opcode=1)),
    ('MicroXML trees, one fails', [M1, M3], dict(line=1, call=2), dict(line=2, opcode=1)),
    ('MicroXML events', [microxml('<a>&gt;</a>', 'events'), microxml("<c>K</c>", 'events')], dict(line=1), dict(line=2, opcode=1)),
    ('MicroXML streams', [stream(MARKUP, ('a', 'b')), stream('<b>K<b></b></b>', ('**', 'b'))], dict(line=1), dict(line=2, opcode=1)),
    ('XML trees', [X1, X2], dict(line=2, opcode=1), dict()),
    ('XML streams', [xml(MARKUP, 2), xml('<b>K<b/></b>', 2)], dict(line=1), dict(line=2, opcode=1)),
    ('scanner', [L1, L2], dict(line=1, opcode=1, call=2), dict(line=2)),
    ('HTML trees', [html('<p>K<b>x<i>y</b>z'), html('<table>K<td>x')], dict(line=1), dict(opcode=1, call=2)),
    ('write a shared tree', [encode(), encode()], dict(line=1), dict(line=2, opcode=1)),
    ('write and query a shared tree', [encode(), C1], dict(line=1), dict(line=2, opcode=1)),
    ('parse and compute', [P1, C4], dict(line=1), dict(call=2, opcode=1)),
    ('parse and scan', [P1, L1], dict(line=1), dict(call=2, opcode=1)),
    ('MicroXML and XML', [M1, X2], dict(line=1), dict(line=2, opcode=1)),
    ('one expression from two nodes: axes', [A1, A2], dict(line=1), dict(line=2, opcode=1)),
    ('one expression from two nodes: more axes', [A3, A4], dict(line=1), dict(line=2, opcode=1)),
    ('one expression from two nodes: paths', [A5, A6], dict(line=1), dict(line=2, opcode=1)),
    ('one expression from two nodes: operators', [A7, A8], dict(line=1), dict(line=2, opcode=1)),
    ('unions over two trees', [U1, U2], dict(line=1), dict(line=2, opcode=1)),
    ('unions, one is empty', [U1, U3], dict(line=1, call=2), dict(line=2, opcode=1)),
    ('unions over two trees, in other orders', [U4, U2], dict(line=1), dict(opcode=1)),
    ('namespaces', [namespaces('<a xmlns="u:K"><p:b xmlns:p="K" p:i="1">x</p:b></a>', True), namespaces('<p:a xmlns:p="v:K">y<b xmlns="K"/></p:a>', True)],
     dict(line=1), dict(line=2, opcode=1)),
    ('namespaces, cumulative', [namespaces('<a xmlns="u:K"><p:b xmlns:p="K" p:i="1">x</p:b></a>', False), namespaces('<p:a xmlns:p="v:K">y<b xmlns="K"/></p:a>', False)],
     dict(line=1), dict(line=2, opcode=1)),
    ('write namespaces', [write('namespaces'), write('namespaces')], dict(line=1), dict(line=2, opcode=1)),
    ('write with indentation', [write(' '), write('xx')], dict(line=1), dict(line=2, opcode=1)),
    ('utilities', [utilities(False), utilities(True)], dict(line=1), dict(opcode=1)),
    ('utilities on one tree', [utilities(True), utilities(True)], dict(call=1), dict(line=1)),
    ('changes', [changes(1), changes(2)], dict(line=1), dict(line=2, opcode=1)),
    ('HTML streams', [html_stream('<p>K<b>x'), html_stream('<b>y<b>K')], dict(call=1), dict(line=1)),
    ('three parse expressions', [Q0, P0, E0], dict(call=1), dict(line=1, call=2)),
    ('three compute', [C6, C4, C7], dict(line=1), dict(line=2, opcode=1)),
    ('three MicroXML trees', [M1, M2, M3], dict(call=1), dict(line=1, call=2)),
]

PARTS = 48


def bodies_equal(bodies):
    return all(b is bodies[0] for b in bodies)


class C(Check):
    id = 'Q11'
    title = 'Concurrent use from several threads gives sequential results'
    technique = ('stateless model checking of the implementation: real threads under a controlled scheduler, all '
                 'schedules up to a preemption bound at every line, bytecode or call')
    assumptions = ('Threads switch only at the switch points of the code of amara3, ply.lex and ply.yacc, not within '
                   'other libraries (C code, html5lib).',)
    case_cpu = 600
    retry_crash = True

    def setup(self):
        import amara3.uxml.html5, amara3.uxml.writer, amara3.uxml.xmliter, amara3.uxml.treeiter, amara3.uxml.lex
        import amara3.uxml.uxpath, ply.lex, ply.yacc
        self.roots = (os.path.realpath(os.path.dirname(amara3.uxml.__file__)), os.path.realpath(ply.lex.__file__), os.path.realpath(ply.yacc.__file__))
        self.schedulers = {}
        self.opcodes = False
        self.count = 0
        gc.collect()
        gc.freeze()

    def families(self, tier):
        by_unit = {}
        for ix, (name, bodies, quick, thorough) in enumerate(SCENARIOS):
            bounds = dict(quick)
            if tier == 'thorough':
                for u, b in thorough.items():
                    bounds[u] = max(b, bounds.get(u, 0))
            for unit, bound in bounds.items():
                by_unit.setdefault((unit, bound), []).append(ix)
        fams = []
        for (unit, bound), ixs in sorted(by_unit.items()):
            def gen(unit=unit, bound=bound, ixs=ixs):
                for part in range(PARTS):
                    for ix in ixs:
                        n = len(SCENARIOS[ix][1])
                        for order in itertools.permutations(range(n)):
                            if bodies_equal(SCENARIOS[ix][1]) and order != tuple(range(n)):
                                continue
                            yield [SCENARIOS[ix][0], unit, bound, list(order), part]
            fams.append(Family('%s-%d' % (unit, bound), gen,
                               'switch points at each %s; at most %d preemptions; scenarios: %s' % (
                                   unit, bound, ', '.join(SCENARIOS[ix][0] for ix in ixs)), self.run_case))
        return fams

    def execute(self, bodies, order, preemptions, unit):
        n = len(bodies)
        if n not in self.schedulers:
            self.schedulers[n] = Scheduler(n, self.roots)
        self.count += 1
        k = 'k%07d' % self.count
        shared = dict(tree=build(DOC), asts={})
        made = [b(k, shared) for b in bodies]
        try:
            results, steps, segments, followed = self.schedulers[n].run(made, order, preemptions, unit)
        except TimeoutError:
            del self.schedulers[n]
            raise
        results.append(canon_tree(shared['tree']))
        if self.count % 200 == 0:
            gc.collect()
        return [repr(r).replace(k, 'K') for r in results], steps, segments, followed

    def alone(self, bodies):
        """What each body gives when it has the process to itself"""
        out = []
        for b in bodies:
            self.count += 1
            k = 'k%07d' % self.count
            made = b(k, dict(tree=build(DOC), asts={}))
            try:
                r = made()
            except Exception as e:
                r = ('exception', type(e).__name__, str(e))
            out.append(repr(r).replace(k, 'K'))
        return out + [repr(canon_tree(build(DOC)))]

    def run_case(self, case, st):
        name, unit, bound, order, part = case
        bodies = next(s[1] for s in SCENARIOS if s[0] == name)
        want = self.alone(bodies)
        if len(bodies) not in self.schedulers:
            self.schedulers[len(bodies)] = Scheduler(len(bodies), self.roots)
        if unit == 'opcode' and not self.opcodes:
            self.opcodes = True
            trace_opcodes()
        gc.disable()
        try:
            return self.explore(name, bodies, order, {}, 0, unit, bound, part, want, st, 0)
        finally:
            gc.enable()

    def explore(self, name, bodies, order, preemptions, start, unit, bound, part, want, st, depth):
        try:
            got, steps, segments, followed = self.execute(bodies, order, preemptions, unit)
        except TimeoutError as e:
            return '%s: %s, order %r, preemptions at %s %r' % (name, e, order, unit, preemptions)
        st.trace()
        st.step(len(segments))
        if not followed:
            st.outcome('a thread waited for another')
        for i, (g, w) in enumerate(zip(got, want)):
            if g != w:
                return '%s: %s gives %s instead of %s; threads start in order %r, preemptions (%s: thread) %r' % (
                    name, 'thread %d' % i if i < len(bodies) else 'the shared tree', g[:300], w[:300], order, unit, preemptions)
        if depth == 0:
            if part == 0:
                st.outcome('%s: %s: %d %ss' % (name, order, steps, unit))
        st.distinct(1)
        if depth == bound:
            return None
        for n in range(start, steps):
            if depth == 0 and n % PARTS != part:
                continue
            running = [t for s, t in segments if s <= n][-1]
            for to in range(len(bodies)):
                if to == running:
                    continue
                msg = self.explore(name, bodies, order, {**preemptions, n: to}, n + 1, unit, bound, part, want, st, depth + 1)
                if msg:
                    return msg
        return None


CHECKS = {'Q11': C}
