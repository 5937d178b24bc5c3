"""M01: the microx command, run in this process on files of a scratch directory"""
import io, itertools, os, sys
from .. import gen, impl, refpat
from ..core import Check, Family
from ..observe import build, markup, merged, tup, canon_tree

DOCS = [
    ('a', (('i', '1'),), ('x', ('b', (('i', '2'),), ('y & z',)), ('b', (), ('x', ('c', (('i', '3'), ('k', '"')), ('x',)))), 'x')),
    ('a', (), ()),
    ('r', (), tuple(('b', (('i', str(n)),), (('n', (), ('N%d' % n,)), ('a', (), ('<%d>' % n,)))) for n in range(3))),
    ('b', (('i', 'x'),), ('\u00e9\U0001F600', ('b', (), (('b', (), ('x',)),)))),
    ('b', (('i', ''), ('k', '0')), (('b', (('i', ''),), ('N', ('c', (('k', ''),), ('x',)))), ' ', ('b', (('i', ' '), ('k', 'true')), ('0',)), ('c', (), ('b',)))),
]
HTML = ['<p>x<b i=1>y<p>z', '<table>x<tr><td>y', '', '<ul><li>1<li>2</ul><!--c--><br>']
LAX = ['<a><b>x</a>', '<b i=1>x<c/>y', '<a x=1>&amp;<b><b>']
EXPRS = ['//b', '/', '.', '/a', '//@i', '//text()', 'count(//*)', 'string(.)', '//b[@i]', '(1, "s", true())', '//b|//@i', '//b[2]', '()', 'name(/*)', '//c/..', 'number("x")']
MATCHES = ['b', 'self::b', '@i', 'text()', '.', 'self::*[@i]', '..', 'count(*)', 'name()', '()', 'b[1]', '/', "self::b[.='x']"]
FOREACH = [None, '.', '@i', 'text()', 'name()', '..', "concat(name(), ': ', @i)", '*|@*', 'count(//*)', '()']


class Capture(io.StringIO):
    def close(self):
        pass


_code = {}


def microx(argv):
    """(standard output, exception or None)"""
    path = os.path.join(impl.REPO, 'exec', 'microx')
    if path not in _code:
        with open(path, encoding='utf-8') as f:
            _code[path] = compile(f.read(), path, 'exec')
    saved = sys.argv, sys.stdout, sys.stderr
    out = Capture()
    sys.argv, sys.stdout, sys.stderr = ['microx'] + argv, out, io.StringIO()
    error = None
    try:
        exec(_code[path], {'__name__': '__main__', '__file__': path})
    except Exception as e:
        error = e
    except SystemExit as e:
        error = RuntimeError('exit %r: %s' % (e.code, sys.stderr.getvalue()))
    finally:
        sys.argv, sys.stdout, sys.stderr = saved
    return out.getvalue(), error


def shown(item):
    from amara3.uxml import tree
    return (item.xml_encode() if isinstance(item, tree.node) else str(item)) + '\n'


class M01(Check):
    id = 'M01'
    technique = 'exhaustive exploration of all combinations of options over small sets of documents, against the library calls they stand for'
    assumptions = ('Reference: the library, called for one document and expression at a time (checked by the other properties).', 'Sources are local files (no URLs). How --limit counts over several files is not observed.')

    def setup(self):
        import amara3.uxml.html5
        self.files = {}

    def families(self, tier):
        q = tier == 'quick'
        sets = [[0], [1], [2], [3], [4], [0, 2], [2, 1, 0], [3, 3], [4, 0]]
        def exprs():
            for s in sets:
                for how, es in (('expr', EXPRS), ('match', MATCHES)):
                    for e in es:
                        for f in FOREACH:
                            for part in (None, 'b', 'a', 'z') if not q or len(s) > 1 or f is None else (None, 'b'):
                                yield dict(docs=s, how=how, what=e, foreach=f, partition=part)
        def html():
            for kind, docs in (('html', HTML), ('lax', LAX)):
                for s in [[i] for i in range(len(docs))] + [[0, 1], [2, 0, 1]]:
                    for how, es in (('expr', EXPRS), ('match', MATCHES)):
                        for e in es:
                            for f in FOREACH[:4] if q else FOREACH:
                                yield dict(docs=s, kind=kind, how=how, what=e, foreach=f)
        def text():
            for s in sets:
                for w in ('x', 'y & z', '<', 'N', '1', '\u00e9', 'nowhere', ' '):
                    for attrs in (None, 'i', 'k', 'i,k', 'z', 'k,i'):
                        for part in (None, 'b', 'r'):
                            yield dict(docs=s, how='find-text', what=w, show=attrs, partition=part)
        def confusable():
            for m, n in gen.confusable_xml():
                doc = merged(gen.confusable_tree(m, n))
                for c in (dict(how='find-text', what=m), dict(how='find-text', what=n, show=m), dict(how='find-text', what=m, show=m + ',' + n), dict(how='find-text', what=n, show=n, partition=m),
                          dict(how='match', what=m), dict(how='match', what='@' + m), dict(how='match', what='self::%s' % n, foreach='@' + m), dict(how='expr', what='//%s' % m), dict(how='expr', what='.', partition=n),
                          dict(how='expr', what='/%s/@*' % m, partition=m), dict(how='expr', what='//*[.="%s"]' % m, foreach='name()')):
                    yield dict(dict(c, show=c.get('show')) if c['how'] == 'find-text' else c, docs=[], doc=doc)
        def contents():
            for i, (a, b) in enumerate(gen.contents()):
                doc = merged(gen.content_tree(a, b))
                cs = [dict(how='expr', what='//text()'), dict(how='expr', what='//@*'), dict(how='expr', what='.', partition='b'), dict(how='match', what='text()'), dict(how='expr', what='//b', foreach='string(.)'), dict(how='expr', what='//text()', out=True)]
                if not a.startswith('-') and a.strip():
                    cs += [dict(how='find-text', what=a, show='x'), dict(how='find-text', what=a, show=None), dict(how='find-text', what=a, show='y,x', partition='b')]
                for c in cs if not q else cs[i % 3::3]:
                    yield dict(c, docs=[], doc=doc)
        def output():
            for s in sets:
                for e in EXPRS:
                    yield dict(docs=s, how='expr', what=e, out=True)
        def encodings():
            for enc in ('utf-8', 'utf-8-sig', 'iso-8859-1', 'utf-16', 'utf-16-le-decl', 'us-ascii'):
                for i in (0, 1, 2, 3):
                    for e in EXPRS[:7]:
                        for part in (None, 'b'):
                            yield dict(docs=[i], how='expr', what=e, encoding=enc, partition=part)
        def failing():
            for n in (0, 1, 2):
                for bad in ('<a>', '', '<a></b>', '<a>&x;</a>', 'x'):
                    for e in EXPRS[:4]:
                        for part in (None, 'b'):
                            yield dict(docs=[0, 2, 3][:n], bad=bad, how='expr', what=e, partition=part)
        def commands():
            for n in range(0, 4):
                for c in itertools.combinations(('expr', 'match', 'find-text'), n):
                    yield dict(commands=list(c))
        def limit():
            for s in sets[:5]:
                for how, es in (('expr', EXPRS), ('match', MATCHES)):
                    for e in es:
                        for n in ('0', '1', '2', '3', '100'):
                            for f in FOREACH:
                                yield dict(docs=s, how=how, what=e, limit=n, foreach=f)
                            if how == 'match':
                                yield dict(docs=s, how=how, what=e, limit=n, partition='b')
        def scale():
            for k in gen.sizes(most=129 if q else 513):
                doc = ['r', [['i', str(k)]], [['b', [['i', str(i)]], ['x%d' % i] if i % 3 else ['x', ['c', [], ['y']]]] for i in range(k)]]
                for c in (dict(how='expr', what='//b'), dict(how='expr', what='//b', foreach='@i'), dict(how='match', what='@i'), dict(how='expr', what='.', partition='b'), dict(how='find-text', what='x', show='i'),
                          dict(how='find-text', what='y', show=None), dict(how='expr', what='//b', limit=str(k)), dict(how='expr', what='//b', limit=str(max(1, k - 1))), dict(how='match', what='c', partition='b'),
                          dict(how='expr', what='count(//b)'), dict(how='match', what='@i', limit=str(k // 2 + 1)), dict(how='expr', what='//b/@i', out=True)):
                    yield dict(c, docs=[], doc=doc)
                if k < 70:
                    for c in (dict(how='expr', what='//b'), dict(how='expr', what='.', partition='b'), dict(how='match', what='@i', foreach='..')):
                        yield dict(c, docs=[i % 4 for i in range(k)])
        return [Family('scale', scale, 'up to 129 (513) results, 66 files', self.run_case),
                Family('queries', exprs, '9 sets of up to 3 files, %d expressions, %d matches, %d --foreach, 4 --partition' % (len(EXPRS), len(MATCHES), len(FOREACH)), self.run_case),
                Family('html', html, '--html and --lax', self.run_case),
                Family('find-text', text, '--find-text for 8 texts, 6 --show-attrs, 3 --partition', self.run_case),
                Family('confusable', confusable, 'pairs of names that are easily taken for one another: 11 commands', self.run_case),
                Family('contents', contents, 'all pairs of %d texts and values that could be taken for one another, or for something else than text: 9 commands' % len(gen.CONTENTS), self.run_case),
                Family('output', output, 'to a file with --out', self.run_case),
                Family('encodings', encodings, 'files in 6 encodings', self.run_case),
                Family('failing', failing, 'a malformed file after up to 2 others', self.run_case),
                Family('commands', commands, 'no, one and several commands', self.run_commands),
                Family('limit', limit, '--limit 0 to 3 and 100 with single files, with --foreach or --partition', self.run_case)]

    def file(self, data):
        if not hasattr(self, 'dir') or self.pid != os.getpid():
            import tempfile
            self.pid, self.files = os.getpid(), {}
            self.dir = tempfile.mkdtemp(prefix='microx', dir=impl.scratch())
        if data not in self.files:
            path = os.path.join(self.dir, 'f%d.xml' % len(self.files))
            with open(path, 'wb') as f:
                f.write(data)
            self.files[data] = path
        return self.files[data]

    def encode(self, text, encoding):
        if encoding is None:
            return text.encode('utf-8')
        if encoding == 'utf-8-sig':
            return text.encode(encoding)
        if encoding == 'utf-16-le-decl':
            return b'\xff\xfe' + ('<?xml version="1.0" encoding="utf-16"?>' + text).encode('utf-16-le')
        return ('<?xml version="1.0" encoding="%s"?>' % encoding + text).encode(encoding, 'xmlcharrefreplace')

    def expected(self, case, source):
        """Lines for one document"""
        from amara3.uxml import xml, html5, uxpath, tree
        kind = case.get('kind', 'xml')
        if kind == 'html':
            roots = [html5.parse(source)]
        elif kind == 'lax':
            roots = [html5.parse_lax_xml(source)]
        elif case.get('partition'):
            roots = [build(t) for t in refpat.outermost(('**', case['partition']), source)]
        else:
            roots = [xml.treebuilder().parse(markup(source))]
        out = []
        count = 0
        for root in roots:
            if case['how'] == 'find-text':
                out += self.find(root, case, ())
                continue
            pending = [root]
            contexts = []
            while pending:
                x = pending.pop(0)
                contexts.append(x)
                pending[:0] = [c for c in x.xml_children if isinstance(c, tree.element)]
                if case['how'] == 'expr':
                    break
            for c in contexts:
                ctx = uxpath.context(c, force_root=case['how'] == 'expr')
                items = list(uxpath.parse(case['what']).compute(ctx))
                if case.get('limit'):
                    items = items[:max(0, int(case['limit']) - count)]
                    count += len(items)
                if case.get('foreach'):
                    f = uxpath.parse(case['foreach'])
                    items = [y for x in items for y in f.compute(uxpath.context(x, force_root=False))]
                out += [shown(x) for x in items]
        return out

    def find(self, e, case, path):
        from amara3.uxml import tree
        step = e.xml_name
        for k in (case['show'] or '').split(',') if case['show'] else ():
            if k in e.xml_attributes:
                step += '[@%s="%s"]' % (k, e.xml_attributes[k])
        path += (step,)
        # The texts of an element come before those of its children
        out = ['/'.join(path) + '\n' for c in e.xml_children if isinstance(c, tree.text) and case['what'] in c.xml_value]
        for c in e.xml_children:
            if isinstance(c, tree.element):
                out += self.find(c, case, path)
        return out

    def run_case(self, case, st):
        kind = case.get('kind', 'xml')
        docs = {'xml': DOCS, 'html': HTML, 'lax': LAX}[kind]
        sources = [docs[i] for i in case['docs']] + ([tup(case['doc'])] if 'doc' in case else [])
        paths = [self.file(self.encode(markup(s) if kind == 'xml' else s, case.get('encoding'))) for s in sources]
        argv = ['--%s=%s' % (case['how'], case['what'])]
        for k in ('foreach', 'partition', 'limit'):
            if case.get(k):
                argv.append('--%s=%s' % (k, case[k]))
        if case.get('show'):
            argv.append('--show-attrs=' + case['show'])
        if kind != 'xml':
            argv.append('--' + kind)
        if 'bad' in case:
            paths.append(self.file(case['bad'].encode()))
        outfile = os.path.join(self.dir, 'out')
        if case.get('out'):
            argv += ['--out', outfile]
        want, fails = [], 'bad' in case
        try:
            for s in sources:
                want += self.expected(case, s)
        except Exception as e:      # a library call that fails: so does the command
            fails = True
            st.outcome('the library fails: %s' % type(e).__name__)
            want = None
        st.state(tuple(argv + paths))
        st.step()
        got, error = microx(argv + paths)
        if case.get('out'):
            if got:
                return '%r prints %r, too' % (argv, got)
            with open(outfile, encoding='utf-8') as f:
                got = f.read()
            os.remove(outfile)
        if (error is not None) != fails:
            return '%r on %r: %r' % (argv, sources, error if error is not None else 'no error')
        if want is not None and got != ''.join(want):
            return '%r on %r prints %r instead of %r' % (argv, [markup(s) if kind == 'xml' else s for s in sources], got, ''.join(want))
        st.trace()

    def run_commands(self, case, st):
        path = self.file(markup(DOCS[0]).encode())
        got, error = microx(['--%s=b' % c for c in case['commands']] + [path])
        st.state(tuple(case['commands']))
        st.step()
        ok = len(case['commands']) == 1
        if ok != (error is None):
            return '%r: %r' % (case['commands'], error)
        if not ok and got:
            return '%r prints %r' % (case['commands'], got)
        st.trace()


CHECKS = {c.id: c for c in (M01,)}
