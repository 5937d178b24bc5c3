"""B01: the extension module, built from the current source into a scratch directory"""
import importlib.machinery, importlib.util, itertools, os, resource, subprocess, sys, sysconfig
from .. import gen, impl
from ..core import Check, Family

SIGNIFICANT = [0x00, 0x09, 0x0a, 0x0d, 0x20, 0x3c, 0x3f, 0x78, 0xef, 0xbb, 0xbf, 0xfe, 0xff]
FULL = SIGNIFICANT + [0x6d, 0x4c, 0x6f, 0xa7, 0x94, 0x41, 0x3e, 0xc3, 0xe2, 0xf0, 0x80, 0x0b, 0x3d, 0x3b]
STARTS = [bytes.fromhex(x) for x in ('3c3f786d', '003c003f', '3c003f00', '4c6fa794', '0000003c', '3c000000', '00003c00', '003c0000')]
BOMS = [bytes.fromhex(x) for x in ('0000feff', 'fffe0000', '0000fffe', 'feff0000', 'efbbbf', 'feff', 'fffe')]


def reference(b):
    if b[:4] in STARTS:
        return True
    codec = 'utf-8'
    if len(b) >= 4:
        for bom, c in ((b'\x00\x00\xfe\xff', 'utf-32-be'), (b'\xff\xfe\x00\x00', 'utf-32-le'), (b'\x00\x00\xff\xfe', None), (b'\xfe\xff\x00\x00', None),
                       (b'\xef\xbb\xbf', 'utf-8'), (b'\xfe\xff', 'utf-16-be'), (b'\xff\xfe', 'utf-16-le')):
            if b.startswith(bom):
                if c is None:   # byte orders that Python has no codec for
                    return False
                b, codec = b[len(bom):], c
                break
    try:
        return b.decode(codec).lstrip('\t\n\r ')[:1] == '<'
    except UnicodeDecodeError:
        return False


def build(flags=()):
    out = os.path.join(impl.scratch(), 'ext%d' % len(flags))
    os.makedirs(out, exist_ok=True)
    path = os.path.join(out, 'cxmlstring' + sysconfig.get_config_var('EXT_SUFFIX'))
    src = os.path.join(impl.REPO, 'clib')
    r = subprocess.run(['gcc', '-shared', '-fPIC', '-g', '-O1', '-w', *flags, '-I', sysconfig.get_paths()['include'], '-I', src,
                        os.path.join(src, 'xmlstring.c'), '-o', path], capture_output=True, text=True)
    if r.returncode:
        raise RuntimeError('the extension cannot be compiled: ' + r.stderr[-500:])
    return path


CHILD = '''
import importlib.machinery, importlib.util, itertools, sys
def load(path):
    spec = importlib.util.spec_from_file_location('cxmlstring', path, loader=importlib.machinery.ExtensionFileLoader('cxmlstring', path))
    m = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(m)
    return m
isxml = load(sys.argv[1]).isxml
n = 0
first = bytes([int(sys.argv[2])]) if sys.argv[2] != 'x' else b''
alphabet = bytes.fromhex(sys.argv[3])
for k in range(0, int(sys.argv[4]) + 1):
    for s in itertools.product(alphabet, repeat=k):
        isxml(first + bytes(s))
        n += 1
for k in list(range(0, 40)) + [100, 1000]:
    for t in (b'', b'<', b'\\xff', b'\\xef\\xbb'):
        for p in (b' ', b'\\t', b'<', b'a'):
            isxml(first + p * k + t)
            n += 1
print(n)
'''


class B01(Check):
    id = 'B01'
    technique = 'exhaustive exploration of byte strings, plain and under AddressSanitizer, against a reference'
    assumptions = ('Built from clib with gcc for the Python of the tests.', 'Reads past the end by one byte, which Python sets to 0, only show in the result.')

    def setup(self):
        path = build()
        spec = importlib.util.spec_from_file_location('cxmlstring', path, loader=importlib.machinery.ExtensionFileLoader('cxmlstring', path))
        self.module = importlib.util.module_from_spec(spec)
        spec.loader.exec_module(self.module)
        self.asan = build(('-fsanitize=address', '-fno-omit-frame-pointer'))

    def families(self, tier):
        q = tier == 'quick'
        n = 5 if q else 6
        def short():
            yield [[], 0, 'all']
            for a in range(256):
                yield [[a], 1 if q else 2, 'all']
        def significant():
            for a, b in itertools.product(SIGNIFICANT, repeat=2):
                yield [[a, b], n - 2, 'significant']
        def fours():
            for a in FULL:
                yield [[a], 3, 'full']
        def marked():
            for m in STARTS + BOMS:
                yield [list(m), 3 if q else 4, 'significant']
                for k in range(len(m)):
                    yield [list(m[:k]), 2, 'full']
                for i in range(len(m)):
                    for v in range(256):
                        yield [list(m[:i] + bytes([v]) + m[i + 1:]), 1, 'significant']
        def encoded():
            chars = '\t\n\r <x?\u00a0\ufeff\u2003\U0001F600\x0b'
            for k in range(0, 4 if q else 5):
                for s in itertools.product(chars, repeat=k):
                    yield ['text', ''.join(s)]
        def characters():
            for at in range(0, 0x110000, 256):
                if at < 0x10000 or not q or (at & 0xFFFF) in (0, 0xFF00):
                    yield ['characters', at]
        def long():
            for k in gen.sizes(4095, 4096, 4097, 65536, 1000000):
                yield ['long', k]
        def leaks():
            for k in range(8):
                yield ['leak', k]
        def asan():
            yield ['asan', 'x']
            for a in SIGNIFICANT:
                yield ['asan', str(a)]
        return [Family('short', short, 'all strings of up to 2 (3) bytes', self.run_bytes),
                Family('significant', significant, 'all strings of up to %d of %d bytes' % (n, len(SIGNIFICANT)), self.run_bytes),
                Family('fours', fours, 'all strings of 4 of %d bytes' % len(FULL), self.run_bytes),
                Family('marks', marked, 'each mark with each byte changed, cut short, and followed by up to 3 (4) bytes', self.run_bytes),
                Family('encoded', encoded, 'all texts of up to 3 (4) of 11 characters in 5 encodings with and without mark', self.run_text),
                Family('characters', characters, 'every character of the BMP and at the ends of each plane (thorough: all) before, after, or between white space and "<", in 5 encodings with and without mark', self.run_characters),
                Family('long', long, 'white space of up to 1000000 bytes', self.run_long),
                Family('memory', leaks, 'no memory is kept after 300 calls with large arguments of 8 kinds', self.run_leak),
                Family('bounds', asan, 'strings of up to 4 bytes and more under AddressSanitizer', self.run_asan)]

    def judge(self, b, st):
        got = self.module.isxml(b)
        st.step()
        if got is not reference(b):
            return 'isxml(%r%s) gives %r' % (b[:60], '...' if len(b) > 60 else '', got)

    def run_bytes(self, case, st):
        head, n, which = case
        alphabet = {'all': range(256), 'full': FULL, 'significant': SIGNIFICANT}[which]
        head = bytes(head)
        k = 0
        for i in range(0, n + 1):
            for s in itertools.product(alphabet, repeat=i):
                k += 1
                msg = self.judge(head + bytes(s), st)
                if msg:
                    return msg
        st.distinct(k)
        st.trace()

    def run_text(self, case, st):
        text = case[1]
        st.state(text)
        for codec in ('utf-8', 'utf-16-le', 'utf-16-be', 'utf-32-le', 'utf-32-be'):
            for mark in ('', '\ufeff'):
                b = (mark + text).encode(codec)
                msg = self.judge(b, st) or self.judge(b + b'\x00', st) or self.judge(b[:-1], st)
                if msg:
                    return msg
        st.trace()

    def run_characters(self, case, st):
        for c in range(case[1], case[1] + 256):
            if 0xD800 <= c < 0xE000:
                continue
            c = chr(c)
            st.distinct(1)
            for text in (c + '<a/>', '\n' + c + '<', ' <' + c, c):
                for codec in ('utf-8', 'utf-16-le', 'utf-16-be', 'utf-32-le', 'utf-32-be'):
                    b = text.encode(codec)
                    msg = self.judge(b, st) or self.judge('\ufeff'.encode(codec) + b, st)
                    if msg:
                        return 'U+%04X: %s' % (ord(c), msg)
        st.trace()

    def run_long(self, case, st):
        k = case[1]
        st.state(k)
        for p in (b' ', b'\n', b' \t\r\n', b'<', b'x', b'\x0b'):
            for s in (b'', b'<', b'x', b'\xff', b'<\xff', b'\xc3', b'\xc3\xa9<'):
                for m in (b'', b'\xef\xbb\xbf'):
                    msg = self.judge(m + p * k + s, st)
                    if msg:
                        return msg
        for codec in ('utf-16', 'utf-32'):
            for s in ('', '<', 'x'):
                msg = self.judge((' ' * k + s).encode(codec), st)
                if msg:
                    return msg
        for x in ('<a/>', None, 1, bytearray(b'<')):
            try:
                self.module.isxml(x)
            except TypeError:
                continue
            if not isinstance(x, bytearray):
                return 'isxml(%r) does not raise TypeError' % (x,)
        st.trace()

    def run_leak(self, case, st):
        import gc, tracemalloc
        b = [b'<' + b'x' * 20000, b' ' * 20000, b'\xff' * 20000, b'x' * 20000 + b'\xff', b'<?xml' + b'x' * 20000, ('\ufeff<' + 'x' * 10000).encode('utf-16-le'), b'\xef\xbb\xbf' + b'<' * 20000,
             b'\x00\x00\xfe\xff' + b'x' * 20000][case[1]]
        for _ in range(3):
            self.module.isxml(b)
        gc.collect()
        tracemalloc.start()
        try:
            refs = sys.getrefcount(b)
            before = tracemalloc.get_traced_memory()[0]
            for _ in range(300):
                self.module.isxml(b)
            gc.collect()
            grown = tracemalloc.get_traced_memory()[0] - before
            st.step(300)
        finally:
            tracemalloc.stop()
        st.state(case[1])
        if grown > 200000:
            return '300 calls for %r... keep %d bytes' % (b[:10], grown)
        if sys.getrefcount(b) != refs:
            return 'the reference count of the argument changes from %d to %d' % (refs, sys.getrefcount(b))
        st.trace()

    def run_asan(self, case, st):
        lib = subprocess.run(['gcc', '-print-file-name=libasan.so'], capture_output=True, text=True).stdout.strip()
        if not os.path.isabs(lib):
            st.outcome('AddressSanitizer is not available')
            return
        env = {k: v for k, v in os.environ.items() if not k.startswith('PYTHON')}
        env.update(LD_PRELOAD=lib, ASAN_OPTIONS='detect_leaks=0', PYTHONMALLOC='malloc')
        def limits():
            hard = resource.getrlimit(resource.RLIMIT_AS)[1]
            resource.setrlimit(resource.RLIMIT_AS, (hard, hard))
        r = subprocess.run([sys.executable, '-S', '-s', '-B', '-c', CHILD, self.asan, case[1], bytes(SIGNIFICANT).hex(), '3'], env=env, capture_output=True, text=True,
                           preexec_fn=limits, timeout=200)
        if r.returncode:
            if 'AddressSanitizer' in r.stderr and 'failed to' in r.stderr:
                st.outcome('AddressSanitizer cannot run here')
                return
            at = r.stderr.find('ERROR')
            return 'with strings that begin with %s: %s' % (case[1], r.stderr[max(at, 0):][:600])
        st.distinct(int(r.stdout))
        st.step(int(r.stdout))
        st.trace()


CHECKS = {c.id: c for c in (B01,)}
