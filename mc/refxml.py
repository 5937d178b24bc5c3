"""Reference MicroXML parser: an independent, boring recognizer over the whole input.

parse(s) -> (verdict, events, note); verdict is
  'yes'  a MicroXML document: must be accepted, with these events
  'may'  not strictly MicroXML, or a construct that amara3 does not support, but its meaning is clear:
         may be rejected, and if accepted it must have these events
  'no'   must be rejected
events: ('s', name, ((attr, value), ...), ancestors, end) | ('c', text, end) | ('e', name, ancestors, end); end is
the offset after the tag (for text, after the tag that follows) by when the event is due.
"""
import bisect


def _ranges(*pairs):
    starts, ends = zip(*sorted(pairs))
    def contains(c):
        i = bisect.bisect_right(starts, c) - 1
        return i >= 0 and c <= ends[i]
    return contains


def nonchar(c):
    return (c & 0xFFFE) == 0xFFFE or 0xFDD0 <= c <= 0xFDEF


def is_char(c):
    """MicroXML char (line breaks aside): no controls but tab and newline, surrogates or non-characters"""
    if c in (9, 10):
        return True
    if c < 0x20 or 0x7f <= c <= 0x9f or 0xd800 <= c <= 0xdfff or c > 0x10ffff:
        return False
    return not nonchar(c)


_name_start = _ranges((65, 90), (97, 122), (95, 95), (0xc0, 0xd6), (0xd8, 0xf6), (0xf8, 0x2ff), (0x370, 0x37d),
                      (0x37f, 0x1fff), (0x200c, 0x200d), (0x2070, 0x218f), (0x2c00, 0x2fef), (0x3001, 0xd7ff),
                      (0xf900, 0xfdcf), (0xfdf0, 0xfffd), (0x10000, 0xeffff))
_name_extra = _ranges((45, 46), (48, 57), (0xb7, 0xb7), (0x300, 0x36f), (0x203f, 0x2040))


def is_name_start(c):
    return _name_start(c)


def is_name_char(c):
    return _name_start(c) or _name_extra(c)


NAMED = {'lt': '<', 'gt': '>', 'amp': '&', 'quot': '"', 'apos': "'"}
WS = ' \t\r\n'


class Reject(Exception):
    pass


class _Parser:
    def __init__(self, s):
        self.s, self.i, self.n = s, 0, len(s)
        self.may = False
        self.events = []

    def peek(self):
        return self.s[self.i] if self.i < self.n else ''

    def fail(self, why):
        raise Reject('%s at %d' % (why, self.i))

    def ws(self):
        start = self.i
        while self.i < self.n and self.s[self.i] in WS:
            self.i += 1
        return self.i > start

    def name(self):
        start = self.i
        if not (self.i < self.n and is_name_start(ord(self.s[self.i]))):
            self.fail('no name')
        while self.i < self.n and is_name_char(ord(self.s[self.i])):
            self.i += 1
        name = self.s[start:self.i]
        if any(nonchar(ord(c)) for c in name):
            self.may = True
        return name

    def ref(self):
        """After &"""
        end = self.s.find(';', self.i)
        if end < 0:
            self.fail('unterminated reference')
        body = self.s[self.i:end]
        self.i = end + 1
        if body.startswith('#x') and len(body) > 2 and all(c in '0123456789abcdefABCDEF' for c in body[2:]):
            c = int(body[2:], 16)
            if c > 0x10ffff or not is_char(c):
                self.fail('illegal character reference')
            return chr(c)
        if body in NAMED:
            return NAMED[body]
        self.fail('illegal reference')

    def char(self):
        """One character of data, other than & and <"""
        c = self.s[self.i]
        if c == '\r':
            self.i += 2 if self.s.startswith('\r\n', self.i) else 1
            return '\n'
        if c == '>' or not is_char(ord(c)):
            self.fail('illegal character')
        self.i += 1
        return c

    def value(self, quote):
        out = []
        while True:
            c = self.peek()
            if not c or c == '<':
                self.fail('value not closed')
            if c == quote:
                self.i += 1
                return ''.join(out)
            if c == '&':
                self.i += 1
                out.append(self.ref())
            else:
                c = self.char()
                out.append(' ' if c in '\t\n' else c)

    def attributes(self):
        attrs = {}
        while True:
            space = self.ws()
            c = self.peek()
            if c == '>' or c == '/' or not c:
                return attrs, c
            if not space:
                if not attrs:
                    self.fail('no space')
                self.may = True
            name = self.name()
            if name in attrs:
                self.fail('duplicate attribute')
            self.ws()
            if self.peek() != '=':
                self.fail('no =')
            self.i += 1
            self.ws()
            if self.peek() not in ('"', "'"):
                self.fail('no quote')
            quote = self.peek()
            self.i += 1
            attrs[name] = self.value(quote)

    def comment(self):
        """At <!; MicroXML comments are dropped"""
        if not self.s.startswith('<!--', self.i):
            self.fail('illegal <!')
        end = self.s.find('--', self.i + 4)
        if end < 0 or not self.s.startswith('-->', end) \
                or not all(is_char(ord(c)) or c == '\r' for c in self.s[self.i + 4:end]):
            self.fail('illegal comment')
        self.i = end + 3
        self.may = True

    def document(self):
        if self.peek() == '\ufeff':
            self.i += 1
            self.may = True
        if not self.s[self.i:].strip(WS):
            return 'blank'
        while True:
            self.ws()
            if self.s.startswith('<!', self.i):
                self.comment()
            else:
                break
        if self.peek() != '<':
            self.fail('no document element')
        stack = []
        text = []
        first = True
        while first or stack:
            first = False
            while self.peek() != '<':
                c = self.peek()
                if not c:
                    self.fail('end of input in element')
                if c == '&':
                    self.i += 1
                    text.append(self.ref())
                else:
                    text.append(self.char())
            if self.s.startswith('<!', self.i):
                self.comment()
                continue
            tag = self.i
            self.i += 1
            if self.ws():
                self.may = True
            if self.peek() == '/':
                self.i += 1
                if self.ws():
                    self.may = True
                name = self.name()
                self.ws()
                if self.peek() != '>':
                    self.fail('end tag not closed')
                self.i += 1
                if not stack or stack[-1] != name:
                    self.flush(text)
                    self.fail('mismatched end tag')
                self.flush(text)
                stack.pop()
                self.events.append(('e', name, tuple(stack), self.i))
            else:
                name = self.name()
                attrs, c = self.attributes()
                empty = c == '/'
                if empty:
                    self.i += 1
                    self.may = True
                if self.peek() != '>':
                    self.fail('start tag not closed')
                self.i += 1
                self.flush(text)
                self.events.append(('s', name, tuple(attrs.items()), tuple(stack), self.i))
                if empty:
                    self.events.append(('e', name, tuple(stack), self.i))
                else:
                    stack.append(name)
        while True:
            self.ws()
            if self.i == self.n:
                return 'document'
            if self.s.startswith('<!', self.i):
                self.comment()
            else:
                self.fail('content after document element')

    def flush(self, text):
        if text:
            self.events.append(('c', ''.join(text), self.i))
            text.clear()


def parse(s):
    p = _Parser(s)
    try:
        kind = p.document()
    except Reject as e:
        return 'no', p.events, str(e)
    return ('may' if p.may else 'yes'), p.events, kind
