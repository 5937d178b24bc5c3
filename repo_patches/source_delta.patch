From 28f6d9988543f5dbadb1e0b7e2a83a8f39971a15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:06:20 +0000
Subject: [PATCH 01/87] fix: parse and parsefrags yield a spurious leading None
 event

The accumulating handler was primed by its decorator and then once more by
the parser, so the second priming was recorded as an event.
---
 pylib/uxml/parser.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/pylib/uxml/parser.py b/pylib/uxml/parser.py
index d9f38ba..3e67b42 100644
--- a/pylib/uxml/parser.py
+++ b/pylib/uxml/parser.py
@@ -343,8 +343,7 @@ echo "for e in parsefrags(('<spa', 'm>eggs</spam>')): print(e)" >> /tmp/spam.py
 python -m pdb -c "b /Users/uche/.local/venv/py3/lib/python3.3/site-packages/amara3/uxml/parser.py:173" /tmp/spam.py
 '''
 
-@coroutine
-def handler(accumulator):
+def handler(accumulator): #Primed by the parser
     while True:
         event = yield
         accumulator.append(event)
-- 
2.43.0


From 3d467966756337b3f46d4da6bff68540fa624310 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:07:01 +0000
Subject: [PATCH 02/87] fix: MicroXML parser spins or stays silent when input
 ends inside a document

With the final fragment delivered, every place that needs more input looped
without asking for any, and a document cut off elsewhere was accepted.
---
 pylib/uxml/parser.py | 22 ++++++++++++----------
 1 file changed, 12 insertions(+), 10 deletions(-)

diff --git a/pylib/uxml/parser.py b/pylib/uxml/parser.py
index 3e67b42..a10c8d8 100644
--- a/pylib/uxml/parser.py
+++ b/pylib/uxml/parser.py
@@ -168,7 +168,7 @@ def parser(handler, strict=True):
                             while window[pos] in ' \r\n\t':
                                 pos += 1
                         except IndexError:
-                            if not done: need_input = True #Do not advance until we have enough input
+                            need_input = True #Do not advance until we have enough input
                             continue
                         #if not done and pos == wlen:
                         #    need_input = True
@@ -186,7 +186,7 @@ def parser(handler, strict=True):
                             while window[pos] in ' \r\n\t':
                                 pos += 1
                         except IndexError:
-                            if not done: need_input = True #Do not advance until we have enough input
+                            need_input = True #Do not advance until we have enough input
                             continue
                         if curr_state == state.pre_tag_gi and window[pos] == '/':
                             pos += 1
@@ -203,7 +203,7 @@ def parser(handler, strict=True):
                                 while NAMECHAR.match(window[advpos]):
                                     advpos += 1
                         except IndexError:
-                            if not done: need_input = True #Do not advance until we have enough input
+                            need_input = True #Do not advance until we have enough input
                             continue
                         else:
                             gi = window[pos:advpos]
@@ -215,7 +215,7 @@ def parser(handler, strict=True):
                             while window[pos] in ' \r\n\t':
                                 pos += 1
                         except IndexError:
-                            if not done: need_input = True #Do not advance until we have enough input
+                            need_input = True #Do not advance until we have enough input
                             continue
                         #Check for attributes
                         if pending_event == event.start_element and NAMESTARTCHAR.match(window[pos]):
@@ -254,7 +254,7 @@ def parser(handler, strict=True):
                             while NAMECHAR.match(window[advpos]):
                                 advpos += 1
                         except IndexError:
-                            if not done: need_input = True #Do not advance until we have enough input
+                            need_input = True #Do not advance until we have enough input
                             pos = backtrackpos
                             continue
                         else:
@@ -266,7 +266,7 @@ def parser(handler, strict=True):
                             while window[pos] in ' \r\n\t':
                                 pos += 1
                         except IndexError:
-                            if not done: need_input = True #Do not advance until we have enough input
+                            need_input = True #Do not advance until we have enough input
                             pos = backtrackpos
                             continue
 
@@ -274,7 +274,7 @@ def parser(handler, strict=True):
                             pos += 1
                         else:
                             raise RuntimeError('Expected \'=\', found {0} (around {1})'.format(window[pos], error_context(window, pos, pos)))
-                        if not done and pos == wlen:
+                        if pos == wlen:
                             need_input = True
                             pos = backtrackpos
                             continue
@@ -286,7 +286,7 @@ def parser(handler, strict=True):
                             #pos + 1 to skip the opening quote
                             aval, newpos = handle_cdata(pos+1, window, attrpat, openattr)
                             if aval == None:
-                                if not done: need_input = True
+                                need_input = True
                                 #Don't advance to newpos, so effectively backtrack
                                 continue
                                 #if window[pos] != openattr:
@@ -297,7 +297,7 @@ def parser(handler, strict=True):
                     if curr_state == state.in_element:
                         chars, newpos = handle_cdata(pos, window, DATACHAR, '<')
                         if chars == None:
-                            if not done: need_input = True
+                            need_input = True
                             #Don't advance to newpos, so effectively backtrack
                             continue
                         pos = newpos
@@ -317,7 +317,7 @@ def parser(handler, strict=True):
                             while window[pos] in ' \r\n\t':
                                 pos += 1
                         except IndexError:
-                            if not done: need_input = True #Do not advance until we have enough input
+                            need_input = True #Do not advance until we have enough input
                             continue
                         #if not done and pos == wlen:
                         #    need_input = True
@@ -328,6 +328,8 @@ def parser(handler, strict=True):
                             raise RuntimeError('Junk after document element')
                     #print('END1')
                 #print('END2')
+            if curr_state not in (state.pre_element, state.complete_doc):
+                raise RuntimeError('Unexpected end of document')
             sentinel = yield #Avoid StopIteration in parent from running off enf of coroutine?
         except GeneratorExit:
             #close() called
-- 
2.43.0


From 3323baddc88e14a08c3baf6bd21723d1bad1c4f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:07:32 +0000
Subject: [PATCH 03/87] fix: MicroXML parser fails when a fragment ends within
 an attribute value

It resumed reading an attribute name from the opening quote.
---
 pylib/uxml/parser.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pylib/uxml/parser.py b/pylib/uxml/parser.py
index a10c8d8..8078ab4 100644
--- a/pylib/uxml/parser.py
+++ b/pylib/uxml/parser.py
@@ -287,7 +287,8 @@ def parser(handler, strict=True):
                             aval, newpos = handle_cdata(pos+1, window, attrpat, openattr)
                             if aval == None:
                                 need_input = True
-                                #Don't advance to newpos, so effectively backtrack
+                                #Back to the start of the attribute, as this state expects
+                                pos = backtrackpos
                                 continue
                                 #if window[pos] != openattr:
                                 #    raise RuntimeError('Mismatch in attribute quotes')
-- 
2.43.0


From f2be7130593d878ea1ede0f81e11b43de16840a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:07:32 +0000
Subject: [PATCH 04/87] fix: MicroXML parser loops forever on junk before the
 document element

---
 pylib/uxml/parser.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pylib/uxml/parser.py b/pylib/uxml/parser.py
index 8078ab4..6e4cb2c 100644
--- a/pylib/uxml/parser.py
+++ b/pylib/uxml/parser.py
@@ -176,6 +176,8 @@ def parser(handler, strict=True):
                         if window[pos] == '<':
                             pos += 1
                             curr_state = state.pre_tag_gi
+                        else:
+                            raise RuntimeError('Junk before document element')
                         #if not done and pos == wlen:
                         #    need_input = True
                         #    continue
-- 
2.43.0


From 8895453a42344c11e92f26656af73179c968bbf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:07:34 +0000
Subject: [PATCH 05/87] fix: illegal character reference taken for a lack of
 input

The misplaced parenthesis made format() raise IndexError, which the caller
reads as the end of the available input.
---
 pylib/uxml/parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pylib/uxml/parser.py b/pylib/uxml/parser.py
index 6e4cb2c..e39be21 100644
--- a/pylib/uxml/parser.py
+++ b/pylib/uxml/parser.py
@@ -124,7 +124,7 @@ def handle_cdata(pos, window, charpat, stopchars):
                                 raise RuntimeError('Unknown named character reference: {0}'.format(repr(window[start:cursor])))
                             break
                         else:
-                            raise RuntimeError('Illegal in character reference: {0} (around {1})'.format(window[cursor]), error_context(window, start, cursor))
+                            raise RuntimeError('Illegal in character reference: {0} (around {1})'.format(window[cursor], error_context(window, start, cursor)))
             #print(start, cursor, cdata, window[cursor])
             cursor += 1
             start = cursor
-- 
2.43.0


From 3103b17399d620d7b596fa7951d072af1e54fb21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:07:35 +0000
Subject: [PATCH 06/87] fix: characters not allowed as such are silently
 dropped from content

Text and attribute values lost '>', control characters, carriage returns, and
(in attributes) tabs and newlines, without any error.
---
 pylib/uxml/parser.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/pylib/uxml/parser.py b/pylib/uxml/parser.py
index e39be21..ae421ad 100644
--- a/pylib/uxml/parser.py
+++ b/pylib/uxml/parser.py
@@ -125,6 +125,13 @@ def handle_cdata(pos, window, charpat, stopchars):
                             break
                         else:
                             raise RuntimeError('Illegal in character reference: {0} (around {1})'.format(window[cursor], error_context(window, start, cursor)))
+            elif window[cursor] in '\t\r\n':
+                #Line breaks become newlines, and any white space in attribute values a space, as in XML
+                if window[cursor] == '\r' and window[cursor+1] == '\n':
+                    cursor += 1
+                cdata += '\n' if stopchars == '<' else ' '
+            else:
+                raise RuntimeError('Illegal character: {0} (around {1})'.format(repr(window[cursor]), error_context(window, start, cursor)))
             #print(start, cursor, cdata, window[cursor])
             cursor += 1
             start = cursor
-- 
2.43.0


From 2d688a416c561ec150f12eb1d645fdabc37e6840 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:07:36 +0000
Subject: [PATCH 07/87] fix: attribute silently lost when its value does not
 follow at once

An attribute with white space or another name after the equals sign was
dropped, or failed on the next character; allow the white space, and require
the quoted value.
---
 pylib/uxml/parser.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/pylib/uxml/parser.py b/pylib/uxml/parser.py
index ae421ad..acf3e23 100644
--- a/pylib/uxml/parser.py
+++ b/pylib/uxml/parser.py
@@ -283,8 +283,12 @@ def parser(handler, strict=True):
                             pos += 1
                         else:
                             raise RuntimeError('Expected \'=\', found {0} (around {1})'.format(window[pos], error_context(window, pos, pos)))
-                        if pos == wlen:
-                            need_input = True
+                        #Eat up any whitespace
+                        try:
+                            while window[pos] in ' \r\n\t':
+                                pos += 1
+                        except IndexError:
+                            need_input = True #Do not advance until we have enough input
                             pos = backtrackpos
                             continue
 
@@ -304,6 +308,8 @@ def parser(handler, strict=True):
                             pos = newpos + 1 #Skip the closing quote
                             attribs[aname] = aval
                             curr_state = state.complete_tag
+                        else:
+                            raise RuntimeError('Expected quoted attribute value, found {0} (around {1})'.format(window[pos], error_context(window, pos, pos)))
                     if curr_state == state.in_element:
                         chars, newpos = handle_cdata(pos, window, DATACHAR, '<')
                         if chars == None:
-- 
2.43.0


From adea08ba5495bb475b4794738a1cea1c62b24433 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:07:38 +0000
Subject: [PATCH 08/87] fix: MicroXML parser silently drops a duplicated
 attribute

---
 pylib/uxml/parser.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pylib/uxml/parser.py b/pylib/uxml/parser.py
index acf3e23..fc57f91 100644
--- a/pylib/uxml/parser.py
+++ b/pylib/uxml/parser.py
@@ -268,6 +268,8 @@ def parser(handler, strict=True):
                             continue
                         else:
                             aname = window[pos:advpos]
+                            if aname in attribs:
+                                raise RuntimeError('Duplicate attribute {0} (around {1})'.format(aname, error_context(window, pos, advpos)))
                             pos = advpos
 
                         #Eat up any whitespace
-- 
2.43.0


From 97dc3182790cb87b512a4b44c32f1454a7519d72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:07:39 +0000
Subject: [PATCH 09/87] fix: MicroXML parser accepts tags without a name

---
 pylib/uxml/parser.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pylib/uxml/parser.py b/pylib/uxml/parser.py
index fc57f91..0178962 100644
--- a/pylib/uxml/parser.py
+++ b/pylib/uxml/parser.py
@@ -216,6 +216,8 @@ def parser(handler, strict=True):
                             continue
                         else:
                             gi = window[pos:advpos]
+                            if not gi:
+                                raise RuntimeError('Expected element name, found {0} (around {1})'.format(window[pos], error_context(window, pos, pos)))
                             pos = advpos
                             curr_state = state.complete_tag
                     if curr_state == state.complete_tag:
-- 
2.43.0


From 337fbd212d2bbdb185f0b184459508aa22f32832 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:07:41 +0000
Subject: [PATCH 10/87] fix: MicroXML parser rejects names with '.' or with
 letters U+00C1 to U+00D5

---
 pylib/uxml/parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pylib/uxml/parser.py b/pylib/uxml/parser.py
index 0178962..214bac1 100644
--- a/pylib/uxml/parser.py
+++ b/pylib/uxml/parser.py
@@ -46,7 +46,7 @@ NAMESTARTCHAR = re.compile('[A-Za-z_\u00C0-\u00D6\u00D8-\u00F6\u00F8-\u02FF\u037
             '\u037F-\u1FFF\u200C-\u200D\u2070-\u218F\u2C00-\u2FEF\u3001-\uD7FF' \
             '\uF900-\uFDCF\uFDF0-\uFFFD\U00010000-\U000EFFFF]')
 
-NAMECHAR =  re.compile('[0-9A-Za-z_\u00B7-\u00C0-\u00D6\u00D8-\u00F6\u00F8-\u037D' \
+NAMECHAR =  re.compile('[-.0-9A-Za-z_\u00B7\u00C0-\u00D6\u00D8-\u00F6\u00F8-\u037D' \
             '\u037F-\u1FFF\u200C-\u200D\u203F-\u2040\u2070-\u218F\u2C00-\u2FEF\u3001-\uD7FF' \
             '\uF900-\uFDCF\uFDF0-\uFFFD\U00010000-\U000EFFFF]')
 
-- 
2.43.0


From 9c2560d58859e959c348ec24a95fd70eb954d5c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:09:24 +0000
Subject: [PATCH 11/87] fix: encoded attributes use decimal character
 references

MicroXML has only hexadecimal ones, so a tree with a tab or newline in an
attribute value was written in a form the MicroXML parser rejects.
---
 pylib/uxml/tree.py   | 10 +++++++++-
 pylib/uxml/writer.py |  3 ++-
 2 files changed, 11 insertions(+), 2 deletions(-)

diff --git a/pylib/uxml/tree.py b/pylib/uxml/tree.py
index 2f3a5d8..2d33b6d 100644
--- a/pylib/uxml/tree.py
+++ b/pylib/uxml/tree.py
@@ -9,13 +9,21 @@
 
 import sys
 import weakref
-from xml.sax.saxutils import escape, quoteattr
+from xml.sax.saxutils import escape, quoteattr as sax_quoteattr
 
 from amara3.uxml.parser import parser, event  # parse, parsefrags
 
 # NO_PARENT = object()
 
 
+def quoteattr(data):
+    '''
+    Escape and quote an attribute value, using only hexadecimal character references, as MicroXML requires
+    '''
+    quoted = sax_quoteattr(data)
+    return quoted.replace('&#10;', '&#xA;').replace('&#13;', '&#xD;').replace('&#9;', '&#x9;')
+
+
 class node:
     def __init__(self, parent=None):
         self._xml_parent = weakref.ref(parent) if parent is not None else None
diff --git a/pylib/uxml/writer.py b/pylib/uxml/writer.py
index f1ac03f..804a059 100644
--- a/pylib/uxml/writer.py
+++ b/pylib/uxml/writer.py
@@ -4,9 +4,10 @@ Raw XML writer
 '''
 
 from enum import Enum #https://docs.python.org/3.4/library/enum.html
-from xml.sax.saxutils import escape, quoteattr
+from xml.sax.saxutils import escape
 
 from amara3.uxml import tree, xml
+from amara3.uxml.tree import quoteattr
 
 class token(Enum):
     start_open = 1
-- 
2.43.0


From dd4ed7833f6e4a5c0b9896237c933784e57226bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:09:25 +0000
Subject: [PATCH 12/87] fix: xml_remove removes the first text node of equal
 value rather than the given one

---
 pylib/uxml/tree.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/pylib/uxml/tree.py b/pylib/uxml/tree.py
index 2d33b6d..7c062e6 100644
--- a/pylib/uxml/tree.py
+++ b/pylib/uxml/tree.py
@@ -154,9 +154,14 @@ class element(node):
 
         child - the child to remove
         '''
-        if child in self.xml_children:
-            child._xml_parent = None
-            self.xml_children.remove(child)
+        #Text nodes compare equal by value, so first look for the very node
+        for index, candidate in enumerate(self.xml_children):
+            if candidate is child:
+                break
+        else:
+            index = self.xml_children.index(child) if child in self.xml_children else None
+        if index is not None:
+            self.xml_children.pop(index)._xml_parent = None
         else:
             raise ValueError(f'Element {self} has no child {child}')
         return
-- 
2.43.0


From a6193a49b8a818bd58ef2548d6e8b75d5b6fe055 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:09:26 +0000
Subject: [PATCH 13/87] fix: sender with several patterns mixes up their states

The element stack was shared by the patterns, and each pattern was compiled
as a prefix to the one before it.
---
 pylib/uxml/treeiter.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pylib/uxml/treeiter.py b/pylib/uxml/treeiter.py
index 9a047fa..d6b92f9 100644
--- a/pylib/uxml/treeiter.py
+++ b/pylib/uxml/treeiter.py
@@ -53,7 +53,7 @@ class sender:
         self._roots = [None] * self._pattern_count
         self._parents = [None] * self._pattern_count
         self._stateses = [None] * self._pattern_count
-        self._evstacks = [[]] * self._pattern_count
+        self._evstacks = [ [] for i in range(self._pattern_count) ]
         self._building_depths = [0] * self._pattern_count
         # if asyncio.iscoroutine(sink):
         if prime_sinks:
@@ -91,8 +91,8 @@ class sender:
         return _any_func
 
     def _prep_patterns(self):
-        next_state = MATCHED_STATE
         for ix, pattern in enumerate(self._patterns):
+            next_state = MATCHED_STATE
             for i in range(len(pattern)):
                 stage = pattern[-i-1]
                 if isinstance(stage, str):
-- 
2.43.0


From 506385ba8cb5658640ebbb3ec4973e346444b5a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:09:27 +0000
Subject: [PATCH 14/87] fix: '**' in patterns misses elements once what follows
 it has matched

It gave up on every other way to match as soon as the next step matched, so
('**', 'a', 'b') missed a/a/b, and select_pattern with ('**', 'a') missed
the a descendants of another a.
---
 pylib/uxml/treeiter.py | 23 +++++++++++++----------
 pylib/uxml/treeutil.py | 20 +++++++++++++-------
 2 files changed, 26 insertions(+), 17 deletions(-)

diff --git a/pylib/uxml/treeiter.py b/pylib/uxml/treeiter.py
index d6b92f9..5014954 100644
--- a/pylib/uxml/treeiter.py
+++ b/pylib/uxml/treeiter.py
@@ -78,10 +78,9 @@ class sender:
     def _any_until(self, next):
         def _any_until_func(ev):
             if ev[0] == event.start_element:
+                #The wildcard can end here, or continue to a later match of what follows
                 next_next = next(ev)
-                if next_next is not None:
-                    return next_next
-            return _any_until_func
+                return (next_next if isinstance(next_next, tuple) else (next_next,)) + (_any_until_func,)
         return _any_until_func
 
     def _any(self, next, funcs):
@@ -111,13 +110,17 @@ class sender:
         return
 
     def _match_state(self, ix):
-        new_state = self._stateses[ix]
-        for depth, ev in enumerate(self._evstacks[ix]):
-            new_state = new_state(ev)
-            if new_state == MATCHED_STATE:
-                return True
-            elif new_state is None:
-                return False
+        states = [self._stateses[ix]]
+        for ev in self._evstacks[ix]:
+            new_states = []
+            for state in states:
+                result = state(ev)
+                for new_state in (result if isinstance(result, tuple) else (result,)):
+                    if new_state == MATCHED_STATE:
+                        return True
+                    elif new_state is not None and new_state not in new_states:
+                        new_states.append(new_state)
+            states = new_states
         return False
 
     def _handler(self):
diff --git a/pylib/uxml/treeutil.py b/pylib/uxml/treeutil.py
index fe63f9d..5b1ebb8 100644
--- a/pylib/uxml/treeutil.py
+++ b/pylib/uxml/treeutil.py
@@ -106,10 +106,9 @@ def elem_test(next):
 def any_until(next):
     def _any_until(node):
         if isinstance(node, element):
+            #The wildcard can end here, or continue to a later match of what follows
             next_next = next(node)
-            if next_next is not None:
-                return next_next
-        return _any_until #Return this same state until we can match the next
+            return (next_next if isinstance(next_next, tuple) else (next_next,)) + (_any_until,)
     return _any_until
 
 def any_(next, funcs):
@@ -162,15 +161,22 @@ def select_pattern(node, pattern, state=None):
     >>> results
     ['1', '2', '3', '4']
     '''
+    #state is a list of the alternative states reached so far
     if state is None:
-        state = _prep_pattern(pattern)
+        state = [_prep_pattern(pattern)]
     #for child in select_elements(elem):
     if isinstance(node, element):
         for child in node.xml_children:
-            new_state = state(child)
-            if new_state == MATCHED_STATE:
+            new_state = []
+            for alternative in state:
+                result = alternative(child)
+                for s in (result if isinstance(result, tuple) else (result,)):
+                    if s is not None and s not in new_state:
+                        new_state.append(s)
+            if MATCHED_STATE in new_state:
                 yield child
-            elif new_state is not None:
+                new_state.remove(MATCHED_STATE)
+            if new_state:
                 yield from select_pattern(child, None, state=new_state)
     return
 
-- 
2.43.0


From fc0a6192fefa2056a6046fda301e76ef87ea5150 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:09:29 +0000
Subject: [PATCH 15/87] fix: select_pattern fails with a tuple of alternative
 names

---
 pylib/uxml/treeutil.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pylib/uxml/treeutil.py b/pylib/uxml/treeutil.py
index 5b1ebb8..255f6db 100644
--- a/pylib/uxml/treeutil.py
+++ b/pylib/uxml/treeutil.py
@@ -130,7 +130,7 @@ def _prep_pattern(pattern):
             else:
                 next_state = name_test(next_state, stage)
         elif isinstance(stage, tuple):
-            new_tuple = tuple(( name_test(substage) if isinstance(substage, str) else substage for substage in stage ))
+            new_tuple = tuple(( name_test(True, substage) if isinstance(substage, str) else substage for substage in stage ))
             next_state = any_(next_state, new_tuple)
         else:
             raise ValueError('Cannot interpret pattern component {0}'.format(repr(stage)))
-- 
2.43.0


From e71455d8caa95a868a8dd1d24d4e6b7f20224887 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:09:30 +0000
Subject: [PATCH 16/87] fix: make_pretty ignores the given indentation below
 the first level

---
 pylib/uxml/treeutil.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pylib/uxml/treeutil.py b/pylib/uxml/treeutil.py
index 255f6db..70adc69 100644
--- a/pylib/uxml/treeutil.py
+++ b/pylib/uxml/treeutil.py
@@ -223,7 +223,7 @@ def make_pretty(elem, depth=0, indent='  '):
                 updated_child_list.append(new_text)
                 updated_child_list.append(child)
                 updated_child_ix += 2
-            make_pretty(child, depth)
+            make_pretty(child, depth, indent)
         else:
             if child.xml_value.strip():
                 #More to it than whitespace, so leave alone
-- 
2.43.0


From 5370c1bfd68f5f109158c2a33a84600c331a0b7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:09:31 +0000
Subject: [PATCH 17/87] fix: following_siblings starts from the first text node
 of equal value

---
 pylib/uxml/treeutil.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pylib/uxml/treeutil.py b/pylib/uxml/treeutil.py
index 70adc69..44e53f6 100644
--- a/pylib/uxml/treeutil.py
+++ b/pylib/uxml/treeutil.py
@@ -77,7 +77,7 @@ def following_siblings(elem):
     '''
     Yields elements and text which have the same parent as elem, but come afterward in document order
     '''
-    it = itertools.dropwhile(lambda x: x != elem, elem.xml_parent.xml_children)
+    it = itertools.dropwhile(lambda x: x is not elem, elem.xml_parent.xml_children)
     next(it, None) #Skip the element itself, if any
     return it
 
-- 
2.43.0


From 5227d26a3a209b25c9cc04aad895ec0f979d4b5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:10:01 +0000
Subject: [PATCH 18/87] fix: make_pretty indents an end tag as a child if white
 space came before it

So running it on its own output changed that output.
---
 pylib/uxml/treeutil.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pylib/uxml/treeutil.py b/pylib/uxml/treeutil.py
index 44e53f6..678bf68 100644
--- a/pylib/uxml/treeutil.py
+++ b/pylib/uxml/treeutil.py
@@ -231,8 +231,9 @@ def make_pretty(elem, depth=0, indent='  '):
                 updated_child_list.append(child)
                 updated_child_ix += 1
             else:
-                #Only whitespace, so replace with proper indentation
-                new_text = text('\n' + indent*depth, elem)
+                #Only whitespace, so replace with proper indentation, which is that of the end tag for the last child
+                last = child is elem.xml_children[-1]
+                new_text = text('\n' + indent*(depth-1 if last else depth), elem)
                 updated_child_list.append(new_text)
                 updated_child_ix += 1
     #Trailing indentation might be needed
-- 
2.43.0


From df82391cb2d2d9fc889902a2695d83391afcc2da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:10:03 +0000
Subject: [PATCH 19/87] fix: XML text is split into several nodes at line
 breaks and references

As the README has it, "\n  " before the first child is one text node, and it
is so with the MicroXML parser.
---
 pylib/uxml/xml.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/pylib/uxml/xml.py b/pylib/uxml/xml.py
index afcbd2c..9eb2368 100644
--- a/pylib/uxml/xml.py
+++ b/pylib/uxml/xml.py
@@ -16,13 +16,22 @@ class expat_callbacks(object):
     def __init__(self, handler, prime_handler=True):
         self._handler = handler
         self._elem_stack = []
+        #Expat reports contiguous text in pieces, which are put together here
+        self._text = []
         # if asyncio.iscoroutine(handler):
         if prime_handler:
             next(handler)  # Prime coroutine
         return
 
+    def flush_text(self):
+        if self._text:
+            data = ''.join(self._text)
+            self._text = []
+            self._handler.send((event.characters, data))
+
     def start_element(self, name, attrs):
         #print('Start element:', name, attrs)
+        self.flush_text()
         local = name.split()[-1]
         #print(attrs, name)
         new_attrs = {}
@@ -33,13 +42,14 @@ class expat_callbacks(object):
 
     def end_element(self, name):
         #print('End element:', name)
+        self.flush_text()
         local = name.split()[1] if ' ' in name else name
         self._elem_stack.pop()
         self._handler.send((event.end_element, local, self._elem_stack.copy()))
 
     def char_data(self, data):
         #print('Character data:', repr(data))
-        self._handler.send((event.characters, data))
+        self._text.append(data)
 
     def start_namespace(self, prefix, ns):
         pass
-- 
2.43.0


From ccb386af8bf6abfcb630ce8b56efe2b7eff69a5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:10:04 +0000
Subject: [PATCH 20/87] fix: XML tree builder returns the first document again
 when used twice

---
 pylib/uxml/xml.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pylib/uxml/xml.py b/pylib/uxml/xml.py
index 9eb2368..a180a9c 100644
--- a/pylib/uxml/xml.py
+++ b/pylib/uxml/xml.py
@@ -127,6 +127,9 @@ class treebuilder(tree.treebuilder):
     root
     '''
     def parse(self, source):
+        #reset
+        self._root = None
+        self._parent = None
         self.handler = expat_callbacks(self._handler())
         self.expat_parser = xml.parsers.expat.ParserCreate(namespace_separator=' ')
 
-- 
2.43.0


From 4effb14c125b63226c849ec4bc2ba020f475f73b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:10:05 +0000
Subject: [PATCH 21/87] fix: XML tree builder accepts a document cut short

---
 pylib/uxml/xml.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pylib/uxml/xml.py b/pylib/uxml/xml.py
index a180a9c..11cd33e 100644
--- a/pylib/uxml/xml.py
+++ b/pylib/uxml/xml.py
@@ -138,6 +138,6 @@ class treebuilder(tree.treebuilder):
         self.expat_parser.CharacterDataHandler = self.handler.char_data
         self.expat_parser.StartNamespaceDeclHandler = self.handler.start_namespace
         self.expat_parser.EndNamespaceDeclHandler = self.handler.end_namespace
-        self.expat_parser.Parse(source)
+        self.expat_parser.Parse(source, True)
         return self._root
 
-- 
2.43.0


From b8821767f94d8f76f2a5fd19166baa48a5faf8ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:10:06 +0000
Subject: [PATCH 22/87] fix: ns_expat_callbacks cannot be created, or used
 without namespaces

---
 pylib/uxml/xml.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pylib/uxml/xml.py b/pylib/uxml/xml.py
index 11cd33e..5a710d3 100644
--- a/pylib/uxml/xml.py
+++ b/pylib/uxml/xml.py
@@ -59,8 +59,8 @@ class expat_callbacks(object):
 
 
 class ns_expat_callbacks(expat_callbacks):
-    def __init__(self, handler, asyncio_based_handler=True, stream=False):
-        expat_callbacks.__init__(self, handler, asyncio_based_handler=asyncio_based_handler)
+    def __init__(self, handler, prime_handler=True, stream=False):
+        expat_callbacks.__init__(self, handler, prime_handler=prime_handler)
         #Namespace mappings encountered through the document, updated dynamically as the document is traversed
         self.prefixes = {}
         self.prefixes_rev = {}
@@ -85,7 +85,7 @@ class ns_expat_callbacks(expat_callbacks):
         #print('Start element:', name, attrs)
         ns, local = name.split() if ' ' in name else (None, name)
         if local not in self.ns_portfolio:
-            self.ns_portfolio[local] = (ns, self.prefixes_rev[ns])
+            self.ns_portfolio[local] = (ns, self.prefixes_rev.get(ns))
         for aname, aval in attrs.items():
             ans, alocal = aname.split() if ' ' in aname else (None, aname)
             self.ns_portfolio['@' + alocal] = (ans, self.prefixes_rev.get(ans, ''))
-- 
2.43.0


From 1d75c13efe3b4e36c7abe2116cabc843f4ac70bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:11:23 +0000
Subject: [PATCH 23/87] fix: HTML element clones are not recognized by html5lib

The clones it makes for misnested formatting elements lost the name and
namespace it knows them by, which left stray elements in the tree.
---
 pylib/uxml/html5.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/pylib/uxml/html5.py b/pylib/uxml/html5.py
index 1b65eff..0b2638d 100644
--- a/pylib/uxml/html5.py
+++ b/pylib/uxml/html5.py
@@ -155,7 +155,12 @@ class element(tree.element, node):
         name and attributes but with no parent or child nodes
         """
         attrs = self.xml_attributes.copy()
-        return element(self.xml_name, attrs=attrs)
+        clone = element(self.xml_name, attrs=attrs)
+        #html5lib has to recognize the clone, as it does this element
+        for aname in ('xml_html5lib_name', 'xml_html5lib_namespace'):
+            if hasattr(self, aname):
+                setattr(clone, aname, getattr(self, aname))
+        return clone
 
 
 # class comment(tree.comment):
-- 
2.43.0


From 9f5045b5dfe29f3f597e943fb7c818b05ed4a64b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:11:25 +0000
Subject: [PATCH 24/87] fix: HTML with SVG, MathML or names with colons is put
 in the wrong place

html5lib was shown no namespace for elements other than those of HTML, and
neither namespace nor full name for those with a colon in the name.
---
 pylib/uxml/html5.py | 14 ++++----------
 1 file changed, 4 insertions(+), 10 deletions(-)

diff --git a/pylib/uxml/html5.py b/pylib/uxml/html5.py
index 0b2638d..564304b 100644
--- a/pylib/uxml/html5.py
+++ b/pylib/uxml/html5.py
@@ -244,8 +244,6 @@ class doctype(node):
         return "<!--%s-->" % self.data
 
 
-MARKER = object()
-
 BOGUS_NAMESPACE = u'urn:bogus:x'
 NAME_FOR_ELEMENTS_UNNAMED_BY_HTML5LIB = u'UNNAMED_BY_HTML5LIB'
 XHTML_NAMESPACE = 'http://www.w3.org/1999/xhtml'
@@ -268,28 +266,24 @@ class treebuilder(TreeBuilder):
         #We'll take care of that ourselves with the if not use_xhtml_ns... below
         TreeBuilder.__init__(self, True)
         def eclass(name, namespace):
-            xml_html5lib_name, xml_html5lib_namespace = MARKER, MARKER
+            #Name and namespace as html5lib expects to find them in the element
+            xml_html5lib_name, xml_html5lib_namespace = name, namespace
             if not use_xhtml_ns and namespace == XHTML_NAMESPACE:
                 #html5lib feints support for HTML5 elements kept in the null namespace
                 #But in reality this support is broken.  We have to in effect keep
                 #Two namespaces for each element, the real one from an amara perspective
                 #And another that is always XHTML for HTML5 elements, so html5lib doesn't break
-                xml_html5lib_namespace = namespace
                 namespace = None
             #For some reason html5lib sometimes sends None as name
             if not name:
-                xml_html5lib_name = name
                 name = NAME_FOR_ELEMENTS_UNNAMED_BY_HTML5LIB
             #import sys; print >> sys.stderr, (namespace, name, use_xhtml_ns)
             #Deal with some broken HTML that uses bogus colons in tag names
             if (u":" in name and not namespace):
-                xml_html5lib_namespace = namespace
                 namespace = BOGUS_NAMESPACE
             elem = element(qname_to_local(name))
-            if xml_html5lib_namespace != MARKER:
-                elem.xml_html5lib_namespace = xml_html5lib_namespace
-            if xml_html5lib_name != MARKER:
-                elem.xml_html5lib_name = xml_html5lib_name
+            elem.xml_html5lib_namespace = xml_html5lib_namespace
+            elem.xml_html5lib_name = xml_html5lib_name
             return elem
         self.elementClass = eclass
         self.fragmentClass = eclass
-- 
2.43.0


From ece35571bb5d8ff3cfbc5b2e1f14eca968b86c35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:12:48 +0000
Subject: [PATCH 25/87] fix: parse_lax_xml fails on text or a comment before
 the first element

It took the first child of the body whatever it was, and where there was
none, IndexError escaped rather than the ValueError meant for that.
---
 pylib/uxml/html5.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/pylib/uxml/html5.py b/pylib/uxml/html5.py
index 564304b..ad91242 100644
--- a/pylib/uxml/html5.py
+++ b/pylib/uxml/html5.py
@@ -339,14 +339,14 @@ def parse_lax_xml(source, prefixes=None, model=None, encoding=None):
     '''
     false_top = parse(source, prefixes=prefixes, model=model, encoding=encoding,
                         use_xhtml_ns=False)
-    top = false_top.xml_children[1].xml_children[0]
+    body = false_top.xml_children[1]
+    top = next(select_elements(body), None)
+    if top is None:
+        raise ValueError('Unable to process input even as tag soup XML')
     # Detach the bit we want from the wrapper
-    false_top.xml_children[1].xml_remove(top)
+    body.xml_remove(top)
     del false_top  # Ensure cleanup
-    try:
-        return top
-    except IndexError:
-        raise ValueError('Unable to process input even as tag soup XML')
+    return top
 
 
 def markup_fragment(source, encoding=None):
-- 
2.43.0


From 1c3b93d28903e169d2f47cd4637764db2a68bfb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:12:50 +0000
Subject: [PATCH 26/87] fix: markup_fragment always fails

---
 pylib/uxml/html5.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pylib/uxml/html5.py b/pylib/uxml/html5.py
index ad91242..5360939 100644
--- a/pylib/uxml/html5.py
+++ b/pylib/uxml/html5.py
@@ -362,6 +362,6 @@ def markup_fragment(source, encoding=None):
     See also: http://wiki.xml3k.org/Amara2/Tagsoup [TODO: Page defunct - restore it]
     '''
     doc = parse(source, encoding=encoding)
-    frag = doc.html.body
+    frag = next(select_name(doc, 'body'), None)
     return frag
 
-- 
2.43.0


From e5894e6e728176aa75867cb8e87c72df0b7a594f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:12:51 +0000
Subject: [PATCH 27/87] fix: html5iter sender always fails

html5 has no coroutine parser; send the events of the tree it builds.
---
 pylib/uxml/html5iter.py | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/pylib/uxml/html5iter.py b/pylib/uxml/html5iter.py
index b1b9ea1..89e6cb9 100644
--- a/pylib/uxml/html5iter.py
+++ b/pylib/uxml/html5iter.py
@@ -6,6 +6,7 @@
 
 from . import tree
 from . import treeiter
+from .parser import event
 from .treeutil import *
 from . import html5
 
@@ -26,8 +27,17 @@ class sender(treeiter.sender):
     '''
     def parse(self, doc):
         h = self._handler()
-        p = html5.parser(h)
-        p.send((doc, False))
-        p.send(('', True))  # Wrap it up
+        next(h)  # Prime the coroutine
+        self._send_events(h, html5.parse(doc), [])
+        return
+
+    def _send_events(self, handler, elem, ancestors):
+        handler.send((event.start_element, elem.xml_name, elem.xml_attributes.copy(), ancestors))
+        for child in elem.xml_children:
+            if isinstance(child, tree.element):
+                self._send_events(handler, child, ancestors + [elem.xml_name])
+            elif child.xml_value:
+                handler.send((event.characters, child.xml_value))
+        handler.send((event.end_element, elem.xml_name, ancestors))
         return
 
-- 
2.43.0


From a3ea571ba75e9b48046e29fa064672bb459f9223 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:13:12 +0000
Subject: [PATCH 28/87] fix: MicroXML scanner runs interfere through the shared
 lexer

A run that ended or was left within a tag changed the next one, and two runs
at once read each other's input.
---
 pylib/uxml/lex.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/pylib/uxml/lex.py b/pylib/uxml/lex.py
index ffabf2f..87bd4ae 100644
--- a/pylib/uxml/lex.py
+++ b/pylib/uxml/lex.py
@@ -157,7 +157,6 @@ def t_error(t):
 
 t_data_error = t_tag_error = t_attrsgl_error = t_attrdbl_error = t_error
 
-# FIXME: Terribly non-reentrant with use of global here.  Right now it's because the lexer is so slow to build.  Figure out how to mitigate...
 # Build the lexer
 lexer = lex.lex() #debug=True
 lexer.begin('data')
@@ -165,10 +164,12 @@ lexer.begin('data')
 def run(s):
     s = s.replace(u'\r\n', u'\n')
     s = s.replace(u'\r', u'\n')
-    lexer.input(s)
+    # The shared lexer is slow to build, but its clones are cheap, and independent
+    run_lexer = lexer.clone()
+    run_lexer.input(s)
     # Tokenize
     while True:
-        tok = lexer.token()
+        tok = run_lexer.token()
         if not tok: break      # No more input
         yield tok
 
-- 
2.43.0


From c12f677e3c0c45879995b289ab0200ea7843e1c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:13:14 +0000
Subject: [PATCH 29/87] fix: XML end element event has the wrong name if the
 namespace has a space

---
 pylib/uxml/xml.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pylib/uxml/xml.py b/pylib/uxml/xml.py
index 5a710d3..5e145f7 100644
--- a/pylib/uxml/xml.py
+++ b/pylib/uxml/xml.py
@@ -43,7 +43,7 @@ class expat_callbacks(object):
     def end_element(self, name):
         #print('End element:', name)
         self.flush_text()
-        local = name.split()[1] if ' ' in name else name
+        local = name.split()[-1]
         self._elem_stack.pop()
         self._handler.send((event.end_element, local, self._elem_stack.copy()))
 
-- 
2.43.0


From 5f0168e89eaa98c64e60fa1c9afc4cd5567b7e50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:16:41 +0000
Subject: [PATCH 30/87] fix: MicroXPath predicates and paths apply to the whole
 expression before them

a = b[1] was read as (a = b)[1], a | b[1] as (a | b)[1], and a = b[1]/c as
(a = b[1])/c.
---
 pylib/uxml/uxpath/parserules.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pylib/uxml/uxpath/parserules.py b/pylib/uxml/uxpath/parserules.py
index 0415d58..9e35d2e 100644
--- a/pylib/uxml/uxpath/parserules.py
+++ b/pylib/uxml/uxpath/parserules.py
@@ -16,6 +16,7 @@ precedence = (
     ('left', 'MULT_OP', 'DIVMOD_OP'),
     ('right', 'UMINUS_OP'),
     ('left', 'UNION_OP'),
+    ('right', 'PATH_SEP', 'ABBREV_PATH_SEP', 'OPEN_BRACKET'),
 )
 
 #
-- 
2.43.0


From 3f4cf0c49c35294852f0c423b9c7df6bef26e7e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:16:43 +0000
Subject: [PATCH 31/87] fix: MicroXPath 'and' does not bind more tightly than
 'or'

---
 pylib/uxml/uxpath/lexrules.py   |  4 ++--
 pylib/uxml/uxpath/parserules.py | 15 ++++++++++-----
 2 files changed, 12 insertions(+), 7 deletions(-)

diff --git a/pylib/uxml/uxpath/lexrules.py b/pylib/uxml/uxpath/lexrules.py
index 199a655..bf539c0 100644
--- a/pylib/uxml/uxpath/lexrules.py
+++ b/pylib/uxml/uxpath/lexrules.py
@@ -10,8 +10,8 @@ from ply.lex import TOKEN
 
 # Note: element names can coincide with XPath operators (notably div)
 OPERATOR_NAMES = {
-    'or': 'LOGICAL_OP',
-    'and': 'LOGICAL_OP',
+    'or': 'OR_OP',
+    'and': 'AND_OP',
     'div': 'DIVMOD_OP',
     'mod': 'DIVMOD_OP',
 }
diff --git a/pylib/uxml/uxpath/parserules.py b/pylib/uxml/uxpath/parserules.py
index 9e35d2e..f90606c 100644
--- a/pylib/uxml/uxpath/parserules.py
+++ b/pylib/uxml/uxpath/parserules.py
@@ -9,7 +9,8 @@ from amara3.uxml.uxpath import xast
 from amara3.uxml.uxpath.lexrules import tokens
 
 precedence = (
-    ('left', 'LOGICAL_OP'),
+    ('left', 'OR_OP'),
+    ('left', 'AND_OP'),
     ('left', 'EQUAL_OP'),
     ('left', 'REL_OP'),
     ('left', 'PLUS_OP', 'MINUS_OP'),
@@ -25,7 +26,8 @@ precedence = (
 
 def p_expr_boolean(p):
     """
-    Expr : Expr LOGICAL_OP Expr
+    Expr : Expr OR_OP Expr
+         | Expr AND_OP Expr
          | Expr EQUAL_OP Expr
          | Expr REL_OP Expr
          | Expr PLUS_OP Expr
@@ -218,7 +220,8 @@ def p_name_test_star(p):
 def p_name_test_name(p):
     """
     NameTest : NAME
-             | LOGICAL_OP
+             | OR_OP
+             | AND_OP
              | DIVMOD_OP
     """
     p[0] = xast.name_test(p[1])
@@ -263,7 +266,8 @@ def p_predicate(p):
 def p_variable_reference(p):
     """
     VariableReference : DOLLAR NAME
-                      | DOLLAR LOGICAL_OP
+                      | DOLLAR OR_OP
+                      | DOLLAR AND_OP
                       | DOLLAR DIVMOD_OP
     """
     p[0] = xast.variable_reference(p[2])
@@ -286,7 +290,8 @@ def p_number(p):
 def p_function_call(p):
     """
     FunctionCall : NAME FormalArguments
-                 | LOGICAL_OP FormalArguments
+                 | OR_OP FormalArguments
+                 | AND_OP FormalArguments
                  | DIVMOD_OP FormalArguments
     """
     # Hacking around the ambiguity between node type test & function call
-- 
2.43.0


From 8f7b0ff8e787898c012aa2dcd012201975e84db2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:16:44 +0000
Subject: [PATCH 32/87] fix: text() and node() at the start of an expression
 test the context item

---
 pylib/uxml/uxpath/parserules.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pylib/uxml/uxpath/parserules.py b/pylib/uxml/uxpath/parserules.py
index f90606c..8c4fbdb 100644
--- a/pylib/uxml/uxpath/parserules.py
+++ b/pylib/uxml/uxpath/parserules.py
@@ -98,7 +98,11 @@ def p_expr_paths_etc(p):
          | FunctionCall
          | VariableReference
     """
-    p[0] = p[1]
+    if isinstance(p[1], xast.node_type_test):
+        #A node type test, taken for a function call, is a step on its own
+        p[0] = xast.step('child', p[1])
+    else:
+        p[0] = p[1]
 
 def p_expr_literal(p):
     """
-- 
2.43.0


From 0bfb9499458e9e3298ddc7ecc6ae2d7b5deaa2cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:16:46 +0000
Subject: [PATCH 33/87] fix: MicroXPath names cannot have letters U+00C0 to
 U+00D6

---
 pylib/uxml/uxpath/lexrules.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pylib/uxml/uxpath/lexrules.py b/pylib/uxml/uxpath/lexrules.py
index bf539c0..8c23f20 100644
--- a/pylib/uxml/uxpath/lexrules.py
+++ b/pylib/uxml/uxpath/lexrules.py
@@ -65,7 +65,7 @@ t_STAR_OP = r'\*'
 
 t_ignore = ' \t\r\n'
 
-NameStartChar = r'(' + r'[A-Z]|_|[a-z]|\xc0-\xd6]|[\xd8-\xf6]|[\xf8-\u02ff]|' + \
+NameStartChar = r'(' + r'[A-Z]|_|[a-z]|[\xc0-\xd6]|[\xd8-\xf6]|[\xf8-\u02ff]|' + \
     r'[\u0370-\u037d]|[\u037f-\u1fff]|[\u200c-\u200d]|[\u2070-\u218f]|' + \
     r'[\u2c00-\u2fef]|[\u3001-\uD7FF]|[\uF900-\uFDCF]|[\uFDF0-\uFFFD]' + \
     r'|[\U00010000-\U000EFFFF]' + r')'
-- 
2.43.0


From 2b0736080fa6fec1355940d35b0a9499c02d8407 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:16:47 +0000
Subject: [PATCH 34/87] fix: concurrent MicroXPath parses interfere through the
 shared lexer

---
 pylib/uxml/uxpath/__init__.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pylib/uxml/uxpath/__init__.py b/pylib/uxml/uxpath/__init__.py
index 781dd43..a66e356 100644
--- a/pylib/uxml/uxpath/__init__.py
+++ b/pylib/uxml/uxpath/__init__.py
@@ -67,8 +67,9 @@ def parse(xpath):
     >>> from amara3.uxml.uxpath import parse
     >>> xp = parse('a/text()')
     '''
+    # A clone for each use, so that concurrent uses do not read each other's input
     # Explicitly specify the lexer created above, otherwise parser.parse will use the most-recently created lexer. (Ewww! Wha?!)
-    return parser.parse(xpath, lexer=lexer)#, debug=True)
+    return parser.parse(xpath, lexer=lexer.clone())#, debug=True)
 
 
 class context(object):
-- 
2.43.0


From 977dd0f55979a5b3d14442770fad53500d7833e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:16:49 +0000
Subject: [PATCH 35/87] fix: qquery fails with a parsed expression

---
 pylib/uxml/uxpath/__init__.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pylib/uxml/uxpath/__init__.py b/pylib/uxml/uxpath/__init__.py
index a66e356..115c2b9 100644
--- a/pylib/uxml/uxpath/__init__.py
+++ b/pylib/uxml/uxpath/__init__.py
@@ -133,6 +133,8 @@ def qquery(xml_thing, xpath_thing, vars=None, funcs=None, force_root=None):
     if not root: return
     if isinstance(xpath_thing, str):
         parsed_expr = parse(xpath_thing)
+    else:
+        parsed_expr = xpath_thing
     ctx = context(root, variables=vars, functions=funcs, force_root=force_root)
     result = parsed_expr.compute(ctx)
     yield from result
-- 
2.43.0


From c16861637a8ff04637febf82c6118ada2692f927 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:16:50 +0000
Subject: [PATCH 36/87] fix: context item stays the same for items such as 0
 and ''

So (0, 1)[. = 0] compared the previous context item instead.
---
 pylib/uxml/uxpath/__init__.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/pylib/uxml/uxpath/__init__.py b/pylib/uxml/uxpath/__init__.py
index 115c2b9..f41ef10 100644
--- a/pylib/uxml/uxpath/__init__.py
+++ b/pylib/uxml/uxpath/__init__.py
@@ -90,13 +90,13 @@ class context(object):
         self.lookuptables = lookuptables or {}
 
     def copy(self, item=None, pos=None, variables=None, functions=None, lookuptables=None, extras=None, parent=None):
-        item = item if item else self.item
-        pos = pos if pos else self.pos
-        variables = variables if variables else self.variables
-        functions = functions if functions else self.functions
-        lookuptables = lookuptables if lookuptables else self.lookuptables
-        extras = extras if extras else self.extras
-        parent = parent if parent else self.parent
+        item = item if item is not None else self.item
+        pos = pos if pos is not None else self.pos
+        variables = variables if variables is not None else self.variables
+        functions = functions if functions is not None else self.functions
+        lookuptables = lookuptables if lookuptables is not None else self.lookuptables
+        extras = extras if extras is not None else self.extras
+        parent = parent if parent is not None else self.parent
         return context(item, pos=pos, variables=variables, functions=functions, lookuptables=lookuptables, extras=extras, parent=parent, force_root=False)
 
 
-- 
2.43.0


From d15dd0c47318a0fc9fa1e673d88694c1b8e19b3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:17:33 +0000
Subject: [PATCH 37/87] fix: MicroXPath root nodes are cached for ever

After a change to the tree absolute paths gave results from before it, every
document queried was kept alive, and they failed with a text or attribute
node as context. Also, the string value of the root was always empty.
---
 pylib/uxml/uxpath/xast.py | 23 ++++++++++++++---------
 1 file changed, 14 insertions(+), 9 deletions(-)

diff --git a/pylib/uxml/uxpath/xast.py b/pylib/uxml/uxpath/xast.py
index d76d65a..e7d8c13 100644
--- a/pylib/uxml/uxpath/xast.py
+++ b/pylib/uxml/uxpath/xast.py
@@ -36,30 +36,35 @@ class root_node(node):
     The core uxml object model does not have a root node, but
     we need something to conform as closely as we can to XPath
     '''
-    _cache = {}
-
     def __init__(self, docelem):
         self.xml_name = ''
-        self.xml_value = ''
         self.xml_children = [docelem]
         node.__init__(self)
 
+    @property
+    def xml_value(self):
+        return ''.join(child.xml_value for child in self.xml_children)
+
+    #Created as needed, so that it reflects the current state of the tree; any two for the same document are equal
+    def __eq__(self, other):
+        return isinstance(other, root_node) and self.xml_children[0] is other.xml_children[0]
+
+    def __hash__(self):
+        return hash((root_node, id(self.xml_children[0])))
+
     def __repr__(self):
         return u'{uxpath.rootnode}'
 
     @staticmethod
-    #@functools.lru_cache()
     def get(elem):
-        if elem in root_node._cache: return root_node._cache[elem]
         if isinstance(elem, root_node): return elem
-        assert isinstance(elem, element), 'Cannot get root node from object {} of type {}'.format(elem, type(elem))
+        assert isinstance(elem, node), 'Cannot get root node from object {} of type {}'.format(elem, type(elem))
         curr_elem = elem
         parent = curr_elem.xml_parent
-        while parent:
+        while parent is not None:
             curr_elem = parent
             parent = curr_elem.xml_parent
-            if parent in root_node._cache: return root_node._cache[parent]
-        return root_node._cache.setdefault(elem, root_node(curr_elem))
+        return root_node(curr_elem)
 
 
 class attribute_node(node):
-- 
2.43.0


From 05b7627a850c51671c6ee4c3e993a7dc2e3cf335 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:17:34 +0000
Subject: [PATCH 38/87] fix: MicroXPath attribute nodes have no name or
 children

name(@i) was empty, an attribute was encoded without its name, and a path
from an attribute to its children failed.
---
 pylib/uxml/uxpath/xast.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pylib/uxml/uxpath/xast.py b/pylib/uxml/uxpath/xast.py
index e7d8c13..a229bdb 100644
--- a/pylib/uxml/uxpath/xast.py
+++ b/pylib/uxml/uxpath/xast.py
@@ -69,9 +69,10 @@ class root_node(node):
 
 class attribute_node(node):
     def __init__(self, name, value, parent):
+        node.__init__(self, parent)
         self.xml_name = name
         self.xml_value = value
-        node.__init__(self, parent)
+        self.xml_children = []
 
     def __repr__(self):
         return '{{uxpath.attribute {0}="{1}"}}'.format(self.xml_name, self.xml_value)
-- 
2.43.0


From e764308f1cc91949ef40332164adef5f04ec1590 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:17:36 +0000
Subject: [PATCH 39/87] fix: MicroXPath union fails for nodes other than
 elements, and repeats nodes

It also used the document order as it was at the first union in the tree.
---
 pylib/uxml/uxpath/xast.py | 47 +++++++++++++++++++++++++++++++++------
 1 file changed, 40 insertions(+), 7 deletions(-)

diff --git a/pylib/uxml/uxpath/xast.py b/pylib/uxml/uxpath/xast.py
index a229bdb..d38f6e4 100644
--- a/pylib/uxml/uxpath/xast.py
+++ b/pylib/uxml/uxpath/xast.py
@@ -84,6 +84,35 @@ class attribute_node(node):
         raise NotImplementedError
 
 
+def docorder_key(item):
+    '''
+    Top node of the item's tree, and sort key for document order in that tree, which also identifies the item there
+    '''
+    key = []
+    parent = item.xml_parent
+    while parent is not None:
+        if isinstance(item, attribute_node):
+            #Attributes precede children
+            key.append((0, list(parent.xml_attributes).index(item.xml_name)))
+        else:
+            key.append((1, sibling_index(item)))
+        item, parent = parent, parent.xml_parent
+    #The root node comes before its element
+    if isinstance(item, root_node):
+        item = item.xml_children[0]
+    else:
+        key.append((1, 0))
+    key.reverse()
+    return item, key
+
+
+def sibling_index(item):
+    '''
+    Position of a node among the children of its parent. Not by equality, because text nodes can be equal
+    '''
+    return next(ix for ix, child in enumerate(item.xml_parent.xml_children) if child is item)
+
+
 def index_docorder(node):
     #Always start at the root
     while node.xml_parent:
@@ -276,14 +305,18 @@ class binary_expression:
                 new_ctx = ctx.copy(item=item)
                 yield from self.right.compute(new_ctx)
         elif self.op == '|':
-            # Union expressions require an indexing by doc order
-            if not hasattr(ctx.item, '_docorder'):
-                index_docorder(ctx.item)
             # XXX Might be more efficient to maintain a list in doc order as left & right are added
-            selected = list(self.left.compute(ctx))
-            selected.extend(list(self.right.compute(ctx)))
-            selected.sort(key=operator.attrgetter('_docorder'))
-            yield from selected
+            selected = []
+            # Nodes from variables can be in other trees, which go in order of appearance
+            trees = {}
+            for item in list(self.left.compute(ctx)) + list(self.right.compute(ctx)):
+                top, key = docorder_key(item)
+                selected.append(((trees.setdefault(top, len(trees)), key), item))
+            selected.sort(key=operator.itemgetter(0))
+            previous = None
+            for key, item in selected:
+                if key != previous: yield item
+                previous = key
 
         # FIXME: A lot of work to do on comparisons
         elif self.op == '=':
-- 
2.43.0


From 01ece223d7953cfcb6827d3bace7c1dd3ebe18a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:18:20 +0000
Subject: [PATCH 40/87] fix: MicroXPath parent and ancestor axes

They gave the root node whatever the node test, and as its own parent, and
ancestor-or-self never ended.
---
 pylib/uxml/uxpath/xast.py | 31 ++++++++++++++++++-------------
 1 file changed, 18 insertions(+), 13 deletions(-)

diff --git a/pylib/uxml/uxpath/xast.py b/pylib/uxml/uxpath/xast.py
index d38f6e4..9c932bb 100644
--- a/pylib/uxml/uxpath/xast.py
+++ b/pylib/uxml/uxpath/xast.py
@@ -84,6 +84,14 @@ class attribute_node(node):
         raise NotImplementedError
 
 
+def parent_node(item):
+    '''
+    Parent of a node, which for a document element is the root node, and for that in turn None
+    '''
+    if isinstance(item, root_node): return None
+    return item.xml_parent or root_node.get(item)
+
+
 def docorder_key(item):
     '''
     Top node of the item's tree, and sort key for document order in that tree, which also identifies the item there
@@ -467,19 +475,18 @@ class step:
                     if self.node_test.name in ('*', k):
                         yield attribute_node(k, v, ctx.item)
         elif self.axis == 'ancestor':
-            parent = ctx.item.xml_parent
+            parent = parent_node(ctx.item)
             while parent:
                 new_ctx = ctx.copy(item=parent)
                 yield from self.node_test.compute(new_ctx)
-                parent = parent.xml_parent
-            yield root_node.get(ctx.item)
+                parent = parent_node(parent)
         elif self.axis == 'ancestor-or-self':
             yield from self.node_test.compute(ctx)
-            parent = ctx.item.xml_parent
+            parent = parent_node(ctx.item)
             while parent:
                 new_ctx = ctx.copy(item=parent)
                 yield from self.node_test.compute(new_ctx)
-            yield root_node.get(parent)
+                parent = parent_node(parent)
         elif self.axis == 'descendant':
             to_process = list(ctx.item.xml_children)
             while to_process:
@@ -511,11 +518,10 @@ class step:
                 new_ctx = ctx.copy(item=ff)
                 yield from self.node_test.compute(new_ctx)
         elif self.axis == 'parent':
-            if ctx.item.xml_parent:
-                new_ctx = ctx.copy(item=ctx.item.xml_parent)
+            parent = parent_node(ctx.item)
+            if parent:
+                new_ctx = ctx.copy(item=parent)
                 yield from self.node_test.compute(new_ctx)
-            else:
-                yield root_node.get(ctx.item)
         elif self.axis == 'preceding':
             if not ctx.item.xml_parent: return
             start = ctx.item.xml_parent.xml_children.index(ctx.item)
@@ -680,10 +686,9 @@ class abbreviated_step:
         elif self.abbr == '..':
             # parent axis
             # assert isinstance(ctx.item, node)
-            if ctx.item.xml_parent:
-                yield ctx.item.xml_parent
-            else:
-                yield root_node.get(ctx.item)
+            parent = parent_node(ctx.item)
+            if parent is not None:
+                yield parent
 
     def __call__(self, ctx):
         '''
-- 
2.43.0


From 31186bb878da029a5c68d6901089f3231ff08991 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:18:22 +0000
Subject: [PATCH 41/87] fix: MicroXPath node tests select nodes of the wrong
 kind

'*' selected text nodes and the root on axes other than child, and @node()
or @text() the attribute of that name.
---
 pylib/uxml/uxpath/xast.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/pylib/uxml/uxpath/xast.py b/pylib/uxml/uxpath/xast.py
index 9c932bb..27770a3 100644
--- a/pylib/uxml/uxpath/xast.py
+++ b/pylib/uxml/uxpath/xast.py
@@ -472,7 +472,11 @@ class step:
         elif self.axis == 'attribute':
             if isinstance(ctx.item, element):
                 for k, v in ctx.item.xml_attributes.items():
-                    if self.node_test.name in ('*', k):
+                    if isinstance(self.node_test, node_type_test):
+                        matches = self.node_test.name == 'node'
+                    else:
+                        matches = self.node_test.name in ('*', k)
+                    if matches:
                         yield attribute_node(k, v, ctx.item)
         elif self.axis == 'ancestor':
             parent = parent_node(ctx.item)
@@ -627,7 +631,9 @@ class name_test:
     def compute(self, ctx):
         # print('NAMETEST', (self.name, ctx.item))
         if self.name == '*':
-            yield ctx.item
+            # The wildcard only applies to elements (attributes are handled in their axis)
+            if isinstance(ctx.item, element):
+                yield ctx.item
         else:
             # yield from (n for n in nodeseq if n.xml_name == self.name)
             if isinstance(ctx.item, element) and ctx.item.xml_name == self.name:
-- 
2.43.0


From 9a03e441ffd4c1caa032e78277b98e3cbfabf1a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:18:23 +0000
Subject: [PATCH 42/87] fix: MicroXPath following and preceding axes, and
 sibling axes of text nodes

The following axis stopped at the end of the parent, preceding always failed,
and all took another text node of equal value for the given one.
---
 pylib/uxml/uxpath/xast.py | 47 +++++++++++++++++++++++++--------------
 1 file changed, 30 insertions(+), 17 deletions(-)

diff --git a/pylib/uxml/uxpath/xast.py b/pylib/uxml/uxpath/xast.py
index 27770a3..b61fcab 100644
--- a/pylib/uxml/uxpath/xast.py
+++ b/pylib/uxml/uxpath/xast.py
@@ -507,17 +507,25 @@ class step:
                 new_ctx = ctx.copy(item=child)
                 yield from self.node_test.compute(new_ctx)
         elif self.axis == 'following':
-            if not ctx.item.xml_parent: return
-            start = ctx.item.xml_parent.xml_children.index(ctx.item) + 1
-            to_process = list(ctx.item.xml_parent.xml_children)[start:]
+            start = ctx.item
+            if isinstance(start, attribute_node):
+                # Next in document order is the content of the attribute's element
+                start = start.xml_parent
+                to_process = list(start.xml_children)
+            else:
+                to_process = []
+            # What follows the node within its parent comes before what follows the parent
+            while start.xml_parent:
+                to_process.extend(start.xml_parent.xml_children[sibling_index(start) + 1:])
+                start = start.xml_parent
             while to_process:
                 ff = to_process[0]
                 to_process = list(ff.xml_children) + to_process[1:]
                 new_ctx = ctx.copy(item=ff)
                 yield from self.node_test.compute(new_ctx)
         elif self.axis == 'following-sibling':
-            if not ctx.item.xml_parent: return
-            start = ctx.item.xml_parent.xml_children.index(ctx.item) + 1
+            if not ctx.item.xml_parent or isinstance(ctx.item, attribute_node): return
+            start = sibling_index(ctx.item) + 1
             for ff in list(ctx.item.xml_parent.xml_children)[start:]:
                 new_ctx = ctx.copy(item=ff)
                 yield from self.node_test.compute(new_ctx)
@@ -527,19 +535,24 @@ class step:
                 new_ctx = ctx.copy(item=parent)
                 yield from self.node_test.compute(new_ctx)
         elif self.axis == 'preceding':
-            if not ctx.item.xml_parent: return
-            start = ctx.item.xml_parent.xml_children.index(ctx.item)
-            if start == -1: return
-            to_process = list(ctx.item.xml_parent.xml_children)[start:].reverse()
-            while to_process:
-                prev = to_process[0]
-                to_process = to_process[1:] + list(prev.xml_children).reverse()
-                new_ctx = ctx.copy(item=prev)
-                yield from self.node_test.compute(new_ctx)
+            start = ctx.item
+            if isinstance(start, attribute_node):
+                start = start.xml_parent
+            # In reverse document order, and without the ancestors
+            while start.xml_parent:
+                preceding = []
+                to_process = start.xml_parent.xml_children[:sibling_index(start)]
+                while to_process:
+                    prev = to_process[0]
+                    to_process = list(prev.xml_children) + to_process[1:]
+                    preceding.append(prev)
+                for prev in reversed(preceding):
+                    new_ctx = ctx.copy(item=prev)
+                    yield from self.node_test.compute(new_ctx)
+                start = start.xml_parent
         elif self.axis == 'preceding-sibling':
-            if not ctx.item.xml_parent: return
-            start = ctx.item.xml_parent.xml_children.index(ctx.item)
-            if start == -1: return
+            if not ctx.item.xml_parent or isinstance(ctx.item, attribute_node): return
+            start = sibling_index(ctx.item)
             to_process = list(ctx.item.xml_parent.xml_children)[:start]
             to_process.reverse()
             for prev in to_process:
-- 
2.43.0


From 47d19a10c73f342e0e1661b22fbb5bff97f06a19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:19:00 +0000
Subject: [PATCH 43/87] fix: MicroXPath // after another step

a//b gave a itself if that was also named b, and nothing was found for a step
with an axis such as a//@i. Also, to compute it modified the expression.
---
 pylib/uxml/uxpath/xast.py | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/pylib/uxml/uxpath/xast.py b/pylib/uxml/uxpath/xast.py
index b61fcab..18701fd 100644
--- a/pylib/uxml/uxpath/xast.py
+++ b/pylib/uxml/uxpath/xast.py
@@ -305,13 +305,12 @@ class binary_expression:
                 yield from self.right.compute(new_ctx)
         elif self.op == '//':
             # left & right are steps
-            # Rewrite the axis to expand the abbreviation
-            # Really only needed the first time.
-            self.right.axis = 'descendant-or-self'
+            # Expand the abbreviation
+            right = descendant_path(self.right)
             selected = self.left.compute(ctx)
             for item in selected:
                 new_ctx = ctx.copy(item=item)
-                yield from self.right.compute(new_ctx)
+                yield from right.compute(new_ctx)
         elif self.op == '|':
             # XXX Might be more efficient to maintain a list in doc order as left & right are added
             selected = []
@@ -377,6 +376,18 @@ class binary_expression:
         return
 
 
+def descendant_path(path):
+    '''
+    Expand path as it is after //, i.e. put /descendant-or-self::node()/ before it
+    '''
+    if isinstance(path, binary_expression) and path.op in ('/', '//'):
+        return binary_expression(descendant_path(path.left), path.op, path.right)
+    elif isinstance(path, step) and path.axis == 'child':
+        # Equivalent, and gives document order
+        return step('descendant', path.node_test)
+    return binary_expression(step('descendant-or-self', node_type_test('node')), '/', path)
+
+
 class absolute_path:
     '''
     Absolute XPath path. /a/b/c; //a/ancestor:b/@c
-- 
2.43.0


From 42dd8e4c548cc2d5eff4d7d34503f21e3107e0ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:19:02 +0000
Subject: [PATCH 44/87] fix: absolute MicroXPaths give the root node for node()
 on any axis

---
 pylib/uxml/uxpath/xast.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pylib/uxml/uxpath/xast.py b/pylib/uxml/uxpath/xast.py
index 18701fd..9bd4433 100644
--- a/pylib/uxml/uxpath/xast.py
+++ b/pylib/uxml/uxpath/xast.py
@@ -443,6 +443,7 @@ class absolute_path:
 
 def _step_is_just_node(r):
     return isinstance(r, step) \
+        and r.axis == 'child' \
         and isinstance(r.node_test, node_type_test) \
         and r.node_test.name == 'node'
 
-- 
2.43.0


From 1bf7761d6d3ab2b8faec5cbc8d97bee681112f53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:19:03 +0000
Subject: [PATCH 45/87] fix: MicroXPath predicates after the first use
 positions from before it

a/b[x][1] is the first b with an x, not the first b if it has an x; and no
position is equal to 1.5.
---
 pylib/uxml/uxpath/xast.py | 37 +++++++++++++++++++++----------------
 1 file changed, 21 insertions(+), 16 deletions(-)

diff --git a/pylib/uxml/uxpath/xast.py b/pylib/uxml/uxpath/xast.py
index 9bd4433..40baebc 100644
--- a/pylib/uxml/uxpath/xast.py
+++ b/pylib/uxml/uxpath/xast.py
@@ -609,25 +609,30 @@ class predicated_expression:
 
     def compute(self, ctx):
         # print('predicated_expression', (self.lhs, self.predicates))
-        for pos, item in enumerate(self.lhs.compute(ctx)):
+        # Each predicate sees the positions left by those before it
+        items = self.lhs.compute(ctx)
+        for pred in self.predicates:
+            items = self._filter(ctx, items, pred)
+        yield from items
+
+    def _filter(self, ctx, items, pred):
+        for pos, item in enumerate(items):
             # XPath is 1-indexed
             new_ctx = ctx.copy(item=item, pos=pos+1)
-            for pred in self.predicates:
-                if hasattr(pred, 'compute'):
-                    predval = next(pred.compute(new_ctx), False)
-                else:
-                    predval = pred
-                # bools are ints in Python
-                if (isinstance(predval, float) or isinstance(predval, int)) and not isinstance(predval, bool):
-                    if pos + 1 != int(predval):
-                        break
-                else:
-                    if not next(to_boolean(predval)):
-                    # if not next(to_boolean(predval, scalar=True)):
-                        break
+            if hasattr(pred, 'compute'):
+                predval = next(pred.compute(new_ctx), False)
             else:
-                # All predicates true
-                yield item
+                predval = pred
+            # bools are ints in Python
+            if (isinstance(predval, float) or isinstance(predval, int)) and not isinstance(predval, bool):
+                if pos + 1 != predval:
+                    continue
+            else:
+                if not next(to_boolean(predval)):
+                # if not next(to_boolean(predval, scalar=True)):
+                    continue
+            # Predicate true
+            yield item
 
 
 class name_test:
-- 
2.43.0


From ce6954491978de2cbc9ed3dd2c3e6401c4a08fc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:19:05 +0000
Subject: [PATCH 46/87] fix: string() of booleans and whole, infinite or NaN
 numbers in MicroXPath

They came out as in Python, such as True and 4.0, rather than as documented.
---
 pylib/uxml/uxpath/xast.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/pylib/uxml/uxpath/xast.py b/pylib/uxml/uxpath/xast.py
index 40baebc..568c6af 100644
--- a/pylib/uxml/uxpath/xast.py
+++ b/pylib/uxml/uxpath/xast.py
@@ -149,10 +149,18 @@ def to_string(obj):
         yield val
     elif isinstance(val, node):
         yield strval(val)
-    elif isinstance(val, int) or isinstance(val, float):
-        yield str(val)
     elif isinstance(val, bool):
+        # Before numbers, because bools are ints in Python
         yield 'true' if val else 'false'
+    elif isinstance(val, int) or isinstance(val, float):
+        if val != val:
+            yield 'NaN'
+        elif val in (float('inf'), float('-inf')):
+            yield 'Infinity' if val > 0 else '-Infinity'
+        elif val == int(val):
+            yield str(int(val))
+        else:
+            yield str(val)
     else:
         raise RuntimeError('Unknown type for string conversion: {}'.format(val))
 
-- 
2.43.0


From 68f11664fee879e7077b698d2e77fbad6487c632 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:19:06 +0000
Subject: [PATCH 47/87] fix: number() fails rather than give NaN, and ignores
 the context item

As documented, strings which are not numbers give NaN, as does an empty
sequence. Without an argument the context item is used, as with string().
---
 pylib/uxml/uxpath/functions.py |  4 +++-
 pylib/uxml/uxpath/xast.py      | 17 +++++++++++------
 2 files changed, 14 insertions(+), 7 deletions(-)

diff --git a/pylib/uxml/uxpath/functions.py b/pylib/uxml/uxpath/functions.py
index 31f60e4..c846a2e 100644
--- a/pylib/uxml/uxpath/functions.py
+++ b/pylib/uxml/uxpath/functions.py
@@ -271,7 +271,9 @@ def number(ctx, seq=None):
     * If boolean true yield 1; if boolean false yield 0
     * If a node convert to string as if by a call to string(); yield the same value as if passed that string argument to number()
     '''
-    if hasattr(seq, 'compute'):
+    if seq is None:
+        obj = ctx.item
+    elif hasattr(seq, 'compute'):
         obj = next(seq.compute(ctx), '')
     else:
         obj = seq
diff --git a/pylib/uxml/uxpath/xast.py b/pylib/uxml/uxpath/xast.py
index 568c6af..92970a6 100644
--- a/pylib/uxml/uxpath/xast.py
+++ b/pylib/uxml/uxpath/xast.py
@@ -25,6 +25,7 @@ __all__ = [
 
 
 import operator
+import re
 # import functools
 from collections.abc import Iterable
 from amara3.uxml.tree import node, element, strval
@@ -165,6 +166,9 @@ def to_string(obj):
         raise RuntimeError('Unknown type for string conversion: {}'.format(val))
 
 
+NUMBER_PAT = re.compile(r'[ \t\r\n]*-?([0-9]+(\.[0-9]*)?|\.[0-9]+)[ \t\r\n]*')
+
+
 def to_number(obj):
     '''
     Cast an arbitrary object or sequence to a number type
@@ -176,12 +180,13 @@ def to_number(obj):
     else:
         val = obj
     if val is None:
-        # FIXME: Should be NaN, not 0
-        yield 0
-    elif isinstance(val, str):
-        yield float(val)
-    elif isinstance(val, node):
-        yield float(strval(val))
+        yield float('nan')
+    elif isinstance(val, node) or isinstance(val, str):
+        s = strval(val) if isinstance(val, node) else val
+        yield float(s) if NUMBER_PAT.fullmatch(s) else float('nan')
+    elif isinstance(val, bool):
+        # Before numbers, because bools are ints in Python
+        yield int(val)
     elif isinstance(val, int) or isinstance(val, float):
         yield val
     else:
-- 
2.43.0


From 3223e224d8705c8bcd67ceb4011e1293980d61b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:19:08 +0000
Subject: [PATCH 48/87] fix: boolean() of NaN and of empty text nodes in
 MicroXPath

---
 pylib/uxml/uxpath/xast.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/pylib/uxml/uxpath/xast.py b/pylib/uxml/uxpath/xast.py
index 92970a6..e5f34c8 100644
--- a/pylib/uxml/uxpath/xast.py
+++ b/pylib/uxml/uxpath/xast.py
@@ -208,12 +208,13 @@ def to_boolean(obj):
         yield False
     elif isinstance(val, bool):
         yield val
-    elif isinstance(val, str):
-        yield bool(val)
     elif isinstance(val, node):
+        # Before strings, because text nodes are strings in Python
         yield True
-    elif isinstance(val, float) or isinstance(val, int):
+    elif isinstance(val, str):
         yield bool(val)
+    elif isinstance(val, float) or isinstance(val, int):
+        yield bool(val) and val == val # i.e. not NaN
     else:
         raise RuntimeError('Unknown type for boolean conversion: {}'.format(val))
 
-- 
2.43.0


From f6accb6b654ce0ff9c10250f86761792baca1df6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:19:09 +0000
Subject: [PATCH 49/87] fix: MicroXPath unary minus always fails

---
 pylib/uxml/uxpath/xast.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pylib/uxml/uxpath/xast.py b/pylib/uxml/uxpath/xast.py
index e5f34c8..d7e91e9 100644
--- a/pylib/uxml/uxpath/xast.py
+++ b/pylib/uxml/uxpath/xast.py
@@ -269,7 +269,7 @@ class unary_expression:
 
     def compute(self, ctx):
         # self.op is always '-'
-        yield -(to_number(next(self.right.compute(ctx), None)))
+        yield -next(to_number(next(self.right.compute(ctx), None)))
 
 
 BE_KEYWORDS = set(['or', 'and', 'div', 'mod'])
-- 
2.43.0


From f88d620904202e6619b27f32d9df455d8ec2b20b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:19:45 +0000
Subject: [PATCH 50/87] fix: MicroXPath comparisons of nodes, of different
 types, and with no item

Only the first item of the left side was compared to all on the right. Other
than with =, nodes were not compared by value, or failed, as did an empty
sequence; and a node was never equal to a number.
---
 pylib/uxml/uxpath/xast.py | 55 ++++++++++++++++++---------------------
 1 file changed, 25 insertions(+), 30 deletions(-)

diff --git a/pylib/uxml/uxpath/xast.py b/pylib/uxml/uxpath/xast.py
index d7e91e9..d5cf95c 100644
--- a/pylib/uxml/uxpath/xast.py
+++ b/pylib/uxml/uxpath/xast.py
@@ -274,6 +274,26 @@ class unary_expression:
 
 BE_KEYWORDS = set(['or', 'and', 'div', 'mod'])
 
+COMPARISONS = {
+    '=': operator.eq, '!=': operator.ne, '<': operator.lt, '>': operator.gt, '<=': operator.le, '>=': operator.ge
+}
+
+
+def compare(op, left, right):
+    '''
+    Compare two items, each a node, string, number or boolean
+    '''
+    items = (left, right)
+    if op in ('=', '!=') and any(isinstance(i, bool) for i in items):
+        cast = to_boolean
+    elif op in ('=', '!=') and not any(isinstance(i, (int, float)) for i in items):
+        cast = to_string
+    elif all(isinstance(i, str) and not isinstance(i, node) for i in items):
+        cast = to_string
+    else:
+        cast = to_number
+    return COMPARISONS[op](next(cast(left)), next(cast(right)))
+
 
 class binary_expression:
     '''Binary XPath expression, e.g. a/b; a and b; a | b.'''
@@ -339,40 +359,15 @@ class binary_expression:
                 if key != previous: yield item
                 previous = key
 
-        # FIXME: A lot of work to do on comparisons
-        elif self.op == '=':
-            lhs = self.left.compute(ctx)
-            rhs = self.right.compute(ctx)
-            # print(ctx.item, list(self.left.compute(ctx)), list(self.right.compute(ctx)))
-            # If LHS is a node sequence, check comparison on each item
-            for i in lhs:
+        elif self.op in COMPARISONS:
+            # True if the comparison holds for any pair of items from either side
+            rhs = list(self.right.compute(ctx))
+            for i in self.left.compute(ctx):
                 for j in rhs:
-                    i = i.xml_value if isinstance(i, node) else i
-                    j = i.xml_value if isinstance(j, node) else j
-                    if i == j:
+                    if compare(self.op, i, j):
                         yield True
                         return
             yield False
-        elif self.op == '!=':
-            lhs = self.left.compute(ctx)
-            rhs = self.right.compute(ctx)
-            yield next(lhs) != next(rhs)
-        elif self.op == '>':
-            lhs = self.left.compute(ctx)
-            rhs = self.right.compute(ctx)
-            yield next(lhs) > next(rhs)
-        elif self.op == '<':
-            lhs = self.left.compute(ctx)
-            rhs = self.right.compute(ctx)
-            yield next(lhs) < next(rhs)
-        elif self.op == '>=':
-            lhs = self.left.compute(ctx)
-            rhs = self.right.compute(ctx)
-            yield next(lhs) >= next(rhs)
-        elif self.op == '<=':
-            lhs = self.left.compute(ctx)
-            rhs = self.right.compute(ctx)
-            yield next(lhs) <= next(rhs)
         elif self.op == 'or':
             lhs = self.left.compute(ctx)
             rhs = self.right.compute(ctx)
-- 
2.43.0


From f3a50f66ee9924d01a3afca4a4ae5af6d3bf5250 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:19:47 +0000
Subject: [PATCH 51/87] fix: MicroXPath 'and' and 'or' fail on an empty
 sequence, and give no boolean

---
 pylib/uxml/uxpath/xast.py | 19 +++++++++----------
 1 file changed, 9 insertions(+), 10 deletions(-)

diff --git a/pylib/uxml/uxpath/xast.py b/pylib/uxml/uxpath/xast.py
index d5cf95c..e809ea4 100644
--- a/pylib/uxml/uxpath/xast.py
+++ b/pylib/uxml/uxpath/xast.py
@@ -219,6 +219,13 @@ def to_boolean(obj):
         raise RuntimeError('Unknown type for boolean conversion: {}'.format(val))
 
 
+def effective_boolean(expr, ctx):
+    '''
+    Boolean value of an expression, i.e. that of its first item, or False if there is none
+    '''
+    return next(to_boolean(next(expr.compute(ctx), None)))
+
+
 class literal_wrapper:
     '''
     Literal string or number
@@ -369,17 +376,9 @@ class binary_expression:
                         return
             yield False
         elif self.op == 'or':
-            lhs = self.left.compute(ctx)
-            rhs = self.right.compute(ctx)
-            yield next(lhs) or next(rhs)
+            yield effective_boolean(self.left, ctx) or effective_boolean(self.right, ctx)
         elif self.op == 'and':
-            lhs = self.left.compute(ctx)
-            rhs = self.right.compute(ctx)
-            # lhs_val = next(lhs, None)
-            # rhs_val = next(rhs, None)
-            # print((self.left, lhs_val, self.right, rhs_val))
-            # yield lhs_val and rhs_val
-            yield next(lhs) and next(rhs)
+            yield effective_boolean(self.left, ctx) and effective_boolean(self.right, ctx)
         else:
             raise NotImplementedError('Oops! Operator "{}" not yet implemented'.format(self.op))
         return
-- 
2.43.0


From 5319891886ad1e36c2f625a31ae81a2b4623abb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:19:48 +0000
Subject: [PATCH 52/87] fix: MicroXPath functions take 'False' for the string
 value of an empty sequence

---
 pylib/uxml/uxpath/functions.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pylib/uxml/uxpath/functions.py b/pylib/uxml/uxpath/functions.py
index c846a2e..d4d65bf 100644
--- a/pylib/uxml/uxpath/functions.py
+++ b/pylib/uxml/uxpath/functions.py
@@ -27,7 +27,7 @@ def number_arg(ctx, obj):
     Handles LiteralObjects as well as computable arguments
     '''
     if hasattr(obj, 'compute'):
-        obj = next(obj.compute(ctx), False)
+        obj = next(obj.compute(ctx), None)
     return to_number(obj)
 
 
@@ -36,7 +36,7 @@ def string_arg(ctx, obj):
     Handles LiteralObjects as well as computable arguments
     '''
     if hasattr(obj, 'compute'):
-        obj = next(obj.compute(ctx), False)
+        obj = next(obj.compute(ctx), '')
     return to_string(obj)
 
 
-- 
2.43.0


From ecf8de25e2ea710dc41248efa244cedc975a5825 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:19:49 +0000
Subject: [PATCH 53/87] fix: string-length() fails for elements, numbers and
 the context item

---
 pylib/uxml/uxpath/functions.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/pylib/uxml/uxpath/functions.py b/pylib/uxml/uxpath/functions.py
index d4d65bf..f00671f 100644
--- a/pylib/uxml/uxpath/functions.py
+++ b/pylib/uxml/uxpath/functions.py
@@ -184,10 +184,8 @@ def string_length(ctx, s=None):
     Yields one number
     '''
     if s is None:
-        s = ctx.node
-    elif callable(s):
-        s = next(s.compute(ctx), '')
-    yield len(s)
+        s = ctx.item
+    yield len(next(string_arg(ctx, s), ''))
 
 
 @microxpath_function('normalize-space')
-- 
2.43.0


From d3ed5606f572a205f792e5f043a64f72143f3252 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:19:50 +0000
Subject: [PATCH 54/87] fix: substring-before() and substring-after() without
 or with empty match

substring-before gave the whole string if the second was not in it, and an
empty second string made both fail.
---
 pylib/uxml/uxpath/functions.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pylib/uxml/uxpath/functions.py b/pylib/uxml/uxpath/functions.py
index f00671f..a3b5ac7 100644
--- a/pylib/uxml/uxpath/functions.py
+++ b/pylib/uxml/uxpath/functions.py
@@ -154,7 +154,7 @@ def substring_before(ctx, full, part):
     '''
     full = next(string_arg(ctx, full), '')
     part = next(string_arg(ctx, part), '')
-    yield full.partition(part)[0]
+    yield full[:max(full.find(part), 0)]
 
 
 @microxpath_function('substring-after')
@@ -164,7 +164,7 @@ def substring_after(ctx, full, part):
     '''
     full = next(string_arg(ctx, full), '')
     part = next(string_arg(ctx, part), '')
-    yield full.partition(part)[-1]
+    yield full[full.index(part) + len(part):] if part in full else ''
 
 
 @microxpath_function('substring')
-- 
2.43.0


From 15712720fa3a47f5748e24ae68fc24b63aeaa232 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:19:52 +0000
Subject: [PATCH 55/87] fix: substring() fails for computed positions, and is
 wrong for those before 1

A start of 0 or less was taken from the end of the string.
---
 pylib/uxml/uxpath/functions.py | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/pylib/uxml/uxpath/functions.py b/pylib/uxml/uxpath/functions.py
index a3b5ac7..cf06ef4 100644
--- a/pylib/uxml/uxpath/functions.py
+++ b/pylib/uxml/uxpath/functions.py
@@ -9,6 +9,7 @@ __all__ = [
 
 
 #import operator
+import math
 from functools import wraps
 from amara3.uxml.tree import node, element, strval
 from amara3.uxml.uxpath.xast import root_node, attribute_node, index_docorder, to_string, to_number, to_boolean
@@ -41,6 +42,13 @@ def string_arg(ctx, obj):
 
 
 
+def round_number(num):
+    '''
+    Closest integer, and of two the greater. NaN and infinities are left alone
+    '''
+    return math.floor(num + 0.5) if math.isfinite(num) else num
+
+
 BUILTIN_FUNCTIONS = {}
 
 def microxpath_function(name):
@@ -173,9 +181,9 @@ def substring(ctx, full, start, length):
     Yields one string
     '''
     full = next(string_arg(ctx, full), '')
-    start = int(next(to_number(start)))
-    length = int(next(to_number(length)))
-    yield full[start-1:start-1+length]
+    start = round_number(next(number_arg(ctx, start)))
+    end = start + round_number(next(number_arg(ctx, length)))
+    yield ''.join(c for pos, c in enumerate(full, 1) if start <= pos < end)
 
 
 @microxpath_function('string-length')
-- 
2.43.0


From f8fb560f36970902f3f3089924640cc924244f01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:19:53 +0000
Subject: [PATCH 56/87] fix: serialized MicroXPath has strings without quotes,
 and minus joined to names

---
 pylib/uxml/uxpath/xast.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/pylib/uxml/uxpath/xast.py b/pylib/uxml/uxpath/xast.py
index e809ea4..b077ff8 100644
--- a/pylib/uxml/uxpath/xast.py
+++ b/pylib/uxml/uxpath/xast.py
@@ -237,7 +237,11 @@ class literal_wrapper:
         return f'{self.__class__.__name__}: {self.obj}'
 
     def _serialize(self):
-        yield str(self.obj)
+        if isinstance(self.obj, str):
+            quote = "'" if '"' in self.obj else '"'
+            yield quote + self.obj + quote
+        else:
+            yield str(self.obj)
 
     def __call__(self, ctx):
         '''
@@ -279,7 +283,8 @@ class unary_expression:
         yield -next(to_number(next(self.right.compute(ctx), None)))
 
 
-BE_KEYWORDS = set(['or', 'and', 'div', 'mod'])
+#Minus could also be part of a name
+BE_KEYWORDS = set(['or', 'and', 'div', 'mod', '-'])
 
 COMPARISONS = {
     '=': operator.eq, '!=': operator.ne, '<': operator.lt, '>': operator.gt, '<=': operator.le, '>=': operator.ge
-- 
2.43.0


From aee7d8ca165585f010f587b76dd503e904da14f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:20:27 +0000
Subject: [PATCH 57/87] fix: isxml is not available, because the extension
 cannot be loaded

It used a Python C API which is gone as of 3.12, and string lengths that need
PY_SSIZE_T_CLEAN since 3.10.
---
 clib/xmlstring.c | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/clib/xmlstring.c b/clib/xmlstring.c
index f1bb7aa..c9ba612 100644
--- a/clib/xmlstring.c
+++ b/clib/xmlstring.c
@@ -8,9 +8,7 @@ Miscellaneous XML-specific string functions\n\
 Copyright 2016 Uche Ogbuji (USA).\n\
 ";
 
-/*
 #define PY_SSIZE_T_CLEAN
-*/
 #include <Python.h>
 
 #define XmlString_BUILDING_MODULE
@@ -48,9 +46,8 @@ static PyObject *string_isxml(PyObject *self, PyObject *args)
     #http://www.xml.com/pub/a/2007/02/28/what-does-xml-smell-like.html
   */
   char *str, *encoding;
-  int len;
+  Py_ssize_t len, pos;
   PyObject *characters, *result;
-  Py_UNICODE *p;
 
   if (!PyArg_ParseTuple(args,"y#:isxml", &str, &len))
     return NULL;
@@ -111,14 +108,14 @@ static PyObject *string_isxml(PyObject *self, PyObject *args)
     result = Py_False;
   } else {
     /* Find the first non-whitespace character */
-    p = PyUnicode_AS_UNICODE(characters);
-    /* while (*p && IS_XMLSPACE(*p)) {printf("ASCII value = %d, Character = [%c]\n", *p, *p); p++;} */
-    while (IS_XMLSPACE(*p)) p++;
+    len = PyUnicode_GET_LENGTH(characters);
+    pos = 0;
+    while (pos < len && IS_XMLSPACE(PyUnicode_READ_CHAR(characters, pos))) pos++;
 
     /* The first non-whitespace character in a well-formed XML document must
      * be '<'.
      */
-    result = *p == '<' ? Py_True : Py_False;
+    result = pos < len && PyUnicode_READ_CHAR(characters, pos) == '<' ? Py_True : Py_False;
     Py_DECREF(characters);
   }
 
-- 
2.43.0


From 96a736f659ccfa8927b17aa67f9dde6e43a5f844 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:30:58 +0000
Subject: [PATCH 58/87] fix: a sender can be used again after a parse that
 failed

---
 pylib/uxml/treeiter.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pylib/uxml/treeiter.py b/pylib/uxml/treeiter.py
index 5014954..d073190 100644
--- a/pylib/uxml/treeiter.py
+++ b/pylib/uxml/treeiter.py
@@ -124,6 +124,11 @@ class sender:
         return False
 
     def _handler(self):
+        #Start afresh, because an earlier parse might have ended with an exception
+        for ix in range(self._pattern_count):
+            self._roots[ix] = self._parents[ix] = None
+            self._evstacks[ix] = []
+            self._building_depths[ix] = 0
         while True:
             ev = yield
             for ix, evstack in enumerate(self._evstacks):
-- 
2.43.0


From ecc935512d2ac5389e59c247bb89f468e818f674 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:51:01 +0000
Subject: [PATCH 59/87] fix: a sender holds on to the last subtree it delivered

---
 pylib/uxml/treeiter.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pylib/uxml/treeiter.py b/pylib/uxml/treeiter.py
index d073190..4e947a4 100644
--- a/pylib/uxml/treeiter.py
+++ b/pylib/uxml/treeiter.py
@@ -163,6 +163,8 @@ class sender:
                         #Done with this subtree
                         if not building_depth:
                             self._sinks[ix].send(parent)
+                            #It belongs to the sink now, so do not hold on to any of it
+                            self._roots[ix] = new_element = new_text = None
                         #Pop back up in element ancestry
                         if parent:
                             parent = self._parents[ix] = parent.xml_parent
-- 
2.43.0


From 76ea77a3d139df390c850ee63323623d10a09164 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:51:03 +0000
Subject: [PATCH 60/87] fix: a tree builder holds on to the last tree it built

---
 pylib/uxml/tree.py | 7 ++++++-
 pylib/uxml/xml.py  | 4 +++-
 2 files changed, 9 insertions(+), 2 deletions(-)

diff --git a/pylib/uxml/tree.py b/pylib/uxml/tree.py
index 7c062e6..3294119 100644
--- a/pylib/uxml/tree.py
+++ b/pylib/uxml/tree.py
@@ -232,9 +232,12 @@ class treebuilder(object):
                 #Hold a reference to the top element of the subtree being built,
                 #or it will be garbage collected as the builder moves down the tree
                 if not self._root: self._root = new_element
+                #No more references than needed, or they would outlive the tree
+                del new_element
             elif ev[0] == event.characters:
                 new_text = text(ev[1], self._parent)
                 if self._parent: self._parent.xml_children.append(new_text)
+                del new_text
             elif ev[0] == event.end_element:
                 if self._parent:
                     self._parent = self._parent.xml_parent
@@ -248,7 +251,9 @@ class treebuilder(object):
         p = parser(h)
         p.send((doc, False))
         p.send(('', True)) #Wrap it up
-        return self._root
+        #The tree belongs to the caller now
+        root, self._root = self._root, None
+        return root
 
 
 def name_test(name):
diff --git a/pylib/uxml/xml.py b/pylib/uxml/xml.py
index 5e145f7..48e4b7c 100644
--- a/pylib/uxml/xml.py
+++ b/pylib/uxml/xml.py
@@ -139,5 +139,7 @@ class treebuilder(tree.treebuilder):
         self.expat_parser.StartNamespaceDeclHandler = self.handler.start_namespace
         self.expat_parser.EndNamespaceDeclHandler = self.handler.end_namespace
         self.expat_parser.Parse(source, True)
-        return self._root
+        #The tree belongs to the caller now
+        root, self._root = self._root, None
+        return root
 
-- 
2.43.0


From dcd728c2aa7a2552ccfe26b34961b62b9485afdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:59:16 +0000
Subject: [PATCH 61/87] fix: subtrees for different patterns share their
 attributes

---
 pylib/uxml/treeiter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pylib/uxml/treeiter.py b/pylib/uxml/treeiter.py
index 4e947a4..517d5ae 100644
--- a/pylib/uxml/treeiter.py
+++ b/pylib/uxml/treeiter.py
@@ -143,7 +143,7 @@ class sender:
                     elif self._match_state(ix):
                         building_depth = self._building_depths[ix] = 1
                     if building_depth:
-                        new_element = element(ev[1], ev[2], parent)
+                        new_element = element(ev[1], ev[2].copy(), parent)
                         #if parent: parent().xml_children.append(weakref.ref(new_element))
                         #Note: not using weakrefs here because these refs are not circular
                         if parent: parent.xml_children.append(new_element)
-- 
2.43.0


From 0587032fc18d888d01f1fc4516161202ecf52fc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:03:36 +0000
Subject: [PATCH 62/87] fix: select_value yields text nodes too

---
 pylib/uxml/treeutil.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/pylib/uxml/treeutil.py b/pylib/uxml/treeutil.py
index 678bf68..e6ce8ca 100644
--- a/pylib/uxml/treeutil.py
+++ b/pylib/uxml/treeutil.py
@@ -54,9 +54,7 @@ def select_value(source, val):
     source - if an element, starts with all child elements in order; can also be any other iterator
     val - string value to match
     '''
-    if isinstance(source, element):
-        source = source.xml_children
-    return filter(lambda x: x.xml_value == val, source)
+    return filter(lambda x: x.xml_value == val, select_elements(source))
 
 
 def select_attribute(source, name, val=None):
-- 
2.43.0


From a5d45ce111241c965fb48e058c11c08189258f69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:20:35 +0000
Subject: [PATCH 63/87] fix: string() of a text node gives the node itself
 rather than a string

---
 pylib/uxml/uxpath/xast.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pylib/uxml/uxpath/xast.py b/pylib/uxml/uxpath/xast.py
index b077ff8..b48e9f3 100644
--- a/pylib/uxml/uxpath/xast.py
+++ b/pylib/uxml/uxpath/xast.py
@@ -146,10 +146,11 @@ def to_string(obj):
         val = obj
     if val is None:
         yield ''
-    elif isinstance(val, str):
-        yield val
     elif isinstance(val, node):
+        # Before strings, because text nodes are strings in Python
         yield strval(val)
+    elif isinstance(val, str):
+        yield val
     elif isinstance(val, bool):
         # Before numbers, because bools are ints in Python
         yield 'true' if val else 'false'
-- 
2.43.0


From 7bbcb6a9d732aacc559304f1377f99701d14c5a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:25:10 +0000
Subject: [PATCH 64/87] fix: two slashes with white space between are taken for
 a path

'/ / a' was accepted, and serialized as '//a', which selects other nodes.
---
 pylib/uxml/uxpath/parserules.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pylib/uxml/uxpath/parserules.py b/pylib/uxml/uxpath/parserules.py
index 8c4fbdb..d7a083d 100644
--- a/pylib/uxml/uxpath/parserules.py
+++ b/pylib/uxml/uxpath/parserules.py
@@ -87,6 +87,8 @@ def p_path_expr_binary(p):
     Expr : Expr PATH_SEP RelativeLocationPath
          | Expr ABBREV_PATH_SEP RelativeLocationPath
     """
+    if isinstance(p[1], xast.absolute_path) and p[1].relative is None:
+        raise RuntimeError("Syntax error at '{0}' after '{1}'".format(p[2], p[1].op))
     p[0] = xast.binary_expression(p[1], p[2], p[3])
 
 def p_expr_paths_etc(p):
-- 
2.43.0


From 2159f17928a22eae2a4061e2cb12cb0f68c98e1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:33:47 +0000
Subject: [PATCH 65/87] fix: parse_lax_xml fails on a comment or white space
 after the head

---
 pylib/uxml/html5.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pylib/uxml/html5.py b/pylib/uxml/html5.py
index 5360939..410a177 100644
--- a/pylib/uxml/html5.py
+++ b/pylib/uxml/html5.py
@@ -339,7 +339,8 @@ def parse_lax_xml(source, prefixes=None, model=None, encoding=None):
     '''
     false_top = parse(source, prefixes=prefixes, model=model, encoding=encoding,
                         use_xhtml_ns=False)
-    body = false_top.xml_children[1]
+    # Not just the second child, because there can be comments or white space after the head
+    body = list(select_elements(false_top))[1]
     top = next(select_elements(body), None)
     if top is None:
         raise ValueError('Unable to process input even as tag soup XML')
-- 
2.43.0


From 11449b2cf65bfa9fc94ceefac5e49877a3ef8a96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:36:01 +0000
Subject: [PATCH 66/87] fix: microx --find-text leaves out the last step of the
 path

The element that contains the text was missing; for the document element the line was empty.
---
 exec/microx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/exec/microx b/exec/microx
index 3f5f1df..b7b8dbe 100755
--- a/exec/microx
+++ b/exec/microx
@@ -186,7 +186,7 @@ def run(command_name, command_detail, sources=None, foreach=None, partition=None
                 for node in elem.xml_children:
                     if isinstance(node, tree.text):
                         if search_for in node.xml_value:
-                            print(xpath_to(elem, show_attrs), file=out)
+                            print(xpath_to(node, show_attrs), file=out)
 
     def sink():
         while True:
-- 
2.43.0


From 39f42d1ae763a333852742aee5e14c96a5f100bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:36:03 +0000
Subject: [PATCH 67/87] fix: microx ignores the encoding of XML files

---
 exec/microx | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/exec/microx b/exec/microx
index b7b8dbe..2416781 100755
--- a/exec/microx
+++ b/exec/microx
@@ -247,7 +247,8 @@ if __name__ == '__main__':
     #
     args = parser.parse_args()
 
-    mode = 'rb' if args.partition else 'r'
+    # The XML parser finds out about the encoding
+    mode = 'r' if (args.html or args.lax) and not args.partition else 'rb'
     source_fps = []
     for source in args.sources:
         if matches_uri_syntax(source):
-- 
2.43.0


From ac34247f98880aa8ed0c0238382697b1e8291268 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:36:04 +0000
Subject: [PATCH 68/87] fix: root nodes cannot be encoded, as for the result of
 '/'

---
 pylib/uxml/uxpath/xast.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pylib/uxml/uxpath/xast.py b/pylib/uxml/uxpath/xast.py
index b48e9f3..1826b87 100644
--- a/pylib/uxml/uxpath/xast.py
+++ b/pylib/uxml/uxpath/xast.py
@@ -56,6 +56,9 @@ class root_node(node):
     def __repr__(self):
         return u'{uxpath.rootnode}'
 
+    def xml_encode(self, indent=None, depth=0):
+        return ''.join(child.xml_encode(indent=indent, depth=depth) for child in self.xml_children)
+
     @staticmethod
     def get(elem):
         if isinstance(elem, root_node): return elem
-- 
2.43.0


From 6c28557913b7b2e18fb6cd64921250b0e0e7bee5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:48:18 +0000
Subject: [PATCH 69/87] fix: concurrent uses of amara3.uxml.parse build on each
 other's trees

---
 pylib/uxml/__init__.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pylib/uxml/__init__.py b/pylib/uxml/__init__.py
index 16b7db3..c8b12ba 100644
--- a/pylib/uxml/__init__.py
+++ b/pylib/uxml/__init__.py
@@ -14,7 +14,8 @@ amara.lib.inputsource.text if it's not obviously XML
 from amara3.uxml import tree
 
 TB = tree.treebuilder()
-parse = TB.parse
+# Not TB.parse, or concurrent uses would build on each other's trees
+parse = tree.parse
 
 
 try:
-- 
2.43.0


From e53bfd1998814ade57f44eb07825f4465cb09255 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:13:47 +0000
Subject: [PATCH 70/87] fix: MicroXPath numbers are made of ASCII digits only

---
 pylib/uxml/uxpath/lexrules.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pylib/uxml/uxpath/lexrules.py b/pylib/uxml/uxpath/lexrules.py
index 8c23f20..21b1da7 100644
--- a/pylib/uxml/uxpath/lexrules.py
+++ b/pylib/uxml/uxpath/lexrules.py
@@ -90,12 +90,12 @@ def t_LITERAL(t):
     return t
 
 def t_FLOAT(t):
-    r'\d+\.\d*|\.\d+'
+    r'[0-9]+\.[0-9]*|\.[0-9]+'
     t.value = float(t.value)
     return t
 
 def t_INTEGER(t):
-    r'\d+'
+    r'[0-9]+'
     t.value = int(t.value)
     return t
 
-- 
2.43.0


From 91caf5d29bc30e0c0347f8d88ead1e5e6e253ec6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:15:00 +0000
Subject: [PATCH 71/87] fix: lookup() fails with NameError instead of
 consulting the tables of the context

---
 pylib/uxml/uxpath/functions.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/pylib/uxml/uxpath/functions.py b/pylib/uxml/uxpath/functions.py
index cf06ef4..5907636 100644
--- a/pylib/uxml/uxpath/functions.py
+++ b/pylib/uxml/uxpath/functions.py
@@ -313,14 +313,13 @@ def lookup_(ctx, tableid, key):
     Yields a sequence of a single value, the result of looking up a value from the tables provided in the context, or an empty sequence if lookup is unsuccessful
 
     * tableid: id of the lookup table to use
-    * expr: expression to be converted to string, then dynamically evaluated for each item on the sequence to produce the result
+    * key: what to look up in that table, converted to string
     '''
     tableid = next(string_arg(ctx, tableid), '')
     key = next(string_arg(ctx, key), '')
-    #value = ctx.
-    for item in seq:
-        innerctx = ctx.copy(item=item)
-        yield from pexpr.compute(innerctx)
+    table = ctx.lookuptables.get(tableid, {})
+    if key in table:
+        yield table[key]
 
 
 @microxpath_function('sum')
-- 
2.43.0


From f33f826c4f912b245f37d6a52af04cad86188b6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:23:44 +0000
Subject: [PATCH 72/87] fix: HTML trees keep namespace declarations of html,
 body and foreign elements

---
 pylib/uxml/html5.py | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/pylib/uxml/html5.py b/pylib/uxml/html5.py
index 410a177..9c42bba 100644
--- a/pylib/uxml/html5.py
+++ b/pylib/uxml/html5.py
@@ -138,9 +138,8 @@ class element(tree.element, node):
     def xml_set_attributes_(self, attrs):
         for key, val in attrs.items():
             if isinstance(key, tuple):
-                self.xml_attributes[qname_to_local(key[1])] = val
-            elif key.startswith(u'xmlns'):
-                continue
+                #Namespace declarations are dropped at the end, but html5lib needs them to tell elements apart
+                self.xml_attributes[u'xmlns' if key[2] == XMLNS_NAMESPACE else qname_to_local(key[1])] = val
             else:
                 self.xml_attributes[key] = val
         return
@@ -247,6 +246,7 @@ class doctype(node):
 BOGUS_NAMESPACE = u'urn:bogus:x'
 NAME_FOR_ELEMENTS_UNNAMED_BY_HTML5LIB = u'UNNAMED_BY_HTML5LIB'
 XHTML_NAMESPACE = 'http://www.w3.org/1999/xhtml'
+XMLNS_NAMESPACE = 'http://www.w3.org/2000/xmlns/'
 
 class treebuilder(TreeBuilder):
     commentClass = comment
@@ -297,6 +297,15 @@ with urllib.request.urlopen('http://uche.ogbuji.net/') as response:
 '''
 
 
+def drop_namespace_declarations(top):
+    pending = [top]
+    while pending:
+        elem = pending.pop()
+        for aname in [k for k in elem.xml_attributes if k.startswith(u'xmlns')]:
+            del elem.xml_attributes[aname]
+        pending.extend(select_elements(elem))
+
+
 def parse(source, prefixes=None, model=None, encoding=None, use_xhtml_ns=False):
     '''
     Parse an input source with HTML text into an Amara 3 tree
@@ -319,6 +328,8 @@ def parse(source, prefixes=None, model=None, encoding=None, use_xhtml_ns=False):
     # doc = parser.parse(source, encoding=encoding)
     doc = parser.parse(source)
     first_element = next((e for e in doc.root_nodes if isinstance(e, element)), None)
+    if first_element is not None:
+        drop_namespace_declarations(first_element)
     return first_element
 
 
-- 
2.43.0


From e30d6467a0f2a9ce404cb2045909e83b6002868d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:28:47 +0000
Subject: [PATCH 73/87] fix: microx ignores --limit

---
 exec/microx | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/exec/microx b/exec/microx
index 2416781..0e2ffa8 100755
--- a/exec/microx
+++ b/exec/microx
@@ -92,7 +92,7 @@ The --html flag allows parsing HTML, and the --lax flag is lenient, working with
 
 import sys
 import argparse
-from itertools import chain
+from itertools import chain, repeat
 import urllib.request
 
 import logging
@@ -152,12 +152,18 @@ def run(command_name, command_detail, sources=None, foreach=None, partition=None
         else:
             print(item, file=out)
 
+    # One for each result still to be given, from all the sources
+    allowed = repeat(None) if limit is None else repeat(None, limit)
+
+    def limited(result):
+        return (item for item, _ in zip(result, allowed))
+
     def process_partition(root):
         if command_name == 'expr':
             expr = command_detail
             ctx = context(root, variables=varmap)
             result = parsed_expr.compute(ctx)
-            for item in result:
+            for item in limited(result):
                 if foreach:
                     ctx = context(item, variables=varmap, force_root=False)
                     innerresult = parsed_foreach.compute(ctx)
@@ -171,7 +177,7 @@ def run(command_name, command_detail, sources=None, foreach=None, partition=None
             for elem in chain([root], descendants(root)):
                 ctx = context(elem, variables=varmap, force_root=False)
                 result = parsed_match.compute(ctx)
-                for item in result:
+                for item in limited(result):
                     if foreach:
                         ctx = context(item, variables=varmap, force_root=False)
                         innerresult = parsed_foreach.compute(ctx)
@@ -232,7 +238,7 @@ if __name__ == '__main__':
         help='MicroXPath expression to be executed on each item in the result sequence from --expr or --match')
     parser.add_argument('--partition', metavar="MICROXPATH",
         help='Element name used to partition documents and parse only a section at a time. Useful for large files.')
-    parser.add_argument('-l', '--limit', metavar="NUMBER",
+    parser.add_argument('-l', '--limit', metavar="NUMBER", type=int,
         help='Limit the number resuts in the result sequence from --expr or --match.')
     parser.add_argument('-v', '--verbose', action='store_true',
         help='Show verbose error messages')
-- 
2.43.0


From 7cf8de784c5b0373e7d46c350088f0727c4e8dc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:30:10 +0000
Subject: [PATCH 74/87] fix: scanner splits names at full stops and some
 letters

---
 pylib/uxml/lex.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pylib/uxml/lex.py b/pylib/uxml/lex.py
index 87bd4ae..c7ba51a 100644
--- a/pylib/uxml/lex.py
+++ b/pylib/uxml/lex.py
@@ -43,7 +43,7 @@ NAMESTARTCHAR = '[A-Za-z_\u00C0-\u00D6\u00D8-\u00F6\u00F8-\u02FF\u0370-\u037D' \
             '\u037F-\u1FFF\u200C-\u200D\u2070-\u218F\u2C00-\u2FEF\u3001-\uD7FF' \
             '\uF900-\uFDCF\uFDF0-\uFFFD\U00010000-\U000EFFFF]'
 
-NAMECHAR =  '[0-9A-Za-z_\u00B7-\u00C0-\u00D6\u00D8-\u00F6\u00F8-\u037D' \
+NAMECHAR =  '[-.0-9A-Za-z_\u00B7\u00C0-\u00D6\u00D8-\u00F6\u00F8-\u037D' \
             '\u037F-\u1FFF\u200C-\u200D\u203F-\u2040\u2070-\u218F\u2C00-\u2FEF\u3001-\uD7FF' \
             '\uF900-\uFDCF\uFDF0-\uFFFD\U00010000-\U000EFFFF]'
 
-- 
2.43.0


From 98e2405ce269975405517c9124d3703268a71be5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:30:11 +0000
Subject: [PATCH 75/87] fix: scanner drops tabs and line breaks in attribute
 values

---
 pylib/uxml/lex.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pylib/uxml/lex.py b/pylib/uxml/lex.py
index c7ba51a..8d71b49 100644
--- a/pylib/uxml/lex.py
+++ b/pylib/uxml/lex.py
@@ -48,13 +48,13 @@ NAMECHAR =  '[-.0-9A-Za-z_\u00B7\u00C0-\u00D6\u00D8-\u00F6\u00F8-\u037D' \
             '\uF900-\uFDCF\uFDF0-\uFFFD\U00010000-\U000EFFFF]'
 
 #For single quoted attrs
-ATTRIBVALCHAR_SGL = '[\u0020-\u0025\u0028-\u003B\u003D\u003F-\u007e\u00a0-\ud7ff\ue000-\ufdcf\ufdf0-\ufffd' \
+ATTRIBVALCHAR_SGL = '[\u0009\u000a\u0020-\u0025\u0028-\u003B\u003D\u003F-\u007e\u00a0-\ud7ff\ue000-\ufdcf\ufdf0-\ufffd' \
             '\U00010000-\U0001fffd\U00020000-\U0002fffd\U00030000-\U0003fffd\U00040000-\U0004fffd\U00050000-\U0005fffd\U00060000-\U0006fffd' \
             '\U00070000-\U0007fffd\U00080000-\U0008fffd\U00090000-\U0009fffd\U000a0000-\U000afffd\U000b0000-\U000bfffd\U000c0000-\U000cfffd' \
             '\U000d0000-\U000dfffd\U000e0000-\U000efffd\U000f0000-\U000ffffd\U00100000-\U0010fffd]'
 
 #For double quoted attrs
-ATTRIBVALCHAR_DBL = '[\u0020-\u0021\\\u0023-\u0025\u0027-\u003B\u003D\u003F-\u007e\u00a0-\ud7ff\ue000-\ufdcf\ufdf0-\ufffd' \
+ATTRIBVALCHAR_DBL = '[\u0009\u000a\u0020-\u0021\\\u0023-\u0025\u0027-\u003B\u003D\u003F-\u007e\u00a0-\ud7ff\ue000-\ufdcf\ufdf0-\ufffd' \
             '\U00010000-\U0001fffd\U00020000-\U0002fffd\U00030000-\U0003fffd\U00040000-\U0004fffd\U00050000-\U0005fffd\U00060000-\U0006fffd' \
             '\U00070000-\U0007fffd\U00080000-\U0008fffd\U00090000-\U0009fffd\U000a0000-\U000afffd\U000b0000-\U000bfffd\U000c0000-\U000cfffd' \
             '\U000d0000-\U000dfffd\U000e0000-\U000efffd\U000f0000-\U000ffffd\U00100000-\U0010fffd]'
-- 
2.43.0


From 996061041c838ecd335e9223747be3e57ec57a3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:30:12 +0000
Subject: [PATCH 76/87] fix: scanner takes comments with markup characters for
 other markup

---
 pylib/uxml/lex.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pylib/uxml/lex.py b/pylib/uxml/lex.py
index 8d71b49..4216aac 100644
--- a/pylib/uxml/lex.py
+++ b/pylib/uxml/lex.py
@@ -125,7 +125,8 @@ def t_attrdbl_NUM_ENT(t):
     t.value = t.value[3:-1]
     return t
 
-@TOKEN('<!--{0}*-->'.format(DATACHAR))
+#Any characters, but no double hyphen
+@TOKEN('<!--(?:(?!--){0})*-->'.format(CHARACTER))
 def t_data_COMMENT(t):
     t.value = t.value[4:-3]
     return t
-- 
2.43.0


From 5c4f623af1cfa6b58d4f519e03fa6064c4a99d69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:30:13 +0000
Subject: [PATCH 77/87] fix: scanner complains about white space within tags

---
 pylib/uxml/lex.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pylib/uxml/lex.py b/pylib/uxml/lex.py
index 4216aac..e4440a2 100644
--- a/pylib/uxml/lex.py
+++ b/pylib/uxml/lex.py
@@ -151,6 +151,7 @@ t_data_NUM_ENT = t_attrsgl_NUM_ENT = t_attrdbl_NUM_ENT
 
 # Ignored characters
 #t_ignore = " \t\n"
+t_tag_ignore = ' \t\n'
 
 def t_error(t):
     print("Illegal character '{0}'".format(repr(t.value[0])), file=sys.stderr)
-- 
2.43.0


From 4914c349048679e2fc068c1e172bf70ef1392eac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:30:15 +0000
Subject: [PATCH 78/87] fix: scanner takes tags of empty elements for start
 tags

---
 pylib/uxml/lex.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/pylib/uxml/lex.py b/pylib/uxml/lex.py
index e4440a2..2ab8fc2 100644
--- a/pylib/uxml/lex.py
+++ b/pylib/uxml/lex.py
@@ -13,7 +13,7 @@ from ply.lex import TOKEN
 import ply.yacc as yacc
 
 tokens = (
-    'NAME','STARTTAG','ENDTAG','GT', 'EQ', 'BOM',
+    'NAME','STARTTAG','ENDTAG','GT', 'EMPTYGT', 'EQ', 'BOM',
     'ATTVAL1','ATTVAL2','NAMEDCHARREF', 'COMMENT', 'CHARDATA',
     'SGL_QUOTE','DBL_QUOTE',
     'AMP_ENT', 'LT_ENT', 'GT_ENT', 'APOS_ENT', 'QUOT_ENT', 'NUM_ENT',
@@ -92,6 +92,11 @@ def t_tag_GT(t):
     t.lexer.begin('data')
     return t
 
+@TOKEN('/>')
+def t_tag_EMPTYGT(t):
+    t.lexer.begin('data')
+    return t
+
 @TOKEN('\'')
 def t_tag_SGL_QUOTE(t):
     t.lexer.begin('attrsgl')
-- 
2.43.0


From 568d226f50a6e50c5282ce67ae331ceb43671a78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:31:47 +0000
Subject: [PATCH 79/87] fix: scanner strips name characters that Python takes
 for white space

---
 pylib/uxml/lex.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pylib/uxml/lex.py b/pylib/uxml/lex.py
index 2ab8fc2..297af53 100644
--- a/pylib/uxml/lex.py
+++ b/pylib/uxml/lex.py
@@ -78,13 +78,13 @@ def t_tag_NAME(t):
 @TOKEN('<{0}*{1}{0}*'.format(WS, NAME_PAT, WS))
 def t_data_STARTTAG(t):
     t.lexer.begin('tag')
-    t.value = t.value[1:].strip()
+    t.value = t.value[1:].strip(' \t\n')
     return t
 
 @TOKEN('</{0}*{1}{0}*>'.format(WS, NAME_PAT, WS))
 def t_data_ENDTAG(t):
     t.lexer.begin('data')
-    t.value = t.value[2:-1].strip()
+    t.value = t.value[2:-1].strip(' \t\n')
     return t
 
 @TOKEN('>')
-- 
2.43.0


From 4b526fb73304dd7af0a20e8538d1fd5c0e253741 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:54 +0000
Subject: [PATCH 80/87] fix: namespace state of nested declarations of one
 prefix in streaming mode

The end of the inner scope dropped the outer mapping too, and the end of the outer one raised KeyError.
---
 pylib/uxml/xml.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/pylib/uxml/xml.py b/pylib/uxml/xml.py
index 48e4b7c..5af464d 100644
--- a/pylib/uxml/xml.py
+++ b/pylib/uxml/xml.py
@@ -64,6 +64,8 @@ class ns_expat_callbacks(expat_callbacks):
         #Namespace mappings encountered through the document, updated dynamically as the document is traversed
         self.prefixes = {}
         self.prefixes_rev = {}
+        #Per prefix, the mappings overridden by the declarations in scope
+        self._overridden = {}
         #If True, state of NS mappings will be maintained dynamically, as suitable to streaming mode parse operation
         #If false, best effort will be made to maintain a cumulative mapping of namespaces declared
         #For best results always use namespace normal form:
@@ -75,11 +77,18 @@ class ns_expat_callbacks(expat_callbacks):
         return
 
     def start_namespace(self, prefix, ns):
+        if self._stream:
+            self._overridden.setdefault(prefix, []).append(self.prefixes.get(prefix))
         self.prefixes[prefix] = ns
         self.prefixes_rev[ns] = prefix
 
     def end_namespace(self, prefix):
-        if self._stream: del self.prefixes[prefix]
+        if self._stream:
+            outer = self._overridden[prefix].pop()
+            if outer is None:
+                self.prefixes.pop(prefix, None)
+            else:
+                self.prefixes[prefix] = outer
 
     def start_element(self, name, attrs):
         #print('Start element:', name, attrs)
-- 
2.43.0


From cf1741df9ccb36e503f451a214d5d2d1391c3a5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:55 +0000
Subject: [PATCH 81/87] fix: text before an element is reported ahead of the
 namespaces the element declares

---
 pylib/uxml/xml.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pylib/uxml/xml.py b/pylib/uxml/xml.py
index 5af464d..71af1ae 100644
--- a/pylib/uxml/xml.py
+++ b/pylib/uxml/xml.py
@@ -77,6 +77,8 @@ class ns_expat_callbacks(expat_callbacks):
         return
 
     def start_namespace(self, prefix, ns):
+        #Text before the declaration is outside its scope
+        self.flush_text()
         if self._stream:
             self._overridden.setdefault(prefix, []).append(self.prefixes.get(prefix))
         self.prefixes[prefix] = ns
-- 
2.43.0


From 14db04c87c811c15fde4f0239b68094b3a869ead Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:10:02 +0000
Subject: [PATCH 82/87] fix: elements named after operators right after a lone
 slash

/or, /and, /div and /mod were syntax errors: the parser took the slash for
the root and the name for an operator. By XPath a name right after a slash
is a name; the root as an operand can be written (/).
---
 pylib/uxml/uxpath/parserules.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pylib/uxml/uxpath/parserules.py b/pylib/uxml/uxpath/parserules.py
index d7a083d..3424f9e 100644
--- a/pylib/uxml/uxpath/parserules.py
+++ b/pylib/uxml/uxpath/parserules.py
@@ -9,6 +9,7 @@ from amara3.uxml.uxpath import xast
 from amara3.uxml.uxpath.lexrules import tokens
 
 precedence = (
+    ('nonassoc', 'LONE_SLASH'),
     ('left', 'OR_OP'),
     ('left', 'AND_OP'),
     ('left', 'EQUAL_OP'),
@@ -119,7 +120,7 @@ def p_expr_literal(p):
 
 def p_absolute_location_path_rootonly(p):
     """
-    AbsoluteLocationPath : PATH_SEP
+    AbsoluteLocationPath : PATH_SEP %prec LONE_SLASH
     """
     p[0] = xast.absolute_path(p[1])
 
-- 
2.43.0


From a8aeb5a915f901bd173cc3fcfad545c25f731083 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:40:06 +0000
Subject: [PATCH 83/87] fix: html5.parse ignores the encoding it is given

Bytes in an encoding known to the caller came out garbled, also with
markup_fragment and parse_lax_xml.
---
 pylib/uxml/html5.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pylib/uxml/html5.py b/pylib/uxml/html5.py
index 9c42bba..daf9e2c 100644
--- a/pylib/uxml/html5.py
+++ b/pylib/uxml/html5.py
@@ -37,6 +37,7 @@ __all__ = [
 # import itertools
 # import weakref
 
+import io
 from . import tree
 from . import treeiter
 from .treeutil import *
@@ -326,7 +327,10 @@ def parse(source, prefixes=None, model=None, encoding=None, use_xhtml_ns=False):
     parser = html5lib.HTMLParser(tree=get_tree_instance)
     # doc = parser.parse(inputsource(source, None).stream, encoding=encoding)
     # doc = parser.parse(source, encoding=encoding)
-    doc = parser.parse(source)
+    if encoding is None or isinstance(source, (str, io.TextIOBase)):
+        doc = parser.parse(source)
+    else:
+        doc = parser.parse(source, override_encoding=encoding)
     first_element = next((e for e in doc.root_nodes if isinstance(e, element)), None)
     if first_element is not None:
         drop_namespace_declarations(first_element)
-- 
2.43.0


From 92aca088e4587de5e89e58eba3efc81a71edc68f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:02:50 +0000
Subject: [PATCH 84/87] fix: MicroXPath string() gives small fractions in
 scientific notation

string(0.00001) gave '1e-05', which number() does not even take back. As
documented there is to be at least one digit before the decimal point and
at least one after.
---
 pylib/uxml/uxpath/xast.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pylib/uxml/uxpath/xast.py b/pylib/uxml/uxpath/xast.py
index 1826b87..df52ea9 100644
--- a/pylib/uxml/uxpath/xast.py
+++ b/pylib/uxml/uxpath/xast.py
@@ -28,6 +28,7 @@ import operator
 import re
 # import functools
 from collections.abc import Iterable
+from decimal import Decimal
 from amara3.uxml.tree import node, element, strval
 from amara3.uxml.treeutil import descendants
 
@@ -165,7 +166,8 @@ def to_string(obj):
         elif val == int(val):
             yield str(int(val))
         else:
-            yield str(val)
+            #Not in scientific notation, unlike str(val)
+            yield format(Decimal(str(val)), 'f')
     else:
         raise RuntimeError('Unknown type for string conversion: {}'.format(val))
 
-- 
2.43.0


From 333926e219615b5c20f9ae9cac67074788e012a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:47:24 +0000
Subject: [PATCH 85/87] fix: ns_expat_callbacks failed on namespace names with
 white space such as tabs or no-break spaces

The names from expat were split at any white space, rather than at the separator
---
 pylib/uxml/xml.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pylib/uxml/xml.py b/pylib/uxml/xml.py
index 71af1ae..507b58d 100644
--- a/pylib/uxml/xml.py
+++ b/pylib/uxml/xml.py
@@ -94,11 +94,12 @@ class ns_expat_callbacks(expat_callbacks):
 
     def start_element(self, name, attrs):
         #print('Start element:', name, attrs)
-        ns, local = name.split() if ' ' in name else (None, name)
+        #Namespace names can have white space of their own
+        ns, local = name.rsplit(' ', 1) if ' ' in name else (None, name)
         if local not in self.ns_portfolio:
             self.ns_portfolio[local] = (ns, self.prefixes_rev.get(ns))
         for aname, aval in attrs.items():
-            ans, alocal = aname.split() if ' ' in aname else (None, aname)
+            ans, alocal = aname.rsplit(' ', 1) if ' ' in aname else (None, aname)
             self.ns_portfolio['@' + alocal] = (ans, self.prefixes_rev.get(ans, ''))
         expat_callbacks.start_element(self, name, attrs)
 
-- 
2.43.0


From 622996950983ecfc5adbd81a650ef1f7a8d198fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:57:19 +0000
Subject: [PATCH 86/87] fix: qquery of an empty text node gives the results

An empty text node is false as any empty string is, and was taken for the absence of
a document: qquery yielded nothing for it, unlike xml_xpath.
---
 pylib/uxml/uxpath/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pylib/uxml/uxpath/__init__.py b/pylib/uxml/uxpath/__init__.py
index f41ef10..4475baa 100644
--- a/pylib/uxml/uxpath/__init__.py
+++ b/pylib/uxml/uxpath/__init__.py
@@ -130,7 +130,7 @@ def qquery(xml_thing, xpath_thing, vars=None, funcs=None, force_root=None):
         # Force UTF-8
         root = tb.parse(xml_thing.decode('utf-8'))
         force_root = True
-    if not root: return
+    if root is None: return
     if isinstance(xpath_thing, str):
         parsed_expr = parse(xpath_thing)
     else:
-- 
2.43.0


From 91d79f4b7fadc9a6ade130c4c63584562058196c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:57:29 +0000
Subject: [PATCH 87/87] fix: substring() rounds the number just below 0.5 up,
 and large odd ones

---
 pylib/uxml/uxpath/functions.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pylib/uxml/uxpath/functions.py b/pylib/uxml/uxpath/functions.py
index 5907636..316a060 100644
--- a/pylib/uxml/uxpath/functions.py
+++ b/pylib/uxml/uxpath/functions.py
@@ -46,7 +46,11 @@ def round_number(num):
     '''
     Closest integer, and of two the greater. NaN and infinities are left alone
     '''
-    return math.floor(num + 0.5) if math.isfinite(num) else num
+    if not math.isfinite(num):
+        return num
+    # Not the floor of num + 0.5, which floating point may have rounded up
+    below = math.floor(num)
+    return below + 1 if num - below >= 0.5 else below
 
 
 BUILTIN_FUNCTIONS = {}
-- 
2.43.0

