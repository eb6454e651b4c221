From c87765ef85b4423c61fed6af41ab75cb5ec826fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:01:36 +0000
Subject: [PATCH 01/53] fix: accept is_fragment and base_globals in
 TextTemplate

FileLoader passes is_fragment=True for everything that is included or
imported, so %include and %import of text templates raised a TypeError;
so did any loader with base_globals.
---
 kajiki/text.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/kajiki/text.py b/kajiki/text.py
index 1cbe583..b1367a3 100644
--- a/kajiki/text.py
+++ b/kajiki/text.py
@@ -51,7 +51,9 @@ _re_pattern = re.compile(_pattern, re.VERBOSE | re.IGNORECASE | re.MULTILINE)
 
 
 def TextTemplate(source=None, filename=None, autoescape=False,
-                 encoding='utf-8'):
+                 encoding='utf-8', is_fragment=False, base_globals=None):
+    # *is_fragment* is what the loaders pass for included templates; it makes
+    # no difference here because text templates never have a doctype.
     assert source or filename, "You must either provide a *source* argument " \
         "or a *filename* argument to TextTemplate()."
     if source is None:
@@ -64,7 +66,7 @@ def TextTemplate(source=None, filename=None, autoescape=False,
     scanner = _Scanner(filename, source)
     tree = _Parser(scanner, autoescape).parse()
     tree.filename = filename
-    return kajiki.template.from_ir(tree)
+    return kajiki.template.from_ir(tree, base_globals=base_globals)
 
 
 class _Scanner(object):
-- 
2.43.0


From 8141fc9e6f36a6d89667c214f74f8246851f49de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:01:56 +0000
Subject: [PATCH 02/53] fix: bind imports in the template that contains them

py:import stored the imported template in the globals of the child-most
template (or of the including one), so a layout or an included template
could not use what it had imported itself.
---
 kajiki/ir.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kajiki/ir.py b/kajiki/ir.py
index 9163723..c74d69e 100644
--- a/kajiki/ir.py
+++ b/kajiki/ir.py
@@ -110,7 +110,7 @@ class ImportNode(Node):
 
     def py(self):
         yield self.line(
-            'local.__kj__.import_(%r, %r, self.__globals__)' % (
+            'local.__kj__.import_(%r, %r, globals())' % (
                 self.tpl_name, self.alias))
 
 
-- 
2.43.0


From 06916b0ca5edafd3f09ce7dc5af41765ee1cfe16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:02:53 +0000
Subject: [PATCH 03/53] fix: including a template no longer rebinds a variable
 of the includer

py:include stored the included template in the includer's globals under
the base name of the file, hiding a context variable or function of that
name for the rest of the rendering.
---
 kajiki/ir.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kajiki/ir.py b/kajiki/ir.py
index c74d69e..cefabfa 100644
--- a/kajiki/ir.py
+++ b/kajiki/ir.py
@@ -121,7 +121,7 @@ class IncludeNode(Node):
 
     def py(self):
         yield self.line(
-            'yield local.__kj__.import_(%r, None, self.__globals__).__main__()' % (
+            'yield local.__kj__.import_(%r, None, dict(globals())).__main__()' % (
                 self.tpl_name))
 
 
-- 
2.43.0


From 7d941e7a12e4ec40baddeb0529fc90bcf819df8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:04:35 +0000
Subject: [PATCH 04/53] fix: map traceback lines correctly in long, nested and
 multi-line templates

Line increments over 127 were written as negative ones, negative ones
were read as positive (ERROR LOOKING UP LINE), functions got the lines of
the main body, an expression spanning lines shifted all lines after it,
and nested functions (py:call bodies, inner py:def, attributes) kept the
lines and file name of the generated Python.
---
 kajiki/lnotab.py   | 24 ++++++++++++------
 kajiki/template.py | 61 +++++++++++++++++++++++++++-------------------
 2 files changed, 53 insertions(+), 32 deletions(-)

diff --git a/kajiki/lnotab.py b/kajiki/lnotab.py
index edffbd8..a600760 100644
--- a/kajiki/lnotab.py
+++ b/kajiki/lnotab.py
@@ -49,8 +49,14 @@ expand 300, 300 to 255, 255, 45, 45,
 '''
 
 from __future__ import (absolute_import, division, print_function)
+from sys import version_info
 from nine import IS_PYTHON2
 
+# Since Python 3.6 the line number increments are signed bytes.
+SIGNED_LINES = version_info >= (3, 6)
+MAX_LINE_DELTA = 127 if SIGNED_LINES else 255
+MIN_LINE_DELTA = -128 if SIGNED_LINES else 0
+
 if IS_PYTHON2:
     int2byte = chr
     byte2int = ord
@@ -64,23 +70,25 @@ else:
 
 def lnotab(pairs, first_lineno=0):
     """Yields byte integers representing the pairs of integers passed in."""
-    assert first_lineno <= pairs[0][1]
     cur_byte, cur_line = 0, first_lineno
     for byte_off, line_off in pairs:
         byte_delta = byte_off - cur_byte
         line_delta = line_off - cur_line
         assert byte_delta >= 0
-        assert line_delta >= 0
+        if line_delta < 0 and not SIGNED_LINES:
+            continue  # Cannot be represented
         while byte_delta > 255:
             yield 255  # byte
             yield 0   # line
             byte_delta -= 255
+        while line_delta > MAX_LINE_DELTA or line_delta < MIN_LINE_DELTA:
+            step = MAX_LINE_DELTA if line_delta > 0 else MIN_LINE_DELTA
+            yield byte_delta
+            yield step & 255  # line
+            byte_delta = 0
+            line_delta -= step
         yield byte_delta
-        while line_delta > 255:
-            yield 255  # line
-            yield 0   # byte
-            line_delta -= 255
-        yield line_delta
+        yield line_delta & 255
         cur_byte, cur_line = byte_off, line_off
 
 
@@ -104,6 +112,8 @@ def lnotab_numbers(lnotab, first_lineno=0):
                 yield cur_byte, cur_line
                 last_line = cur_line
             cur_byte += byte_delta
+        if SIGNED_LINES and line_delta > 127:
+            line_delta -= 256
         cur_line += line_delta
     if cur_line != last_line:
         yield cur_byte, cur_line
diff --git a/kajiki/template.py b/kajiki/template.py
index 29f7555..6e085da 100644
--- a/kajiki/template.py
+++ b/kajiki/template.py
@@ -314,10 +314,12 @@ def from_ir(ir_node, base_globals=None):
     py_text = '\n'.join(map(str, py_lines))
     py_linenos = []
     last_lineno = 0
-    for i, l in enumerate(py_lines):
-        lno = max(last_lineno, l._lineno or 0)
-        py_linenos.append((i + 1, lno))
-        last_lineno = lno
+    for l in py_lines:
+        # Nodes that do not know their line belong to the preceding one.
+        last_lineno = l._lineno or last_lineno
+        # An expression that spans lines makes more than one line of Python.
+        for offset in range(str(l).count('\n') + 1):
+            py_linenos.append((len(py_linenos) + 1, last_lineno + offset))
     dct = dict(kajiki=kajiki)
     try:
         exec(py_text, dct)
@@ -381,33 +383,42 @@ class TplFunc(object):
     def annotate_lnotab(self, filename, py_to_tpl, py_to_tpl_dct):
         if not py_to_tpl:
             return
-        code = self._func.__code__
-        new_lnotab_numbers = []
-        for bc_off, py_lno in lnotab.lnotab_numbers(
-                code.co_lnotab, code.co_firstlineno):
-            tpl_lno = py_to_tpl_dct.get(py_lno, None)
-            if tpl_lno is None:
-                print('ERROR LOOKING UP LINE #%d' % py_lno)
-                continue
-            new_lnotab_numbers.append((bc_off, tpl_lno))
-        if not new_lnotab_numbers:
-            return
-        new_firstlineno = py_to_tpl_dct.get(code.co_firstlineno, 0)
-        new_lnotab = lnotab.lnotab_string(new_lnotab_numbers, new_firstlineno)
-        new_code = patch_code_file_lines(
-            code, filename, new_firstlineno, new_lnotab)
-        self._func.__code__ = new_code
-        return
+        self._func.__code__ = annotate_code(
+            self._func.__code__, filename, py_to_tpl_dct)
+
+
+def annotate_code(code, filename, py_to_tpl_dct):
+    '''Return *code*, and the functions nested in it, with the file name and
+    the line numbers of the template instead of the generated Python.
+    '''
+    new_lnotab_numbers = []
+    for bc_off, py_lno in lnotab.lnotab_numbers(
+            code.co_lnotab, code.co_firstlineno):
+        tpl_lno = py_to_tpl_dct.get(py_lno, None)
+        if tpl_lno is None:
+            print('ERROR LOOKING UP LINE #%d' % py_lno)
+            continue
+        new_lnotab_numbers.append((bc_off, tpl_lno))
+    if not new_lnotab_numbers:
+        return code
+    new_firstlineno = py_to_tpl_dct.get(code.co_firstlineno, 0)
+    new_lnotab = lnotab.lnotab_string(new_lnotab_numbers, new_firstlineno)
+    new_consts = tuple(
+        annotate_code(const, filename, py_to_tpl_dct)
+        if isinstance(const, types.CodeType) else const
+        for const in code.co_consts)
+    return patch_code_file_lines(
+        code, filename, new_firstlineno, new_lnotab, new_consts)
 
 
 if IS_PYTHON2:
-    def patch_code_file_lines(code, filename, firstlineno, lnotab):
+    def patch_code_file_lines(code, filename, firstlineno, lnotab, consts):
         return types.CodeType(code.co_argcount,
                               code.co_nlocals,
                               code.co_stacksize,
                               code.co_flags,
                               code.co_code,
-                              code.co_consts,
+                              consts,
                               code.co_names,
                               code.co_varnames,
                               filename.encode('utf-8'),
@@ -417,7 +428,7 @@ if IS_PYTHON2:
                               code.co_freevars,
                               code.co_cellvars)
 else:
-    def patch_code_file_lines(code, filename, firstlineno, lnotab):
+    def patch_code_file_lines(code, filename, firstlineno, lnotab, consts):
         code_args = [code.co_argcount]
         if version_info >= (3, 8):
             code_args.append(code.co_posonlyargcount)
@@ -427,7 +438,7 @@ else:
             code.co_stacksize,
             code.co_flags,
             code.co_code,
-            code.co_consts,
+            consts,
             code.co_names,
             code.co_varnames,
             filename,
-- 
2.43.0


From da01ce46399a6d00130e621c66332e0978523d43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:04:56 +0000
Subject: [PATCH 05/53] fix: number the lines of text template directives and
 expressions correctly

The blank lines swallowed before a directive were not counted, a % line
got the number of the next line, a multi-line expression the number of
its last line, and directives themselves none at all.
---
 kajiki/ir.py   |  4 +++-
 kajiki/text.py | 19 ++++++++++++++-----
 2 files changed, 17 insertions(+), 6 deletions(-)

diff --git a/kajiki/ir.py b/kajiki/ir.py
index cefabfa..a996340 100644
--- a/kajiki/ir.py
+++ b/kajiki/ir.py
@@ -188,7 +188,9 @@ class CallNode(HierNode):
         for x in self.body_iter():
             yield x
         yield DedentNode()
-        yield self.CallTail(self.call)
+        tail = self.CallTail(self.call)
+        tail.filename, tail.lineno = self.filename, self.lineno
+        yield tail
 
 
 class ForNode(HierNode):
diff --git a/kajiki/text.py b/kajiki/text.py
index b1367a3..9b274f2 100644
--- a/kajiki/text.py
+++ b/kajiki/text.py
@@ -94,12 +94,14 @@ class _Scanner(object):
                 self.pos = mo.end()
                 yield self.text('$')
             elif groups['tag_bare'] is not None:
+                self.lineno += mo.group().count('\n')
                 self.pos = mo.end()
                 yield self._get_tag_bare(groups['tag_bare'])
             elif groups['tag_begin'] is not None:
                 self.pos = mo.end()
                 yield self._get_tag(groups['tag_begin'])
             elif groups['tag_begin_ljust'] is not None:
+                self.lineno += mo.group().count('\n')
                 self.pos = mo.end()
                 yield self._get_tag(groups['tag_begin_ljust'])
             elif groups['tag_bare_invalid'] is not None:
@@ -122,12 +124,14 @@ class _Scanner(object):
     pos = property(_get_pos, _set_pos)
 
     def text(self, text):
+        token = _Text(self.filename, self.lineno, text)
         self.lineno += text.count('\n')
-        return _Text(self.filename, self.lineno, text)
+        return token
 
     def expr(self, text):
+        token = _Expr(self.filename, self.lineno, text)
         self.lineno += text.count('\n')
-        return _Expr(self.filename, self.lineno, text)
+        return token
 
     def tag(self, tagname, body):
         tag = _Tag(self.filename, self.lineno, tagname, body)
@@ -139,9 +143,10 @@ class _Scanner(object):
         if end == -1:
             end = len(self.source)
         body = self.source[self.pos:end]
-        self.lineno += 1
         self.pos = end + 1
-        return self.tag(tagname, body)
+        tag = self.tag(tagname, body)
+        self.lineno += 1
+        return tag
 
     def _get_tag(self, tagname):
         end = self.source.find('%}', self.pos)
@@ -212,7 +217,11 @@ class _Parser(object):
                         yield token
                         break
                     parser = getattr(self, '_parse_%s' % token.tagname)
-                    yield parser(token)
+                    node = parser(token)
+                    if node is not None:
+                        node.filename = token.filename
+                        node.lineno = token.lineno
+                    yield node
                 else:
                     msg = 'Parse error: %r unexpected' % token
                     assert False, msg
-- 
2.43.0


From 72255281241fc490119287e7b28558ea42752cb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:05:38 +0000
Subject: [PATCH 06/53] fix: allow dollars and directive-like text inside
 expressions and tags

A dollar in a string literal of a ${} expression was scanned again as the
start of another expression, which garbled XML templates and made text
templates fail; so did {% or a %-line inside an expression and a dollar
in the arguments of a text directive.
---
 kajiki/text.py         | 2 ++
 kajiki/xml_template.py | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/kajiki/text.py b/kajiki/text.py
index 9b274f2..139bc0f 100644
--- a/kajiki/text.py
+++ b/kajiki/text.py
@@ -80,6 +80,8 @@ class _Scanner(object):
         source = self.source
         for mo in _re_pattern.finditer(source):
             start = mo.start()
+            if start < self.pos:
+                continue  # inside an expression or tag that we already read
             if start > self.pos:
                 yield self.text(source[self.pos:start])
                 self.pos = start
diff --git a/kajiki/xml_template.py b/kajiki/xml_template.py
index 8615804..1522cb6 100644
--- a/kajiki/xml_template.py
+++ b/kajiki/xml_template.py
@@ -513,6 +513,8 @@ class _TextCompiler(object):
         source = self.source
         for mo in self._re_pattern.finditer(source):
             start = mo.start()
+            if start < self.pos:
+                continue  # inside an expression that we already read
             if start > self.pos:
                 yield self.text(source[self.pos:start])
             self.pos = start
-- 
2.43.0


From bb2df78db071fdca62e65d374cbacd5d345490da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:06:48 +0000
Subject: [PATCH 07/53] fix: allow <, > and & in the expressions of text nodes

The text was escaped before its expressions were read, so ${a > b} and
${a &lt; b} were rejected, and string literals escaped twice.
---
 kajiki/xml_template.py | 23 +++++++++++------------
 1 file changed, 11 insertions(+), 12 deletions(-)

diff --git a/kajiki/xml_template.py b/kajiki/xml_template.py
index 1522cb6..f2b4d3c 100644
--- a/kajiki/xml_template.py
+++ b/kajiki/xml_template.py
@@ -19,7 +19,7 @@ from . import ir
 from . import template
 from .ddict import defaultdict
 from .doctype import DocumentTypeDeclaration, extract_dtd
-from .entities import html5, unescape
+from .entities import html5
 from .html_utils import (HTML_OPTIONAL_END_TAGS, HTML_REQUIRED_END_TAGS,
                          HTML_CDATA_TAGS)
 from .markup_template import QDIRECTIVES, QDIRECTIVES_DICT
@@ -252,9 +252,7 @@ class _Compiler(object):
                         if getattr(child, '_cdata', False):
                             continue
                         assert isinstance(child, dom.Text)
-                        for x in self._compile_text(child):
-                            if child.escaped:  # If user declared CDATA no escaping happened.
-                                x.text = unescape(x.text)
+                        for x in self._compile_text(child, escape=False):
                             yield x
                     if self.mode == 'xml':  # Finish escaping
                         yield ir.TextNode('/*]]>*/')
@@ -372,9 +370,10 @@ class _Compiler(object):
             *self._compile_nop(node))
 
     @annotate
-    def _compile_text(self, node):
+    def _compile_text(self, node, escape=True):
         """Compile text nodes to their intermediate representation"""
-        kwargs = {}
+        # The content of CDATA sections is never escaped.
+        kwargs = {'escape': escape and node.escaped}
         if node.parentNode and node.parentNode.tagName in HTML_CDATA_TAGS:
             # script and style should always be untranslatable.
             kwargs['node_type'] = ir.TextNode
@@ -471,7 +470,8 @@ class _TextCompiler(object):
     instances and :class:`.ir.TextNode` instances accordingly.
     """
     def __init__(self, filename, source, lineno,
-                 node_type=make_text_node, in_html_attr=False, compiler_instance=None):
+                 node_type=make_text_node, in_html_attr=False, compiler_instance=None,
+                 escape=False):
         self.filename = filename
         self.source = source
         self.orig_lineno = lineno
@@ -479,11 +479,12 @@ class _TextCompiler(object):
         self.pos = 0
         self.node_type = node_type
         self.in_html_attr = in_html_attr
+        self.escape = escape
         self.compiler_instance = compiler_instance
         self.doc = self.compiler_instance.doc
 
     def text(self, text):
-        node = self.node_type(text)
+        node = self.node_type(sax.saxutils.escape(text) if self.escape else text)
         node.lineno = self.real_lineno
         self.lineno += text.count('\n')
         return node
@@ -655,12 +656,10 @@ class _Parser(sax.ContentHandler):
         assert name == popped.tagName
 
     def characters(self, content):
-        should_escape = not self._cdata_stack
-        if should_escape:
-            content = sax.saxutils.escape(content)
         node = self._doc.createTextNode(content)
         node.lineno = self._parser.getLineNumber()
-        node.escaped = should_escape
+        # Escaping is left to the compiler, because expressions are Python code.
+        node.escaped = not self._cdata_stack
         self._els[-1].appendChild(node)
 
     def processingInstruction(self, target, data):
-- 
2.43.0


From f7e1d9519b9d0af985e0ec036949e06ca09492ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:07:09 +0000
Subject: [PATCH 08/53] fix: delimit and check the expressions of text
 templates properly

${a)}, ${a;b} and ${a!r} were silently cut short, an unterminated
expression made the parser fail on None, an expression could not start on
a new line, and ${a, b} passed two arguments to escape().
---
 kajiki/text.py         | 31 +++++++++++++++++++++++--------
 kajiki/xml_template.py |  3 ++-
 2 files changed, 25 insertions(+), 9 deletions(-)

diff --git a/kajiki/text.py b/kajiki/text.py
index 139bc0f..d4e3caf 100644
--- a/kajiki/text.py
+++ b/kajiki/text.py
@@ -162,15 +162,29 @@ class _Scanner(object):
         return self.tag(tagname, body)
 
     def _get_braced_expr(self):
+        rest = self.source[self.pos:]
+        leading = rest[:len(rest) - len(rest.lstrip())]
+        self.lineno += leading.count('\n')
+        self.pos += len(leading)
+        rest = rest[len(leading):]
         try:
-            compile(self.source[self.pos:], '', 'eval')
+            compile(rest, '', 'eval')
         except SyntaxError as se:
-            end = self.pos + sum([se.offset] + [len(line) + 1
-                                                for idx, line in enumerate(self.source[self.pos:].splitlines())
-                                                if idx < se.lineno - 1])
-            text = self.source[self.pos:end - 1]
-            self.pos = end
-            return self.expr(text)
+            end = sum([se.offset] + [len(line) + 1
+                                     for idx, line in enumerate(rest.splitlines())
+                                     if idx < se.lineno - 1])
+            text = rest[:end - 1]
+            if rest[end - 1:end] == '}':
+                try:
+                    compile(text, '', 'eval')
+                except SyntaxError:
+                    pass
+                else:
+                    self.pos += end
+                    return self.expr(text)
+        raise kajiki.template.KajikiSyntaxError(
+            "Kajiki can't compile the python expression `%s`" % rest,
+            self.source, self.filename, self.lineno, 0)
 
 
 class _Parser(object):
@@ -198,7 +212,8 @@ class _Parser(object):
         return node
 
     def expr(self, token):
-        node = ir.ExprNode(token.text, safe=not self.autoescape)
+        # The parentheses keep a tuple such as ${a, b} one value.
+        node = ir.ExprNode('(%s)' % token.text, safe=not self.autoescape)
         node.filename = token.filename
         node.lineno = token.lineno
         return node
diff --git a/kajiki/xml_template.py b/kajiki/xml_template.py
index f2b4d3c..7fbe1b1 100644
--- a/kajiki/xml_template.py
+++ b/kajiki/xml_template.py
@@ -492,7 +492,8 @@ class _TextCompiler(object):
     def expr(self, text):
         # *safe* being True here avoids escaping twice, since
         # HTML attributes are always escaped in the end.
-        node = ir.ExprNode(text, safe=self.in_html_attr)
+        # The parentheses keep a tuple such as ${a, b} one value.
+        node = ir.ExprNode('(%s)' % text, safe=self.in_html_attr)
         node.lineno = self.real_lineno
         self.lineno += text.count('\n')
         return node
-- 
2.43.0


From be0a6655553dc48456440d89f964aad339882f5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:08:29 +0000
Subject: [PATCH 09/53] fix: process directives when a comment precedes the
 root element

The transformations started from the first child of the document, so
with a comment in that place no directive attribute was ever expanded.
---
 kajiki/xml_template.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/kajiki/xml_template.py b/kajiki/xml_template.py
index 7fbe1b1..d69d5e1 100644
--- a/kajiki/xml_template.py
+++ b/kajiki/xml_template.py
@@ -762,7 +762,7 @@ class _DomTransformer(object):
         Any other node (including CDATA TextNodes) splits runs of TextNodes.
         """
         if isinstance(tree, dom.Document):
-            cls._merge_text_nodes(tree.firstChild)
+            cls._merge_text_nodes(tree.documentElement)
             return tree
         if not isinstance(getattr(tree, 'tagName', None), basestring):
             return tree
@@ -866,7 +866,7 @@ class _DomTransformer(object):
         receive the latter.
         """
         if isinstance(tree, dom.Document):
-            cls._expand_directives(tree.firstChild, tree)
+            cls._expand_directives(tree.documentElement, tree)
             return tree
         if not isinstance(getattr(tree, 'tagName', None), basestring):
             return tree
-- 
2.43.0


From dc38663971df86faf071894113e34e65596cefe1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:08:50 +0000
Subject: [PATCH 10/53] fix: honour HTML entities in attribute values and
 reject unknown ones

Entities other than the five of XML were dropped from attribute values,
and an unknown entity raised a KeyError instead of a parse error.
---
 kajiki/xml_template.py | 31 +++++++++++++------------------
 1 file changed, 13 insertions(+), 18 deletions(-)

diff --git a/kajiki/xml_template.py b/kajiki/xml_template.py
index d69d5e1..946c958 100644
--- a/kajiki/xml_template.py
+++ b/kajiki/xml_template.py
@@ -583,13 +583,12 @@ class _Parser(sax.ContentHandler):
     converted into the intermediate representation and
     then to Python Code.
     """
-    DTD = '<!DOCTYPE kajiki SYSTEM "kajiki.dtd">'
+    DTD = '<!DOCTYPE kajiki [%s]>'
 
     def __init__(self, filename, source):
         """XML defines only a few entities; HTML defines many more.
         The XML parser errors out when it finds HTML entities, unless the
-        template contains a reference to an external DTD (in which case
-        skippedEntity() gets called, this is what we want). In other words,
+        template contains a DTD that declares them. In other words,
         we want to trick expat into parsing XML + HTML entities for us.
         We wouldn't force our users to declare everyday HTML entities!
 
@@ -607,9 +606,19 @@ class _Parser(sax.ContentHandler):
         # Store the original DTD in the document for the compiler to use later
         self._doc._dtd, position, source = extract_dtd(source)
         # Use our own DTD just for XML parsing
-        self._source = source[:position] + self.DTD + source[position:]
+        self._source = source[:position] + self._build_dtd(source) + source[position:]
         self._cdata_stack = []
 
+    @classmethod
+    def _build_dtd(cls, source):
+        """Return a DTD that declares the HTML entities used in *source*."""
+        entities = set(re.findall(r'&(\w+;)', source)).intersection(html5)
+        return cls.DTD % ''.join(
+            '<!ENTITY %s "%s">' % (
+                # Doubly escaped, because some of them stand for markup characters.
+                name[:-1], ''.join('&#38;#%d;' % ord(char) for char in html5[name]))
+            for name in sorted(entities))
+
     def parse(self):
         """Parse an XML/HTML document to its DOM representation."""
         self._parser = parser = sax.make_parser()
@@ -668,20 +677,6 @@ class _Parser(sax.ContentHandler):
         node.lineno = self._parser.getLineNumber()
         self._els[-1].appendChild(node)
 
-    def skippedEntity(self, name):
-        # Deals with an HTML entity such as &nbsp; (XML itself defines very few entities.)
-
-        # The presence of a SYSTEM doctype makes expat say "hey, that MIGHT be
-        # a valid entity, better pass it along to sax and find out!"
-        # (Since expat is nonvalidating, it never reads the external doctypes.)
-        if name and name[-1] != ';':
-            # In entities.html5 sometimes the entities are recorded
-            # with/without semicolon. That list is copied from cPython
-            # itself, and we don't want to maintain a separate diff.
-            # So just ensure we ask for entities always recorded with trailing semicolon.
-            name += ';'
-        return self.characters(html5[name])
-
     def startElementNS(self, name, qname, attrs):  # pragma no cover
         raise NotImplementedError('startElementNS')
 
-- 
2.43.0


From ca60f9ecce165317d95c85295360c7afe705db0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:09:20 +0000
Subject: [PATCH 11/53] fix: look for the doctype in the prolog only and keep
 line numbers

Text that looks like a doctype in a comment or CDATA section was taken
for one, a template with an XML declaration and no doctype was rejected,
a doctype of several lines shifted all line numbers, and error messages
quoted Kajiki's own doctype as part of the template.
---
 kajiki/doctype.py      | 11 +++++++----
 kajiki/xml_template.py | 12 +++++++++---
 2 files changed, 16 insertions(+), 7 deletions(-)

diff --git a/kajiki/doctype.py b/kajiki/doctype.py
index 66833d6..92bbc9f 100644
--- a/kajiki/doctype.py
+++ b/kajiki/doctype.py
@@ -78,7 +78,11 @@ class DocumentTypeDeclaration(object):
         else:
             return None
 
-    REGEX = re.compile(r'<!DOCTYPE[^>]+>')  # This matches any DTD.
+    # This matches any DTD, which only comments, processing instructions
+    # and white space may precede.
+    REGEX = re.compile(
+        r'(?:\s|<\?(?:(?!\?>).)*\?>|<!--(?:(?!-->).)*-->)*(<!DOCTYPE[^>]+>)',
+        flags=re.DOTALL)
 
 
 # Build the public DTDs dictionary
@@ -145,8 +149,7 @@ def extract_dtd(markup):
         <!DOCTYPE HTML PUBLIC "-//W3C//DTD HTML 4.01 Transitional//EN"
             "http://www.w3.org/TR/html4/loose.dtd">
     """
-    match = DocumentTypeDeclaration.REGEX.search(markup)
+    match = DocumentTypeDeclaration.REGEX.match(markup)
     if not match:
         return '', 0, markup
-    found = match.group()
-    return found, match.start(), markup.replace(found, '', 1)
+    return match.group(1), match.start(1), markup[:match.start(1)] + markup[match.end(1):]
diff --git a/kajiki/xml_template.py b/kajiki/xml_template.py
index 946c958..440c7f4 100644
--- a/kajiki/xml_template.py
+++ b/kajiki/xml_template.py
@@ -604,9 +604,15 @@ class _Parser(sax.ContentHandler):
         self._doc = dom.Document()
         self._filename = filename
         # Store the original DTD in the document for the compiler to use later
+        self._source = source
         self._doc._dtd, position, source = extract_dtd(source)
-        # Use our own DTD just for XML parsing
-        self._source = source[:position] + self._build_dtd(source) + source[position:]
+        if not self._doc._dtd:
+            # Nothing may precede the XML declaration
+            declaration = re.match(r'<\?xml\s[^>]*\?>', source)
+            position = declaration.end() if declaration else 0
+        # Use our own DTD just for XML parsing, on the same number of lines
+        self._xml = (source[:position] + self._build_dtd(source)
+                     + '\n' * self._doc._dtd.count('\n') + source[position:])
         self._cdata_stack = []
 
     @classmethod
@@ -633,7 +639,7 @@ class _Parser(sax.ContentHandler):
         # streams; processing of character streams is for further study."
         # So if source is unicode, we pre-encode it:
         # TODO Is this dance really necessary? Can't I just call a function?
-        byts = self._source.encode('utf-8')
+        byts = self._xml.encode('utf-8')
         source.setEncoding(native_str('utf-8'))
         source.setByteStream(BytesIO(byts))
         source.setSystemId(self._filename)
-- 
2.43.0


From 57e60a9d5de613fb99d5c96e839823ba47fc3187 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:09:44 +0000
Subject: [PATCH 12/53] fix: report the right line for invalid and multi-line
 expressions

Errors in an expression gave a line relative to the text node, and the
line breaks before an expression were not counted. Line separators that
are not line breaks for Python broke multi-line expressions, and an
expression cut short at its first character raised an IndexError.
---
 kajiki/text.py         |  2 +-
 kajiki/xml_template.py | 18 +++++++++++-------
 2 files changed, 12 insertions(+), 8 deletions(-)

diff --git a/kajiki/text.py b/kajiki/text.py
index d4e3caf..3267e7c 100644
--- a/kajiki/text.py
+++ b/kajiki/text.py
@@ -171,7 +171,7 @@ class _Scanner(object):
             compile(rest, '', 'eval')
         except SyntaxError as se:
             end = sum([se.offset] + [len(line) + 1
-                                     for idx, line in enumerate(rest.splitlines())
+                                     for idx, line in enumerate(rest.split('\n'))
                                      if idx < se.lineno - 1])
             text = rest[:end - 1]
             if rest[end - 1:end] == '}':
diff --git a/kajiki/xml_template.py b/kajiki/xml_template.py
index 440c7f4..259c4f3 100644
--- a/kajiki/xml_template.py
+++ b/kajiki/xml_template.py
@@ -335,6 +335,7 @@ class _Compiler(object):
         if not body:
             body = [ir.PassNode()]
         self.functions[decl] = body
+        self.function_lnos[decl] = node.lineno
         if self.is_child:
             parent_block = 'parent.' + fname
             body.insert(0,
@@ -356,6 +357,7 @@ class _Compiler(object):
             yield ir.InnerDefNode(node.getAttribute('function'), *body)
         else:
             self.functions[node.getAttribute('function')] = body
+            self.function_lnos[node.getAttribute('function')] = node.lineno
 
     @annotate
     def _compile_call(self, node):
@@ -544,20 +546,22 @@ class _TextCompiler(object):
         def py_expr(end=None):
             return self.source[self.pos:end]
         try:
-            self.pos += len(py_expr()) - len(py_expr().lstrip())
+            leading = py_expr()[:len(py_expr()) - len(py_expr().lstrip())]
+            self.lineno += leading.count('\n')
+            self.pos += len(leading)
             compile(py_expr(), 'find_}', 'eval')
         except SyntaxError as se:
             end = sum(
                 [self.pos, se.offset] +
                 [len(line) + 1
-                 for idx, line in enumerate(py_expr().splitlines())
+                 for idx, line in enumerate(py_expr().split('\n'))
                  if idx < se.lineno - 1]
             )
-            if py_expr(end)[-1] != '}':
+            if py_expr(end)[-1:] != '}':
                 # for example unclosed strings
                 raise XMLTemplateCompileError(
                     "Kajiki can't compile the python expression `%s`" % py_expr()[:-1],
-                    doc=self.doc, filename=self.filename, linen=self.lineno)
+                    doc=self.doc, filename=self.filename, linen=self.real_lineno)
             else:
                 # if the expression ends in a } then it may be valid
                 try:
@@ -566,14 +570,14 @@ class _TextCompiler(object):
                     # for example + operators with a single operand
                     raise XMLTemplateCompileError(
                         "Kajiki detected an invalid python expression `%s`" % py_expr()[:-1],
-                        doc=self.doc, filename=self.filename, linen=self.lineno)
+                        doc=self.doc, filename=self.filename, linen=self.real_lineno)
 
             py_text = py_expr(end - 1)
             self.pos = end
             return self.expr(py_text)
         else:
             raise XMLTemplateCompileError("Braced expression not terminated",
-                                          doc=self.doc, filename=self.filename, linen=self.lineno)
+                                          doc=self.doc, filename=self.filename, linen=self.real_lineno)
 
 
 class _Parser(sax.ContentHandler):
@@ -930,7 +934,7 @@ class XMLTemplateError(Exception):
             return ''
 
         try:
-            return source.splitlines()[linen]
+            return source.split('\n')[linen]
         except:
             return ''
 
-- 
2.43.0


From a02e45ac86af75f9daadf3917c172ea67c5002da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:09:49 +0000
Subject: [PATCH 13/53] fix: do not look for ${} in the Python code of
 py:content and py:attrs

---
 kajiki/xml_template.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/kajiki/xml_template.py b/kajiki/xml_template.py
index 259c4f3..ab4a0a8 100644
--- a/kajiki/xml_template.py
+++ b/kajiki/xml_template.py
@@ -223,15 +223,15 @@ class _Compiler(object):
             node.removeAttribute('py:strip')
         yield ir.TextNode('<%s' % node.tagName, guard)
         for k, v in sorted(node.attributes.items()):
-            tc = _TextCompiler(self.filename, v, node.lineno,
-                               ir.TextNode, in_html_attr=True, compiler_instance=self)
-            v = list(tc)
             if k == 'py:content':
                 content = node.getAttribute('py:content')
                 continue
             elif k == 'py:attrs':
                 attrs = node.getAttribute('py:attrs')
                 continue
+            tc = _TextCompiler(self.filename, v, node.lineno,
+                               ir.TextNode, in_html_attr=True, compiler_instance=self)
+            v = list(tc)
             yield ir.AttrNode(k, v, guard, self.mode)
         if attrs:
             yield ir.AttrsNode(attrs, guard, self.mode)
-- 
2.43.0


From b438c87cc48868e26e9921798c88d445efee8242 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:09:53 +0000
Subject: [PATCH 14/53] fix: recognise the XHTML+RDFa doctype

The plus sign of its public identifier was taken for a regular expression
operator.
---
 kajiki/doctype.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/kajiki/doctype.py b/kajiki/doctype.py
index 92bbc9f..9c3646a 100644
--- a/kajiki/doctype.py
+++ b/kajiki/doctype.py
@@ -62,8 +62,8 @@ class DocumentTypeDeclaration(object):
 
     @reify
     def regex(self):
-        return re.compile(str(self).replace(' ', r'\s+').replace('.', r'\.')
-            .replace('[', r'\[').replace(']', r'\]'), flags=re.IGNORECASE)
+        return re.compile(r'\s+'.join(map(re.escape, str(self).split(' '))),
+                          flags=re.IGNORECASE)
 
     by_uri = dict()  # We store the public DTDs here.
 
-- 
2.43.0


From f87eeb02ef6f09c0c150d42ef338753a995f2649 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:10:49 +0000
Subject: [PATCH 15/53] fix: accept directives and functions whose body renders
 nothing

An empty py:if, py:for, py:case, py:else or py:call (or one holding only
a hidden comment or a function definition) was rejected as a syntax error,
and a function, called body or template with nothing but Python code
failed when called because it was no generator.
---
 kajiki/ir.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/kajiki/ir.py b/kajiki/ir.py
index a996340..2468962 100644
--- a/kajiki/ir.py
+++ b/kajiki/ir.py
@@ -55,8 +55,12 @@ class HierNode(Node):
     def __iter__(self):
         yield self
         yield IndentNode()
+        is_empty = True
         for x in self.body_iter():
             yield x
+            is_empty = False
+        if is_empty:  # In Python, a block without a body is a SyntaxError.
+            yield PassNode()
         yield DedentNode()
 
 
@@ -150,12 +154,11 @@ class DefNode(HierNode):
     def __iter__(self):
         yield self
         yield IndentNode()
-        is_empty = True
         for x in self.body_iter():
             yield x
-            is_empty = False
-        if is_empty:  # In Python, a function without a body is a SyntaxError.
-            yield PassNode()  # Prevent creation of a function without a body
+        # Prevent creation of a function without a body (a SyntaxError)
+        # or without a yield (not a generator).
+        yield PassNode()
         yield DedentNode()
 
 
@@ -187,6 +190,7 @@ class CallNode(HierNode):
         yield IndentNode()
         for x in self.body_iter():
             yield x
+        yield PassNode()
         yield DedentNode()
         tail = self.CallTail(self.call)
         tail.filename, tail.lineno = self.filename, self.lineno
-- 
2.43.0


From 00a8653efcf7f4f372f1bbad935d70b9ea75914d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:11:41 +0000
Subject: [PATCH 16/53] fix: end a text switch at the end of its else

%else took the %end of the %switch, which then went on to the %end of the
enclosing construct: what followed a loop around it was repeated with it.
White space before the first %case no longer makes a syntax error.
---
 kajiki/text.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/kajiki/text.py b/kajiki/text.py
index 3267e7c..5239fdb 100644
--- a/kajiki/text.py
+++ b/kajiki/text.py
@@ -280,8 +280,14 @@ class _Parser(object):
         return ir.ForNode(token.body, *body[:-1])
 
     def _parse_switch(self, token):
-        body = list(self._parse_body('end'))
-        return ir.SwitchNode(token.body, *body[:-1])
+        # White space between the switch and its first case is not output.
+        body = [node for node in self._parse_body('end', 'else')
+                if not (isinstance(node, ir.TextNode) and not node.text.strip())]
+        stoptok = body.pop()
+        if stoptok is not None and stoptok.tagname == 'else':
+            # The same %end closes the %else and the %switch.
+            body.append(self._parse_else(stoptok))
+        return ir.SwitchNode(token.body, *body)
 
     def _parse_case(self, token):
         body = list(self._parse_body('case', 'else', 'end'))
-- 
2.43.0


From 2e6f611250d4e312b724c906b6232568c87eed80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:11:41 +0000
Subject: [PATCH 17/53] fix: accept empty text templates and a backslash or -%}
 at the end

TextTemplate('') was rejected and the other two raised an IndexError.
---
 kajiki/text.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/kajiki/text.py b/kajiki/text.py
index 5239fdb..8adabd8 100644
--- a/kajiki/text.py
+++ b/kajiki/text.py
@@ -54,7 +54,7 @@ def TextTemplate(source=None, filename=None, autoescape=False,
                  encoding='utf-8', is_fragment=False, base_globals=None):
     # *is_fragment* is what the loaders pass for included templates; it makes
     # no difference here because text templates never have a doctype.
-    assert source or filename, "You must either provide a *source* argument " \
+    assert source is not None or filename, "You must either provide a *source* argument " \
         "or a *filename* argument to TextTemplate()."
     if source is None:
         with codecs.open(filename, encoding=encoding) as f:
@@ -157,7 +157,7 @@ class _Scanner(object):
         self.pos = end + 2
         if body.endswith('-'):
             body = body[:-1]
-            while self.source[self.pos] in ' \t':
+            while self.source[self.pos:self.pos + 1] in (' ', '\t'):
                 self.pos += 1
         return self.tag(tagname, body)
 
@@ -380,8 +380,8 @@ def _unescape_newlines(text):
     i = 0
     while i < len(text):
         if text[i] == '\\':
-            if text[i + 1] != '\n':
-                yield text[i + 1]
+            if text[i + 1:i + 2] != '\n':
+                yield text[i + 1:i + 2]
             i += 2
         else:
             yield text[i]
-- 
2.43.0


From e377cc2dca1c62a291647bb1622c372d71a37e8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:12:57 +0000
Subject: [PATCH 18/53] fix: restore context variables after py:with

A context variable assigned by py:with was left as an empty tuple after
the block, because only local variables were saved.
---
 kajiki/template.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/kajiki/template.py b/kajiki/template.py
index 6e085da..a7389f5 100644
--- a/kajiki/template.py
+++ b/kajiki/template.py
@@ -117,7 +117,8 @@ class _Template(object):
         pushed on top of a stack by :class:`kajiki.ir.WithNode` so that
         when the node is exited the previous values can be recovered.
         """
-        self._with_stack.append([locals_.get(k, ()) for k in vars])
+        self._with_stack.append([
+            locals_.get(k, self.__globals__.get(k, ())) for k in vars])
 
     def _pop_with(self):
         """Exists a ``py:with`` block.
-- 
2.43.0


From d9ef9dfcb2f1449b7ec15ecf3315371eb48336c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:13:00 +0000
Subject: [PATCH 19/53] fix: keep the CDATA wrapping of scripts well-formed
 around ]]>

---
 kajiki/xml_template.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/kajiki/xml_template.py b/kajiki/xml_template.py
index ab4a0a8..431aa60 100644
--- a/kajiki/xml_template.py
+++ b/kajiki/xml_template.py
@@ -253,6 +253,9 @@ class _Compiler(object):
                             continue
                         assert isinstance(child, dom.Text)
                         for x in self._compile_text(child, escape=False):
+                            if self.mode == 'xml' and isinstance(x, ir.TextNode):
+                                # Do not end the CDATA section early.
+                                x.text = x.text.replace(']]>', ']]]]><![CDATA[>')
                             yield x
                     if self.mode == 'xml':  # Finish escaping
                         yield ir.TextNode('/*]]>*/')
-- 
2.43.0


From 91023974281cc345ec7f203f389136a7d5fd1460 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:13:05 +0000
Subject: [PATCH 20/53] fix: reload a template that was removed or is now found
 elsewhere

A cached template whose file is gone raised a TypeError instead of an
IOError, and when another file on the search path took its place it was
only noticed if that one was newer.
---
 kajiki/loader.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/kajiki/loader.py b/kajiki/loader.py
index b120fa2..6b1e38f 100644
--- a/kajiki/loader.py
+++ b/kajiki/loader.py
@@ -72,8 +72,9 @@ class FileLoader(Loader):
     def import_(self, name, *args, **kwargs):
         filename = self._filename(name)
         if self._reload and name in self.modules:
-            mtime = os.stat(filename).st_mtime
-            if mtime > self._timestamps.get(name, 0):
+            if filename is None:
+                raise IOError('Unknown template %r' % name)
+            if self._timestamps.get(name) != (filename, os.stat(filename).st_mtime):
                 del self.modules[name]
         return super(FileLoader, self).import_(name, *args, **kwargs)
 
@@ -89,7 +90,7 @@ class FileLoader(Loader):
         filename = self._filename(name)
         if filename is None:
             raise IOError('Unknown template %r' % name)
-        self._timestamps[name] = os.stat(filename).st_mtime
+        self._timestamps[name] = (filename, os.stat(filename).st_mtime)
         if self._force_mode == 'text':
             return TextTemplate(filename=filename,
                 autoescape=self._autoescape_text, *args, **options)
-- 
2.43.0


From 15433ea76f4b9a507bdbbdbcf7335a8505a6182b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:13:11 +0000
Subject: [PATCH 21/53] fix: use FileLoader's xml_autoblocks whatever decides
 the mode

The option was only passed on together with force_mode.
---
 kajiki/loader.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/kajiki/loader.py b/kajiki/loader.py
index 6b1e38f..2a423fa 100644
--- a/kajiki/loader.py
+++ b/kajiki/loader.py
@@ -55,12 +55,16 @@ class FileLoader(Loader):
         self._autoescape_text = autoescape_text
         self._xml_autoblocks = xml_autoblocks
         self._template_options = template_options
+        def xml_template(*a, **kw):
+            kw.setdefault('autoblocks', self._xml_autoblocks)
+            return XMLTemplate(*a, **kw)
+
         self.extension_map = dict(
             txt=lambda *a, **kw: TextTemplate(
                 autoescape=self._autoescape_text, *a, **kw),
-            xml=XMLTemplate,
-            html=lambda *a, **kw: XMLTemplate(mode='html', *a, **kw),
-            html5=lambda *a, **kw: XMLTemplate(mode='html5', *a, **kw))
+            xml=xml_template,
+            html=lambda *a, **kw: xml_template(mode='html', *a, **kw),
+            html5=lambda *a, **kw: xml_template(mode='html5', *a, **kw))
 
     def _filename(self, name):
         for base in self.path:
-- 
2.43.0


From 5184eb8e8a13a445afc1c05d7f8d112e5c1bbeb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:13:16 +0000
Subject: [PATCH 22/53] fix: make the TurboGears 1 plugin work on Python 3

basestring does not exist there, so render() raised a NameError.
---
 kajiki/integration/turbogears1.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/kajiki/integration/turbogears1.py b/kajiki/integration/turbogears1.py
index 39a39b6..2f69ffd 100644
--- a/kajiki/integration/turbogears1.py
+++ b/kajiki/integration/turbogears1.py
@@ -14,6 +14,8 @@ other versions.
 
 """
 
+from nine import basestring
+
 from kajiki import PackageLoader
 from kajiki.xml_template import XMLTemplate
 
-- 
2.43.0


From 94ae99bdc1b5cc466d8280e49f5d7a2ccc4aeaac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:14:22 +0000
Subject: [PATCH 23/53] fix: let literal values be inserted more than once

literal() and Markup() gave an iterator, so a value inserted a second
time (in a loop, or when rendering again with the same context) was
silently empty.
---
 kajiki/util.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/kajiki/util.py b/kajiki/util.py
index bf91401..8a68bf6 100644
--- a/kajiki/util.py
+++ b/kajiki/util.py
@@ -58,7 +58,7 @@ class flattener(object):
         if type(self.iterator) == flattener:
             return self.iterator.accumulate_str()
         s = ''
-        iter_stack = [self.iterator]
+        iter_stack = [iter(self.iterator)]
         while iter_stack:
             try:
                 x = next(iter_stack[-1])
@@ -66,7 +66,7 @@ class flattener(object):
                 iter_stack.pop()
                 continue
             if type(x) == flattener:
-                iter_stack.append(x.iterator)
+                iter_stack.append(iter(x.iterator))
             elif x is None:
                 pass
             else:
@@ -84,7 +84,7 @@ class flattener(object):
 
 
 def literal(text):
-    return flattener(iter([text]))
+    return flattener([text])
 
 
 class NameGen(object):
-- 
2.43.0


From c23624e3677b9db1a6ab12249de7e6d1e201ce58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:17:06 +0000
Subject: [PATCH 24/53] fix: render literals and function results given to
 py:attrs

Their representation as Python objects was output instead.
---
 kajiki/template.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/kajiki/template.py b/kajiki/template.py
index a7389f5..d756b9d 100644
--- a/kajiki/template.py
+++ b/kajiki/template.py
@@ -241,6 +241,8 @@ class _Template(object):
                     v = k if v else None
                 if v is None:
                     continue
+                if isinstance(v, flattener):
+                    v = v.accumulate_str()
                 if mode.startswith('html') and k in HTML_EMPTY_ATTRS:
                     yield ' ' + k.lower()
                 else:
-- 
2.43.0


From 8feb080671bb07b58b541408c43f36ea20178d81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:30:46 +0000
Subject: [PATCH 25/53] fix: accept indented code and blank lines in Python
 blocks

---
 kajiki/ir.py | 29 +++++++++++++++++++++++------
 1 file changed, 23 insertions(+), 6 deletions(-)

diff --git a/kajiki/ir.py b/kajiki/ir.py
index 2468962..202488d 100644
--- a/kajiki/ir.py
+++ b/kajiki/ir.py
@@ -426,14 +426,31 @@ class PythonNode(Node):
     def _normalize(self, text):
         if text.startswith('#\n'):
             text = text[2:]
-        prefix = None
-        for line in text.splitlines():
-            if prefix is None:
-                rest = line.lstrip()
-                prefix = line[:len(line) - len(rest)]
-            assert line.startswith(prefix)
+        lines = text.split('\n')
+        while len(lines) > 1 and not lines[0].strip():
+            del lines[0]
+        first = lines[0]
+        prefix = first[:len(first) - len(first.lstrip())]
+        rest = [line for line in lines[1:] if line.strip()]
+        if rest and not prefix and self._is_misindented('\n'.join(lines)):
+            # The indentation of the first line was lost, for instance
+            # because the code is in an XML processing instruction.
+            margin = min(len(line) - len(line.lstrip()) for line in rest)
+            lines[1:] = [line[margin:] for line in lines[1:]]
+        for line in lines:
+            assert line.startswith(prefix) or not line.strip()
             yield line[len(prefix):]
 
+    @staticmethod
+    def _is_misindented(code):
+        try:
+            compile(code, '', 'exec')
+        except IndentationError:
+            return True
+        except SyntaxError:
+            pass
+        return False
+
 
 def optimize(iter_node):
     last_node = None
-- 
2.43.0


From e1e25882fb34a3dac0867971b88c6aff0b9de25a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:31:32 +0000
Subject: [PATCH 26/53] fix: run the Python blocks that precede the root
 element

---
 kajiki/xml_template.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/kajiki/xml_template.py b/kajiki/xml_template.py
index 431aa60..460fc72 100644
--- a/kajiki/xml_template.py
+++ b/kajiki/xml_template.py
@@ -116,11 +116,13 @@ class _Compiler(object):
             never be called twice or might lead to unexpected results.
         """
         templateNodes = [n for n in self.doc.childNodes if not isinstance(n, dom.Comment)]
-        if len(templateNodes) != 1:
+        # Python code may stand outside the root element.
+        roots = [n for n in templateNodes if not isinstance(n, dom.ProcessingInstruction)]
+        if len(roots) != 1:
             raise XMLTemplateCompileError('expected a single root node in document',
                                           self.doc, self.filename, 0)
 
-        body = list(self._compile_node(templateNodes[0]))
+        body = [x for n in templateNodes for x in self._compile_node(n)]
         # Never emit doctypes on fragments
         if not self.is_fragment and not self.is_child:
             if self.doc._dtd:
-- 
2.43.0


From e0405d174907676660f0c1f4c5473357c3adf9a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:52:02 +0000
Subject: [PATCH 27/53] fix: keep the backslashes of Python code in %py blocks

---
 kajiki/text.py | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/kajiki/text.py b/kajiki/text.py
index 8adabd8..c18c95a 100644
--- a/kajiki/text.py
+++ b/kajiki/text.py
@@ -326,7 +326,7 @@ class _Parser(object):
         if body:
             body = [ir.TextNode(body), None]
         else:
-            body = list(self._parse_body('end'))
+            body = list(self._parse_py_body())
         node = ir.PythonNode(*body[:-1])
         if node.module_level:
             self.mod_py.append(node)
@@ -334,6 +334,17 @@ class _Parser(object):
         else:
             return node
 
+    def _parse_py_body(self):
+        for token in self.iterator:
+            if isinstance(token, _Tag) and token.tagname == 'end':
+                break
+            assert isinstance(token, _Text), 'Parse error: %r unexpected' % token
+            # Backslashes belong to the Python code, except to skip the
+            # line end after the opening tag.
+            text = token.text
+            yield ir.TextNode(text[2:] if text.startswith('\\\n') else text)
+        yield None
+
     def _parse_block(self, token):
         fname = '_kj_block_' + token.body.strip()
         decl = fname + '()'
-- 
2.43.0


From b230a3e64aef4107dcd7afebcd36c9baa0253d96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:52:06 +0000
Subject: [PATCH 28/53] fix: accept module-level %py% blocks of several lines

---
 kajiki/text.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/kajiki/text.py b/kajiki/text.py
index c18c95a..1443bca 100644
--- a/kajiki/text.py
+++ b/kajiki/text.py
@@ -323,7 +323,9 @@ class _Parser(object):
 
     def _parse_py(self, token):
         body = token.body.strip()
-        if body:
+        if body == '%':  # a module-level block
+            body = [ir.TextNode(body)] + list(self._parse_py_body())
+        elif body:
             body = [ir.TextNode(body), None]
         else:
             body = list(self._parse_py_body())
-- 
2.43.0


From b5384a61ea52a8080a3ab0ce139f73bac1a9bdab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:57:02 +0000
Subject: [PATCH 29/53] fix: accept CDATA sections directly inside directives
 and functions

---
 kajiki/xml_template.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/kajiki/xml_template.py b/kajiki/xml_template.py
index 460fc72..af05169 100644
--- a/kajiki/xml_template.py
+++ b/kajiki/xml_template.py
@@ -263,10 +263,6 @@ class _Compiler(object):
                         yield ir.TextNode('/*]]>*/')
                 else:
                     for cn in node.childNodes:
-                        # Keep CDATA sections around if declared by user
-                        if getattr(cn, '_cdata', False):
-                            yield ir.TextNode(cn.data)
-                            continue
                         for x in self._compile_node(cn):
                             yield x
                 if not (self.mode.startswith('html')
@@ -379,6 +375,10 @@ class _Compiler(object):
     @annotate
     def _compile_text(self, node, escape=True):
         """Compile text nodes to their intermediate representation"""
+        if getattr(node, '_cdata', False):
+            # Keep CDATA sections around if declared by user
+            yield ir.TextNode(node.data)
+            return
         # The content of CDATA sections is never escaped.
         kwargs = {'escape': escape and node.escaped}
         if node.parentNode and node.parentNode.tagName in HTML_CDATA_TAGS:
-- 
2.43.0


From 83eac556242c298f23c0b8a6f438729fbb11cbc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:03:24 +0000
Subject: [PATCH 30/53] fix: let templates use the functions of all their
 ancestors

---
 kajiki/template.py | 22 +++++++++++++++-------
 1 file changed, 15 insertions(+), 7 deletions(-)

diff --git a/kajiki/template.py b/kajiki/template.py
index d756b9d..464fc3a 100644
--- a/kajiki/template.py
+++ b/kajiki/template.py
@@ -59,6 +59,7 @@ class _Template(object):
     loader = None
     base_globals = None
     filename = None
+    _child = None
 
     def __init__(self, context=None):
         if context is None:
@@ -146,7 +147,20 @@ class _Template(object):
             if not isinstance(v, TplFunc):
                 continue
             p_globals[k] = v
-        # Find inherited funcs
+        # Find inherited funcs, also for the templates that extend this one
+        p_inst._child = heir = self
+        while heir is not None:
+            heir._inherit(p_inst)
+            heir = heir._child
+        p_globals['child'] = self
+        p_globals['local'] = p_inst
+        p_globals['self'] = self.__globals__['self']
+        self.__globals__['parent'] = p_inst
+        self.__globals__['local'] = self
+        return p_inst
+
+    def _inherit(self, p_inst):
+        """Make available the functions of a template this one descends from."""
         for k, v in iteritems(p_inst.__globals__):
             if k == '__main__':
                 continue
@@ -162,12 +176,6 @@ class _Template(object):
                         return getattr(parent, k)(*a, **kw)
                     return trampoline
                 setattr(self, k, TplFunc(_()).bind_instance(self))
-        p_globals['child'] = self
-        p_globals['local'] = p_inst
-        p_globals['self'] = self.__globals__['self']
-        self.__globals__['parent'] = p_inst
-        self.__globals__['local'] = self
-        return p_inst
 
     def _push_switch(self, expr):
         """Enter a ``py:switch`` block.
-- 
2.43.0


From c5760feb31ca72b693fced9141cf626909ee3927 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:19:59 +0000
Subject: [PATCH 31/53] fix: keep attributes that differ only in their prefix

---
 kajiki/xml_template.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/kajiki/xml_template.py b/kajiki/xml_template.py
index af05169..854ee92 100644
--- a/kajiki/xml_template.py
+++ b/kajiki/xml_template.py
@@ -672,7 +672,8 @@ class _Parser(sax.ContentHandler):
         el = self._doc.createElement(name)
         el.lineno = self._parser.getLineNumber()
         for k, v in attrs.items():
-            el.setAttribute(k, v)
+            # The prefix tells xml:lang and lang, or py:for and for, apart.
+            el.setAttributeNS(k.split(':')[0] if ':' in k else None, k, v)
         self._els[-1].appendChild(el)
         self._els.append(el)
 
-- 
2.43.0


From 72bdbc8bd9fbc825279a16572a7b974315925062 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:36:14 +0000
Subject: [PATCH 32/53] fix: accept tuples in py:content and py:replace

---
 kajiki/xml_template.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/kajiki/xml_template.py b/kajiki/xml_template.py
index 854ee92..585cdcc 100644
--- a/kajiki/xml_template.py
+++ b/kajiki/xml_template.py
@@ -239,7 +239,7 @@ class _Compiler(object):
             yield ir.AttrsNode(attrs, guard, self.mode)
         if content:
             yield ir.TextNode('>', guard)
-            yield ir.ExprNode(content)
+            yield self._value(content)
             yield ir.TextNode('</%s>' % node.tagName, guard)
         else:
             if node.childNodes:
@@ -279,10 +279,15 @@ class _Compiler(object):
                 else:
                     yield ir.TextNode('/>', guard)
 
+    @staticmethod
+    def _value(text):
+        """An expression whose value is rendered, which may be a tuple such as a, b."""
+        return ir.ExprNode('(%s)' % text if text.strip() else text)
+
     @annotate
     def _compile_replace(self, node):
         """Convert py:replace nodes to their intermediate representation."""
-        yield ir.ExprNode(node.getAttribute('value'))
+        yield self._value(node.getAttribute('value'))
 
     @annotate
     def _compile_pi(self, node):
-- 
2.43.0


From 0260dce1592f67610a7c8d400bad8bf1b1a8a08d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:42:32 +0000
Subject: [PATCH 33/53] fix: let a nested %if have its own %else in text
 templates

The %else of an inner %if ended the body of the enclosing %if or %case.
---
 kajiki/text.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/kajiki/text.py b/kajiki/text.py
index 1443bca..77b71c7 100644
--- a/kajiki/text.py
+++ b/kajiki/text.py
@@ -272,6 +272,8 @@ class _Parser(object):
         body = list(self._parse_body('end', 'else'))
         stoptok = body[-1]
         if stoptok.tagname == 'else':
+            # This %else does not end a directive around the %if.
+            stoptok.tagname = 'if_else'
             self.push_tok(stoptok)
         return ir.IfNode(token.body, *body[:-1])
 
@@ -299,6 +301,8 @@ class _Parser(object):
         body = list(self._parse_body('end'))
         return ir.ElseNode(*body[:-1])
 
+    _parse_if_else = _parse_else
+
     def _parse_extends(self, token):
         parts = shlex_split(token.body)
         fn = parts[0]
-- 
2.43.0


From 525d774d0d680e86cc4b457dd4e39e95bddd310d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:59:16 +0000
Subject: [PATCH 34/53] fix: included and imported templates keep their own
 names

The functions and module-level names of the including template, and its
'local', 'self' and 'defined', replaced those of the included or imported
template, also in the layouts it extends.
---
 kajiki/template.py | 21 +++++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/kajiki/template.py b/kajiki/template.py
index 464fc3a..08a2a49 100644
--- a/kajiki/template.py
+++ b/kajiki/template.py
@@ -65,6 +65,7 @@ class _Template(object):
         if context is None:
             context = {}
         self._context = context
+        self._lent = {}
         base_globals = self.base_globals or {}
         self.__globals__ = dict(local=self, self=self,
             defined=lambda x: x in self.__globals__,
@@ -139,12 +140,13 @@ class _Template(object):
         if isinstance(parent, basestring):
             parent = self.loader.import_(parent)
         p_inst = parent(self._context)
+        p_inst._lend(self._lent)
         p_globals = p_inst.__globals__
         # Find overrides
         for k, v in iteritems(self.__globals__):
             if k == '__main__':
                 continue
-            if not isinstance(v, TplFunc):
+            if not isinstance(v, TplFunc) or k in self._lent:
                 continue
             p_globals[k] = v
         # Find inherited funcs, also for the templates that extend this one
@@ -164,10 +166,11 @@ class _Template(object):
         for k, v in iteritems(p_inst.__globals__):
             if k == '__main__':
                 continue
-            if not isinstance(v, TplFunc):
+            if not isinstance(v, TplFunc) or k in p_inst._lent:
                 continue
-            if k not in self.__globals__:
+            if k not in self.__globals__ or k in self._lent:
                 self.__globals__[k] = v
+                self._lent.pop(k, None)
             if not hasattr(self, k):
                 def _(k=k):
                     '''Capture the 'k' variable in a closure'''
@@ -210,9 +213,19 @@ class _Template(object):
         tpl_cls = self.loader.import_(name, is_fragment=True)
         if alias is None:
             alias = self.loader.default_alias_for(name)
-        r = gbls[alias] = tpl_cls(gbls)
+        r = tpl_cls(dict(self._context, gettext=gbls['gettext']))
+        r._lend(gbls)
+        gbls[alias] = r
         return r
 
+    def _lend(self, names):
+        """Let an included or imported template use the names of the template
+        that does it, as far as it has no such name itself.
+        """
+        for k, v in iteritems(names):
+            if k not in self.__globals__:
+                self.__globals__[k] = self._lent[k] = v
+
     def _escape(self, value):
         """Returns the given HTML with ampersands, carets and quotes encoded."""
         if value is None or isinstance(value, flattener):
-- 
2.43.0


From f94dc5b9996c0853e6da7510d75d750676485b6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:59:27 +0000
Subject: [PATCH 35/53] fix: imports through the package loader bind the
 template's base name

---
 kajiki/loader.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/kajiki/loader.py b/kajiki/loader.py
index 2a423fa..d0da475 100644
--- a/kajiki/loader.py
+++ b/kajiki/loader.py
@@ -127,3 +127,6 @@ class PackageLoader(FileLoader):
                 return pkg_resources.resource_filename(package, found[ext])
         else:
             raise IOError('Unknown template %r' % name)
+
+    def default_alias_for(self, name):
+        return name.rsplit('.', 1)[-1]
-- 
2.43.0


From 98a108cb0015c41d750cf837eed81b80706bd64f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:13:56 +0000
Subject: [PATCH 36/53] fix: without reload, serve package templates whose file
 is gone

---
 kajiki/loader.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kajiki/loader.py b/kajiki/loader.py
index d0da475..beca9ac 100644
--- a/kajiki/loader.py
+++ b/kajiki/loader.py
@@ -74,8 +74,8 @@ class FileLoader(Loader):
         return None
 
     def import_(self, name, *args, **kwargs):
-        filename = self._filename(name)
         if self._reload and name in self.modules:
+            filename = self._filename(name)
             if filename is None:
                 raise IOError('Unknown template %r' % name)
             if self._timestamps.get(name) != (filename, os.stat(filename).st_mtime):
-- 
2.43.0


From 3403f26ad437e975cf266e624732230a2ff15445 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:13:59 +0000
Subject: [PATCH 37/53] fix: use the encoding given when loading a template

---
 kajiki/loader.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/kajiki/loader.py b/kajiki/loader.py
index beca9ac..1ec9092 100644
--- a/kajiki/loader.py
+++ b/kajiki/loader.py
@@ -82,13 +82,14 @@ class FileLoader(Loader):
                 del self.modules[name]
         return super(FileLoader, self).import_(name, *args, **kwargs)
 
-    def _load(self, name, encoding='utf-8', *args, **kwargs):
-        '''Text templates are read in text mode and XML templates are read in
-        binary mode. Thus, the ``encoding`` argument is only used for reading
-        text template files.
+    def _load(self, name, encoding=None, *args, **kwargs):
+        '''The ``encoding`` argument is that of the template file; UTF-8
+        unless it, or the loader's option of that name, says otherwise.
         '''
         from kajiki import XMLTemplate, TextTemplate
         options = self._template_options.copy()
+        if encoding is not None:
+            options['encoding'] = encoding
         options.update(kwargs)
 
         filename = self._filename(name)
-- 
2.43.0


From ce17e1b0c72718c4392ee18bb4f7a0bf28998a69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:53:28 +0000
Subject: [PATCH 38/53] fix: tracebacks show the line within a Python block

The lines of a <?py ...?> or %py block all got the line number of its tag.
---
 kajiki/ir.py           | 15 +++++++++++----
 kajiki/text.py         |  5 ++++-
 kajiki/xml_template.py |  6 ++++++
 3 files changed, 21 insertions(+), 5 deletions(-)

diff --git a/kajiki/ir.py b/kajiki/ir.py
index 202488d..21bff07 100644
--- a/kajiki/ir.py
+++ b/kajiki/ir.py
@@ -409,10 +409,12 @@ class PythonNode(Node):
     def __init__(self, *body):
         super(PythonNode, self).__init__()
         self.module_level = False
+        self.first_lineno = 0  # the line of the first line of code, if known
         blocks = []
         for b in body:
             assert isinstance(b, TextNode)
             blocks.append(b.text)
+            self.first_lineno = self.first_lineno or b.lineno
         text = ''.join(blocks)
         if text[0] == '%':
             self.module_level = True
@@ -420,15 +422,20 @@ class PythonNode(Node):
         self.lines = list(self._normalize(text))
 
     def py(self):
-        for line in self.lines:
-            yield self.line(line)
+        for offset, line in enumerate(self.lines):
+            line = self.line(line)
+            if self.first_lineno:
+                line._lineno = self.first_lineno + self.skipped + offset
+            yield line
 
     def _normalize(self, text):
-        if text.startswith('#\n'):
-            text = text[2:]
         lines = text.split('\n')
+        self.skipped = len(lines)
+        if len(lines) > 1 and lines[0] == '#':
+            del lines[0]
         while len(lines) > 1 and not lines[0].strip():
             del lines[0]
+        self.skipped -= len(lines)
         first = lines[0]
         prefix = first[:len(first) - len(first.lstrip())]
         rest = [line for line in lines[1:] if line.strip()]
diff --git a/kajiki/text.py b/kajiki/text.py
index 77b71c7..3d485ab 100644
--- a/kajiki/text.py
+++ b/kajiki/text.py
@@ -348,7 +348,10 @@ class _Parser(object):
             # Backslashes belong to the Python code, except to skip the
             # line end after the opening tag.
             text = token.text
-            yield ir.TextNode(text[2:] if text.startswith('\\\n') else text)
+            skip = text.startswith('\\\n')
+            node = ir.TextNode(text[2:] if skip else text)
+            node.lineno = token.lineno + skip
+            yield node
         yield None
 
     def _parse_block(self, token):
diff --git a/kajiki/xml_template.py b/kajiki/xml_template.py
index 585cdcc..778b649 100644
--- a/kajiki/xml_template.py
+++ b/kajiki/xml_template.py
@@ -298,6 +298,7 @@ class _Compiler(object):
         of module wide code to be provided to be template.
         """
         body = ir.TextNode(node.data.strip())
+        body.lineno = node.lineno
         node = ir.PythonNode(body)
         if node.module_level:
             self.mod_py.append(node)
@@ -696,6 +697,11 @@ class _Parser(sax.ContentHandler):
     def processingInstruction(self, target, data):
         node = self._doc.createProcessingInstruction(target, data)
         node.lineno = self._parser.getLineNumber()
+        # The parser drops the line ends before the data.
+        blanks = re.search(r'<\?%s(\s+)%s\?>' % (re.escape(target), re.escape(data)),
+                           self._xml.split('\n', node.lineno - 1)[-1])
+        if blanks:
+            node.lineno += blanks.group(1).count('\n')
         self._els[-1].appendChild(node)
 
     def startElementNS(self, name, qname, attrs):  # pragma no cover
-- 
2.43.0


From 6871185ae843824dd6d1113c84f7c2f2b02f57f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:54:26 +0000
Subject: [PATCH 39/53] fix: line of an expression after a line end reference
 in an attribute

---
 kajiki/xml_template.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/kajiki/xml_template.py b/kajiki/xml_template.py
index 778b649..655f5ba 100644
--- a/kajiki/xml_template.py
+++ b/kajiki/xml_template.py
@@ -513,6 +513,9 @@ class _TextCompiler(object):
 
     @property
     def real_lineno(self):
+        if self.in_html_attr:
+            # Line ends in attributes are character references.
+            return self.orig_lineno
         return self.orig_lineno + self.lineno
 
     _pattern = r'''
-- 
2.43.0


From a5804e87f4a1ec19733cac7aa4d25df475dd755e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:54:51 +0000
Subject: [PATCH 40/53] fix: traceback lines where the line table goes back by
 128 lines

---
 kajiki/lnotab.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/kajiki/lnotab.py b/kajiki/lnotab.py
index a600760..eec75f7 100644
--- a/kajiki/lnotab.py
+++ b/kajiki/lnotab.py
@@ -52,10 +52,11 @@ from __future__ import (absolute_import, division, print_function)
 from sys import version_info
 from nine import IS_PYTHON2
 
-# Since Python 3.6 the line number increments are signed bytes.
+# Since Python 3.6 the line number increments are signed bytes; PyPy takes -128
+# for 128.
 SIGNED_LINES = version_info >= (3, 6)
 MAX_LINE_DELTA = 127 if SIGNED_LINES else 255
-MIN_LINE_DELTA = -128 if SIGNED_LINES else 0
+MIN_LINE_DELTA = -127 if SIGNED_LINES else 0
 
 if IS_PYTHON2:
     int2byte = chr
-- 
2.43.0


From 13ee792d21dd347047b33aff8d289925fd12505c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:00:50 +0000
Subject: [PATCH 41/53] fix: reject py:else without py:if inside directives

Inside another directive it gave a syntax error about generated code, or
became the else clause of a Python loop.
---
 kajiki/xml_template.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/kajiki/xml_template.py b/kajiki/xml_template.py
index 655f5ba..265df7e 100644
--- a/kajiki/xml_template.py
+++ b/kajiki/xml_template.py
@@ -447,8 +447,10 @@ class _Compiler(object):
     @annotate
     def _compile_else(self, node):
         """Convert py:else nodes to their intermediate representation."""
-        if (getattr(node.parentNode, 'tagName', '') != 'py:nop' and
-                not node.parentNode.hasAttribute('py:switch') and
+        parent = node.parentNode
+        while getattr(parent, 'tagName', '') == 'py:nop':
+            parent = parent.parentNode
+        if (getattr(parent, 'tagName', '') != 'py:switch' and
                 getattr(node.previousSibling, 'tagName', '') != 'py:if'):
             raise XMLTemplateCompileError(
                 'py:else directive must be inside a py:switch or directly after py:if '
-- 
2.43.0


From 8792e43a9f4a15923b683978a1a2e89694a6ab7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:04:07 +0000
Subject: [PATCH 42/53] fix: quote the right source line in syntax errors after
 exotic line separators

---
 kajiki/template.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kajiki/template.py b/kajiki/template.py
index 08a2a49..3b76f62 100644
--- a/kajiki/template.py
+++ b/kajiki/template.py
@@ -501,6 +501,6 @@ class KajikiSyntaxError(Exception):
             return ''
 
         try:
-            return source.splitlines()[linen]
+            return source.split('\n')[linen]
         except:
             return ''
-- 
2.43.0


From 579ee6afd05c2513e7d7d35a16dbc48715b1f7e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:17:19 +0000
Subject: [PATCH 43/53] fix: keyword-only parameters of template functions keep
 their defaults

---
 kajiki/template.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/kajiki/template.py b/kajiki/template.py
index 3b76f62..5f1e53b 100644
--- a/kajiki/template.py
+++ b/kajiki/template.py
@@ -400,6 +400,8 @@ class TplFunc(object):
             self._func.__defaults__,
             self._func.__closure__
         )
+        if not IS_PYTHON2:
+            func.__kwdefaults__ = self._func.__kwdefaults__
         return update_wrapper(
             lambda *a, **kw: flattener(func(*a, **kw)),
             func)
-- 
2.43.0


From d85b66940b47b860562edcc57f49b756e3b39a42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:24:52 +0000
Subject: [PATCH 44/53] fix: text templates whose lines end with CR LF

---
 kajiki/text.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/kajiki/text.py b/kajiki/text.py
index 3d485ab..50249a5 100644
--- a/kajiki/text.py
+++ b/kajiki/text.py
@@ -145,6 +145,8 @@ class _Scanner(object):
         if end == -1:
             end = len(self.source)
         body = self.source[self.pos:end]
+        if body.endswith('\r'):  # the line ends with \r\n
+            body = body[:-1]
         self.pos = end + 1
         tag = self.tag(tagname, body)
         self.lineno += 1
@@ -348,9 +350,9 @@ class _Parser(object):
             # Backslashes belong to the Python code, except to skip the
             # line end after the opening tag.
             text = token.text
-            skip = text.startswith('\\\n')
-            node = ir.TextNode(text[2:] if skip else text)
-            node.lineno = token.lineno + skip
+            skip = re.match(r'(?:\\\r?\n)?', text).end()
+            node = ir.TextNode(text[skip:])
+            node.lineno = token.lineno + bool(skip)
             yield node
         yield None
 
@@ -400,7 +402,9 @@ def _unescape_newlines(text):
     i = 0
     while i < len(text):
         if text[i] == '\\':
-            if text[i + 1:i + 2] != '\n':
+            if text[i + 1:i + 3] == '\r\n':
+                i += 1
+            elif text[i + 1:i + 2] != '\n':
                 yield text[i + 1:i + 2]
             i += 2
         else:
-- 
2.43.0


From a254fe391fb967e4cdc2df0bbe0d6f40298af871 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:25:19 +0000
Subject: [PATCH 45/53] fix: {%- removes the white space before a tag that
 follows text

---
 kajiki/text.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/kajiki/text.py b/kajiki/text.py
index 50249a5..6254af7 100644
--- a/kajiki/text.py
+++ b/kajiki/text.py
@@ -41,7 +41,7 @@ _pattern = r'''
     (?P<tag_bare>[a-z]+) | # %for, %end, etc.
     (?P<tag_bare_invalid>)
 )|
-^\s*{%-(?P<tag_begin_ljust>[a-z]+)|  # {%-for, {%-end, etc.
+{%-(?P<tag_begin_ljust>[a-z]+)|  # {%-for, {%-end, etc.
 {%(?:
     (?P<tag_begin>[a-z]+) | # {%for, {%end, etc.
     (?P<tag_begin_invalid>)
@@ -49,6 +49,9 @@ _pattern = r'''
 '''
 _re_pattern = re.compile(_pattern, re.VERBOSE | re.IGNORECASE | re.MULTILINE)
 
+# The white space that {%- removes
+_re_ljust = re.compile(r'(?:^\s*|[ \t]*)\Z', re.MULTILINE)
+
 
 def TextTemplate(source=None, filename=None, autoescape=False,
                  encoding='utf-8', is_fragment=False, base_globals=None):
@@ -82,10 +85,14 @@ class _Scanner(object):
             start = mo.start()
             if start < self.pos:
                 continue  # inside an expression or tag that we already read
+            groups = mo.groupdict()
+            skipped = ''
+            if groups['tag_begin_ljust'] is not None:
+                skipped = _re_ljust.search(source, self.pos, start).group()
+                start -= len(skipped)
             if start > self.pos:
                 yield self.text(source[self.pos:start])
                 self.pos = start
-            groups = mo.groupdict()
             if groups['expr_braced'] is not None:
                 self.pos = mo.end()
                 yield self._get_braced_expr()
@@ -103,7 +110,7 @@ class _Scanner(object):
                 self.pos = mo.end()
                 yield self._get_tag(groups['tag_begin'])
             elif groups['tag_begin_ljust'] is not None:
-                self.lineno += mo.group().count('\n')
+                self.lineno += skipped.count('\n')
                 self.pos = mo.end()
                 yield self._get_tag(groups['tag_begin_ljust'])
             elif groups['tag_bare_invalid'] is not None:
-- 
2.43.0


From 0df19d488c1af3b15459dbeb505f8270da1cce91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:25:38 +0000
Subject: [PATCH 46/53] fix: parentheses in the argument list of a %call

---
 kajiki/text.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/kajiki/text.py b/kajiki/text.py
index 6254af7..bee3f1b 100644
--- a/kajiki/text.py
+++ b/kajiki/text.py
@@ -269,6 +269,9 @@ class _Parser(object):
         b = token.body.find('(')
         e = token.body.find(')', b)
         assert e > b > -1
+        # The defaults of the arguments may have parentheses, too.
+        while not _is_arglist(token.body[b:e + 1]) and ')' in token.body[e + 1:]:
+            e = token.body.find(')', e + 1)
         arglist = token.body[b:e + 1]
         call = token.body[e + 1:].strip()
         body = list(self._parse_body('end'))
@@ -405,6 +408,14 @@ class _Tag(_Token):
         super(_Tag, self).__init__(filename, lineno, text)
 
 
+def _is_arglist(text):
+    try:
+        compile('def _%s: pass' % text, '', 'exec')
+    except SyntaxError:
+        return False
+    return True
+
+
 def _unescape_newlines(text):
     i = 0
     while i < len(text):
-- 
2.43.0


From 74657b1046c1d809aaa287a557ffa13543b06412 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:34:47 +0000
Subject: [PATCH 47/53] fix: line numbers of Python blocks in templates with CR
 LF line ends

---
 kajiki/xml_template.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/kajiki/xml_template.py b/kajiki/xml_template.py
index 265df7e..2c4baaf 100644
--- a/kajiki/xml_template.py
+++ b/kajiki/xml_template.py
@@ -702,8 +702,9 @@ class _Parser(sax.ContentHandler):
     def processingInstruction(self, target, data):
         node = self._doc.createProcessingInstruction(target, data)
         node.lineno = self._parser.getLineNumber()
-        # The parser drops the line ends before the data.
-        blanks = re.search(r'<\?%s(\s+)%s\?>' % (re.escape(target), re.escape(data)),
+        # The parser drops the line ends before the data, and makes all of them \n.
+        pattern = '\r?\n'.join(map(re.escape, data.split('\n')))
+        blanks = re.search(r'<\?%s(\s+)%s\?>' % (re.escape(target), pattern),
                            self._xml.split('\n', node.lineno - 1)[-1])
         if blanks:
             node.lineno += blanks.group(1).count('\n')
-- 
2.43.0


From f7edcb0c503b469bfcf662bc8780685a908c0ae5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:53:18 +0000
Subject: [PATCH 48/53] fix: a null character after an expression in a text
 template does not break it

The tokenizer passed the rest of the template to compile(), which raises
ValueError on a null character anywhere in it.
---
 kajiki/text.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/kajiki/text.py b/kajiki/text.py
index bee3f1b..1dc39ad 100644
--- a/kajiki/text.py
+++ b/kajiki/text.py
@@ -171,7 +171,8 @@ class _Scanner(object):
         return self.tag(tagname, body)
 
     def _get_braced_expr(self):
-        rest = self.source[self.pos:]
+        # No expression contains a null character, and compile() accepts none.
+        rest = self.source[self.pos:].split('\0', 1)[0]
         leading = rest[:len(rest) - len(rest.lstrip())]
         self.lineno += leading.count('\n')
         self.pos += len(leading)
-- 
2.43.0


From 5f81e59138a6f017dffbfb49c463bfd29a224530 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:50:54 +0000
Subject: [PATCH 49/53] fix: let the TurboGears 1 plugin render without extra
 variables

---
 kajiki/integration/turbogears1.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/kajiki/integration/turbogears1.py b/kajiki/integration/turbogears1.py
index 2f69ffd..c8b5c35 100644
--- a/kajiki/integration/turbogears1.py
+++ b/kajiki/integration/turbogears1.py
@@ -76,5 +76,6 @@ class XMLTemplateEnginePlugin(object):
         if isinstance(template, basestring):
             template = self.load_template(template)
 
-        info.update(self.get_extra_vars())
+        if self.get_extra_vars is not None:
+            info.update(self.get_extra_vars())
         return template(info)
-- 
2.43.0


From 92b093db6c0498de51e9d57b56b5fc38177d40e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:50:55 +0000
Subject: [PATCH 50/53] fix: force_mode 'txt', as the TurboGears 1 plugin
 documents it, means text

---
 kajiki/loader.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kajiki/loader.py b/kajiki/loader.py
index 1ec9092..9621bcf 100644
--- a/kajiki/loader.py
+++ b/kajiki/loader.py
@@ -96,7 +96,7 @@ class FileLoader(Loader):
         if filename is None:
             raise IOError('Unknown template %r' % name)
         self._timestamps[name] = (filename, os.stat(filename).st_mtime)
-        if self._force_mode == 'text':
+        if self._force_mode in ('text', 'txt'):
             return TextTemplate(filename=filename,
                 autoescape=self._autoescape_text, *args, **options)
         elif self._force_mode:
-- 
2.43.0


From f62d570f6f1c60fd9862d008f645d067854b28d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:52:59 +0000
Subject: [PATCH 51/53] fix: the TurboGears 1 plugin can load a template from a
 string

---
 kajiki/integration/turbogears1.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kajiki/integration/turbogears1.py b/kajiki/integration/turbogears1.py
index c8b5c35..5fbf178 100644
--- a/kajiki/integration/turbogears1.py
+++ b/kajiki/integration/turbogears1.py
@@ -25,7 +25,7 @@ class ConfigurationError(ValueError):
 
 
 class XMLTemplateEnginePlugin(object):
-    template_class = XMLTemplate
+    template_class = staticmethod(XMLTemplate)
 
     def __init__(self, extra_vars_func=None, engine_options=None):
         engine_options = engine_options or {}
-- 
2.43.0


From dbda4a26131cda4c9fb745097ba1b763fede79d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:07:52 +0000
Subject: [PATCH 52/53] fix: the Pyramid loader does not compile unchanged
 templates again

---
 kajiki/integration/pyramid.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/kajiki/integration/pyramid.py b/kajiki/integration/pyramid.py
index b8a3779..6be494d 100644
--- a/kajiki/integration/pyramid.py
+++ b/kajiki/integration/pyramid.py
@@ -72,6 +72,7 @@ class PyramidKajikiLoader(Loader):
 
     def _load(self, name, *a, **kw):
         '''Called when the template actually needs to be (re)compiled.'''
+        self._timestamps[name] = stat(name).st_mtime
         return XMLTemplate(source=None, filename=name,
                            mode=self.mode, *a, **kw)
 
-- 
2.43.0


From 510a09c5e427dc80241d867fbc9744be46d87dbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:41:47 +0000
Subject: [PATCH 53/53] fix: a dot after "$name" that no attribute name follows
 is text

---
 kajiki/text.py         | 2 +-
 kajiki/xml_template.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/kajiki/text.py b/kajiki/text.py
index 1dc39ad..ebf61f9 100644
--- a/kajiki/text.py
+++ b/kajiki/text.py
@@ -33,7 +33,7 @@ from . import ir
 _pattern = r'''
 \$(?:
     (?P<expr_escaped>\$) |      # Escape $$
-    (?P<expr_named>[_a-z][_a-z0-9.]*) | # $foo.bar
+    (?P<expr_named>[_a-z][_a-z0-9]*(?:\.[_a-z][_a-z0-9]*)*) | # $foo.bar
     {(?P<expr_braced>) | # ${....
     (?P<expr_invalid>)
 ) |
diff --git a/kajiki/xml_template.py b/kajiki/xml_template.py
index 2c4baaf..69478a6 100644
--- a/kajiki/xml_template.py
+++ b/kajiki/xml_template.py
@@ -522,7 +522,7 @@ class _TextCompiler(object):
 
     _pattern = r'''
     \$(?:
-        (?P<expr_named>[_a-z][_a-z0-9.]*) | # $foo.bar
+        (?P<expr_named>[_a-z][_a-z0-9]*(?:\.[_a-z][_a-z0-9]*)*) | # $foo.bar
         {(?P<expr_braced>) | # ${....
         \$ # $$ -> $
     )'''
-- 
2.43.0

