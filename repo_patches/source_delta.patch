From 279edaab19bf2a7616adbd48a5ff0c83a3eac78f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:50:22 +0000
Subject: [PATCH 01/44] fix: keep XML mode after inserting structure in an XML
 template

Structure inserted into an XML template was compiled as HTML. Running it
switched the interpreter to HTML mode for the rest of the rendering.
---
 src/zope/tal/talinterpreter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/zope/tal/talinterpreter.py b/src/zope/tal/talinterpreter.py
index 33187f8..d263902 100644
--- a/src/zope/tal/talinterpreter.py
+++ b/src/zope/tal/talinterpreter.py
@@ -809,7 +809,7 @@ class TALInterpreter:
 
     def insertXMLStructure(self, text, repldict):
         from zope.tal.talparser import TALParser
-        gen = AltTALGenerator(repldict, self.engine, 0)
+        gen = AltTALGenerator(repldict, self.engine, 1)
         p = TALParser(gen)
         gen.enable(0)
         p.parseFragment('<!DOCTYPE foo PUBLIC "foo" "bar"><foo>')
-- 
2.43.0


From dd02a5525a02b5c0c1430ef64a8ee147855a325a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:50:23 +0000
Subject: [PATCH 02/44] fix: do not modify the compiled program when inserting
 structure

Attribute replacements applied to inserted structure were removed from the
compiled program, so the next rendering of it lost them.
---
 src/zope/tal/talinterpreter.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/zope/tal/talinterpreter.py b/src/zope/tal/talinterpreter.py
index d263902..4861f3d 100644
--- a/src/zope/tal/talinterpreter.py
+++ b/src/zope/tal/talinterpreter.py
@@ -58,7 +58,9 @@ def normalize(text):
 class AltTALGenerator(TALGenerator):
 
     def __init__(self, repldict, expressionCompiler=None, xml=0):
-        self.repldict = repldict
+        # The attribute replacements are part of the compiled program, and
+        # replaceAttrs() modifies the mapping it is given.
+        self.repldict = dict(repldict)
         self.enabled = 1
         TALGenerator.__init__(self, expressionCompiler, xml)
 
-- 
2.43.0


From 7cf3712b75942500e335a84b89f91b85de7e6de7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:50:25 +0000
Subject: [PATCH 03/44] fix: leave the macro stack intact when a macro fails
 under tal:on-error

A macro that failed stayed on the macro stack, so its slot fillers were used
for slots rendered after the error had been handled.
---
 src/zope/tal/talinterpreter.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/zope/tal/talinterpreter.py b/src/zope/tal/talinterpreter.py
index 4861f3d..73ff1ae 100644
--- a/src/zope/tal/talinterpreter.py
+++ b/src/zope/tal/talinterpreter.py
@@ -918,13 +918,15 @@ class TALInterpreter:
         prev_source = self.sourceFile
         wasInUse = self.inUseDirective
         self.inUseDirective = True
-        self.interpret(macro)
-        self.inUseDirective = wasInUse
+        try:
+            self.interpret(macro)
+        finally:
+            self.inUseDirective = wasInUse
+            self.popMacro()
 
         if self.sourceFile != prev_source:
             self.engine.setSourceFile(prev_source)
             self.sourceFile = prev_source
-        self.popMacro()
         # Push the outer macroname again.
         self.engine.setLocal('macroname', outer)
     bytecode_handlers["useMacro"] = do_useMacro
-- 
2.43.0


From 5b46036afdc460f7019da8895a82fcf0211f6f8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:50:26 +0000
Subject: [PATCH 04/44] fix: close the translation unit when its content fails
 under tal:on-error

A failed translation unit stayed open, so names used after the error had been
handled were stored in the wrong unit.
---
 src/zope/tal/talinterpreter.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/zope/tal/talinterpreter.py b/src/zope/tal/talinterpreter.py
index 73ff1ae..572c1b6 100644
--- a/src/zope/tal/talinterpreter.py
+++ b/src/zope/tal/talinterpreter.py
@@ -733,16 +733,15 @@ class TALInterpreter:
             self.interpret(stuff[1])
         finally:
             self.popStream()
+            self.i18nStack.pop()
         # We only care about the evaluated contents if we need an implicit
-        # message id.  All other useful information will be in the i18ndict on
-        # the top of the i18nStack.
+        # message id.  All other useful information will be in the i18ndict.
         default = tmpstream.getvalue()
         if not msgid:
             if self.html and currentTag == "pre":
                 msgid = default
             else:
                 msgid = normalize(default)
-        self.i18nStack.pop()
         # See if there is was an i18n:data for msgid
         if len(stuff) > 2:
             obj = self.engine.evaluate(stuff[2])
-- 
2.43.0


From 5d811624c6fd5fa1dfb2f019d304ce82a9e1faaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:50:27 +0000
Subject: [PATCH 05/44] fix: end the translation unit of an element with
 tal:content

i18n:name was accepted after such an element although no translation unit was
open, and rendering then failed with an IndexError.
---
 src/zope/tal/talgenerator.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/zope/tal/talgenerator.py b/src/zope/tal/talgenerator.py
index e3d29bb..3b73f5e 100644
--- a/src/zope/tal/talgenerator.py
+++ b/src/zope/tal/talgenerator.py
@@ -788,8 +788,9 @@ class TALGenerator:
         #
         # Still, we should emit insertTranslation opcode before i18nVariable
         # in case tal:content, i18n:translate and i18n:name in the same tag
-        if not content and msgid is not None:
-            self.emitTranslation(msgid, i18ndata)
+        if msgid is not None:
+            if not content:
+                self.emitTranslation(msgid, i18ndata)
             self.i18nLevel -= 1
         if optTag:
             self.emitOptTag(name, optTag, isend)
-- 
2.43.0


From c4c74db75c8a883efc2b317d5b892d024a5845a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:50:28 +0000
Subject: [PATCH 06/44] fix: render empty XML elements in a template namespace

An empty element such as <tal:block/> without attributes was compiled to a
malformed instruction and rendering it failed with a TypeError.
---
 src/zope/tal/talgenerator.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/zope/tal/talgenerator.py b/src/zope/tal/talgenerator.py
index 3b73f5e..78b0bce 100644
--- a/src/zope/tal/talgenerator.py
+++ b/src/zope/tal/talgenerator.py
@@ -255,11 +255,11 @@ class TALGenerator:
 
     def emitOptTag(self, name, optTag, isend):
         program = self.popProgram()  # block
-        start = self.popProgram()  # start tag
         if (isend or not program) and self.xml:
             # Minimize empty element
-            start[-1] = ("startEndTag",) + start[-1][1:]
+            self.program[-1] = ("startEndTag",) + self.program[-1][1:]
             isend = 1
+        start = self.popProgram()  # start tag
         cexpr = optTag[0]
         if cexpr:
             cexpr = self.compileExpression(optTag[0])
-- 
2.43.0


From 6bf72d19b910d3190be98323c04ed23e95c01276 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:50:29 +0000
Subject: [PATCH 07/44] fix: restore the source file when tal:on-error handles
 a failed macro

The error handler and everything after it were attributed to the source file
of the macro that failed.
---
 src/zope/tal/talinterpreter.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/zope/tal/talinterpreter.py b/src/zope/tal/talinterpreter.py
index 572c1b6..2ada66b 100644
--- a/src/zope/tal/talinterpreter.py
+++ b/src/zope/tal/talinterpreter.py
@@ -997,6 +997,7 @@ class TALInterpreter:
     def do_onError_tal(self, stuff):
         (block, handler) = stuff
         state = self.saveState()
+        prev_source = self.sourceFile
         self.stream = stream = self.StringIO()
         self._stream_write = stream.write
         try:
@@ -1010,6 +1011,9 @@ class TALInterpreter:
             try:
                 self.restoreState(state)
                 engine = self.engine
+                if self.sourceFile != prev_source:
+                    engine.setSourceFile(prev_source)
+                    self.sourceFile = prev_source
                 engine.beginScope()
                 error = engine.createErrorInfo(exc, self.position)
             finally:
-- 
2.43.0


From a78f4f6f9cba99d2026067843359af63f3e2229c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:50:31 +0000
Subject: [PATCH 08/44] fix: report the element's own position in every
 iteration of a loop

From the second iteration on, expressions of the repeated element were
evaluated with the position of the last element inside the loop.
---
 src/zope/tal/talinterpreter.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/zope/tal/talinterpreter.py b/src/zope/tal/talinterpreter.py
index 2ada66b..97fcf7f 100644
--- a/src/zope/tal/talinterpreter.py
+++ b/src/zope/tal/talinterpreter.py
@@ -843,7 +843,10 @@ class TALInterpreter:
     def do_loop_tal(self, stuff):
         (name, expr, block) = stuff
         iterator = self.engine.setRepeat(name, expr)
+        position = self.position
         while next(iterator):
+            if self.position != position:
+                self.do_setPosition(position)
             self.interpret(block)
     bytecode_handlers["loop"] = do_loop
 
-- 
2.43.0


From c1ad4cf4716b98ec31895a042907457738f876b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:50:33 +0000
Subject: [PATCH 09/44] fix: look up a translation unit at the unit's own
 position

After its content had been rendered, i18n:data was evaluated and the message
was looked up with the position of the last element inside the unit.
---
 src/zope/tal/talinterpreter.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/zope/tal/talinterpreter.py b/src/zope/tal/talinterpreter.py
index 97fcf7f..d02cfa5 100644
--- a/src/zope/tal/talinterpreter.py
+++ b/src/zope/tal/talinterpreter.py
@@ -727,6 +727,7 @@ class TALInterpreter:
         # Use a temporary stream to capture the interpretation of the
         # subnodes, which should /not/ go to the output stream.
         currentTag = self._currentTag
+        position = self.position
         tmpstream = self.StringIO()
         self.pushStream(tmpstream)
         try:
@@ -742,6 +743,8 @@ class TALInterpreter:
                 msgid = default
             else:
                 msgid = normalize(default)
+        if self.position != position:
+            self.do_setPosition(position)
         # See if there is was an i18n:data for msgid
         if len(stuff) > 2:
             obj = self.engine.evaluate(stuff[2])
-- 
2.43.0


From b43e5de0dba9de2482a84b60bd195768d96e75bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:50:53 +0000
Subject: [PATCH 10/44] fix: evaluate attributes of inserted structure at the
 template's position

Attribute expressions applied to inserted structure were evaluated with a
position within the inserted text instead of the template.
---
 src/zope/tal/talinterpreter.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/zope/tal/talinterpreter.py b/src/zope/tal/talinterpreter.py
index d02cfa5..2acba54 100644
--- a/src/zope/tal/talinterpreter.py
+++ b/src/zope/tal/talinterpreter.py
@@ -78,9 +78,11 @@ class AltTALGenerator(TALGenerator):
         i18ndict = {}
         if self.enabled and self.repldict:
             taldict["attributes"] = "x x"
+        # The position within the inserted text is of no use: the attribute
+        # expressions are part of the template that inserts it.
         TALGenerator.emitStartElement(self, name, attrlist,
                                       taldict, metaldict, i18ndict,
-                                      position, isend)
+                                      isend=isend)
 
     def replaceAttrs(self, attrlist, repldict):
         if self.enabled and self.repldict:
-- 
2.43.0


From 84ffca5a025b7695e57260cc621722fac6548127 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:50:54 +0000
Subject: [PATCH 11/44] fix: report the position of invalid tal:attributes

The errors for bad syntax and duplicate names had no line and column.
---
 src/zope/tal/taldefs.py      | 7 ++++---
 src/zope/tal/talgenerator.py | 4 ++--
 2 files changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/zope/tal/taldefs.py b/src/zope/tal/taldefs.py
index 1a7331d..4f76bb5 100644
--- a/src/zope/tal/taldefs.py
+++ b/src/zope/tal/taldefs.py
@@ -138,17 +138,18 @@ _attr_re = re.compile(r"\s*([^\s]+)\s+([^\s].*)\Z", re.S)
 _subst_re = re.compile(r"\s*(?:(text|structure)\s+)?(.*)\Z", re.S)
 
 
-def parseAttributeReplacements(arg, xml):
+def parseAttributeReplacements(arg, xml, position=(None, None)):
     attr_dict = {}
     for part in splitParts(arg):
         m = _attr_re.match(part)
         if not m:
-            raise TALError("Bad syntax in attributes: %r" % part)
+            raise TALError("Bad syntax in attributes: %r" % part, position)
         name, expr = m.groups()
         if not xml:
             name = name.lower()
         if name in attr_dict:
-            raise TALError("Duplicate attribute name in attributes: %r" % part)
+            raise TALError("Duplicate attribute name in attributes: %r" % part,
+                           position)
         attr_dict[name] = expr
     return attr_dict
 
diff --git a/src/zope/tal/talgenerator.py b/src/zope/tal/talgenerator.py
index 78b0bce..e477999 100644
--- a/src/zope/tal/talgenerator.py
+++ b/src/zope/tal/talgenerator.py
@@ -688,8 +688,8 @@ class TALGenerator:
             self.pushProgram()
         if attrsubst or i18nattrs:
             if attrsubst:
-                repldict = taldefs.parseAttributeReplacements(attrsubst,
-                                                              self.xml)
+                repldict = taldefs.parseAttributeReplacements(
+                    attrsubst, self.xml, position)
             else:
                 repldict = {}
             if i18nattrs:
-- 
2.43.0


From 030f1d8c06502e54b4be0b0cc5f6502b504e3d6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:50:55 +0000
Subject: [PATCH 12/44] fix: reject structure in i18n:data with an I18NError

It failed with an AssertionError.
---
 src/zope/tal/talgenerator.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/zope/tal/talgenerator.py b/src/zope/tal/talgenerator.py
index e477999..2374837 100644
--- a/src/zope/tal/talgenerator.py
+++ b/src/zope/tal/talgenerator.py
@@ -356,8 +356,10 @@ class TALGenerator:
             self.emit('insertTranslation', msgid, program)
         else:
             key, expr = parseSubstitution(i18ndata)
+            if key != 'text':
+                raise I18NError("i18n:data does not allow structure",
+                                self.position)
             cexpr = self.compileExpression(expr)
-            assert key == 'text'
             self.emit('insertTranslation', msgid, program, cexpr)
 
     def emitDefineMacro(self, macroName):
-- 
2.43.0


From 85fa39375333e00f76eebcce07dfc5e30c22c0d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:50:57 +0000
Subject: [PATCH 13/44] fix: accept a script tag whose type attribute has no
 value

Compiling it failed with an AttributeError.
---
 src/zope/tal/htmltalparser.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/zope/tal/htmltalparser.py b/src/zope/tal/htmltalparser.py
index 1dd632a..3668b0a 100644
--- a/src/zope/tal/htmltalparser.py
+++ b/src/zope/tal/htmltalparser.py
@@ -194,7 +194,8 @@ class HTMLTALParser(HTMLParser):
         # Support for inline Python code.
         if tag == 'script':
             type_attr = [a for a in attrlist if a[0] == "type"]
-            if type_attr and type_attr[0][1].startswith('text/server-'):
+            if type_attr and (type_attr[0][1] or '').startswith(
+                    'text/server-'):
                 attrlist.remove(type_attr[0])
                 taldict = {'script': type_attr[0][1], 'omit-tag': ''}
         self.tagstack.append(tag)
-- 
2.43.0


From ce6483d47c106711de9056d26fb45fdcc2f8c649 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:51:15 +0000
Subject: [PATCH 14/44] fix: let the bundled engine see new global values in
 every scope

The locals started out as a copy of the globals, so a global variable that was
set again kept its old value in scopes with local variables. getValue() also
let globals hide locals.
---
 src/zope/tal/dummyengine.py | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/src/zope/tal/dummyengine.py b/src/zope/tal/dummyengine.py
index 593e8b4..e5fecab 100644
--- a/src/zope/tal/dummyengine.py
+++ b/src/zope/tal/dummyengine.py
@@ -45,9 +45,9 @@ class DummyEngine:
         if macros is None:
             macros = {}
         self.macros = macros
-        dict = {'nothing': None, 'default': Default}
-        self.locals = self.globals = dict
-        self.stack = [dict]
+        self.globals = {'nothing': None, 'default': Default}
+        self.locals = {}
+        self.stack = [self.locals]
         self.translationDomain = DummyTranslationDomain()
         self.useEngineAttrDicts = False
 
@@ -84,10 +84,9 @@ class DummyEngine:
         self.globals[name] = value
 
     def getValue(self, name, default=None):
-        value = self.globals.get(name, default)
-        if value is default:
-            value = self.locals.get(name, default)
-        return value
+        if name in self.locals:
+            return self.locals[name]
+        return self.globals.get(name, default)
 
     def evaluate(self, expression):
         assert expression.startswith("$") and expression.endswith("$"), \
-- 
2.43.0


From 385327e34948676ad14df33f61de0a220327dc2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:52:42 +0000
Subject: [PATCH 15/44] fix: return the same code when getCode() is called
 again

The first call rewrote attributes of the program in place, so a second call
rendered them twice.
---
 src/zope/tal/talgenerator.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/zope/tal/talgenerator.py b/src/zope/tal/talgenerator.py
index 2374837..39f8a91 100644
--- a/src/zope/tal/talgenerator.py
+++ b/src/zope/tal/talgenerator.py
@@ -95,6 +95,9 @@ class TALGenerator:
             if opcode == "endTag":
                 collect.append("</%s>" % item[1])
                 continue
+            if opcode in ("startTag", "startEndTag"):
+                # optimizeStartTag() modifies the list of attributes
+                item = opcode, item[1], list(item[2])
             if opcode == "startTag":
                 if self.optimizeStartTag(collect, item[1], item[2], ">"):
                     continue
-- 
2.43.0


From 98db55640bfd0d213bbe941752694da5ab4b8fa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:52:43 +0000
Subject: [PATCH 16/44] fix: keep the prefixes of XML names as written

If two prefixes were bound to the same namespace, all its names were written
with the prefix declared last. An attribute lost its namespace if that was the
default namespace.
---
 src/zope/tal/talparser.py | 15 ++++-----------
 1 file changed, 4 insertions(+), 11 deletions(-)

diff --git a/src/zope/tal/talparser.py b/src/zope/tal/talparser.py
index 38c740b..e9cd6bf 100644
--- a/src/zope/tal/talparser.py
+++ b/src/zope/tal/talparser.py
@@ -15,7 +15,6 @@
 Parse XML and compile to :class:`~.TALInterpreter` intermediate code,
 using a :class:`~.TALGenerator`.
 """
-from zope.tal.taldefs import XML_NS
 from zope.tal.taldefs import ZOPE_I18N_NS
 from zope.tal.taldefs import ZOPE_METAL_NS
 from zope.tal.taldefs import ZOPE_TAL_NS
@@ -41,11 +40,10 @@ class TALParser(XMLParser):
             code generator to use. If one is not given, a default will be used.
         """
         XMLParser.__init__(self, encoding)
+        self.parser.namespace_prefixes = True
         if gen is None:
             gen = TALGenerator()
         self.gen = gen
-        self.nsStack = []
-        self.nsDict = {XML_NS: 'xml'}
         self.nsNew = []
 
     def getCode(self):
@@ -53,13 +51,8 @@ class TALParser(XMLParser):
         return self.gen.getCode()
 
     def StartNamespaceDeclHandler(self, prefix, uri):
-        self.nsStack.append(self.nsDict.copy())
-        self.nsDict[uri] = prefix
         self.nsNew.append((prefix, uri))
 
-    def EndNamespaceDeclHandler(self, prefix):
-        self.nsDict = self.nsStack.pop()
-
     def StartElementHandler(self, name, attrs):
         if self.ordered_attributes:
             # attrs is a list of alternating names and values
@@ -124,11 +117,11 @@ class TALParser(XMLParser):
 
     def fixname(self, name):
         if ' ' in name:
-            uri, name = name.split(' ', 1)
-            prefix = self.nsDict[uri]
+            # "uri name", or "uri name prefix" if there is a prefix
+            uri, name, *prefix = name.split(' ')
             prefixed = name
             if prefix:
-                prefixed = f"{prefix}:{name}"
+                prefixed = f"{prefix[0]}:{name}"
             ns = self._namespaces.get(uri, "x")
             return (prefixed, name, ns)
         return (name, name, None)
-- 
2.43.0


From 692d07ddf3a827b54d1becd44a99cc4402d02f9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:52:44 +0000
Subject: [PATCH 17/44] fix: put the translation inside a self-closing HTML
 element

The translation of an element such as <span i18n:translate="id"/> was written
after the element.
---
 src/zope/tal/htmltalparser.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/zope/tal/htmltalparser.py b/src/zope/tal/htmltalparser.py
index 3668b0a..6445500 100644
--- a/src/zope/tal/htmltalparser.py
+++ b/src/zope/tal/htmltalparser.py
@@ -209,11 +209,12 @@ class HTMLTALParser(HTMLParser):
         self.scan_xmlns(attrs)
         tag, attrlist, taldict, metaldict, i18ndict \
             = self.process_ns(tag, attrs)
-        if "content" in taldict:
-            if tag in EMPTY_HTML_TAGS:
-                raise TALError(
-                    "empty HTML tags cannot use tal:content: %s" % repr(tag),
-                    self.getpos())
+        if "content" in taldict and tag in EMPTY_HTML_TAGS:
+            raise TALError(
+                "empty HTML tags cannot use tal:content: %s" % repr(tag),
+                self.getpos())
+        if ("content" in taldict or "translate" in i18ndict) \
+                and tag not in EMPTY_HTML_TAGS:
             self.gen.emitStartElement(tag, attrlist, taldict, metaldict,
                                       i18ndict, self.getpos())
             self.gen.emitEndElement(tag, implied=-1, position=self.getpos())
-- 
2.43.0


From 05e80cbd37bf26aaa6f01956bbbb7677350ac397 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:53:16 +0000
Subject: [PATCH 18/44] fix: write xmlns="" with its empty value

It was written as an attribute without a value, which is not well-formed.
---
 src/zope/tal/talparser.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/zope/tal/talparser.py b/src/zope/tal/talparser.py
index e9cd6bf..8999cde 100644
--- a/src/zope/tal/talparser.py
+++ b/src/zope/tal/talparser.py
@@ -51,7 +51,8 @@ class TALParser(XMLParser):
         return self.gen.getCode()
 
     def StartNamespaceDeclHandler(self, prefix, uri):
-        self.nsNew.append((prefix, uri))
+        # The URI is None if the declaration is xmlns=""
+        self.nsNew.append((prefix, uri or ""))
 
     def StartElementHandler(self, name, attrs):
         if self.ordered_attributes:
-- 
2.43.0


From 1c9e6f67f20437f6f1e027ab66d4b3da88900f1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:54:26 +0000
Subject: [PATCH 19/44] fix: keep a trailing "]" of structure inserted in an
 XML template

The parser held it back until the end tag, when its output was ignored.
---
 src/zope/tal/talinterpreter.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/zope/tal/talinterpreter.py b/src/zope/tal/talinterpreter.py
index 2acba54..690a260 100644
--- a/src/zope/tal/talinterpreter.py
+++ b/src/zope/tal/talinterpreter.py
@@ -820,9 +820,10 @@ class TALInterpreter:
         gen.enable(0)
         p.parseFragment('<!DOCTYPE foo PUBLIC "foo" "bar"><foo>')
         gen.enable(1)
-        p.parseFragment(text)  # Raises an exception if text is invalid
-        gen.enable(0)
-        p.parseFragment('</foo>', 1)
+        # The end tag has to be parsed along with the text, because the
+        # parser holds back a trailing "]" until it knows what follows.
+        p.parseFragment(text + '</foo>', 1)  # Raises if text is invalid
+        del gen.program[-1]  # the end tag
         program, macros = gen.getCode()
         self.interpret(program)
 
-- 
2.43.0


From 721f49e5498c7a2695016ce06f087fbab7e2b68d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:04:36 +0000
Subject: [PATCH 20/44] fix: report the failing element's position inside
 i18n:name

When an evaluation inside an i18n:name element failed, the position left
on the engine was that of the i18n:name element, not that of the element
whose expression failed.
---
 src/zope/tal/talinterpreter.py | 21 ++++++++++-----------
 1 file changed, 10 insertions(+), 11 deletions(-)

diff --git a/src/zope/tal/talinterpreter.py b/src/zope/tal/talinterpreter.py
index 690a260..3574531 100644
--- a/src/zope/tal/talinterpreter.py
+++ b/src/zope/tal/talinterpreter.py
@@ -670,19 +670,18 @@ class TALInterpreter:
             # The value is implicitly the contents of this tag, so we have to
             # evaluate the mini-program to get the value of the variable.
             state = self.saveState()
+            tmpstream = self.StringIO()
+            self.pushStream(tmpstream)
             try:
-                tmpstream = self.StringIO()
-                self.pushStream(tmpstream)
-                try:
-                    self.interpret(program)
-                finally:
-                    self.popStream()
-                if self.html and self._currentTag == "pre":
-                    value = tmpstream.getvalue()
-                else:
-                    value = normalize(tmpstream.getvalue())
+                self.interpret(program)
             finally:
-                self.restoreState(state)
+                self.popStream()
+            if self.html and self._currentTag == "pre":
+                value = tmpstream.getvalue()
+            else:
+                value = normalize(tmpstream.getvalue())
+            # Not done on failure: the engine keeps the failing position.
+            self.restoreState(state)
         else:
             # TODO: Seems like this branch not used anymore, we
             # need to remove it
-- 
2.43.0


From 832cb32e67bd17b5e7a9ae2f128deefae70c4d3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:11:38 +0000
Subject: [PATCH 21/44] fix: extract messages of elements with i18n:data

Message extraction failed with a ValueError, since the placeholder used
for the value of every expression is not a mapping.
---
 src/zope/tal/talgettext.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/zope/tal/talgettext.py b/src/zope/tal/talgettext.py
index 08f621b..65cacd8 100644
--- a/src/zope/tal/talgettext.py
+++ b/src/zope/tal/talgettext.py
@@ -57,8 +57,7 @@ class POTALInterpreter(TALInterpreter):
         # If no i18n dict exists yet, create one.
         if i18ndict is None:
             i18ndict = {}
-        if obj:
-            i18ndict.update(obj)
+        # obj, the value of i18n:data, is not known at extraction time.
         # Mmmh, it seems that sometimes the msgid is None; is that really
         # possible?
         if msgid is None:
-- 
2.43.0


From eabebcfec6447f926f3fdb8b04a7b79848b967a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:11:39 +0000
Subject: [PATCH 22/44] fix: warn about messages whose default equals the
 message id

When the same message id occurred with a different default text, and one
of the defaults was equal to the message id, extraction failed with an
AttributeError instead of giving its warning.
---
 src/zope/tal/talgettext.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/zope/tal/talgettext.py b/src/zope/tal/talgettext.py
index 65cacd8..0c85b53 100644
--- a/src/zope/tal/talgettext.py
+++ b/src/zope/tal/talgettext.py
@@ -122,8 +122,8 @@ class POEngine(DummyEngine):
                     (msgid.encode('utf-8'),
                      self.file.encode('utf-8') + b':'
                      + str(position).encode('utf-8'),
-                     msgid.default.encode('utf-8'),
-                     existing_msgid.default.encode('utf-8'),
+                     (msgid.default or msgid).encode('utf-8'),
+                     (existing_msgid.default or msgid).encode('utf-8'),
                      references.encode('utf-8')))
         domain[msgid].append((self.file, position))
         return 'x'
-- 
2.43.0


From 53c79e0f2137767879cb34ec4009285330869ffc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:11:41 +0000
Subject: [PATCH 23/44] fix: do not execute server-side scripts while
 extracting messages

---
 src/zope/tal/talgettext.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/zope/tal/talgettext.py b/src/zope/tal/talgettext.py
index 0c85b53..622b743 100644
--- a/src/zope/tal/talgettext.py
+++ b/src/zope/tal/talgettext.py
@@ -89,6 +89,9 @@ class POEngine(DummyEngine):
     def evaluateBoolean(self, expr):
         return True  # dummy
 
+    def evaluateCode(self, lang, code):
+        return ''  # never execute template code
+
     def translate(self, msgid, domain=None, mapping=None, default=None,
                   # Position is not part of the ITALExpressionEngine
                   # interface
-- 
2.43.0


From 69217a0047ba03fbaddc5b11b58cf0ba33ed53e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:19:24 +0000
Subject: [PATCH 24/44] fix: keep marked sections of HTML templates

Markup such as <![if IE]> and <![endif]> was dropped from the output.
---
 src/zope/tal/htmltalparser.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/zope/tal/htmltalparser.py b/src/zope/tal/htmltalparser.py
index 6445500..0780fdf 100644
--- a/src/zope/tal/htmltalparser.py
+++ b/src/zope/tal/htmltalparser.py
@@ -302,6 +302,11 @@ class HTMLTALParser(HTMLParser):
     def handle_pi(self, data):
         self.gen.emitRawText("<?%s>" % data)
 
+    def unknown_decl(self, data):
+        # Marked section; the base class may leave one closing bracket.
+        end = "]]>" if "[" in data and not data.endswith("]") else "]>"
+        self.gen.emitRawText("<![" + data + end)
+
     # Internal thingies
 
     def scan_xmlns(self, attrs):
-- 
2.43.0


From 426a9667676e9df929b557fa00a2e0bd95b16a53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:47:40 +0000
Subject: [PATCH 25/44] fix: keep the message ids of bundled engines apart

The list of message ids that the bundled engine's translation domain
records was a class attribute, so all engines shared it.
---
 src/zope/tal/dummyengine.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/zope/tal/dummyengine.py b/src/zope/tal/dummyengine.py
index e5fecab..7862182 100644
--- a/src/zope/tal/dummyengine.py
+++ b/src/zope/tal/dummyengine.py
@@ -270,7 +270,8 @@ class DummyTranslationDomain:
 
     domain = ''
 
-    msgids = {}
+    def __init__(self):
+        self.msgids = {}
 
     def appendMsgid(self, domain, data):
         if domain not in self.msgids:
-- 
2.43.0


From d72689fa64fb60f90b77d3fa759c27de5f2776fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:49:11 +0000
Subject: [PATCH 26/44] fix: evaluate negated expressions in the bundled engine

A "not:" expression handed its operand to the evaluator in source form
instead of compiled form, which always failed with an AssertionError.
---
 src/zope/tal/dummyengine.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/zope/tal/dummyengine.py b/src/zope/tal/dummyengine.py
index 7862182..61bfd65 100644
--- a/src/zope/tal/dummyengine.py
+++ b/src/zope/tal/dummyengine.py
@@ -104,7 +104,7 @@ class DummyEngine:
         if type in ("path", "var", "global", "local"):
             return self.evaluatePathOrVar(expr)
         if type == "not":
-            return not self.evaluate(expr)
+            return not self.evaluate(self.compile(expr))
         if type == "exists":
             return expr in self.locals or expr in self.globals
         if type == "python":
-- 
2.43.0


From 30ab62a3187e52a78b911aa801ca7e3bff8967b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:52:31 +0000
Subject: [PATCH 27/44] fix: keep source annotations out of translated text

The text of a translation unit is what its translation is looked up by,
so an annotation within it made the lookup fail.  Annotations are now
delayed until the end of the unit.
---
 src/zope/tal/talinterpreter.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/zope/tal/talinterpreter.py b/src/zope/tal/talinterpreter.py
index 3574531..9d64522 100644
--- a/src/zope/tal/talinterpreter.py
+++ b/src/zope/tal/talinterpreter.py
@@ -247,7 +247,7 @@ class TALInterpreter:
     def restoreState(self, state):
         (self.position, self.col, self.stream,
          self._stream_stack, scopeLevel, level, i18n) = state
-        if self._pending_source_annotation:
+        if self._pending_source_annotation and not self._stream_stack:
             self._stream_write = self._annotated_stream_write
         else:
             self._stream_write = self.stream.write
@@ -261,7 +261,7 @@ class TALInterpreter:
     def restoreOutputState(self, state):
         (dummy, self.col, self.stream,
          self._stream_stack, scopeLevel, level, i18n) = state
-        if self._pending_source_annotation:
+        if self._pending_source_annotation and not self._stream_stack:
             self._stream_write = self._annotated_stream_write
         else:
             self._stream_write = self.stream.write
@@ -296,14 +296,14 @@ class TALInterpreter:
     def pushStream(self, newstream):
         self._stream_stack.append(self.stream)
         self.stream = newstream
-        if self._pending_source_annotation:
+        if self._pending_source_annotation and not self._stream_stack:
             self._stream_write = self._annotated_stream_write
         else:
             self._stream_write = self.stream.write
 
     def popStream(self):
         self.stream = self._stream_stack.pop()
-        if self._pending_source_annotation:
+        if self._pending_source_annotation and not self._stream_stack:
             self._stream_write = self._annotated_stream_write
         else:
             self._stream_write = self.stream.write
@@ -383,7 +383,8 @@ class TALInterpreter:
         self.engine.setSourceFile(source_file)
         if self.sourceAnnotations:
             self._pending_source_annotation = True
-            self._stream_write = self._annotated_stream_write
+            if not self._stream_stack:
+                self._stream_write = self._annotated_stream_write
 
     bytecode_handlers["setSourceFile"] = do_setSourceFile
 
-- 
2.43.0


From 89a815d214525726f1c6e45a8eebc00261008f07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:54:14 +0000
Subject: [PATCH 28/44] fix: annotate the source of output guarded by
 tal:on-error

A source annotation that was due when a tal:on-error element started was
not written in front of the element but after the first part of its
content, and not at all if the content failed.
---
 src/zope/tal/talinterpreter.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/zope/tal/talinterpreter.py b/src/zope/tal/talinterpreter.py
index 9d64522..5f676cd 100644
--- a/src/zope/tal/talinterpreter.py
+++ b/src/zope/tal/talinterpreter.py
@@ -1007,8 +1007,10 @@ class TALInterpreter:
         (block, handler) = stuff
         state = self.saveState()
         prev_source = self.sourceFile
+        pending = self._pending_source_annotation
         self.stream = stream = self.StringIO()
-        self._stream_write = stream.write
+        if not pending or self._stream_stack:
+            self._stream_write = stream.write
         try:
             self.interpret(block)
         # TODO: this should not catch ZODB.POSException.ConflictError.
@@ -1018,6 +1020,8 @@ class TALInterpreter:
         except BaseException:
             exc = sys.exc_info()[1]
             try:
+                # An annotation within the discarded output is still due.
+                self._pending_source_annotation = pending
                 self.restoreState(state)
                 engine = self.engine
                 if self.sourceFile != prev_source:
-- 
2.43.0


From cea8d5da59e4c7c3c145386d41aa5164fcad1d8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:56:15 +0000
Subject: [PATCH 29/44] fix: ignore the declared encoding of XML templates
 given as str

A template given as str was encoded as UTF-8 and then decoded in the
encoding that its XML declaration names, which garbled its text if that
was a different one.
---
 src/zope/tal/xmlparser.py | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/src/zope/tal/xmlparser.py b/src/zope/tal/xmlparser.py
index f4891f9..6843dc2 100644
--- a/src/zope/tal/xmlparser.py
+++ b/src/zope/tal/xmlparser.py
@@ -79,11 +79,8 @@ class XMLParser:
 
     def parseString(self, s):
         """Parse the given string."""
-        if isinstance(s, str):
-            # Expat cannot deal with str, only with
-            # bytes.  Also, its range of encodings is rather
-            # limited, UTF-8 is the safest bet here.
-            s = s.encode('utf-8')
+        # If s is a str, the parser ignores the encoding that the XML
+        # declaration names.
         self.parser.Parse(s, 1)
 
     def parseURL(self, url):
-- 
2.43.0


From e6bb45909d4cf18e4a1705e2dd23de3f70b097f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:36:15 +0000
Subject: [PATCH 30/44] fix: escape every ampersand in attribute values of XML
 templates

---
 src/zope/tal/talgenerator.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/zope/tal/talgenerator.py b/src/zope/tal/talgenerator.py
index 39f8a91..da40e6e 100644
--- a/src/zope/tal/talgenerator.py
+++ b/src/zope/tal/talgenerator.py
@@ -172,6 +172,9 @@ class TALGenerator:
             else:
                 if item[1] is None:
                     s = item[0]
+                elif self.xml:
+                    # The XML parser has resolved all references.
+                    s = f'{item[0]}={taldefs.quote(item[1])}'
                 else:
                     s = f'{item[0]}="{taldefs.attrEscape(item[1])}"'
                 attrlist[i] = item[0], s
-- 
2.43.0


From dca24d552137279d244329c9e9604f07a77e6be4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:36:26 +0000
Subject: [PATCH 31/44] fix: keep line breaks and tabs of attribute values in
 XML output

---
 src/zope/tal/taldefs.py        | 7 ++++++-
 src/zope/tal/talgenerator.py   | 2 +-
 src/zope/tal/talinterpreter.py | 4 ++--
 3 files changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/zope/tal/taldefs.py b/src/zope/tal/taldefs.py
index 4f76bb5..94377d4 100644
--- a/src/zope/tal/taldefs.py
+++ b/src/zope/tal/taldefs.py
@@ -228,9 +228,14 @@ def attrEscape(s):
     return s
 
 
-def quote(s):
+def quote(s, xml=0):
     s = s.replace("&", "&amp;")  # Must be done first!
     s = s.replace("<", "&lt;")
     s = s.replace(">", "&gt;")
     s = s.replace('"', "&quot;")
+    if xml:
+        # XML parsers turn literal line breaks and tabs into spaces.
+        s = s.replace("\t", "&#9;")
+        s = s.replace("\n", "&#10;")
+        s = s.replace("\r", "&#13;")
     return '"%s"' % s
diff --git a/src/zope/tal/talgenerator.py b/src/zope/tal/talgenerator.py
index da40e6e..8a9a7a1 100644
--- a/src/zope/tal/talgenerator.py
+++ b/src/zope/tal/talgenerator.py
@@ -174,7 +174,7 @@ class TALGenerator:
                     s = item[0]
                 elif self.xml:
                     # The XML parser has resolved all references.
-                    s = f'{item[0]}={taldefs.quote(item[1])}'
+                    s = f'{item[0]}={taldefs.quote(item[1], xml=1)}'
                 else:
                     s = f'{item[0]}="{taldefs.attrEscape(item[1])}"'
                 attrlist[i] = item[0], s
diff --git a/src/zope/tal/talinterpreter.py b/src/zope/tal/talinterpreter.py
index 5f676cd..ecdf1a9 100644
--- a/src/zope/tal/talinterpreter.py
+++ b/src/zope/tal/talinterpreter.py
@@ -484,7 +484,7 @@ class TALInterpreter:
         if value is None:
             value = name
         else:
-            value = f"{name}={quote(value)}"
+            value = f"{name}={quote(value, not self.html)}"
         return [value]
 
     def attrAction_tal(self, item):
@@ -521,7 +521,7 @@ class TALInterpreter:
                     value = translated
             if value is None:
                 value = name
-            return [f"{name}={quote(value)}"]
+            return [f"{name}={quote(value, not self.html)}"]
         else:
             return ()
     bytecode_handlers["<attrAction>"] = attrAction
-- 
2.43.0


From 466f33561827f0249ea1e8b4fa0cb7e1c3cbd746 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:36:43 +0000
Subject: [PATCH 32/44] fix: keep carriage returns of text inserted in XML
 templates

---
 src/zope/tal/talinterpreter.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/zope/tal/talinterpreter.py b/src/zope/tal/talinterpreter.py
index ecdf1a9..5739a54 100644
--- a/src/zope/tal/talinterpreter.py
+++ b/src/zope/tal/talinterpreter.py
@@ -635,6 +635,9 @@ class TALInterpreter:
         # '&' must be done first!
         s = text.replace(
             "&", "&amp;").replace("<", "&lt;").replace(">", "&gt;")
+        if not self.html:
+            # XML parsers turn literal carriage returns into line feeds.
+            s = s.replace("\r", "&#13;")
         self._stream_write(s)
         i = s.rfind('\n')
         if i < 0:
-- 
2.43.0


From 0551cdd8a031cc6b98446712834feceebaf6190f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:43:14 +0000
Subject: [PATCH 33/44] fix: keep attribute values of HTML that contain the
 text of a reference

---
 src/zope/tal/talgenerator.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/zope/tal/talgenerator.py b/src/zope/tal/talgenerator.py
index 8a9a7a1..672f922 100644
--- a/src/zope/tal/talgenerator.py
+++ b/src/zope/tal/talgenerator.py
@@ -16,6 +16,7 @@ Code generator for :class:`~.TALInterpreter` intermediate code.
 """
 import re
 from html import escape
+from html import unescape
 
 from zope.tal import taldefs
 from zope.tal.taldefs import NAME_RE
@@ -176,7 +177,11 @@ class TALGenerator:
                     # The XML parser has resolved all references.
                     s = f'{item[0]}={taldefs.quote(item[1], xml=1)}'
                 else:
-                    s = f'{item[0]}="{taldefs.attrEscape(item[1])}"'
+                    s = f'"{taldefs.attrEscape(item[1])}"'
+                    if unescape(s[1:-1]) != item[1]:
+                        # The value contains the text of a reference.
+                        s = taldefs.quote(item[1])
+                    s = f'{item[0]}={s}'
                 attrlist[i] = item[0], s
                 new.append(" " + s)
         # if no non-optimizable attributes were found, convert to plain text
-- 
2.43.0


From b2adade99ec531c1fd1c6355dc9ef6551ecc6110 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 08:30:21 +0000
Subject: [PATCH 34/44] fix: honour an explicit i18n:domain="default" inside
 another domain

The default domain was only announced when it differed from the
built-in default, so declaring it inside an element (or for a macro used
from a page) with another domain had no effect: messages were still
looked up in the outer domain.
---
 src/zope/tal/talgenerator.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/zope/tal/talgenerator.py b/src/zope/tal/talgenerator.py
index 672f922..2fd8ada 100644
--- a/src/zope/tal/talgenerator.py
+++ b/src/zope/tal/talgenerator.py
@@ -640,7 +640,8 @@ class TALGenerator:
             domain = i18ndict.get("domain") or self.i18nContext.domain
             source = i18ndict.get("source") or self.i18nContext.source
             target = i18ndict.get("target") or self.i18nContext.target
-            if (domain != DEFAULT_DOMAIN
+            if (i18ndict.get("domain")
+                or domain != DEFAULT_DOMAIN
                 or source is not None
                     or target is not None):
                 self.i18nContext = TranslationContext(self.i18nContext,
-- 
2.43.0


From a429196fd6ab8a3d61a651fb2356ec0950a8ea71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 08:36:58 +0000
Subject: [PATCH 35/44] fix: keep track of the column after translated text,
 scripts and line breaks

The column used to wrap start tags was not updated for the text that
replaces a translation unit, for the output of a script, and for line
breaks in attribute values, so later attributes were wrapped too early or
too late.
---
 src/zope/tal/talinterpreter.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/zope/tal/talinterpreter.py b/src/zope/tal/talinterpreter.py
index 5739a54..3df53bc 100644
--- a/src/zope/tal/talinterpreter.py
+++ b/src/zope/tal/talinterpreter.py
@@ -438,6 +438,9 @@ class TALInterpreter:
                         append(" ")
                         col = col + 1 + slen
                     append(s)
+                    i = s.rfind("\n")
+                    if i >= 0:
+                        col = slen - (i + 1)
             append(end)
             col = col + endlen
         finally:
@@ -714,7 +717,7 @@ class TALInterpreter:
         i18ndict[varname] = value
         placeholder = '${%s}' % varname
         srepr.append(placeholder)
-        self._stream_write(placeholder)
+        self.stream_write(placeholder)
     bytecode_handlers['i18nVariable'] = do_i18nVariable
 
     def do_insertTranslation(self, stuff):
@@ -733,6 +736,7 @@ class TALInterpreter:
         # subnodes, which should /not/ go to the output stream.
         currentTag = self._currentTag
         position = self.position
+        col = self.col
         tmpstream = self.StringIO()
         self.pushStream(tmpstream)
         try:
@@ -760,7 +764,8 @@ class TALInterpreter:
         # translations.  OTOH, for implicit interpolation values, we don't
         # want to escape stuff like ${name} <= "<b>Timmy</b>".
         assert xlated_msgid is not None
-        self._stream_write(xlated_msgid)
+        self.col = col
+        self.stream_write(xlated_msgid)
     bytecode_handlers['insertTranslation'] = do_insertTranslation
 
     def do_insertStructure(self, stuff):
@@ -834,6 +839,7 @@ class TALInterpreter:
         lang, program = stuff
         # Use a temporary stream to capture the interpretation of the
         # subnodes, which should /not/ go to the output stream.
+        col = self.col
         tmpstream = self.StringIO()
         self.pushStream(tmpstream)
         try:
@@ -842,7 +848,8 @@ class TALInterpreter:
             self.popStream()
         code = tmpstream.getvalue()
         output = self.engine.evaluateCode(lang, code)
-        self._stream_write(output)
+        self.col = col
+        self.stream_write(output)
     bytecode_handlers["evaluateCode"] = do_evaluateCode
 
     def do_loop(self, stuff):
-- 
2.43.0


From 598ff5d70c1059b9171f390e15545d773780d2da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 09:09:23 +0000
Subject: [PATCH 36/44] fix: keep line breaks in macro expressions when
 expanding XML templates

---
 src/zope/tal/talinterpreter.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/zope/tal/talinterpreter.py b/src/zope/tal/talinterpreter.py
index 3df53bc..695a72a 100644
--- a/src/zope/tal/talinterpreter.py
+++ b/src/zope/tal/talinterpreter.py
@@ -475,7 +475,8 @@ class TALInterpreter:
                     res.append(
                         f'{prefix}define-macro={quote(defName)}')
                 if useName:
-                    res.append(f'{prefix}use-macro={quote(useName)}')
+                    useName = quote(useName, not self.html)
+                    res.append(f'{prefix}use-macro={useName}')
                 return res
             elif suffix == "define-slot":
                 name = prefix + "fill-slot"
-- 
2.43.0


From 93abcab2ae879c340ab6582ecb6e1bed92c5ad7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 10:00:43 +0000
Subject: [PATCH 37/44] fix: let the driver's special engines find the macros
 of the page

---
 src/zope/tal/driver.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/zope/tal/driver.py b/src/zope/tal/driver.py
index 2abadea..a8db6c5 100644
--- a/src/zope/tal/driver.py
+++ b/src/zope/tal/driver.py
@@ -129,7 +129,7 @@ def main(values=None):
         engine = None
         engineClass = ENGINES.get(os.path.basename(file))
         if engineClass is not None:
-            engine = engineClass(opts.macro_only)
+            engine = engineClass(it[1])
         interpretit(it, engine=engine,
                     tal=not opts.macro_only,
                     showtal=1 if opts.show_tal else -1,
-- 
2.43.0


From 7cbd86a7fd88421659cfdca9e4e2e0492664b757 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 10:38:39 +0000
Subject: [PATCH 38/44] fix: write to the given stream also if it is an empty
 sequence

A stream object that is false, such as one derived from list, was ignored
and the output went to standard output instead.
---
 src/zope/tal/talinterpreter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/zope/tal/talinterpreter.py b/src/zope/tal/talinterpreter.py
index 695a72a..29ee8d2 100644
--- a/src/zope/tal/talinterpreter.py
+++ b/src/zope/tal/talinterpreter.py
@@ -200,7 +200,7 @@ class TALInterpreter:
         self.Default = engine.getDefault()
         self._pending_source_annotation = False
         self._currentTag = ""
-        self._stream_stack = [stream or sys.stdout]
+        self._stream_stack = [sys.stdout if stream is None else stream]
         self.popStream()
         self.debug = debug
         self.wrap = wrap
-- 
2.43.0


From 59fa6a6aa697af063a261f28574052f5579c080b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 10:51:33 +0000
Subject: [PATCH 39/44] fix: translate only attributes that have something to
 translate

i18n:attributes naming an attribute without a value, or a boolean one,
asked the engine to translate or evaluate None.
---
 src/zope/tal/talinterpreter.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/zope/tal/talinterpreter.py b/src/zope/tal/talinterpreter.py
index 29ee8d2..b4c6e57 100644
--- a/src/zope/tal/talinterpreter.py
+++ b/src/zope/tal/talinterpreter.py
@@ -495,7 +495,10 @@ class TALInterpreter:
         name, value, action = item[:3]
         ok = 1
         expr, xlat, msgid = item[3:]
-        if self.html and name.lower() in BOOLEAN_HTML_ATTRS:
+        if expr is None:
+            if action == 'insert' and not msgid:  # Nothing to translate
+                ok = 0
+        elif self.html and name.lower() in BOOLEAN_HTML_ATTRS:
             evalue = self.engine.evaluateBoolean(item[3])
             if evalue is self.Default:
                 if action == 'insert':  # Cancelled insert
@@ -504,7 +507,7 @@ class TALInterpreter:
                 value = None
             else:
                 ok = 0
-        elif expr is not None:
+        else:
             evalue = self.engine.evaluateText(item[3])
             if evalue is self.Default:
                 if action == 'insert':  # Cancelled insert
@@ -515,7 +518,7 @@ class TALInterpreter:
                 value = evalue
 
         if ok:
-            if xlat:
+            if xlat and (msgid or value is not None):
                 translated = self.translate(msgid or value, value)
                 if translated is not None:
                     value = translated
-- 
2.43.0


From 019d27970313b00787cdcfe1a25f0bda3b6c9eab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 11:03:24 +0000
Subject: [PATCH 40/44] fix: restore the macro name also if a macro fails

The name of the used macro stayed in force after a failure that was handled
outside of the use.  Keep it in a scope of its own.
---
 src/zope/tal/talinterpreter.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/zope/tal/talinterpreter.py b/src/zope/tal/talinterpreter.py
index b4c6e57..c509680 100644
--- a/src/zope/tal/talinterpreter.py
+++ b/src/zope/tal/talinterpreter.py
@@ -934,7 +934,7 @@ class TALInterpreter:
         self.pushMacro(macroName, compiledSlots, definingName, extending)
 
         # We want 'macroname' name to be always available as a variable
-        outer = self.engine.getValue('macroname')
+        self.do_beginScope({})
         self.engine.setLocal('macroname', macroName.rsplit('/', 1)[-1])
 
         prev_source = self.sourceFile
@@ -949,8 +949,8 @@ class TALInterpreter:
         if self.sourceFile != prev_source:
             self.engine.setSourceFile(prev_source)
             self.sourceFile = prev_source
-        # Push the outer macroname again.
-        self.engine.setLocal('macroname', outer)
+        # The outer macroname is in force again.
+        self.do_endScope()
     bytecode_handlers["useMacro"] = do_useMacro
 
     def do_extendMacro(self, stuff):
-- 
2.43.0


From 9404a5eb310515c7558c9abf7c4f116fa39c6ce1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 11:43:53 +0000
Subject: [PATCH 41/44] fix: use the given expression compiler also if it is
 false

A compiler object that is false, as one with a length of zero is, was
replaced by the default one.
---
 src/zope/tal/talgenerator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/zope/tal/talgenerator.py b/src/zope/tal/talgenerator.py
index 2fd8ada..db733f3 100644
--- a/src/zope/tal/talgenerator.py
+++ b/src/zope/tal/talgenerator.py
@@ -47,7 +47,7 @@ class TALGenerator:
             :class:`zope.tal.interfaces.ITALExpressionCompiler` to use.
             If not given, we'll use a simple, undocumented, compiler.
         """
-        if not expressionCompiler:
+        if expressionCompiler is None:
             from zope.tal.dummyengine import DummyEngine
             expressionCompiler = DummyEngine()
         self.expressionCompiler = expressionCompiler
-- 
2.43.0


From b7ec642916224d9eb0cd155ae685f666079159f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 11:44:31 +0000
Subject: [PATCH 42/44] fix: do not require the engine to be an expression
 compiler

Inserting structure asked the engine for operations that are not part of the
engine interface.
---
 src/zope/tal/talinterpreter.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/zope/tal/talinterpreter.py b/src/zope/tal/talinterpreter.py
index c509680..86ff6e5 100644
--- a/src/zope/tal/talinterpreter.py
+++ b/src/zope/tal/talinterpreter.py
@@ -819,7 +819,7 @@ class TALInterpreter:
 
     def insertHTMLStructure(self, text, repldict):
         from zope.tal.htmltalparser import HTMLTALParser
-        gen = AltTALGenerator(repldict, self.engine, 0)
+        gen = AltTALGenerator(repldict, xml=0)
         p = HTMLTALParser(gen)  # Raises an exception if text is invalid
         p.parseString(text)
         program, macros = p.getCode()
@@ -827,7 +827,7 @@ class TALInterpreter:
 
     def insertXMLStructure(self, text, repldict):
         from zope.tal.talparser import TALParser
-        gen = AltTALGenerator(repldict, self.engine, 1)
+        gen = AltTALGenerator(repldict, xml=1)
         p = TALParser(gen)
         gen.enable(0)
         p.parseFragment('<!DOCTYPE foo PUBLIC "foo" "bar"><foo>')
-- 
2.43.0


From 4422dc0210256dab935502e69ad2bd37f93e023a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 11:47:22 +0000
Subject: [PATCH 43/44] fix: refuse a statement given twice on an XML element

A statement given with and without prefix on an element of its language was
taken silently in one of its two forms; in HTML it has always been an error.
---
 src/zope/tal/talparser.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/zope/tal/talparser.py b/src/zope/tal/talparser.py
index 8999cde..0b847fc 100644
--- a/src/zope/tal/talparser.py
+++ b/src/zope/tal/talparser.py
@@ -18,6 +18,9 @@ using a :class:`~.TALGenerator`.
 from zope.tal.taldefs import ZOPE_I18N_NS
 from zope.tal.taldefs import ZOPE_METAL_NS
 from zope.tal.taldefs import ZOPE_TAL_NS
+from zope.tal.taldefs import I18NError
+from zope.tal.taldefs import METALError
+from zope.tal.taldefs import TALError
 from zope.tal.talgenerator import TALGenerator
 from zope.tal.xmlparser import XMLParser
 
@@ -82,12 +85,21 @@ class TALParser(XMLParser):
             ns = keyns or namens  # default to tag namespace
             item = key, value
             if ns == 'metal':
+                if keybase in metaldict:
+                    raise METALError("duplicate METAL attribute " +
+                                     repr(keybase), self.getpos())
                 metaldict[keybase] = value
                 item = item + ("metal",)
             elif ns == 'tal':
+                if keybase in taldict:
+                    raise TALError("duplicate TAL attribute " +
+                                   repr(keybase), self.getpos())
                 taldict[keybase] = value
                 item = item + ("tal",)
             elif ns == 'i18n':
+                if keybase in i18ndict:
+                    raise I18NError("duplicate i18n attribute " +
+                                    repr(keybase), self.getpos())
                 i18ndict[keybase] = value
                 item = item + ('i18n',)
             fixedattrlist.append(item)
-- 
2.43.0


From d66c7af9f69973e65e23365936e85d8ee8350ec1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 12:15:10 +0000
Subject: [PATCH 44/44] fix: keep NUL characters in statement lists

They were taken for doubled semicolons.
---
 src/zope/tal/taldefs.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/zope/tal/taldefs.py b/src/zope/tal/taldefs.py
index 94377d4..4a84c30 100644
--- a/src/zope/tal/taldefs.py
+++ b/src/zope/tal/taldefs.py
@@ -167,9 +167,11 @@ def parseSubstitution(arg, position=(None, None)):
 def splitParts(arg):
     # Break in pieces at undoubled semicolons and
     # change double semicolons to singles:
-    arg = arg.replace(";;", "\0")
-    parts = arg.split(';')
-    parts = [p.replace("\0", ";") for p in parts]
+    parts = [""]
+    for i, piece in enumerate(arg.split(";;")):
+        first, *rest = piece.split(";")
+        parts[-1] += ";" + first if i else first
+        parts.extend(rest)
     if len(parts) > 1 and not parts[-1].strip():
         del parts[-1]  # It ended in a semicolon
     return parts
-- 
2.43.0

