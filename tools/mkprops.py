"""Writes /verif/properties.jsonl (source of truth for the property texts)."""
import json, os
T = "src/zope/tal/"
GEN, INT, HTP, XTP, XP, DEF, DUM, GET, TCX, DRV = (
    T + n for n in ("talgenerator.py", "talinterpreter.py", "htmltalparser.py", "talparser.py",
                    "xmlparser.py", "taldefs.py", "dummyengine.py", "talgettext.py",
                    "translationcontext.py", "driver.py"))
P = []


def prop(id, title, statement, over, qtext, why, files, mech, observe, state=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech],
         "observe_at": observe, "hook_needed": None}
    if state:
        a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    assert len(title) <= 80, (id, len(title))
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext},
              "why_tests_cant": why, "anchors": a})


prop("C01", "HTML without directives is rendered back with nothing lost or altered",
     "Compiling an HTML document that contains no TAL, METAL or I18N markup and rendering it yields a document that tokenizes to the same sequence of elements, attributes (names, values, order), text, references, comments, declarations, marked sections and processing instructions as the input. "
     "The only permitted differences are tag/attribute-name case, attribute quoting style, the spelling (not the meaning) of attribute values, a semicolon after a reference written without one, and end tags that HTML lets authors leave out. "
     "Compiling and rendering the output again gives exactly the same text.",
     ["inputs"], "every HTML document", "The unit tests compare a few fixed files; a token or character class dropped, merged, re-ordered or double-escaped only in one neighbourhood (e.g. a charref next to a comment, a bare attribute after a quoted one) is invisible to them.",
     [HTP, GEN, INT, DEF],
     [("HTML event handlers", HTP + ":HTMLTALParser"), ("static tag folding", GEN + ":optimize/optimizeStartTag"), ("static attribute escaping", DEF + ":attrEscape")],
     ["output stream of TALInterpreter", "HTMLTALParser.getCode"])

prop("C02", "HTML nesting and omitted end tags are resolved the same way everywhere",
     "For every sequence of HTML start and end tags the compiler either rejects the document with a nesting error naming the tag and its position (end tag without matching open element, end tag for an empty element, or an element left open by a forbidden crossing) or renders a document in which every non-empty element is explicitly closed exactly once, in properly nested order and at the place HTML's omitted-end-tag rules put it, with all text kept in order. "
     "Whitespace before an implied end tag of a paragraph, list item, definition or table row/cell moves after the inserted end tag; otherwise no whitespace moves. "
     "Rendered output is a fixed point: compiling and rendering it again changes nothing.",
     ["inputs"], "every sequence of start tags, end tags, self-closing tags and text over every tag class",
     "The interaction of open-element stack, closing classes and boundaries is combinatorial; tests cover a handful of pairs.",
     [HTP, GEN], [("implied end tags", HTP + ":HTMLTALParser.scan_xmlns..close_para_tags, close_enclosing_block, implied_endtag"), ("whitespace tightening", GEN + ":unEmitWhitespace")],
     ["output stream", "NestingError/EmptyTagError/OpenTagError raised by parseString"],
     [("open element stack", "tags currently open", HTP + ":HTMLTALParser.tagstack")])

prop("C03", "XML without directives is rendered back as the same document",
     "Compiling a well-formed XML document without template directives and rendering it yields a document with the same XML information: same elements with same prefixes and namespaces, same attributes in the same order, same text, references, CDATA sections, comments, processing instructions, XML declaration and document type declaration. "
     "Empty elements are written in minimized form; the only other permitted differences are the spelling (not the meaning) of attribute values and the place of namespace declarations within their tag.",
     ["inputs"], "every well-formed XML document", "Needs all neighbourhoods of all markup kinds; unit tests have a few files.",
     [XTP, XP, GEN, INT], [("namespace bookkeeping", XTP + ":TALParser.xmlnsattrs"), ("raw passthrough", XP + ":XMLParser handlers"), ("minimization", GEN + ":emitEndTag")],
     ["output stream", "TALParser.getCode"])

prop("C04", "Values inserted as text or attributes can never change the markup",
     "Whatever string an expression yields for tal:content, tal:replace, tal:on-error text or a tal:attributes value, in HTML and XML, the rendered document has the same tags and attributes it has for a harmless value, and decoding the text or attribute value gives back exactly the inserted string. "
     "This holds in every position (element content, several attributes on a tag, boolean attributes excepted, loops, macros and slots, on-error output), and for translated values.",
     ["inputs"], "every string value at every insertion point", "Escaping faults show only for particular character sequences (quotes, ampersand before entity-like text, ']]>', control characters) at particular insertion points.",
     [INT, DEF], [("text escaping", INT + ":_writeText"), ("attribute quoting", INT + ":quote use in attrAction_tal")],
     ["output stream"])

prop("C05", "TAL statements on an element run in the defined order, exactly when due",
     "For any combination of TAL statements on an element and any values their expressions yield, expressions are evaluated in the order define, condition, repeat, omit-tag, attributes, content/replace; a false condition evaluates and outputs nothing further of that element, and a repeat processes the rest once per item. "
     "Each expression is evaluated exactly once each time it is due and never otherwise, independent of the order in which the attributes are written, and the output is the one this order determines. "
     "A repeat takes the line break and indentation before its element into the loop, so it is emitted once per item.",
     ["inputs", "programs"], "every subset of statements, every written order, every nesting and every outcome of every expression",
     "The number of combinations of statements, written orders, nestings and outcomes is far beyond hand-written cases; a wrong order is visible only when a particular pair interacts.",
     [GEN, INT], [("statement compilation", GEN + ":emitStartElement/emitEndElement"), ("opcode handlers", INT + ":TALInterpreter.do_*")],
     ["sequence of ITALExpressionEngine calls", "output stream"])

prop("C06", "Attribute statements set, keep, drop and translate exactly the named ones",
     "For every element, static attributes not named by tal:attributes or i18n:attributes are rendered unchanged and in source order; named ones are replaced in place, named ones without a static counterpart are appended in name order. "
     "A value of nothing removes the attribute, default keeps the static one (or adds none), HTML boolean attributes are present iff the value is true (written name=\"name\"), i18n:attributes values are the translation of the explicit message id or of the value (which stays if there is none; an attribute with neither is not added), and message objects are translated. "
     "HTML attribute names match case-insensitively, XML ones case-sensitively.",
     ["inputs", "programs"], "every set of static, dynamic and translated attributes and every value kind, in HTML and XML",
     "Combinations of static/dynamic/translated/boolean attributes and value kinds multiply; tests fix a few.",
     [GEN, INT, DEF], [("attribute merge", GEN + ":replaceAttrs"), ("attribute rendering", INT + ":attrAction_tal/do_startTag")],
     ["output stream", "translate and evaluate calls of the engine"])

prop("C07", "Content, replace and omit-tag produce what the value says",
     "tal:content replaces an element's content and tal:replace the whole element with the text of the value; nothing yields empty content (or no element), default yields the element's own content, and message objects are translated before insertion. "
     "A true or empty tal:omit-tag, and any element in a template namespace, drops just the start and end tag and keeps the content; a false one changes nothing. "
     "This holds for empty, self-closing, void and nested elements in HTML and XML and together with on-error, repeat and i18n statements.",
     ["inputs", "programs"], "every element form, statement combination and value kind",
     "Element form (empty, self-closed, void, prefixed), mode and value kind interact; unit tests touch single points.",
     [GEN, INT], [("substitution", GEN + ":emitSubstitution/emitI18nSubstitution"), ("optional tags", INT + ":do_optTag_tal/no_tag")],
     ["output stream", "engine calls"])

prop("C08", "Variables are visible exactly in the scope their statement gives them",
     "At every expression evaluation the local variables visible to the engine are exactly those defined so far on this element and its ancestors (tal:define local, the innermost repeat variables, the element's own attrs mapping of its source attributes, the macro name inside a used macro), with inner definitions shadowing outer ones and restored after the element ends; global definitions stay in force for the rest of the rendering. "
     "This holds across conditions, loops, macros, slots, translations and errors, and every scope opened on the engine is closed again when rendering ends or a handled error is left.",
     ["programs", "histories", "fault_sequences"], "every nesting of elements with defines, repeats, macros, i18n units and handled errors, with a failure at any evaluation",
     "Scope instructions are merged and moved by the optimizer; leaks show up only in particular sibling/nesting shapes or after a failure at a particular point.",
     [GEN, INT], [("scope instructions", INT + ":do_beginScope_tal/do_rawtextBeginScope_tal/do_endScope"), ("scope merging", GEN + ":optimizeCommonTriple")],
     ["visible variables at each engine evaluation", "beginScope/endScope balance"],
     [("scope depth", "number of open engine scopes", INT + ":TALInterpreter.scopeLevel")])

prop("C09", "tal:on-error contains a failure anywhere inside and leaves no trace of it",
     "If any evaluation inside an element with tal:on-error fails with an ordinary exception, the output contains nothing the element's normal rendering had produced but the element's tag (static attributes only) around the handler's value, the error variable, describing this very failure, is available to the handler only, and the rest of the template renders just as if the element had been that handler element: same variables, macro slots, translation units, translation settings, document mode and source location. "
     "Without a failure, on-error changes nothing; a failing handler propagates to the next enclosing on-error, and without one the very exception that was raised reaches the caller.",
     ["fault_sequences", "programs"], "every template with on-error and every evaluation (or pair of evaluations) at which a failure can occur",
     "A failure can strike at every evaluation inside every construct; each leaves different partial state behind. Tests try a few.",
     [INT, GEN], [("error handling", INT + ":do_onError_tal"), ("state save/restore", INT + ":saveState/restoreState"), ("handler compilation", GEN + ":emitOnError")],
     ["output stream", "engine calls", "exceptions of TALInterpreter.__call__"],
     [("macro stack", "macros being expanded", INT + ":TALInterpreter.macroStack"), ("i18n stack", "open translation units", INT + ":TALInterpreter.i18nStack")])

prop("C10", "Macro use, slots and extension expand to the defined composition",
     "Using a macro renders the macro's element in place of the using element; each slot the macro defines is rendered from the filler supplied by the macro that extends it most closely, else by the user, else from its own default content, and a filler is rendered in the composition context of the template that supplied it. "
     "The value default for a macro expression renders the using element itself; statements in the using element outside fillers are not executed. "
     "This holds for any nesting of uses, slots within slots, fillers that use macros, extension chains and repeated use of the same macro.",
     ["programs"], "every composition of macros, slots, fillers, extensions and uses up to the bounds",
     "Slot resolution depends on the whole expansion stack; wrong-frame bugs need particular nestings.",
     [INT, GEN], [("macro expansion", INT + ":do_useMacro/do_defineSlot/do_extendMacro"), ("slot collection", GEN + ":pushSlots/popSlots/emitFillSlot")],
     ["output stream", "engine calls"],
     [("macro stack", "frames with fillers", INT + ":TALInterpreter.macroStack")])

prop("C11", "Expanding macros only yields a source template that renders the same",
     "Rendering with TAL processing off and METAL on evaluates no expression other than macro lookups (templates without translation statements or server-side scripts) and outputs template source in which every used macro is replaced by its body, fillers in place, and all TAL statements are kept verbatim. "
     "Rendering that output as a template gives the same result as rendering the original directly, and expanding it again gives the same text (templates without macro extension or translation statements).",
     ["programs"], "every composition of macro uses, slots and TAL statements up to the bounds",
     "Correctness is a relation between two renderings over all compositions.",
     [INT, GEN], [("METAL attribute rewriting", INT + ":attrAction"), ("non-TAL handlers", INT + ":bytecode_handlers")],
     ["output stream", "engine calls"])

prop("C12", "A translation unit is looked up with its message id, mapping and domain",
     "For every i18n:translate element the translation service is asked exactly once per rendering of the element, with the explicit message id or the element's rendered content with whitespace collapsed (verbatim in HTML pre), each named sub-element replaced by its placeholder and its rendered value passed in the mapping (plus i18n:data), the rendered content as default, and the domain declared by the nearest enclosing i18n:domain (or in force where it is rendered if its template declares none); the returned text is output in place of the content. "
     "Units nest and combine with TAL content, attributes, loops and macros without names or domains leaking from one unit to another. With interpolation switched off the service is not asked and the message id, with its placeholders, is output.",
     ["programs", "inputs"], "every nesting of translation units, names, domains and TAL statements, in HTML and XML",
     "Interplay of nesting, names, whitespace, optimizer and domains is combinatorial.",
     [INT, GEN, TCX], [("translation units", INT + ":do_insertTranslation/do_i18nVariable"), ("contexts", INT + ":do_beginI18nContext"), ("static rules", GEN + ":emitTranslation/emitI18nVariable")],
     ["ITALExpressionEngine.translate calls", "output stream"],
     [("i18n stack", "open translation units", INT + ":TALInterpreter.i18nStack")])

prop("C13", "Message extraction finds every static message rendering looks up",
     "For every template, the message extraction tool records, for every static message (translate element with explicit or literal content message id, translated attribute with explicit or literal value) the message id, default text, domain, file and line under which rendering looks it up, in every branch of conditions, loops, macros and slots (content replaced by tal:content or tal:replace excepted); and it records no message that rendering could not look up. "
     "A message whose default differs from that of the first one with the same id and domain is warned about, and no other. "
     "Extraction never evaluates template expressions or executes scripts and is unaffected by what they would yield.",
     ["programs"], "every template of the bounded family", "Extraction is a second interpreter over the same programs; it must agree with rendering for all templates.",
     [GET, INT], [("extraction engine", GET + ":POEngine.translate"), ("extraction interpreter", GET + ":POTALInterpreter")],
     ["POEngine.catalog", "engine translate calls when rendering"])

prop("C14", "Compiled templates are reusable: history never changes a rendering",
     "A compiled template and its macros can be rendered any number of times, in any order, with any engines and options, also after failed renderings, and each rendering's output and engine calls are those of a freshly compiled template; rendering never modifies the compiled code or the values it was given. "
     "Compiling the same source always gives equal code, whatever was compiled or rendered before, and asking a parser for its code again gives equal code.",
     ["histories"], "every sequence of compile/render operations with mixed options, data and failures up to the depth",
     "Only histories expose shared mutable state; tests render once from fresh state.",
     [GEN, INT, HTP, XTP], [("structure insertion", INT + ":AltTALGenerator"), ("attribute merge", GEN + ":replaceAttrs"), ("optimizer", GEN + ":optimizeStartTag")],
     ["output stream", "engine calls", "deep equality of compiled program before/after"])

prop("C15", "Concurrent compilations and renderings do not influence each other",
     "Threads that compile templates or render the same compiled template (each with its own engine and output stream) concurrently obtain exactly the results they would obtain alone, under every interleaving.",
     ["schedules"], "every interleaving up to the preemption bound at line granularity in the code under test",
     "Unit tests run one schedule; sharing between renderings shows only under particular preemptions.",
     [GEN, INT, HTP, XTP, DEF, GET, DUM], [("module/class level state", INT + ":bytecode_handlers and class attributes"), ("shared compiled code", GEN + ":getCode")],
     ["output stream of each thread", "engine calls of each thread"])

prop("C16", "Every evaluation is announced with its own source file, line and column",
     "Whenever an expression is evaluated, the engine has last been told the file and the exact line and column of the start tag of the element the expression is written on, in whichever template (page, macro, filler) that is, also in later loop iterations, in on-error handlers and after macros, slots and translation units return. "
     "When rendering fails, the position left on the engine is that of the element whose expression failed.",
     ["programs", "fault_sequences"], "every template composition and layout (line breaks, multi-line tags) and every failing evaluation",
     "Position instructions are emitted and merged in many places; tests check a few paths.",
     [GEN, INT, HTP, XTP], [("position instructions", GEN + ":emitStartElement/emitEndElement"), ("position restore", INT + ":restoreState/do_setPosition/do_setSourceFile")],
     ["ITALExpressionEngine.setPosition/setSourceFile relative to evaluate calls"])

prop("C17", "Invalid templates are rejected at compile time with a positioned error",
     "Every misuse of the template languages (unknown statement, missing value, bad syntax of a statement, forbidden combination, statement given twice, statement outside the place it may occur, duplicate macro or filler name) is rejected by the compiler with a TAL, METAL or I18N error carrying (and naming in its message) the line and column of the offending element, and every template free of misuse compiles and can be rendered. "
     "No input text makes the compiler fail with anything but its documented parse and template errors.",
     ["inputs", "programs"], "every combination and placement of statements up to the bounds, and every short markup string",
     "The set of rules is a product of placements and combinations; unit tests probe single violations.",
     [GEN, HTP, XTP, DEF], [("static rules", GEN + ":emitStartElement"), ("statement syntax", DEF + ":parseSubstitution/parseAttributeReplacements/splitParts"), ("implied end tags with statements", GEN + ":emitEndElement")],
     ["exceptions from parseString", "lineno/offset of the exception"])

prop("C18", "Wrapping and source annotations only affect presentation",
     "For every template and data, rendering with any wrap width gives a document equal to the unwrapped one except for line breaks between attributes inside start tags, and in a start tag with computed attributes exactly those attributes after the first start a new line that would otherwise pass the width. "
     "Rendering with source annotations gives the same document plus comments that name the file and line the following output comes from; no annotation precedes an XML declaration or gets into translated text, and without annotations none appears. "
     "Tracing the execution changes neither document nor engine calls.",
     ["inputs", "configurations"], "every template of the family x every wrap width x annotations on/off",
     "Wrap depends on running column arithmetic kept in many places; widths and columns must be swept.",
     [INT, GEN], [("wrapping", INT + ":do_startTag"), ("annotations", INT + ":_annotated_stream_write/formatSourceAnnotation")],
     ["output stream"])

prop("C19", "Inserted structure is checked, inert, and lets the template carry on unchanged",
     "A value inserted with the structure keyword appears as markup but no template statement in it is executed or shown; with strict insertion malformed markup is refused with an error instead of being output, and without it and without attribute statements the text is output verbatim. "
     "tal:attributes on a tal:replace structure element apply to the first element of the inserted markup only. "
     "Inserting structure does not change how anything after it is rendered, in HTML or XML.",
     ["inputs", "programs"], "every small markup value at every insertion point, with every attribute statement and strictness setting",
     "Inserted markup runs through a nested compiler and interpreter run; only sweeps over values and followers expose leaks.",
     [INT, GEN, HTP, XTP], [("structure insertion", INT + ":insertHTMLStructure/insertXMLStructure/AltTALGenerator")],
     ["output stream", "engine calls", "exceptions"])

prop("C20", "Directives are recognised by namespace, never by accident of prefix",
     "In XML an element or attribute is a TAL, METAL or I18N directive iff its prefix is bound to the corresponding namespace at that point, whatever the prefix; in HTML the default prefixes tal, metal and i18n are additionally predeclared, and xmlns declarations rebind prefixes for exactly the element that carries them. "
     "Renaming prefixes consistently never changes the result, directives and their namespace declarations are dropped from the output, and all other prefixed names and declarations are kept.",
     ["inputs", "programs"], "every nesting of namespace declarations, rebindings and prefixed names up to the bounds",
     "Scoping faults need particular nestings of (re)declarations, void and self-closing elements.",
     [HTP, XTP], [("HTML prefix scopes", HTP + ":scan_xmlns/pop_xmlns/fixname"), ("XML prefix scopes", XTP + ":StartNamespaceDeclHandler/fixname")],
     ["output stream", "engine calls"])

prop("C21", "The bundled engine keeps scopes, loops, lookups and translations faithfully",
     "For every sequence of scope, assignment, lookup and repeat operations the bundled reference engine answers as a stack of local scopes over one global scope: locals shadow globals, leaving a scope restores exactly the locals in force before it, a global assignment is seen by every later lookup not shadowed by a local, and repeat yields the items of the sequence in order, once each. "
     "Expressions of the forms path, var, string, not, exists and python give what these say in that state, and a name, form or Python expression that has no value is an expression error. "
     "Its translation service changes only the text around the placeholders of a message, substitutes each placeholder by its value, lets a message object's own domain, mapping and default count, and records each lookup under its domain; separate engines share nothing.",
     ["histories"], "every operation sequence up to the depth", "Aliasing of copied scope dictionaries shows only for particular sequences.",
     [DUM], [("scopes", DUM + ":DummyEngine.beginScope/endScope/setLocal/setGlobal"), ("iteration", DUM + ":Iterator")],
     ["evaluate* and getValue results"])

prop("C22", "Statement lists are split and parsed exactly as documented",
     "In tal:define, tal:attributes and i18n:attributes a single semicolon separates parts and a doubled one stands for a literal semicolon in the expression (tal statements), a trailing separator is harmless, and each part is read as optional scope word, name and expression text with surrounding whitespace ignored and inner text kept verbatim; tal:content, replace, on-error take an optional text or structure keyword and tal:repeat a name. "
     "The engine is given exactly these names and expression texts in the written order, and text not of this form is rejected.",
     ["inputs"], "every short statement string over the significant characters",
     "Splitting interacts with doubling, whitespace, keywords and line breaks; only sweeping all short strings settles it.",
     [DEF, GEN], [("splitting", DEF + ":splitParts"), ("defines", GEN + ":emitDefines"), ("attributes", DEF + ":parseAttributeReplacements"), ("substitution", DEF + ":parseSubstitution")],
     ["engine evaluate/setLocal/setGlobal calls", "exceptions"])

prop("C23", "How a template is delivered to the compiler never changes the result",
     "A template compiled from a string, from bytes in the encoding it declares or the parser is given, from a stream, from a file, or fed in any number of pieces split at any points gives the same rendering, or the same kind of error at the same position. "
     "Template errors found in an HTML file carry the file name given.",
     ["inputs", "configurations"], "every split point set up to the bound and every delivery route for every template of the family",
     "Split points interact with buffering of text and whitespace; tests always feed whole strings.",
     [XP, XTP, HTP, GEN], [("incremental parsing", XP + ":parseFragment/parseStream/parseFile"), ("text joining", GEN + ":optimize/unEmitNewlineWhitespace")],
     ["output stream", "exceptions"])

prop("C24", "Macro expansion is guarded: depth limit, version and document mode",
     "Macro expansion never nests deeper than the configured limit (a filler counts as nested where it is written): the use that would exceed it fails with a METAL error, and any nesting within the limit (also after earlier failures or many sequential uses) succeeds. "
     "A macro compiled for another document mode or another code version is refused with a METAL error before any of it is rendered, and mode is restored after every inclusion.",
     ["programs", "configurations", "histories"], "every limit, depth and recursion shape up to the bounds, and every sequence of uses",
     "Off-by-one and leaks of the nesting count need particular depths, shapes and preceding uses.",
     [INT, DEF], [("nesting limit", INT + ":pushMacro/popMacro"), ("compatibility check", INT + ":do_useMacro"), ("program version/mode", DEF + ":getProgramVersion/getProgramMode")],
     ["exceptions", "output stream"])

prop("C25", "With processing switched off, templates are shown as written",
     "With TAL and METAL processing off (and directives shown) rendering reproduces the template source including all directives, evaluates no expression (translation statements and server-side scripts excepted), and the result compiles to a template equivalent to the original; with directives hidden it yields the same document without the directives and without template-namespace tags. "
     "Showing directives while processing is on only adds the directive attributes and template-namespace tags to the output.",
     ["programs", "configurations"], "every template of the family x every setting of the tal, metal and showtal switches",
     "Each switch selects other handlers for every instruction; tests use two settings.",
     [INT, GEN], [("handler tables", INT + ":bytecode_handlers/bytecode_handlers_tal"), ("directive display", INT + ":attrAction/do_startTag/do_optTag")],
     ["output stream", "engine calls"])

prop("C26", "The driver renders files as asked and finds macros in other files",
     "The command line driver and its functions take the named file, or the package's own of that name if there is none, as HTML iff its extension is .html or .htm in any case, unless the mode is given, and render it exactly as the interpreter does with the corresponding options, for every combination of switches; asked for the code they show the compiled code, and misuse of the command line is reported without rendering. "
     "A macro reference of the form file/macro yields that macro, compiled in that file's own mode and announcing that file as the source, and a reference without a slash the macro of the page; a file or macro that does not exist is an error tal:on-error can handle.",
     ["configurations", "programs"], "every file name form x mode x template, every set of switches, and every page/library/library chain of references",
     "Switches, modes and file names multiply; the test suite runs the driver on a fixed list of files with one set of options.",
     [DRV, DUM], [("mode by extension", DRV + ":compilefile"), ("switches", DRV + ":main/interpretit"), ("external macros", DUM + ":DummyEngine.evaluateMacro/findMacroFile")],
     ["standard output of the driver", "exceptions"])

prop("C27", "Server-side scripts run where they stand, with their own rendered text",
     "An HTML script element of a server-side type (type beginning text/server-) is replaced, tag included, and an element with tal:script has its content replaced, by what the engine returns for the script's language and its rendered content, once each time the element is rendered and never when it is not; the output stands where the script stands, also in loops, macros, slots, translation units and below tal:on-error. "
     "Every other script element is output untouched. "
     "The bundled engine runs Python scripts, also ones indented or inside a comment, and returns just what they print, and standard output is as before also after a script that fails.",
     ["programs", "inputs"], "every script type, content and place of a script up to the bounds, with a failure at any evaluation",
     "Scripts redirect the output stream while they are rendered; a leak needs a script next to particular constructs or a failure inside one.",
     [HTP, GEN, INT, DUM], [("recognition", HTP + ":handle_starttag"), ("script compilation", GEN + ":emitEvaluateCode"), ("execution", INT + ":do_evaluateCode"), ("bundled engine", DUM + ":DummyEngine.evaluateCode")],
     ["engine evaluateCode calls", "output stream"])

prop("C28", "Output goes to the given stream only, in order, as far as rendering got",
     "Everything a rendering produces goes, in document order and as text, to the output stream it was given, whatever kind of object that is (standard output if none is given), and nothing is written anywhere else. "
     "When an evaluation fails and nothing handles it, the stream has received a beginning of the document that would have resulted otherwise: all that precedes the failing start tag or content, or the outermost translation unit content, on-error element or script content around it, and at most the part of that start tag before the failing attribute. "
     "A failure of the stream itself reaches the caller unchanged, is never taken for a failure of the template, and nothing is written after it.",
     ["programs", "crash_points", "configurations"], "every template of the family x a failure at every evaluation x a failure at every write x every kind of stream object",
     "Output is redirected by translation units, named parts, scripts, omitted tags and on-error; what has been written at a failure depends on where it happens, and tests only look at complete output.",
     [INT], [("output redirection", INT + ":pushStream/popStream/saveState/restoreState"), ("start tags", INT + ":do_startTag"), ("error handling", INT + ":do_onError_tal")],
     ["writes received by the stream", "standard output and error", "exceptions"])

prop("C29", "An engine or compiler that provides just the documented interface will do",
     "Compiling asks the expression compiler and rendering asks the expression engine for nothing but the operations their interfaces document, with the documented arguments; any engine and compiler objects that provide just these give, for every template, the result any other engine with the same answers gives. "
     "Compiled expressions are handed to the engine as the very objects the compiler returned and the default value is recognised by identity, whatever kind of objects these are (false, empty, without hash or equality). "
     "A failure of the compiler's own error class is reported as a template error that names the reason, the expression and the position of its element.",
     ["configurations", "programs"], "every template of the family x every kind of compiled expression, default value, engine and compiler object x a failure at every evaluation",
     "Tests use the bundled engine, whose compiled expressions are strings and which offers more than the interface; a wrong test for truth or equality or an undocumented call shows only with other engines.",
     [INT, GEN, "src/zope/tal/interfaces.py"], [("engine calls", INT + ":TALInterpreter"), ("inserted structure", INT + ":insertHTMLStructure/insertXMLStructure"), ("expression compilation", GEN + ":compileExpression")],
     ["operations asked of engine and compiler", "output stream", "exceptions"])

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
print(len(P))
