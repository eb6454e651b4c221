#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the texts stay readable)."""
import json, os

P = []


def prop(id, title, statement, over, text, why, files, mechanism, observe, state=()):
    P.append(dict(
        id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files,
                     state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
                     mechanism=[dict(name=n, where=w) for n, w in mechanism],
                     observe_at=observe, hook_needed=None)))


prop('C01', 'Output of XML templates rendered in XML mode is always well-formed',
     'Whenever the XML engine accepts a template, rendering it in XML mode yields well-formed XML for every '
     'context of ordinary values: tags balance and nest, attributes are quoted and escaped, CDATA sections and '
     'comments are properly delimited, and the text can be re-read by any conforming XML parser. This holds for '
     'every combination of directives, attributes, script/style content, CDATA, comments, entities and options, '
     'including templates assembled by inheritance and inclusion.',
     ['programs', 'inputs', 'configurations'],
     'All accepted templates x all contexts of values made of XML-representable characters x option settings '
     '(strip_text, cdata_scripts, is_fragment, autoblocks).',
     'The tests compare about sixty fixed templates with fixed strings; none feeds generated templates or hostile '
     'values and none re-parses the output.',
     ['kajiki/xml_template.py', 'kajiki/template.py', 'kajiki/ir.py', 'kajiki/html_utils.py'],
     [('tag open/close emission under a common guard', 'kajiki/xml_template.py:_Compiler._compile_xml'),
      ('escaping of text and attribute values', 'kajiki/template.py:_Template._escape, _render_attrs'),
      ('CDATA wrapping of script and style', 'kajiki/xml_template.py:_Compiler._compile_xml')],
     ['render() of XMLTemplate(mode="xml")'])

prop('C02', 'Substituted values are escaped exactly once in every position',
     'A value that is not marked as trusted, substituted anywhere in an XML template (text, attribute, py:content, '
     'py:replace, py:attrs, script/style text, function bodies, loops, blocks, included templates) or in an '
     'autoescaping text template, reaches the output as character data equal to its string form after one '
     'unescaping: it can never open, close or alter markup. Values marked with literal()/Markup() or offering an '
     '__html__ method, and results of template functions, are inserted in text unchanged and never escaped twice; '
     'None in text contributes nothing; text templates without autoescape insert values unchanged.',
     ['inputs', 'programs', 'configurations'],
     'All values (strings of any characters and length, numbers, booleans, None, containers, str subclasses, '
     'objects) x all substitution positions x all output modes.',
     'The tests escape three or four fixed strings in two positions; an escape that misses a position, a type, a '
     'length or a character combination passes them.',
     ['kajiki/template.py', 'kajiki/ir.py', 'kajiki/xml_template.py', 'kajiki/text.py', 'kajiki/util.py'],
     [('escape on every unsafe expression', 'kajiki/ir.py:ExprNode.py'),
      ('escape function', 'kajiki/template.py:_Template._escape'),
      ('attribute rendering', 'kajiki/template.py:_Template._render_attrs, _collect'),
      ('literal()', 'kajiki/util.py:literal')],
     ['render()'])

prop('C03', 'Static markup passes through with its content intact',
     'A template without directives or expressions renders, in XML mode, to a document with the same elements, '
     'attributes, character data (including significant whitespace), CDATA sections and non-"!" comments as its '
     'source, in the same order, and nothing else. XML entities, character references and every HTML named entity '
     'denote the same characters in text and in attribute values as the HTML standard says; "<!--!" comments '
     'vanish; "$$" yields one dollar and a dollar that starts no expression stays itself.',
     ['inputs'],
     'All well-formed documents over arbitrary element and attribute names, character data, comments, CDATA and '
     'the 2125 HTML named entities.',
     'The tests touch two HTML entities and a dozen static fragments.',
     ['kajiki/xml_template.py', 'kajiki/entities.py', 'kajiki/ir.py'],
     [('SAX handler building the tree', 'kajiki/xml_template.py:_Parser'),
      ('text merging and whitespace extraction', 'kajiki/xml_template.py:_DomTransformer'),
      ('merging of adjacent text output', 'kajiki/ir.py:optimize'),
      ('entity table', 'kajiki/entities.py:html5')],
     ['render()'])

prop('C04', 'Conditionals, switches and loops select exactly the specified content',
     'For every nesting of py:if/py:else, py:switch/py:case/py:else and py:for over elements and text, the output '
     'contains exactly the branches a reading of the template as a program selects: py:if content iff its test is '
     'truthy and otherwise the directly following py:else; the first py:case equal to the switched value, else the '
     'py:else, else nothing; and loop content once per item, in order, with the loop variables bound to that item. '
     'A construct nested inside another never disturbs the selection of the outer one.',
     ['programs', 'inputs'],
     'All nestings of the control-flow directives x all test values and iterables.',
     'The tests use one construct at a time with one or two levels of nesting.',
     ['kajiki/xml_template.py', 'kajiki/ir.py', 'kajiki/template.py'],
     [('IR nodes emitting Python blocks', 'kajiki/ir.py:IfNode, ElseNode, ForNode, SwitchNode, CaseNode'),
      ('switch stack', 'kajiki/template.py:_push_switch, _pop_switch, _case'),
      ('indentation', 'kajiki/ir.py:generate_python')],
     ['render()'], [('_switch_stack', 'values of the switches being rendered', 'kajiki/template.py')])

prop('C05', 'py:with bindings last exactly for their block',
     'Inside a py:with block every named variable has the assigned value, assignments take effect left to right so '
     'later ones see earlier ones, and values may be arbitrary expressions, including ones with "==" and quoted '
     'semicolons. After the block, and on each loop iteration or function call, each variable is back to the value '
     'it had before the block, however blocks nest and whatever they contain.',
     ['programs', 'inputs'],
     'All nestings of py:with with loops, conditionals, functions, calls and other py:with blocks rebinding the '
     'same or other names.',
     'The tests rebind two names, one level deep, with constants.',
     ['kajiki/ir.py', 'kajiki/template.py'],
     [('assignment splitting', 'kajiki/ir.py:WithNode.__init__'),
      ('save/restore stack', 'kajiki/template.py:_push_with, _pop_with')],
     ['render()'], [('_with_stack', 'saved values of rebound variables', 'kajiki/template.py')])

prop('C06', 'Template functions behave as functions wherever they are called',
     'A function defined with py:def can be called any number of times, before or after its definition, '
     'recursively, with positional, keyword and default arguments, from text, attributes, py:content, py:replace, '
     'loops and other functions, and each call yields its body rendered with those arguments, unescaped in text. '
     'Functions defined inside functions see the enclosing call\'s variables. py:call passes its content as a '
     'callable that renders it, with the given arguments, each time it is invoked.',
     ['programs', 'inputs'],
     'All sets of function definitions, call sites and arguments.',
     'The tests define one or two functions and call each from one place.',
     ['kajiki/xml_template.py', 'kajiki/ir.py', 'kajiki/template.py', 'kajiki/util.py'],
     [('function registry', 'kajiki/xml_template.py:_Compiler._compile_def, _compile_call'),
      ('function nodes', 'kajiki/ir.py:DefNode, InnerDefNode, CallNode'),
      ('binding and flattening', 'kajiki/template.py:TplFunc, kajiki/util.py:flattener')],
     ['render()'])

prop('C07', 'Attribute and element forms of directives are interchangeable',
     'For each of py:if, py:else, py:for, py:case, py:with, py:def, py:call, py:replace and py:block, writing the '
     'directive as an attribute of an element renders the same as wrapping that element in the directive\'s '
     'element form. When several directives stand on one element they apply in a fixed nesting order, whatever the '
     'order of the attributes in the source: def, call, case, else, for, if, with, replace, block from outermost '
     'to innermost, then strip, attributes and content.',
     ['programs', 'inputs'],
     'All elements carrying any compatible subset of directives x all contexts.',
     'One test checks the expanded tree of a single element; no test renders both forms.',
     ['kajiki/xml_template.py', 'kajiki/markup_template.py'],
     [('expansion of directive attributes', 'kajiki/xml_template.py:_DomTransformer._expand_directives'),
      ('directive order', 'kajiki/markup_template.py:DIRECTIVES')],
     ['render()'])

prop('C08', 'Attributes and tag directives render exactly what was asked',
     'An attribute whose value evaluates to None is left out, any other is emitted as name="value" with static '
     'attributes in alphabetical order followed by the py:attrs entries (a mapping, pairs or None) in alphabetical '
     'order; boolean HTML attributes given True/False through py:attrs appear with their own name as value or not '
     'at all. py:strip removes exactly the tag with its attributes, and only when its expression is true or empty; '
     'py:content replaces the children, and py:replace the whole element, by the value of the expression.',
     ['inputs', 'programs'],
     'All elements with any mix of static, interpolated and dynamic attributes, strip conditions and content '
     'expressions.',
     'The tests check about ten fixed elements.',
     ['kajiki/xml_template.py', 'kajiki/template.py', 'kajiki/ir.py', 'kajiki/html_utils.py'],
     [('tag compilation', 'kajiki/xml_template.py:_Compiler._compile_xml'),
      ('attribute nodes', 'kajiki/ir.py:AttrNode, AttrsNode'),
      ('attribute rendering', 'kajiki/template.py:_render_attrs, _collect')],
     ['render()'])

prop('C09', 'Output modes change the serialisation, never the document',
     'For every template and context, HTML and HTML5 output read by an HTML parser describes the same tree as the '
     'XML output: void elements are written without end tag, every other element always with one, script and '
     'style bodies are raw text (CDATA-wrapped in XML mode when the option is on, and a script element is never '
     'self-closed), and boolean attributes are minimised. Explicitly choosing a mode overrides the one implied by '
     'the doctype.',
     ['configurations', 'programs', 'inputs'],
     'All templates x modes xml, html, html5 x cdata_scripts.',
     'The tests render eight fixed snippets in more than one mode.',
     ['kajiki/xml_template.py', 'kajiki/html_utils.py', 'kajiki/template.py'],
     [('mode-dependent closing of tags', 'kajiki/xml_template.py:_Compiler._compile_xml'),
      ('tag tables', 'kajiki/html_utils.py'), ('attribute minimisation', 'kajiki/template.py:_render_attrs')],
     ['render()'])

prop('C10', 'Doctypes are recognised, preserved and emitted exactly once',
     'A template\'s doctype is emitted verbatim, once, before the root element, together with nothing that was not '
     'in the template; a template without one gets the HTML5 doctype in html5 mode and none otherwise; fragments, '
     'child templates and included templates emit none of their own. Every registered public doctype is recognised '
     'irrespective of letter case and of the amount of white space between its parts and selects its rendering '
     'mode, and unknown doctypes select XML.',
     ['inputs', 'configurations'],
     'All registered and unknown doctypes in all spellings x mode x is_fragment x position in the prolog.',
     'Two tests check one XHTML doctype and the HTML5 one.',
     ['kajiki/doctype.py', 'kajiki/xml_template.py'],
     [('doctype extraction', 'kajiki/doctype.py:extract_dtd'),
      ('doctype lookup', 'kajiki/doctype.py:DocumentTypeDeclaration.matching'),
      ('emission', 'kajiki/xml_template.py:_Compiler.compile')],
     ['render()', 'DocumentTypeDeclaration.matching()', 'extract_dtd()'])

prop('C11', 'Embedded expressions are delimited and evaluated exactly',
     'In XML and text templates, in text and in attributes, "${...}" holds any Python expression, however it mixes '
     'braces, brackets, quotes, string prefixes, comments, comparison operators and line breaks, and stops at its '
     'own closing brace; "$name.attr" takes the longest dotted name; everything around an expression, including '
     'further expressions, is rendered as the text it is. The rendered value is what Python computes for that '
     'expression in the template\'s scope.',
     ['inputs'],
     'All Python expressions x all surrounding texts x text, attribute, CDATA and text-template positions.',
     'The tests sample about fifteen expressions.',
     ['kajiki/xml_template.py', 'kajiki/text.py', 'kajiki/ir.py'],
     [('expression scanner for XML', 'kajiki/xml_template.py:_TextCompiler'),
      ('expression scanner for text', 'kajiki/text.py:_Scanner'),
      ('expression node', 'kajiki/ir.py:ExprNode')],
     ['render()'])

prop('C12', 'Text templates reproduce plain text and honour the whitespace rules',
     'In a text template everything that is not a directive, an expression or an escape is rendered character for '
     'character. "$$" renders one dollar, a backslash removes itself and a following line end (or makes the next '
     'character literal), a directive on its own "%" line leaves no trace of that line, "{%-" removes the '
     'whitespace before the tag back to the line start and "-%}" removes the blanks after it.',
     ['inputs', 'programs'],
     'All texts interleaved with directives in every spelling.',
     'The tests use a handful of short templates.',
     ['kajiki/text.py'],
     [('scanner', 'kajiki/text.py:_Scanner, _pattern'), ('escapes', 'kajiki/text.py:_unescape_newlines')],
     ['render() of TextTemplate'])

prop('C13', 'Text template directives run as the program they spell',
     'For every nesting of %if/%else, %switch/%case/%else, %for, %def, %call and %py, in line or brace form, a text '
     'template renders what the equivalent Python program would print: the selected branches, one copy per loop '
     'item, and function bodies with their arguments and closures. The line form and the brace form of the same '
     'program render the same text up to the documented whitespace rules.',
     ['programs', 'inputs'],
     'All nestings of text directives x contexts.',
     'The tests exercise one construct at a time.',
     ['kajiki/text.py', 'kajiki/ir.py', 'kajiki/template.py'],
     [('recursive-descent parser', 'kajiki/text.py:_Parser'), ('IR', 'kajiki/ir.py')],
     ['render() of TextTemplate'])

prop('C14', 'Inheritance resolves every block and function to the right template',
     'Rendering a template that extends a chain of parents gives the root layout with every block and function '
     'replaced by the definition nearest to the child, whatever levels override or skip it; parent_block() gives '
     'the next definition up the chain, and "parent", "child", "local" and "self" denote the next template up, the '
     'next down, the defining template and the child-most one. Choosing the parent at render time works, autoblock '
     'tags behave as blocks of their name, and rendering a child never changes what a parent or sibling renders.',
     ['programs', 'histories'],
     'All inheritance chains (any depth, any overriding pattern, XML and text) and all orders of rendering their '
     'members.',
     'The tests use one three-level chain and a two-level one.',
     ['kajiki/template.py', 'kajiki/xml_template.py', 'kajiki/text.py', 'kajiki/loader.py'],
     [('extend', 'kajiki/template.py:_Template._extend'),
      ('blocks', 'kajiki/xml_template.py:_Compiler._compile_block, kajiki/text.py:_Parser._parse_block')],
     ['render() through a loader'])

prop('C15', 'Includes and imports bring in exactly the other template',
     'Including a template renders its whole output in place, with the including template\'s context variables '
     'visible, no doctype, and no effect on the variables, functions or later output of the including template. '
     'Importing renders nothing and makes the functions of the other template callable under the given alias, or '
     'under the base name of the template when no alias is given, any number of times and at any nesting depth.',
     ['programs', 'histories'],
     'All graphs of templates including and importing each other, XML and text, through every loader.',
     'The tests include one static template once and import one library once, with MockLoader only.',
     ['kajiki/template.py', 'kajiki/ir.py', 'kajiki/loader.py', 'kajiki/text.py', 'kajiki/xml_template.py'],
     [('import_', 'kajiki/template.py:_Template._import'), ('nodes', 'kajiki/ir.py:ImportNode, IncludeNode'),
      ('alias', 'kajiki/loader.py:Loader.default_alias_for')],
     ['render() through a loader'])

prop('C16', 'Rendering is repeatable and leaves no trace',
     'Rendering is a function of the template and the context: the same template class gives the same output every '
     'time it is instantiated and every time an instance is rendered, in any order and interleaving with other '
     'templates and contexts, in any thread, and after renders that failed half-way. Iterating over an instance '
     'yields strings that concatenate to what render() returns, and the caller\'s context mapping and values are '
     'never modified.',
     ['histories', 'schedules'],
     'All histories of compiling, instantiating, rendering, partially iterating, failing and interleaving (also '
     'across threads) over a set of templates and contexts.',
     'Every test renders a template once or twice and looks at that output only.',
     ['kajiki/template.py', 'kajiki/util.py', 'kajiki/ir.py'],
     [('per-instance globals', 'kajiki/template.py:_Template.__init__'),
      ('per-call binding', 'kajiki/template.py:TplFunc'), ('unique names', 'kajiki/util.py:NameGen')],
     ['render()', 'iteration'],
     [('__globals__', 'names visible to template code', 'kajiki/template.py'),
      ('_switch_stack, _with_stack', 'render-time stacks', 'kajiki/template.py')])

prop('C17', 'Loaders always serve the current template from the right place',
     'With reloading on, after any history of edits, additions and removals with advancing modification times, '
     'loading or rendering through a file loader uses the current content of the first match on the search path '
     'for the template itself and for everything it extends, includes or imports, and an unknown or removed name '
     'raises an IOError. With reloading off the first loaded version keeps being served; in both cases an '
     'unchanged template is not compiled again, and the file extension or forced mode and the loader\'s options '
     'decide how each file is compiled. A package loader does the same for the dotted names of templates in '
     'packages, and prefers .xml to .html, .html5 and .txt when there are several.',
     ['histories', 'configurations'],
     'All histories of file-system edits and loads x loader options x search paths x template kinds.',
     'The tests load each file once.',
     ['kajiki/loader.py', 'kajiki/template.py'],
     [('cache and timestamps', 'kajiki/loader.py:Loader.import_, FileLoader.import_'),
      ('path search', 'kajiki/loader.py:FileLoader._filename, PackageLoader._filename'),
      ('extension map', 'kajiki/loader.py:FileLoader.__init__, _load')],
     ['import_()', 'render()'],
     [('modules, _timestamps', 'cache of compiled templates', 'kajiki/loader.py')])

prop('C18', 'Translation covers exactly the translatable text, and extraction agrees',
     'At render time the translation function receives exactly the natural-language text of an XML template (text '
     'outside tags, cut at expressions, without the whitespace next to tags, and never script/style content, '
     'attributes, markup or expression values), and its result replaces the text in place; an identity translation changes nothing. '
     'Message extraction reports every such message, with the same text and the line it is on, and, when asked, '
     'the gettext calls inside expressions; the translation function can be replaced through the context, the '
     'loader\'s globals or the i18n module, also across inheritance.',
     ['inputs', 'programs', 'configurations'],
     'All XML templates x translation functions x ways of installing them x strip_text and extract_python.',
     'The tests extract from three fixed templates.',
     ['kajiki/i18n.py', 'kajiki/ir.py', 'kajiki/xml_template.py', 'kajiki/template.py'],
     [('translatable nodes', 'kajiki/ir.py:TranslatableTextNode, kajiki/xml_template.py:make_text_node'),
      ('extraction', 'kajiki/i18n.py:extract'), ('runtime lookup', 'kajiki/template.py:_Template._gettext'),
      ('whitespace extraction', 'kajiki/xml_template.py:_DomTransformer')],
     ['render()', 'i18n.extract()'])

prop('C19', 'Invalid templates are rejected with an error that locates the mistake',
     'A template that is not well-formed XML, has an undefined entity, an unterminated or invalid "${" expression, '
     'an invalid directive expression, a py:else without its py:if or py:switch, or foreign content in a py:switch '
     'is never accepted: compiling it raises a parse error (malformed XML, entities), a compile error ("${" '
     'expressions and misplaced py:else or py:switch content in XML) or a syntax error (other Python code and text '
     'templates). Parse and compile errors, and the syntax errors for "${" in text templates, name the file and the '
     'line of the template where the mistake is and quote that line.',
     ['inputs'],
     'All single-fault mutations of all valid templates.',
     'The tests sample about ten mistakes and look at the message, never at the line.',
     ['kajiki/xml_template.py', 'kajiki/template.py', 'kajiki/text.py'],
     [('parse errors', 'kajiki/xml_template.py:_Parser.parse, XMLTemplateParseError'),
      ('compile errors', 'kajiki/xml_template.py:_TextCompiler._get_braced_expr, _compile_switch, _compile_else'),
      ('syntax errors', 'kajiki/template.py:from_ir, KajikiSyntaxError')],
     ['XMLTemplate()', 'TextTemplate()'])

prop('C20', 'Run-time errors point at the template line that failed',
     'When template code raises, the original exception propagates unchanged and its traceback contains a frame '
     'whose file is the template file and whose line is the line of the failing expression or directive (for code '
     'in a tag, a line between the start of the tag and the expression; for code of several lines, one of them), for '
     'templates of any length, in the main body, functions, blocks, called bodies and across included or extended '
     'templates.',
     ['programs', 'inputs'],
     'All templates with a failing expression at any position, any number of lines before it, XML and text.',
     'Three tests with templates under ten lines; two only look at the file name.',
     ['kajiki/template.py', 'kajiki/lnotab.py', 'kajiki/ir.py', 'kajiki/xml_template.py', 'kajiki/text.py'],
     [('line annotation', 'kajiki/template.py:from_ir, TplFunc.annotate_lnotab'),
      ('line table encoding', 'kajiki/lnotab.py'),
      ('line numbers of nodes', 'kajiki/xml_template.py:annotate, kajiki/text.py:_Scanner')],
     ['traceback of render()'])

prop('C21', 'Stripping whitespace never touches anything but whitespace',
     'With strip_text on, the output is that of the same template after removing leading and trailing whitespace '
     'from each run of text between tags, directives and comments; interior whitespace, expression values, '
     'attributes and the structure are unchanged. With it off (the default) all whitespace of the source is '
     'preserved, whichever loader or constructor is used.',
     ['inputs', 'programs'],
     'All templates x all whitespace layouts.',
     'Two tests with one template each.',
     ['kajiki/xml_template.py'],
     [('whitespace stripping', 'kajiki/xml_template.py:_DomTransformer._strip_text_nodes, '
                               '_extract_nodes_leading_and_trailing_spaces')],
     ['render()'])

prop('C22', 'Embedded Python code and built-in names work as documented',
     'Code blocks run once per rendering, in source order, at the point where they stand, with any consistent '
     'indentation, and their variables are visible to the rest of that function; module-level blocks run once and '
     'their names are visible in every function of the template. defined(name) tells whether a name exists, '
     'value_of(name, default) gives its value or the default, and context values take precedence over loader '
     'globals, in XML and text templates alike.',
     ['programs', 'inputs'],
     'All code blocks x positions x contexts x base globals.',
     'The tests import os in four ways and look up one name.',
     ['kajiki/ir.py', 'kajiki/template.py', 'kajiki/xml_template.py', 'kajiki/text.py'],
     [('code nodes', 'kajiki/ir.py:PythonNode'), ('globals', 'kajiki/template.py:_Template.__init__, from_ir')],
     ['render()'])

prop('C23', 'The TurboGears 1 plugin renders what the loader and the templates say',
     'The template engine plugin for TurboGears 1 loads templates by dotted name, through a package loader or the '
     'loader class named in its options, or from a string, and renders them with the variables given plus the extra '
     'variables of the application (which win), or without any. The options kajiki.reload, kajiki.force_mode (txt, '
     'xml, html, html5) and kajiki.loader_class are honoured; a loader class that cannot be imported gives a '
     'ConfigurationError. Whatever the sequence of loads, edits and renderings, the output is what the loader with '
     'those settings and the template itself give.',
     ['histories', 'inputs'],
     'All options x templates x variables x sequences of load, edit and render.',
     'No test imports the module.',
     ['kajiki/integration/turbogears1.py', 'kajiki/loader.py'],
     [('options', 'kajiki/integration/turbogears1.py:XMLTemplateEnginePlugin.__init__, _import_loader'),
      ('rendering', 'kajiki/integration/turbogears1.py:load_template, render, transform')],
     ['XMLTemplateEnginePlugin'])

prop('C24', 'The Pyramid renderer renders the current template with the values of the view',
     'Including kajiki.integration.pyramid, once or more often, registers one renderer for each extension of '
     'kajiki.extensions (default .kajiki). It renders the template of an asset specification in the mode of '
     'kajiki.mode (default html5) with the values of the system overridden by those of the view; fragments have no '
     'doctype; a result that is not a mapping gives a ValueError and a missing template an OSError. With '
     'pyramid.reload_templates on, the current content of the template and everything it extends or includes is '
     'used after any history of edits and removals with advancing modification times; with it off, the first loaded '
     'one. In both cases an unchanged template is not compiled again.',
     ['histories', 'inputs'],
     'All settings x templates x values x sequences of edits and renderings.',
     'No test imports the module (Pyramid is not installed).',
     ['kajiki/integration/pyramid.py'],
     [('configuration', 'kajiki/integration/pyramid.py:includeme, renderer_factory'),
      ('loading', 'kajiki/integration/pyramid.py:PyramidKajikiLoader.import_, _load'),
      ('rendering', 'kajiki/integration/pyramid.py:PyramidKajikiLoader.__call__, fragment')],
     ['includeme', 'PyramidKajikiLoader'])

if __name__ == '__main__':
    here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    with open(os.path.join(here, 'properties.jsonl'), 'w') as f:
        for p in P:
            f.write(json.dumps(p, ensure_ascii=False) + '\n')
    print(len(P))
