From c4a6a719ab868f41555ae25843d6095d68440166 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:26 +0000
Subject: [PATCH 01/48] fix: do not mistake the beginning of a name for a
 keyword

Names like 'variable', 'letter', 'readonlyFoo', 'staticText', 'trueColor' or
'stringList' were split after a leading keyword (var, let, readonly, static,
true, string), so that fields got lost or renamed, types were replaced by
basic types or the document did not parse. Keywords now end at a word boundary
and modifiers may serve as names of fields.
---
 ts2python.ebnf     | 27 +++++++++++++++------------
 ts2pythonParser.py | 31 ++++++++++++++++---------------
 2 files changed, 31 insertions(+), 27 deletions(-)

diff --git a/ts2python.ebnf b/ts2python.ebnf
index 6c2985b..605a25f 100644
--- a/ts2python.ebnf
+++ b/ts2python.ebnf
@@ -17,7 +17,7 @@
 @ reduction   = merge_treetops  # anonymous nodes are being reduced where possible
 @ disposable  = INT, NEG, FRAC, DOT, EXP, EOF,
                 _array_ellipsis, _top_level_assignment, _top_level_literal,
-                _quoted_identifier, _namespace, _part
+                _quoted_identifier, _namespace, _part, _modifier
 @ drop        = whitespace, no_comments, strings, EOF,
                 _array_ellipsis, _top_level_assignment, _top_level_literal
 
@@ -71,13 +71,13 @@ extends     = ("extends" | "implements")
 
 declarations_block = "{" [(function|declaration) { [";"|","] (function|declaration) }
                           [";" map_signature] [";"|","]] "}"
-declaration = qualifiers ["let"|"var"] identifier [optional] !`(` [":" types]
+declaration = qualifiers [&_modifier ("let"|"var")] identifier [optional] !`(` [":" types]
 
 
 # @function_resume = /(?=;)/
 
-function    = [["export"] [static]
-               ["function"] identifier [optional] [type_parameters]]
+function    = [[&_modifier "export"] [static]
+               [&_modifier "function"] identifier [optional] [type_parameters]]
               "(" §[arg_list] ")" [":" types]
             | special
   arg_list  = (argument { "," argument } ["," arg_tail] | arg_tail) [","]
@@ -87,8 +87,11 @@ special     = "[" name "]" "(" §[arg_list] ")" [":" types]
 
 
 qualifiers  = [readonly] ° [static]
-readonly    = "readonly"
-static      = "static"
+readonly    = &_modifier "readonly"
+static      = &_modifier "static"
+
+# a modifier is a word of its own and not itself the name of the declared item
+_modifier   = /\w+\b(?!\s*[?:;,=(){}])/
 
 optional    = "?"
 
@@ -102,7 +105,7 @@ type_alias  = ["export"] "type" §identifier [type_parameters] "=" types ";"
 
 types       = ["|"] (intersection | type) { "|" (intersection | type) }
 intersection = type { "&" §type }+
-type        = ["readonly"]
+type        = [&/readonly\b/ "readonly"]
             ( array_of | basic_type | generic_type | indexed_type
             | type_name !`(` | "(" types ")" | mapped_type
             | declarations_block | type_tuple | declarations_tuple
@@ -111,7 +114,7 @@ type        = ["readonly"]
 generic_type = type_name type_parameters
   type_parameters = "<" §parameter_types { "," parameter_types } ">"
   parameter_types = ["|"] parameter_type  { "|" parameter_type }
-  parameter_type  = [ "readonly" ]
+  parameter_type  = [ &/readonly\b/ "readonly" ]
                   ( array_of | basic_type | generic_type     # actually, only a subset of array_of
                   | indexed_type | type_name [extends_type] [equals_type]
                   | declarations_block | type_tuple | declarations_tuple )
@@ -186,7 +189,7 @@ _top_level_literal = literal
 literal    = integer | number | boolean | string | array | object
 integer    = INT !/[.Ee]/ ~
 number     = INT FRAC EXP ~
-boolean    = (`true` | `false`) ~
+boolean    = (`true` | `false`) !/\w/ ~
 string     = /"[^"\n]*"/~ | /'[^'\n]*'/~
 array      = "[" [ literal { "," literal } ] "]"
 object     = "{" [ association { "," association } ] [","] "}"
@@ -200,7 +203,7 @@ object     = "{" [ association { "," association } ] [","] "}"
 #######################################################################
 
 basic_type   = (`object` | `array` | `string` | `number` | `boolean` | `null`
-               | `integer` | `uinteger` | `decimal` | `unknown` | `any` | `void`) ~
+               | `integer` | `uinteger` | `decimal` | `unknown` | `any` | `void`) !/\w/ ~
 
 #######################################################################
 #
@@ -210,8 +213,8 @@ basic_type   = (`object` | `array` | `string` | `number` | `boolean` | `null`
 
 variable   = name
 _quoted_identifier = identifier | '"' identifier §'"' | "'" identifier §"'"
-name       = !(`true`|`false`) _part {`.` _part} ~
-identifier = !(`true`|`false`) _part ~
+name       = !/(?:true|false)\b/ _part {`.` _part} ~
+identifier = !/(?:true|false)\b/ _part ~
   _part    = /(?!\d)\w+/
 INT         = [NEG] ( /[1-9][0-9]+/ | /[0-9]/ )
 NEG         = `-`
diff --git a/ts2pythonParser.py b/ts2pythonParser.py
index e0f7c70..1adfaf4 100755
--- a/ts2pythonParser.py
+++ b/ts2pythonParser.py
@@ -138,9 +138,9 @@ class ts2pythonGrammar(Grammar):
     literal = Forward()
     type = Forward()
     types = Forward()
-    source_hash__ = "7bde6345f03305114d11de968cd6e5df"
+    source_hash__ = "0a2ed62dc6868ed32e8c3a7b86ecc7d2"
     early_tree_reduction__ = CombinedParser.MERGE_TREETOPS
-    disposable__ = re.compile('(?:_top_level_assignment$|_namespace$|EOF$|_quoted_identifier$|_array_ellipsis$|_top_level_literal$|FRAC$|INT$|DOT$|EXP$|_part$|NEG$)')
+    disposable__ = re.compile('(?:EOF$|FRAC$|DOT$|EXP$|_part$|NEG$|_namespace$|_modifier$|_quoted_identifier$|_top_level_literal$|_array_ellipsis$|_top_level_assignment$|INT$)')
     static_analysis_pending__ = []  # type: List[bool]
     parser_initialization__ = ["upon instantiation"]
     COMMENT__ = r'(?://.*)\n?|(?:/\*(?:.|\n)*?\*/) *\n?'
@@ -156,17 +156,17 @@ class ts2pythonGrammar(Grammar):
     NEG = Text("-")
     INT = Series(Option(NEG), SmartRE(f'([1-9][0-9]+|[0-9])', '/[1-9][0-9]+/|/[0-9]/'))
     _part = RegExp('(?!\\d)\\w+')
-    identifier = Series(SmartRE(f'(?!true|false)', '!`true`|`false`'), _part, dwsp__)
-    name = Series(SmartRE(f'(?!true|false)', '!`true`|`false`'), _part, ZeroOrMore(Series(Text("."), _part)), dwsp__)
+    identifier = Series(SmartRE(f'(?!(?:true|false)\\b)', '!/(?:true|false)\\b/'), _part, dwsp__)
+    name = Series(SmartRE(f'(?!(?:true|false)\\b)', '!/(?:true|false)\\b/'), _part, ZeroOrMore(Series(Text("."), _part)), dwsp__)
     _quoted_identifier = Alternative(identifier, Series(Series(Drop(Text('"')), dwsp__), identifier, Series(Drop(Text('"')), dwsp__), mandatory=2), Series(Series(Drop(Text("\'")), dwsp__), identifier, Series(Drop(Text("\'")), dwsp__), mandatory=2))
     variable = Synonym(name)
-    basic_type = SmartRE(f'(?P<:Text>object|array|string|number|boolean|null|integer|uinteger|decimal|unknown|any|void)(?P<comment__>{WSP_RE__})', '`object`|`array`|`string`|`number`|`boolean`|`null`|`integer`|`uinteger`|`decimal`|`unknown`|`any`|`void` ~')
+    basic_type = SmartRE(f'(?P<:Text>object|array|string|number|boolean|null|integer|uinteger|decimal|unknown|any|void)(?!\\w)(?P<comment__>{WSP_RE__})', '`object`|`array`|`string`|`number`|`boolean`|`null`|`integer`|`uinteger`|`decimal`|`unknown`|`any`|`void` !/\\w/ ~')
     key = Alternative(identifier, Series(Series(Drop(Text('"')), dwsp__), identifier, Series(Drop(Text('"')), dwsp__)))
     association = Series(key, Series(Drop(Text(":")), dwsp__), literal, mandatory=1)
     object = Series(Series(Drop(Text("{")), dwsp__), Option(Series(association, ZeroOrMore(Series(Series(Drop(Text(",")), dwsp__), association)))), Option(Series(Drop(Text(",")), dwsp__)), Series(Drop(Text("}")), dwsp__))
     array = Series(Series(Drop(Text("[")), dwsp__), Option(Series(literal, ZeroOrMore(Series(Series(Drop(Text(",")), dwsp__), literal)))), Series(Drop(Text("]")), dwsp__))
     string = SmartRE(f'("[^"\\n]*")(?P<comment__>{WSP_RE__})|(\'[^\'\\n]*\')(?P<comment__>{WSP_RE__})', '/"[^"\\n]*"/ ~|/\'[^\'\\n]*\'/ ~')
-    boolean = SmartRE(f'(?P<:Text>true|false)(?P<comment__>{WSP_RE__})', '`true`|`false` ~')
+    boolean = SmartRE(f'(?P<:Text>true|false)(?!\\w)(?P<comment__>{WSP_RE__})', '`true`|`false` !/\\w/ ~')
     number = Series(INT, FRAC, EXP, dwsp__)
     integer = Series(INT, SmartRE(f'(?![.Ee])', '!/[.Ee]/'), dwsp__)
     type_name = Synonym(name)
@@ -177,15 +177,15 @@ class ts2pythonGrammar(Grammar):
     const = Series(Option(Series(Drop(Text("export")), dwsp__)), Series(Drop(Text("const")), dwsp__), declaration, Option(Series(Series(Drop(Text("=")), dwsp__), Alternative(literal, identifier))), Series(Drop(Text(";")), dwsp__), mandatory=2)
     item = Series(_quoted_identifier, Option(Series(Series(Drop(Text("=")), dwsp__), literal)))
     enum = Series(Option(Series(Drop(Text("export")), dwsp__)), Series(Drop(Text("enum")), dwsp__), identifier, Series(Drop(Text("{")), dwsp__), item, ZeroOrMore(Series(Series(Drop(Text(",")), dwsp__), item)), Option(Series(Drop(Text(",")), dwsp__)), Series(Drop(Text("}")), dwsp__), mandatory=3)
-    keyof = Series(Text("keyof"), dwsp__)
-    readonly = Series(Text("readonly"), dwsp__)
+    _modifier = RegExp('\\w+\\b(?!\\s*[?:;,=(){}])')
+    readonly = Series(Lookahead(_modifier), Series(Drop(Text("readonly")), dwsp__))
     optional = Series(Text("?"), dwsp__)
     func_type = Series(Option(Series(Drop(Text("new")), dwsp__)), Series(Drop(Text("(")), dwsp__), Option(arg_list), Series(Drop(Text(")")), dwsp__), Series(Drop(Text("=>")), dwsp__), types)
     extends = Series(SmartRE(f'(?:extends)(?P<comment__>{WSP_RE__})|(?:implements)(?P<comment__>{WSP_RE__})', '"extends"|"implements"'), Alternative(generic_type, type_name), ZeroOrMore(Series(Series(Drop(Text(",")), dwsp__), Alternative(generic_type, type_name))))
+    keyof = Series(Text("keyof"), dwsp__)
     index_signature = Series(Option(readonly), Series(Drop(Text("[")), dwsp__), identifier, Alternative(Series(Drop(Text(":")), dwsp__), Series(Option(Series(Drop(Text("in")), dwsp__)), keyof), Series(Drop(Text("in")), dwsp__)), type, Series(Drop(Text("]")), dwsp__), Option(optional))
     map_signature = Series(index_signature, Series(Drop(Text(":")), dwsp__), types)
     mapped_type = Series(Series(Drop(Text("{")), dwsp__), map_signature, Option(Series(Drop(Text(";")), dwsp__)), Series(Drop(Text("}")), dwsp__))
-    extends_type = Series(Series(Drop(Text("extends")), dwsp__), Option(keyof), Alternative(basic_type, type_name, mapped_type))
     declarations_tuple = Series(Series(Drop(Text("[")), dwsp__), declaration, ZeroOrMore(Series(Series(Drop(Text(",")), dwsp__), declaration)), Series(Drop(Text("]")), dwsp__))
     type_tuple = Series(Series(Drop(Text("[")), dwsp__), types, ZeroOrMore(Series(Series(Drop(Text(",")), dwsp__), types)), Series(Drop(Text("]")), dwsp__))
     indexed_type = Series(type_name, Series(Drop(Text("[")), dwsp__), Alternative(type_name, literal), Series(Drop(Text("]")), dwsp__))
@@ -193,17 +193,18 @@ class ts2pythonGrammar(Grammar):
     array_types = Synonym(array_type)
     array_of = Series(array_types, Series(Drop(Text("[]")), dwsp__))
     equals_type = Series(Series(Drop(Text("=")), dwsp__), Alternative(basic_type, type_name))
-    parameter_type = Series(Option(Series(Drop(Text("readonly")), dwsp__)), Alternative(array_of, basic_type, generic_type, indexed_type, Series(type_name, Option(extends_type), Option(equals_type)), declarations_block, type_tuple, declarations_tuple))
+    extends_type = Series(Series(Drop(Text("extends")), dwsp__), Option(keyof), Alternative(basic_type, type_name, mapped_type))
+    parameter_type = Series(Option(SmartRE(f'(?=readonly\\b)(?:readonly)(?P<comment__>{WSP_RE__})', '&/readonly\\b/ "readonly"')), Alternative(array_of, basic_type, generic_type, indexed_type, Series(type_name, Option(extends_type), Option(equals_type)), declarations_block, type_tuple, declarations_tuple))
     parameter_types = Series(Option(Series(Drop(Text("|")), dwsp__)), parameter_type, ZeroOrMore(Series(Series(Drop(Text("|")), dwsp__), parameter_type)))
     type_parameters = Series(Series(Drop(Text("<")), dwsp__), parameter_types, ZeroOrMore(Series(Series(Drop(Text(",")), dwsp__), parameter_types)), Series(Drop(Text(">")), dwsp__), mandatory=1)
     interface = Series(Option(Series(Drop(Text("export")), dwsp__)), Option(Series(Drop(Text("declare")), dwsp__)), SmartRE(f'(?:interface)(?P<comment__>{WSP_RE__})|(?:class)(?P<comment__>{WSP_RE__})', '"interface"|"class"'), identifier, Option(type_parameters), Option(extends), declarations_block, Option(Series(Drop(Text(";")), dwsp__)), mandatory=3)
-    type_alias = Series(Option(Series(Drop(Text("export")), dwsp__)), Series(Drop(Text("type")), dwsp__), identifier, Option(type_parameters), Series(Drop(Text("=")), dwsp__), types, Series(Drop(Text(";")), dwsp__), mandatory=2)
     wildcard = Series(Text("*"), dwsp__)
     intersection = Series(type, OneOrMore(Series(Series(Drop(Text("&")), dwsp__), type, mandatory=1)))
     alias = Synonym(identifier)
+    type_alias = Series(Option(Series(Drop(Text("export")), dwsp__)), Series(Drop(Text("type")), dwsp__), identifier, Option(type_parameters), Series(Drop(Text("=")), dwsp__), types, Series(Drop(Text(";")), dwsp__), mandatory=2)
     namespace = Series(Option(Series(Drop(Text("export")), dwsp__)), Series(Drop(Text("namespace")), dwsp__), identifier, Series(Drop(Text("{")), dwsp__), ZeroOrMore(Alternative(interface, type_alias, enum, const, Series(Option(Series(Drop(Text("export")), dwsp__)), declaration, Series(Drop(Text(";")), dwsp__)), Series(Option(Series(Drop(Text("export")), dwsp__)), function, Series(Drop(Text(";")), dwsp__)))), Series(Drop(Text("}")), dwsp__), mandatory=2)
     virtual_enum = Series(Option(Series(Drop(Text("export")), dwsp__)), Series(Drop(Text("namespace")), dwsp__), identifier, Series(Drop(Text("{")), dwsp__), ZeroOrMore(Alternative(interface, type_alias, enum, const, Series(declaration, Series(Drop(Text(";")), dwsp__)))), Series(Drop(Text("}")), dwsp__))
-    static = Series(Text("static"), dwsp__)
+    static = Series(Lookahead(_modifier), Series(Drop(Text("static")), dwsp__))
     _namespace = Alternative(virtual_enum, namespace)
     qualifiers = Interleave(readonly, static, repetitions=[(0, 1), (0, 1)])
     special = Series(Series(Drop(Text("[")), dwsp__), name, Series(Drop(Text("]")), dwsp__), Series(Drop(Text("(")), dwsp__), Option(arg_list), Series(Drop(Text(")")), dwsp__), Option(Series(Series(Drop(Text(":")), dwsp__), types)), mandatory=4)
@@ -215,11 +216,11 @@ class ts2pythonGrammar(Grammar):
     module = Series(Series(Drop(Text("declare")), dwsp__), Series(Drop(Text("module")), dwsp__), _quoted_identifier, Series(Drop(Text("{")), dwsp__), document, Series(Drop(Text("}")), dwsp__))
     literal.set(Alternative(integer, number, boolean, string, array, object))
     generic_type.set(Series(type_name, type_parameters))
-    type.set(Series(Option(Series(Drop(Text("readonly")), dwsp__)), Alternative(array_of, basic_type, generic_type, indexed_type, Series(type_name, NegativeLookahead(Text("("))), Series(Series(Drop(Text("(")), dwsp__), types, Series(Drop(Text(")")), dwsp__)), mapped_type, declarations_block, type_tuple, declarations_tuple, literal, func_type)))
+    type.set(Series(Option(SmartRE(f'(?=readonly\\b)(?:readonly)(?P<comment__>{WSP_RE__})', '&/readonly\\b/ "readonly"')), Alternative(array_of, basic_type, generic_type, indexed_type, Series(type_name, NegativeLookahead(Text("("))), Series(Series(Drop(Text("(")), dwsp__), types, Series(Drop(Text(")")), dwsp__)), mapped_type, declarations_block, type_tuple, declarations_tuple, literal, func_type)))
     types.set(Series(Option(Series(Drop(Text("|")), dwsp__)), Alternative(intersection, type), ZeroOrMore(Series(Series(Drop(Text("|")), dwsp__), Alternative(intersection, type)))))
     arg_list.set(Series(Alternative(Series(argument, ZeroOrMore(Series(Series(Drop(Text(",")), dwsp__), argument)), Option(Series(Series(Drop(Text(",")), dwsp__), arg_tail))), arg_tail), Option(Series(Drop(Text(",")), dwsp__))))
-    function.set(Alternative(Series(Option(Series(Option(Series(Drop(Text("export")), dwsp__)), Option(static), Option(Series(Drop(Text("function")), dwsp__)), identifier, Option(optional), Option(type_parameters))), Series(Drop(Text("(")), dwsp__), Option(arg_list), Series(Drop(Text(")")), dwsp__), Option(Series(Series(Drop(Text(":")), dwsp__), types)), mandatory=2), special))
-    declaration.set(Series(qualifiers, Option(SmartRE(f'(?:let)(?P<comment__>{WSP_RE__})|(?:var)(?P<comment__>{WSP_RE__})', '"let"|"var"')), identifier, Option(optional), NegativeLookahead(Text("(")), Option(Series(Series(Drop(Text(":")), dwsp__), types))))
+    function.set(Alternative(Series(Option(Series(Option(Series(Lookahead(_modifier), Series(Drop(Text("export")), dwsp__))), Option(static), Option(Series(Lookahead(_modifier), Series(Drop(Text("function")), dwsp__))), identifier, Option(optional), Option(type_parameters))), Series(Drop(Text("(")), dwsp__), Option(arg_list), Series(Drop(Text(")")), dwsp__), Option(Series(Series(Drop(Text(":")), dwsp__), types)), mandatory=2), special))
+    declaration.set(Series(qualifiers, Option(Series(Lookahead(_modifier), SmartRE(f'(?:let)(?P<comment__>{WSP_RE__})|(?:var)(?P<comment__>{WSP_RE__})', '"let"|"var"'))), identifier, Option(optional), NegativeLookahead(Text("(")), Option(Series(Series(Drop(Text(":")), dwsp__), types))))
     declarations_block.set(Series(Series(Drop(Text("{")), dwsp__), Option(Series(Alternative(function, declaration), ZeroOrMore(Series(Option(SmartRE(f'(?:;)(?P<comment__>{WSP_RE__})|(?:,)(?P<comment__>{WSP_RE__})', '";"|","')), Alternative(function, declaration))), Option(Series(Series(Drop(Text(";")), dwsp__), map_signature)), Option(SmartRE(f'(?:;)(?P<comment__>{WSP_RE__})|(?:,)(?P<comment__>{WSP_RE__})', '";"|","')))), Series(Drop(Text("}")), dwsp__)))
     document.set(Series(dwsp__, ZeroOrMore(Alternative(interface, type_alias, _namespace, enum, const, module, _top_level_assignment, _array_ellipsis, _top_level_literal, Series(Option(Series(Drop(Text("export")), dwsp__)), declaration, Series(Drop(Text(";")), dwsp__)), Series(Option(Series(Drop(Text("export")), dwsp__)), function, Series(Drop(Text(";")), dwsp__)), Series(Import, Series(Drop(Text(";")), dwsp__))))))
     root = Series(document, EOF)
-- 
2.43.0


From 34b4424a4652f97a2187d6816f4b6a7c75c8af81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:46 +0000
Subject: [PATCH 02/48] fix: distinguish class definitions from type names
 beginning with "class"

A type named, say, "classification" ended in an AssertionError (in unions) or
was rendered as the code of an anonymous class. Vice versa, the classes of
anonymous interfaces were not recognized if a class decorator is configured.
---
 ts2pythonParser.py | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/ts2pythonParser.py b/ts2pythonParser.py
index 1adfaf4..9a42621 100755
--- a/ts2pythonParser.py
+++ b/ts2pythonParser.py
@@ -405,6 +405,19 @@ def to_dict(declarations: str) -> str:
     return "".join(["{", ", ".join(entries), "}"])
 
 
+def is_class_definition(typ: str) -> bool:
+    r"""Returns True, if typ contains the (possibly decorated) definition of
+    a class for an anonymous interface rather than a type expression.
+    Example::
+
+        >>> is_class_definition("@dataclass\nclass A_0:\n    a: str")
+        True
+        >>> is_class_definition("classification")
+        False
+    """
+    return re.match(r'(?:@.*\n)*class ', typ) is not None
+
+
 NOT_YET_IMPLEMENTED_WARNING = ErrorCode(310)
 UNSUPPORTED_WARNING = ErrorCode(320)
 
@@ -763,7 +776,7 @@ class ts2pythonCompiler(Compiler):
         T = self.compile_type_expression(node, node['types']) \
             if 'types' in node else 'Any'
         typename = self.obj_name.pop()
-        if T[0:5] == 'class':
+        if is_class_definition(T):
             self.local_classes[-1].append(T)
             T = typename  # substitute typename for type
         if 'optional' in node:
@@ -915,7 +928,7 @@ class ts2pythonCompiler(Compiler):
             self.obj_name[-1] = obj_name_stub
         for i in range(len(union)):
             typ = union[i]
-            if typ[0:5] == 'class':
+            if is_class_definition(typ):
                 k = typ.rfind('\nclass')
                 m = re.match(r"class\s*(\w+)[\w(){},' =]*\s*:", typ[k + 1:])
                 assert m, typ
-- 
2.43.0


From c8cadcd139633bc1d2278a2f8ac65a7806e7a955 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:14 +0000
Subject: [PATCH 03/48] fix: quote forward references by whole names

Unknown type names were searched for anywhere in the type expression, i.e. also
in string literals, in the names of the fields of anonymous interfaces and in
parts of other, qualified names ("a.b|b"), which yielded broken Python code.
Names that are Python keywords were not quoted at all.
---
 ts2pythonParser.py | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/ts2pythonParser.py b/ts2pythonParser.py
index 9a42621..eb86f2d 100755
--- a/ts2pythonParser.py
+++ b/ts2pythonParser.py
@@ -1221,16 +1221,15 @@ class ts2pythonCompiler(Compiler):
         return TYPE_NAME_SUBSTITUTION.get(name, name)
 
     def compile_type_expression(self, node, type_node) -> str:
-        unknown_types = set(tn.content for tn in node.select('type_name')
+        unknown_types = set(self.compile(tn['name']) for tn in node.select('type_name')
                             if not self.is_known_type(tn.content))
         type_expression = self.compile(type_node)
-        for typ in unknown_types:
-            rx = re.compile(r"(?:(?<=[^\w'])|^)" + typ + r"(?:(?=[^\w'])|$)")
-            segments = type_expression.split("'")
-            for i in range(0, len(segments), 2):
-                segments[i] = rx.sub(f"'{typ}'", segments[i])
-            type_expression = "'".join(segments)
-            # type_expression = rx.sub(f"'{typ}'", type_expression)
+        if is_class_definition(type_expression):
+            return type_expression  # types have already been quoted where necessary
+        # quote whole names, only, and leave string-literals or quoted types alone
+        rx = re.compile(r'''"[^"\n]*"|'[^'\n]*'|[\w.]+''')
+        type_expression = rx.sub(lambda m: f"'{m.group(0)}'" if m.group(0) in unknown_types
+                                           else m.group(0), type_expression)
         if type_expression[0:1] == "'":
             type_expression = ''.join(["'", type_expression.replace("'", ""), "'"])
         return type_expression
-- 
2.43.0


From bd6118ebda45607c3204704b20f7fa188780a926 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:48 +0000
Subject: [PATCH 04/48] fix: do not take any "None" inside a union for its
 alternative None

Optional fields with a union type that contains a type name like "NoneSuch", a
literal like "None" or a nested union with null were rendered as required
fields.
---
 ts2pythonParser.py | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/ts2pythonParser.py b/ts2pythonParser.py
index eb86f2d..5521ff0 100755
--- a/ts2pythonParser.py
+++ b/ts2pythonParser.py
@@ -418,6 +418,22 @@ def is_class_definition(typ: str) -> bool:
     return re.match(r'(?:@.*\n)*class ', typ) is not None
 
 
+def includes_none(union: str) -> bool:
+    r"""Returns True, if None itself is an alternative of the given union.
+    Example::
+
+        >>> includes_none("Union['Foo', None]"), includes_none("'Foo | None'")
+        (True, True)
+        >>> includes_none("Union[List[Union[str, None]], 'NoneSuch']")
+        False
+    """
+    alternatives = union[6:-1] if union.startswith('Union[') else union.strip("'")
+    nested = re.compile(r'''"[^"\n]*"|'[^'\n]*'|\[[^\[\]"']*\]''')
+    while nested.search(alternatives):
+        alternatives = nested.sub('', alternatives)
+    return any(typ.strip() == 'None' for typ in re.split('[,|]', alternatives))
+
+
 NOT_YET_IMPLEMENTED_WARNING = ErrorCode(310)
 UNSUPPORTED_WARNING = ErrorCode(320)
 
@@ -785,10 +801,10 @@ class ts2pythonCompiler(Compiler):
                 T = f"NotRequired[{T}]"
             else:
                 if T.startswith('Union['):
-                    if T.find('None') < 0:
+                    if not includes_none(T):
                         T = T[:-1] + ', None]'
                 elif T.find('|') >= 0:
-                    if T.find('None') < 0:
+                    if not includes_none(T):
                         if T[0:1] not in ("'", '"'):
                             T += ' | None'
                         else:
-- 
2.43.0


From 8477113e021c11d3b0a3448618916dbbe37394bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:07 +0000
Subject: [PATCH 05/48] fix: recognize "X | None" as the type of a field that
 is not required

With type unions according to PEP 604 (compatibility level 3.10), which are
either UnionType-objects or, if they contain forward references, strings,
optional fields ended up among the required keys, as did "field?: null".
---
 ts2python/typeddict_shim.py | 26 ++++++++++++++++++++++----
 1 file changed, 22 insertions(+), 4 deletions(-)

diff --git a/ts2python/typeddict_shim.py b/ts2python/typeddict_shim.py
index 761512d..03bbf86 100644
--- a/ts2python/typeddict_shim.py
+++ b/ts2python/typeddict_shim.py
@@ -31,6 +31,7 @@ implied. See the License for the specific language governing
 permissions and limitations under the License.
 """
 
+import re
 import sys
 from typing import Generic, Optional, Union, Any, TypeVar
 
@@ -68,6 +69,11 @@ try:
     from typing import NotRequired
 except (ImportError, ModuleNotFoundError):
     NotRequired = Optional
+
+try:
+    from types import UnionType
+except (ImportError, ModuleNotFoundError):
+    UnionType = Union  # Python versions before 3.10
         
 
 __all__ = ['NotRequired', 'TypedDict', 'GenericTypedDict', '_TypedDictMeta',
@@ -132,6 +138,18 @@ def _caller(depth=1, default='__main__'):
         return None
 
 
+def _includes_none(type_expression: str) -> bool:
+    """Returns True if None is an alternative of a union in string-form, e.g.
+    "Foo | None" or "Union[None, Foo]"."""
+    union = type_expression.strip()
+    if union.startswith('Union[') and union.endswith(']'):
+        union = union[6:-1]
+    nested = re.compile(r'''"[^"]*"|'[^']*'|\[[^\[\]"']*\]''')
+    while nested.search(union):
+        union = nested.sub('', union)
+    return any(typ.strip() == 'None' for typ in re.split('[,|]', union))
+
+
 def _new_typed_dict(meta, name, bases, ns) -> dict:
     for base in bases:
         if base is not dict and type(base) is not meta \
@@ -164,13 +182,13 @@ def _new_typed_dict(meta, name, bases, ns) -> dict:
     for field, field_type in own_annotations.items():
         field_type_origin = get_origin(field_type)
         if (field_type_origin is NotRequired
-            or (field_type_origin is Union
+            or (field_type_origin in (Union, UnionType)
                 and type(None) in field_type.__args__)
+            or field_type is type(None)  # Optional[None] is the same as None
             or (isinstance(field_type, ForwardRef)
                 and (field_type.__forward_arg__.startswith('Optional[')
-                     or field_type.__forward_arg__.startswith('NotRequired')
-                     or (field_type.__forward_arg__.startswith('Union[')
-                         and field_type.__forward_arg__.endswith(', None]'))))):
+                     or field_type.__forward_arg__.startswith('NotRequired[')
+                     or _includes_none(field_type.__forward_arg__)))):
             optional_keys.add(field)
             total = False
         else:
-- 
2.43.0


From a4f9c37cbde570acdaa171ad40ec70ebc9622dea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:11 +0000
Subject: [PATCH 06/48] fix: quote references of a type alias to itself

"type Tree = Tree[] | string;" was rendered with the plain name of the alias
on the right hand side, so that the module could not be imported.
---
 ts2pythonParser.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/ts2pythonParser.py b/ts2pythonParser.py
index 5521ff0..7dda3ea 100755
--- a/ts2pythonParser.py
+++ b/ts2pythonParser.py
@@ -736,15 +736,15 @@ class ts2pythonCompiler(Compiler):
         self.obj_name.append(alias)
         if alias not in self.overloaded_type_names:
             _, preface = self.process_type_parameters(node)
+            self.local_classes.append([])
+            self.optional_keys.append([])
+            types = self.compile(node['types'])
             if self.known_types[-1].get(alias, '') \
                     in ('namespace', 'enum', 'virtual_enum'):
                 preface = ('# commented out, because there is already an '
                            'enumeration with the same name\n# ' + preface)
-            else:
+            else:  # not any earlier, because the alias may refer to itself
                 self.add_to_known_types(node, alias, 'type_alias')
-            self.local_classes.append([])
-            self.optional_keys.append([])
-            types = self.compile(node['types'])
             preface += self.render_local_classes()
             self.optional_keys.pop()
             self.local_classes.pop()
-- 
2.43.0


From 421139d7a5df4a451b0732b97371f9d8df222060 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:11 +0000
Subject: [PATCH 07/48] fix: import enum in the generated modules

Enumerations without explicit values are rendered with "enum.auto()".
---
 ts2pythonParser.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ts2pythonParser.py b/ts2pythonParser.py
index 7dda3ea..933f561 100755
--- a/ts2pythonParser.py
+++ b/ts2pythonParser.py
@@ -315,6 +315,7 @@ def source_hash(source_text: str) -> str:
 
 
 GENERAL_IMPORTS = """
+import enum
 import sys
 from enum import Enum, IntEnum
 if sys.version_info >= (3, 9, 0):
-- 
2.43.0


From 512049189436056f6e8219bcfd980aeac1a9bc05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:11 +0000
Subject: [PATCH 08/48] fix: map literals of floating point numbers to float,
 not to str

---
 ts2pythonParser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ts2pythonParser.py b/ts2pythonParser.py
index 933f561..dfa154c 100755
--- a/ts2pythonParser.py
+++ b/ts2pythonParser.py
@@ -1017,7 +1017,7 @@ class ts2pythonCompiler(Compiler):
                     _ = int(literal)
                     return 'int'
                 except ValueError:
-                    return 'str'
+                    return 'float'
             elif literal_typ == 'boolean':
                 return 'bool'
             else:
-- 
2.43.0


From f736c773fed40c60fe56baf5f3a30793fc94c2a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:46 +0000
Subject: [PATCH 09/48] fix: keep the quotes of string literals in unions with
 forward references

With type unions and literal types 'Foo | "bar"' was rendered as
'Foo | Literal[bar]', i.e. with a reference to a type named bar.
---
 ts2pythonParser.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/ts2pythonParser.py b/ts2pythonParser.py
index dfa154c..c1400fd 100755
--- a/ts2pythonParser.py
+++ b/ts2pythonParser.py
@@ -914,6 +914,10 @@ class ts2pythonCompiler(Compiler):
             return f'Optional[{typ}]' if node[-1].name == 'optional' else typ
 
     def render_union(self, preface, union) -> str:
+        if len(union) > 1 and any(typ[0:1] == "'" for typ in union) \
+                and any(typ.startswith('Literal[') for typ in union):
+            # string literals cannot be placed inside a quoted type union
+            return preface + f"Union[{', '.join(union)}]"
         if self.use_type_union or len(union) <= 1:
             if any(typ[0:1] in ('"', "'") for typ in union):
                 # union = [typ.strip("'").strip('"') for typ in union]
-- 
2.43.0


From d11177bbd6ede69e6d643a5f21ddb5a7159ef8b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:44 +0000
Subject: [PATCH 10/48] fix: render the anonymous interfaces of top-level
 functions and constants

The classes for anonymous interfaces in the signature of a top-level function
were dropped. A second constant with an anonymous interface or an optional
second constant led to an IndexError, because the stacks for local classes and
optional keys had been emptied by the first one.
---
 ts2pythonParser.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/ts2pythonParser.py b/ts2pythonParser.py
index c1400fd..b0e8612 100755
--- a/ts2pythonParser.py
+++ b/ts2pythonParser.py
@@ -814,8 +814,7 @@ class ts2pythonCompiler(Compiler):
                     T = f"Optional[{T}]"
         if self.is_toplevel() and bool(self.local_classes[-1]):
             preface = self.render_local_classes()
-            self.local_classes.pop()
-            self.optional_keys.pop()
+            self.local_classes[-1] = []
             return preface + f"{identifier}: {T}"
         return f"{identifier}: {T}"
 
@@ -842,6 +841,9 @@ class ts2pythonCompiler(Compiler):
             return_type = self.compile(node['types'])
         except KeyError:
             return_type = 'Any'
+        if self.is_toplevel() and self.local_classes[-1]:
+            preface += self.render_local_classes()
+            self.local_classes[-1] = []
         decorator = node.get_attr('decorator', '')
         fallback = ""
         type_error = "raise TypeError(f'First argument {arg1} of single-dispatch " \
-- 
2.43.0


From 6e90d98caaa9ab28f4fc9d0272cb30cb19a23b71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:19 +0000
Subject: [PATCH 11/48] fix: give different anonymous interfaces different
 class names

The second anonymous interface inside a tuple or inside the parameters of
overloaded methods replaced the first one, because its class had the same
name.
---
 ts2pythonParser.py | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/ts2pythonParser.py b/ts2pythonParser.py
index b0e8612..f046552 100755
--- a/ts2pythonParser.py
+++ b/ts2pythonParser.py
@@ -929,6 +929,25 @@ class ts2pythonCompiler(Compiler):
         else:
             return preface + f"Union[{', '.join(union)}]"
 
+    def disambiguate(self, cname: str, class_code: str) -> Tuple[str, str]:
+        """Renames the class of an anonymous interface, if there is already
+        a different local class with the same name. (The names are derived
+        from the names of fields or parameters. So, this happens if there is
+        more than one anonymous interface inside a tuple, for example.)"""
+        def clashes(name: str) -> bool:
+            header = re.compile(r'^class ' + name + r'\b', re.MULTILINE)
+            return any(header.search(lc) and lc != class_code for lc in self.local_classes[-1])
+
+        stem = cname[:cname.rfind('_') + 1]
+        new_name = cname
+        i = 0
+        while clashes(new_name):
+            i += 1
+            new_name = stem + str(i)
+        if new_name != cname:
+            class_code = re.sub(r'\b' + cname + r'(?=_\w+_\d|\b)', new_name, class_code)
+        return new_name, class_code
+
     def on_types(self, node) -> str:
         union = []
         i = 0
@@ -956,6 +975,7 @@ class ts2pythonCompiler(Compiler):
                 m = re.match(r"class\s*(\w+)[\w(){},' =]*\s*:", typ[k + 1:])
                 assert m, typ
                 cname = m.group(1)
+                cname, typ = self.disambiguate(cname, typ)
                 self.local_classes[-1].append(typ)
                 union[i] = cname
         if self.is_toplevel():
-- 
2.43.0


From c9b1d8a204d826afaedba30ed747dc7a93b4c76a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:19 +0000
Subject: [PATCH 12/48] fix: keep the name of the current scope when compiling
 return types

After the first top-level function, the compiler did not recognize the top
level any more. So, the classes of anonymous interfaces in constants and
functions got lost.
---
 ts2pythonParser.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ts2pythonParser.py b/ts2pythonParser.py
index f046552..7099da9 100755
--- a/ts2pythonParser.py
+++ b/ts2pythonParser.py
@@ -837,10 +837,12 @@ class ts2pythonCompiler(Compiler):
                 arguments = 'self, ' + arguments
         except KeyError:
             arguments = 'self' if self.scope_type[-1] == 'interface' else ''
+        save = self.obj_name[-1]
         try:
             return_type = self.compile(node['types'])
         except KeyError:
             return_type = 'Any'
+        self.obj_name[-1] = save  # might have been changed by on_types()
         if self.is_toplevel() and self.local_classes[-1]:
             preface += self.render_local_classes()
             self.local_classes[-1] = []
-- 
2.43.0


From 2e6f6b703e8e1e20c1c5e918e5a564fe420dc2b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:33 +0000
Subject: [PATCH 13/48] fix: let the options "--peps 604", "--peps 646" and
 "--comments" take effect

---
 ts2pythonParser.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/ts2pythonParser.py b/ts2pythonParser.py
index 7099da9..464ceb1 100755
--- a/ts2pythonParser.py
+++ b/ts2pythonParser.py
@@ -1558,7 +1558,8 @@ def main():
     from DHParser.configuration import read_local_config
     read_local_config(os.path.join(scriptpath, 'ts2python/ts2pythonParser.ini'))
 
-    if args.debug or args.compatibility or args.base or args.decorator or args.peps or args.anonymous:
+    if args.debug or args.compatibility or args.base or args.decorator or args.peps \
+            or args.anonymous or args.comments:
         access_presets()
         if args.debug is not None:
             log_dir = 'LOGS'
@@ -1598,8 +1599,8 @@ def main():
                 kwargs= {'value': pep[0] != '~', 'allow_new_key': True}
                 if pep == '435':  set_preset_value('ts2python.UseEnum', **kwargs)
                 if pep in ('586', '584'):  set_preset_value('ts2python.UseLiteralType', **kwargs)
-                if pep == '604':  set_preset_value('ts2python.TypeUnion', **kwargs)
-                if pep == '646': set_preset_value('tsPython.UseVariadicGenerics', **kwargs)
+                if pep == '604':  set_preset_value('ts2python.UseTypeUnion', **kwargs)
+                if pep == '646':  set_preset_value('ts2python.UseVariadicGenerics', **kwargs)
                 if pep == '655':  set_preset_value('ts2python.UseNotRequired', **kwargs)
         if args.comments: set_preset_value('ts2python.KeepMultilineComments', True)
         finalize_presets()
-- 
2.43.0


From 383e38d32c2fa9f13294fbf4cb0f113373a67867 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:44 +0000
Subject: [PATCH 14/48] fix: derive the name of the result file from the name
 of the source file

---
 ts2pythonParser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ts2pythonParser.py b/ts2pythonParser.py
index 464ceb1..b322911 100755
--- a/ts2pythonParser.py
+++ b/ts2pythonParser.py
@@ -1376,7 +1376,7 @@ def process_file(source: str, result_filename: str = '') -> str:
     source_filename = source if is_filename(source) else ''
     if not result_filename:
         if source_filename:
-            result_filename = source_filename[:result_filename.rfind('.')] + '.py'
+            result_filename = os.path.splitext(source_filename)[0] + '.py'
         else:
             result_filename = "out.py"
     if os.path.isfile(result_filename):
-- 
2.43.0


From 9dfb78e2ca2ac68aa7003a5642336a3c0acf029e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:07 +0000
Subject: [PATCH 15/48] fix: do not mistake a source text without line breaks
 for a file name

---
 ts2pythonParser.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/ts2pythonParser.py b/ts2pythonParser.py
index b322911..41fb30f 100755
--- a/ts2pythonParser.py
+++ b/ts2pythonParser.py
@@ -1382,11 +1382,12 @@ def process_file(source: str, result_filename: str = '') -> str:
     if os.path.isfile(result_filename):
         with open(result_filename, 'r', encoding='utf-8') as f:
             result = f.read()
+        source_text = source
         if source_filename == source:
             with open(source_filename, 'r', encoding='utf-8') as f:
-                source = f.read()
+                source_text = f.read()
         m = re.search(r'source_hash__ *= *"([\w.!? ]*)"', result)
-        if m and m.groups()[-1] == source_hash(source):
+        if m and m.groups()[-1] == source_hash(source_text):
             return ''  # no re-compilation necessary, because source hasn't changed
     result, errors = compile_src(source)
     if not has_errors(errors, FATAL):
-- 
2.43.0


From 78332b5bd85e2f0451352a2759976cdcac774fb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:33 +0000
Subject: [PATCH 16/48] fix: recompile if the result file has not been written
 completely

---
 ts2pythonParser.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/ts2pythonParser.py b/ts2pythonParser.py
index 41fb30f..fe29f21 100755
--- a/ts2pythonParser.py
+++ b/ts2pythonParser.py
@@ -361,6 +361,8 @@ except ImportError:
     GenericTypedDict.__module__ = __name__
 """
 
+RESULT_END = '##### END OF ts2python generated code\n'
+
 FUNCTOOLS_IMPORTS = """
 try:
     from ts2python.singledispatch_shim import singledispatch, singledispatchmethod
@@ -560,7 +562,7 @@ class ts2pythonCompiler(Compiler):
             code_blocks = []
         code_blocks.append(python_code)
         if self.tree.name == 'root':
-            code_blocks.append('\n##### END OF ts2python generated code\n')
+            code_blocks.append('\n' + RESULT_END)
         cooked = '\n\n'.join(code_blocks)
         cooked = re.sub(' +(?=\n)', '', cooked)
         return re.sub(r'\n\n\n+', '\n\n\n', cooked)
@@ -1380,14 +1382,14 @@ def process_file(source: str, result_filename: str = '') -> str:
         else:
             result_filename = "out.py"
     if os.path.isfile(result_filename):
-        with open(result_filename, 'r', encoding='utf-8') as f:
+        with open(result_filename, 'r', encoding='utf-8', errors='replace') as f:
             result = f.read()
         source_text = source
         if source_filename == source:
             with open(source_filename, 'r', encoding='utf-8') as f:
                 source_text = f.read()
         m = re.search(r'source_hash__ *= *"([\w.!? ]*)"', result)
-        if m and m.groups()[-1] == source_hash(source_text):
+        if m and m.groups()[-1] == source_hash(source_text) and result.endswith(RESULT_END):
             return ''  # no re-compilation necessary, because source hasn't changed
     result, errors = compile_src(source)
     if not has_errors(errors, FATAL):
-- 
2.43.0


From 3b351276b0387479cb98bc2be3d0e621a132a981 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:04 +0000
Subject: [PATCH 17/48] fix: do not report an unchanged source with errors as
 errorless

---
 ts2pythonParser.py | 33 ++++++++++++++++++++-------------
 1 file changed, 20 insertions(+), 13 deletions(-)

diff --git a/ts2pythonParser.py b/ts2pythonParser.py
index fe29f21..ed71eff 100755
--- a/ts2pythonParser.py
+++ b/ts2pythonParser.py
@@ -1381,6 +1381,8 @@ def process_file(source: str, result_filename: str = '') -> str:
             result_filename = os.path.splitext(source_filename)[0] + '.py'
         else:
             result_filename = "out.py"
+    message_files = [os.path.splitext(result_filename)[0] + ext
+                     for ext in ('_ERRORS.txt', '_WARNINGS.txt')]
     if os.path.isfile(result_filename):
         with open(result_filename, 'r', encoding='utf-8', errors='replace') as f:
             result = f.read()
@@ -1389,23 +1391,28 @@ def process_file(source: str, result_filename: str = '') -> str:
             with open(source_filename, 'r', encoding='utf-8') as f:
                 source_text = f.read()
         m = re.search(r'source_hash__ *= *"([\w.!? ]*)"', result)
-        if m and m.groups()[-1] == source_hash(source_text) and result.endswith(RESULT_END):
+        if m and m.groups()[-1] == source_hash(source_text) and result.endswith(RESULT_END) \
+                and not any(os.path.isfile(name) for name in message_files):
             return ''  # no re-compilation necessary, because source hasn't changed
     result, errors = compile_src(source)
-    if not has_errors(errors, FATAL):
-        if os.path.abspath(source_filename) != os.path.abspath(result_filename):
-            with open(result_filename, 'w', encoding='utf-8') as f:
-                f.write(serialize_result(result))
-        else:
-            errors.append(Error('Source and destination have the same name "%s"!'
-                                % result_filename, 0, FATAL))
+    same_name = os.path.abspath(source_filename) == os.path.abspath(result_filename)
+    if same_name and not has_errors(errors, FATAL):
+        errors.append(Error('Source and destination have the same name "%s"!'
+                            % result_filename, 0, FATAL))
+    # messages are written before the result and outdated messages are removed
+    # after that, so that a result without messages is always an errorless result
+    err_filename = ''
     if errors:
-        err_ext = '_ERRORS.txt' if has_errors(errors, ERROR) else '_WARNINGS.txt'
-        err_filename = os.path.splitext(result_filename)[0] + err_ext
-        with open(err_filename, 'w') as f:
+        err_filename = message_files[0 if has_errors(errors, ERROR) else 1]
+        with open(err_filename, 'w', encoding='utf-8') as f:
             f.write('\n'.join(canonical_error_strings(errors)))
-        return err_filename
-    return ''
+    if not has_errors(errors, FATAL):
+        with open(result_filename, 'w', encoding='utf-8') as f:
+            f.write(serialize_result(result))
+    for name in message_files:
+        if name != err_filename and os.path.isfile(name):
+            os.remove(name)  # outdated messages of an earlier compilation
+    return err_filename
 
 
 def batch_process(file_names: List[str], out_dir: str,
-- 
2.43.0


From ed3012f779765b8bc51c67ace0331e8e40065390 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:19 +0000
Subject: [PATCH 18/48] fix: validate the items of lists, dictionaries and
 tuples in TypedDicts

---
 ts2python/json_validation.py | 17 +++++------------
 1 file changed, 5 insertions(+), 12 deletions(-)

diff --git a/ts2python/json_validation.py b/ts2python/json_validation.py
index fe142a2..3ddc137 100644
--- a/ts2python/json_validation.py
+++ b/ts2python/json_validation.py
@@ -57,12 +57,6 @@ def strdata(data: Any) -> str:
 
 def resolve_forward_refs(T: type, Ur_T: type = None,) -> type:
     """Resolves all forward references found in T."""
-    if isinstance(T, _GenericAlias):
-        O = get_origin(T)
-        if inspect.isclass(O):
-            return O
-        else:
-            T = O[get_args(T)]
     if isinstance(T, ForwardRef):
         if Ur_T is None:  Ur_T = T
         if sys.version_info >= (3, 9, 0):
@@ -74,8 +68,10 @@ def resolve_forward_refs(T: type, Ur_T: type = None,) -> type:
         return T
     elif str(T).find('ForwardRef') >= 0:
         if Ur_T is None:  Ur_T = T
-        T.__args__ = tuple(resolve_forward_refs(arg, Ur_T)
-                           for arg in get_args(T))
+        if isinstance(T, _GenericAlias):
+            # never change T itself, because it may be shared
+            T = T.copy_with(tuple(resolve_forward_refs(arg, Ur_T)
+                                  for arg in get_args(T)))
     return T
 
 
@@ -247,10 +243,7 @@ def validate_TypedDict(D: Dict, T: _TypedDictMeta):
     for field, field_type in get_type_hints(T).items():
         if field not in D:
             continue
-        resolved_field_type = resolve_forward_refs(field_type, T)
-        if resolved_field_type != field_type:
-            field_type = resolved_field_type
-            T.__annotations__[field] = field_type
+        field_type = resolve_forward_refs(field_type, T)
         if is_TypedDictClass(field_type):
             value = D[field]
             if isinstance(value, Dict):
-- 
2.43.0


From edcbafcac8b17577e85e8ea4efa10e4ff04f2866 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:26 +0000
Subject: [PATCH 19/48] fix: do not raise an "unhashable type"-error when
 validating enums

---
 ts2python/json_validation.py | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/ts2python/json_validation.py b/ts2python/json_validation.py
index 3ddc137..df4c561 100644
--- a/ts2python/json_validation.py
+++ b/ts2python/json_validation.py
@@ -76,11 +76,7 @@ def resolve_forward_refs(T: type, Ur_T: type = None,) -> type:
 
 
 def validate_enum(val: Any, typ: Enum):
-    # if not any(member.value == val for member in typ.__members__.values()):
-    #     raise ValueError(f"{val} is not contained in enum {typ}")
-    if not hasattr(typ, '__value_set__'):
-        typ.__value_set__ = {member.value for member in typ.__members__.values()}
-    if val not in typ.__value_set__:
+    if not any(member.value == val for member in typ.__members__.values()):
         raise ValueError(f"{val} is not contained in enum {typ}")
 
 
-- 
2.43.0


From 075083e6302126fbc071ef799e2cbbbf2476ae80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:26 +0000
Subject: [PATCH 20/48] fix: validate unions wherever they occur and
 enum-values inside of them

---
 ts2python/json_validation.py | 97 +++++++++++++++++-------------------
 1 file changed, 46 insertions(+), 51 deletions(-)

diff --git a/ts2python/json_validation.py b/ts2python/json_validation.py
index df4c561..e065236 100644
--- a/ts2python/json_validation.py
+++ b/ts2python/json_validation.py
@@ -43,6 +43,11 @@ except (ImportError, ModuleNotFoundError):
         from .typeddict_shim import TypedDict, _TypedDictMeta, get_origin, \
             get_args, ForwardRef, _GenericAlias, is_typeddict, NotRequired
 
+try:
+    from types import UnionType
+except (ImportError, ModuleNotFoundError):
+    UnionType = Union  # Python versions before 3.10
+
 if sys.version_info >= (3, 11):
     from typing import _GenericAlias, TypedDict, _TypedDictMeta, get_origin, get_args, ForwardRef
 
@@ -88,7 +93,12 @@ def is_TypedDictClass(typ) -> bool:
     # except AttributeError:
     #     return False
 
-def validate_type(val: Any, typ):
+def is_union(typ) -> bool:
+    """True, if typ is a union, e.g. Union[int, str] or int | str."""
+    return get_origin(typ) in (Union, UnionType)
+
+
+def validate_type(val: Any, typ, Ur_T: type = None):
     """Raises a TypeError if value `val` is not of type `typ`.
     In particualr, `validate_type()` can be used to validate
     dictionaries against TypedDict-types and, more general,
@@ -115,7 +125,7 @@ def validate_type(val: Any, typ):
             raise TypeError(f"{val} is not even a dictionary")
         validate_TypedDict(val, typ)
     elif hasattr(typ, '__args__'):
-        validate_compound_type(val, typ)
+        validate_compound_type(val, typ, Ur_T)
     else:
         if not isinstance(val, typ):
             if issubclass(typ, Enum):  #  and isinstance(val, (int, str)):
@@ -124,7 +134,7 @@ def validate_type(val: Any, typ):
                 raise TypeError(f"{val} is not of type {typ}")
 
 
-def validate_uniform_sequence(sequence: Iterable, item_type):
+def validate_uniform_sequence(sequence: Iterable, item_type, Ur_T: type = None):
     """Ensures that every item in a given sequence is of the same particular
     type. Example::
 
@@ -140,23 +150,25 @@ def validate_uniform_sequence(sequence: Iterable, item_type):
 
     """
     # assert not isinstance(item_type, str), f'Unresolved type name or forward reference for {item_type}!'
-    if is_TypedDictClass(item_type):
-        for val in sequence:
-            if not isinstance(val, Dict):
-                raise TypeError(f"{val} is not of type {item_type}")
-            validate_TypedDict(val, item_type)
-    elif hasattr(item_type, '__args__'):
-        for val in sequence:
-            validate_compound_type(val, item_type)
-    else:
-        for val in sequence:
-            if not isinstance(val, item_type):
-                raise TypeError(f"{val} is not of type {item_type}")
+    for val in sequence:
+        validate_type(val, item_type, Ur_T)
 
 
-def validate_compound_type(value: Any, T):
-    """Validates a value against a compound type like
-    List[str], Tuple[int, ...], Dict[str, int]. Generally, compound types
+def validate_union(value: Any, T, Ur_T: type = None):
+    """Validates a value against a union-type like Union[int, str]. Raises
+    a TypeError if the value is of none of the alternatives of the union."""
+    for typ in get_args(T):
+        try:
+            validate_type(value, resolve_forward_refs(typ, Ur_T), Ur_T)
+            return
+        except (TypeError, ValueError):
+            pass
+    raise TypeError(f"{value} is not of type {T}")
+
+
+def validate_compound_type(value: Any, T, Ur_T: type = None):
+    """Validates a value against a compound type like List[str], Union[int, str],
+    Tuple[int, ...], Dict[str, int]. Generally, compound types
     are types with arguments. Returns None, if the validation was
     successful, raises a TypeError if not. Example::
 
@@ -169,6 +181,8 @@ def validate_compound_type(value: Any, T):
 
     :param value: the value which shall by validated against the given type
     :param T: the type which the value is supposed to represent.
+    :param Ur_T: the type in the module of which forward references inside T
+        will be looked up.
     :return: None
     :raise: TypeError if value is not of compound type T.
             ValueError if T is not a compound type.
@@ -179,24 +193,28 @@ def validate_compound_type(value: Any, T):
     if OT is Literal:
         if value not in get_args(T):
             raise TypeError(f"{value} is not of type {T}")
+    elif is_union(T):
+        validate_union(value, T, Ur_T)
+    elif is_TypedDictClass(OT):
+        validate_type(value, OT, Ur_T)
     elif isinstance(value, OT):
         if isinstance(value, Dict):
             assert len(T.__args__) == 2, str(T)
             key_type, value_type = T.__args__
-            validate_uniform_sequence(value.keys(), key_type)
-            validate_uniform_sequence(value.values(), value_type)
+            validate_uniform_sequence(value.keys(), key_type, Ur_T)
+            validate_uniform_sequence(value.values(), value_type, Ur_T)
         elif isinstance(value, Tuple):
             if len(T.__args__) == 2 and T.__args__[-1] is Ellipsis:
-                validate_uniform_sequence(value, T.__args__[0])
+                validate_uniform_sequence(value, T.__args__[0], Ur_T)
             else:
                 if len(T.__args__) != len(value):
                     raise TypeError(f"{value} is not of type {T}")
                 for item, typ in zip(value, T.__args__):
-                    validate_type(item, typ)
+                    validate_type(item, typ, Ur_T)
         else:  # assume that value is of type List
             if len(T.__args__) != 1:
                 raise ValueError(f"Unknown compound type {T}")
-            validate_uniform_sequence(value, T.__args__[0])
+            validate_uniform_sequence(value, T.__args__[0], Ur_T)
     else:
         raise TypeError(f"{value} is not of type {T}")
 
@@ -247,37 +265,14 @@ def validate_TypedDict(D: Dict, T: _TypedDictMeta):
             else:
                 type_errors.append(f"Field {field}: '{strdata(D[field])}' is not of {field_type}, "
                                    f"but of type {type(D[field])}")
-        elif get_origin(field_type) is Union:
-            value = D[field]
-            for union_typ in field_type.__args__:
-                union_typ = resolve_forward_refs(union_typ, T)
-                if isinstance(union_typ, ForwardRef):
-                    if sys.version_info >= (3, 9):
-                        union_typ = union_typ._evaluate(globals(), sys.modules[T.__module__].__dict__,
-                                                        recursive_guard=set())
-                    else:
-                        union_typ = union_typ._evaluate(globals(), sys.modules[T.__module__].__dict__)
-                if is_TypedDictClass(union_typ):
-                    if isinstance(value, Dict):
-                        try:
-                            validate_TypedDict(value, union_typ)
-                            break
-                        except TypeError:
-                            pass
-                elif hasattr(union_typ, '__args__'):
-                    try:
-                        validate_compound_type(value, union_typ)
-                        break
-                    except TypeError:
-                        pass
-                elif isinstance(value, union_typ):
-                    break
-            else:
-                # TODO: bugfix?
+        elif is_union(field_type):
+            try:
+                validate_union(D[field], field_type, T)
+            except TypeError:
                 type_errors.append(f"Field {field}: '{strdata(D[field])}' is not any of "
                                    f"{field_type}, but of type {type(D[field])}")
         elif hasattr(field_type, '__args__'):
-            validate_compound_type(D[field], field_type)
+            validate_compound_type(D[field], field_type, T)
         elif isinstance(field_type, TypeVar):
             pass  # for now
         elif not isinstance(D[field], field_type):
-- 
2.43.0


From 429e00823ab3e7fca472ddc0680646b1f827b307 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:31 +0000
Subject: [PATCH 21/48] fix: accept any value for the type Any

---
 ts2python/json_validation.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/ts2python/json_validation.py b/ts2python/json_validation.py
index e065236..fc51ed2 100644
--- a/ts2python/json_validation.py
+++ b/ts2python/json_validation.py
@@ -126,6 +126,8 @@ def validate_type(val: Any, typ, Ur_T: type = None):
         validate_TypedDict(val, typ)
     elif hasattr(typ, '__args__'):
         validate_compound_type(val, typ, Ur_T)
+    elif typ is Any or isinstance(typ, TypeVar):
+        pass  # for now, type variables are not checked
     else:
         if not isinstance(val, typ):
             if issubclass(typ, Enum):  #  and isinstance(val, (int, str)):
@@ -273,8 +275,8 @@ def validate_TypedDict(D: Dict, T: _TypedDictMeta):
                                    f"{field_type}, but of type {type(D[field])}")
         elif hasattr(field_type, '__args__'):
             validate_compound_type(D[field], field_type, T)
-        elif isinstance(field_type, TypeVar):
-            pass  # for now
+        elif field_type is Any or isinstance(field_type, TypeVar):
+            pass  # for now, type variables are not checked
         elif not isinstance(D[field], field_type):
             if issubclass(field_type, Enum):
                 validate_enum(D[field], field_type)
-- 
2.43.0


From 60fb9fedf506ec06f25a008e17451e092fbd0c06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:31 +0000
Subject: [PATCH 22/48] fix: accept integers as values of type float

---
 ts2python/json_validation.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/ts2python/json_validation.py b/ts2python/json_validation.py
index fc51ed2..28aebe0 100644
--- a/ts2python/json_validation.py
+++ b/ts2python/json_validation.py
@@ -93,6 +93,13 @@ def is_TypedDictClass(typ) -> bool:
     # except AttributeError:
     #     return False
 
+def is_instance(val: Any, typ) -> bool:
+    """Like isinstance(), but integers, too, are considered to be of type
+    float, just like in PEP 484. (JSON knows only one type of numbers.)"""
+    return isinstance(val, typ) \
+        or (typ is float and isinstance(val, int) and not isinstance(val, bool))
+
+
 def is_union(typ) -> bool:
     """True, if typ is a union, e.g. Union[int, str] or int | str."""
     return get_origin(typ) in (Union, UnionType)
@@ -129,7 +136,7 @@ def validate_type(val: Any, typ, Ur_T: type = None):
     elif typ is Any or isinstance(typ, TypeVar):
         pass  # for now, type variables are not checked
     else:
-        if not isinstance(val, typ):
+        if not is_instance(val, typ):
             if issubclass(typ, Enum):  #  and isinstance(val, (int, str)):
                 validate_enum(val, typ)
             else:
@@ -277,7 +284,7 @@ def validate_TypedDict(D: Dict, T: _TypedDictMeta):
             validate_compound_type(D[field], field_type, T)
         elif field_type is Any or isinstance(field_type, TypeVar):
             pass  # for now, type variables are not checked
-        elif not isinstance(D[field], field_type):
+        elif not is_instance(D[field], field_type):
             if issubclass(field_type, Enum):
                 validate_enum(D[field], field_type)
             else:
-- 
2.43.0


From 6a5dabc6e492a12d24985d02c804d0f231c05b61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:31 +0000
Subject: [PATCH 23/48] fix: accept JSON-lists as values of tuple-types

---
 ts2python/json_validation.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ts2python/json_validation.py b/ts2python/json_validation.py
index 28aebe0..beaeaf7 100644
--- a/ts2python/json_validation.py
+++ b/ts2python/json_validation.py
@@ -206,13 +206,13 @@ def validate_compound_type(value: Any, T, Ur_T: type = None):
         validate_union(value, T, Ur_T)
     elif is_TypedDictClass(OT):
         validate_type(value, OT, Ur_T)
-    elif isinstance(value, OT):
+    elif isinstance(value, OT) or (OT is tuple and isinstance(value, List)):
         if isinstance(value, Dict):
             assert len(T.__args__) == 2, str(T)
             key_type, value_type = T.__args__
             validate_uniform_sequence(value.keys(), key_type, Ur_T)
             validate_uniform_sequence(value.values(), value_type, Ur_T)
-        elif isinstance(value, Tuple):
+        elif OT is tuple:  # JSON renders tuples as lists
             if len(T.__args__) == 2 and T.__args__[-1] is Ellipsis:
                 validate_uniform_sequence(value, T.__args__[0], Ur_T)
             else:
-- 
2.43.0


From 268eaaa742d31164834ad0cea7f90f5343a3b630 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:13 +0000
Subject: [PATCH 24/48] fix: resolve the forward references of directly
 recursive type aliases

---
 ts2python/json_validation.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ts2python/json_validation.py b/ts2python/json_validation.py
index beaeaf7..263763f 100644
--- a/ts2python/json_validation.py
+++ b/ts2python/json_validation.py
@@ -127,6 +127,8 @@ def validate_type(val: Any, typ, Ur_T: type = None):
     Type error(s) in dictionary of type <class 'json_validation.Position'>:
     Field character: 'A' is not a <class 'int'>, but a <class 'str'>
     """
+    if Ur_T is not None:
+        typ = resolve_forward_refs(typ, Ur_T)
     if is_TypedDictClass(typ):
         if not isinstance(val, Dict):
             raise TypeError(f"{val} is not even a dictionary")
@@ -168,7 +170,7 @@ def validate_union(value: Any, T, Ur_T: type = None):
     a TypeError if the value is of none of the alternatives of the union."""
     for typ in get_args(T):
         try:
-            validate_type(value, resolve_forward_refs(typ, Ur_T), Ur_T)
+            validate_type(value, typ, Ur_T)
             return
         except (TypeError, ValueError):
             pass
-- 
2.43.0


From c6c1e2366bfa98ca42a51a601b2afc52dd8d5156 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:13 +0000
Subject: [PATCH 25/48] fix: type-check functions with default values and
 variable parameters

---
 ts2python/json_validation.py | 24 +++++++++++++++++-------
 1 file changed, 17 insertions(+), 7 deletions(-)

diff --git a/ts2python/json_validation.py b/ts2python/json_validation.py
index 263763f..2a69ac1 100644
--- a/ts2python/json_validation.py
+++ b/ts2python/json_validation.py
@@ -338,7 +338,7 @@ def type_check(func: Callable, check_return_type: bool = True) -> Callable:
         at least one of the parameter's or the return value does not
         match the annotated types.
     """
-    arg_names = func.__code__.co_varnames[:func.__code__.co_argcount]
+    signature = inspect.signature(func)
     arg_types = get_type_hints(func)
     return_type = arg_types.get('return', None)
     if return_type is not None:  del arg_types['return']
@@ -347,18 +347,28 @@ def type_check(func: Callable, check_return_type: bool = True) -> Callable:
 
     @functools.wraps(func)
     def guard(*args, **kwargs):
-        nonlocal arg_names, arg_types, return_type
-        arg_dict = {**dict(zip(arg_names, args)), **kwargs}
+        nonlocal signature, arg_types, return_type
+        try:
+            arg_dict = signature.bind(*args, **kwargs).arguments
+        except TypeError as e:
+            raise TypeError(f'Wrong parameters in call of "{func.__name__}": {str(e)}')
         for name, typ in arg_types.items():
+            if name not in arg_dict:
+                continue  # parameter has been omitted, because it has a default value
+            kind = signature.parameters[name].kind
+            if kind == inspect.Parameter.VAR_POSITIONAL:
+                values = arg_dict[name]
+            elif kind == inspect.Parameter.VAR_KEYWORD:
+                values = arg_dict[name].values()
+            else:
+                values = (arg_dict[name],)
             try:
-                validate_type(arg_dict[name], typ)
+                for value in values:
+                    validate_type(value, typ)
             except TypeError as e:
                 raise TypeError(
                     f'Parameter "{name}" of function "{func.__name__}" failed '
                     f'the type-check, because:\n{str(e)}')
-            except KeyError as e:
-                raise TypeError(f'Missing parameter {str(e)} in call of '
-                                f'"{func.__name__}"')
         ret = func(*args, **kwargs)
         if check_return_type and return_type:
             try:
-- 
2.43.0


From 9a817063c51a80c8798b0d583d64383d2579630f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:43 +0000
Subject: [PATCH 26/48] fix: let the redeclaration of a field decide whether it
 is required

---
 ts2python/typeddict_shim.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ts2python/typeddict_shim.py b/ts2python/typeddict_shim.py
index 03bbf86..4070ef1 100644
--- a/ts2python/typeddict_shim.py
+++ b/ts2python/typeddict_shim.py
@@ -190,9 +190,11 @@ def _new_typed_dict(meta, name, bases, ns) -> dict:
                      or field_type.__forward_arg__.startswith('NotRequired[')
                      or _includes_none(field_type.__forward_arg__)))):
             optional_keys.add(field)
+            required_keys.discard(field)  # a base class may declare it, too
             total = False
         else:
             required_keys.add(field)
+            optional_keys.discard(field)
 
     tp_dict.__annotations__ = annotations
     tp_dict.__required_keys__ = frozenset(required_keys)
-- 
2.43.0


From b0098ec6d5f84ce0ae98d523fc5f7ce1a91f6040 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:54 +0000
Subject: [PATCH 27/48] fix: do not ignore functions registered with a union of
 classes

---
 ts2python/singledispatch_shim.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ts2python/singledispatch_shim.py b/ts2python/singledispatch_shim.py
index 877c1a0..2395482 100644
--- a/ts2python/singledispatch_shim.py
+++ b/ts2python/singledispatch_shim.py
@@ -155,7 +155,7 @@ def singledispatch(func):
             # only import typing if annotation parsing is necessary
             try:
                 argname, cls = next(iter(get_type_hints(func).items()))
-                if not isinstance(cls, type) and str(type(cls))[1:6] == "class":
+                if not _is_valid_dispatch_type(cls):
                     raise NameError
             except NameError:
                 if cls != func:
-- 
2.43.0


From f9e6989e59817c31ed658fee63a311324e56528f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:54 +0000
Subject: [PATCH 28/48] fix: do not dispatch from an outdated cache after a
 postponed registration

---
 ts2python/singledispatch_shim.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ts2python/singledispatch_shim.py b/ts2python/singledispatch_shim.py
index 2395482..d978e35 100644
--- a/ts2python/singledispatch_shim.py
+++ b/ts2python/singledispatch_shim.py
@@ -165,6 +165,7 @@ def singledispatch(func):
                         pass  # TODO: Is this risky?
                         # raise(e)
                 registry.setdefault('postponed', []).append(cls)
+                dispatch_cache.clear()
                 return func
             except StopIteration:
                 func = method
-- 
2.43.0


From 7bce386f818c284cb6fb8c5a750683d3d90cb5a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:54 +0000
Subject: [PATCH 29/48] fix: keep postponed registrations if one of them fails

---
 ts2python/singledispatch_shim.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/ts2python/singledispatch_shim.py b/ts2python/singledispatch_shim.py
index d978e35..65fa96b 100644
--- a/ts2python/singledispatch_shim.py
+++ b/ts2python/singledispatch_shim.py
@@ -85,8 +85,13 @@ def singledispatch(func):
                 if 'postponed' in registry:
                     postponed = registry['postponed']
                     del registry['postponed']
-                    for postponed_cls in postponed:
-                        register(postponed_cls)
+                    while postponed:
+                        try:
+                            register(postponed[0])
+                        except Exception:
+                            registry.setdefault('postponed', []).extend(postponed)
+                            raise
+                        del postponed[0]
                     if 'postponed' in registry:
                         for f in registry['postponed']:
                             get_type_hints(f)   # provoke NameError
-- 
2.43.0


From 0c8a6ce1f34116ab1577384a87bf56756f7220b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:54:07 +0000
Subject: [PATCH 30/48] fix: generated modules with NotRequired define
 GenericTypedDict

---
 ts2pythonParser.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ts2pythonParser.py b/ts2pythonParser.py
index ed71eff..a39d7a0 100755
--- a/ts2pythonParser.py
+++ b/ts2pythonParser.py
@@ -328,6 +328,7 @@ else:
 
 TYPEDDICT_IMPORTS = """
 from typing import TypedDict, NotRequired, Literal, Iterable, Iterator
+GenericTypedDict = TypedDict  # since Python 3.11 TypedDicts can be generic
 """
 
 TYPEDDICT_IMPORTS_LEGACY = """
-- 
2.43.0


From b1123571d509fd0c9b39b181673a0007bba3fc6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:54:24 +0000
Subject: [PATCH 31/48] fix: negated PEPs on the command line take effect

---
 ts2pythonParser.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ts2pythonParser.py b/ts2pythonParser.py
index a39d7a0..50050d2 100755
--- a/ts2pythonParser.py
+++ b/ts2pythonParser.py
@@ -1608,6 +1608,7 @@ def main():
                 sys.exit(1)
             for pep in args_peps:
                 kwargs= {'value': pep[0] != '~', 'allow_new_key': True}
+                pep = pep.lstrip('~')
                 if pep == '435':  set_preset_value('ts2python.UseEnum', **kwargs)
                 if pep in ('586', '584'):  set_preset_value('ts2python.UseLiteralType', **kwargs)
                 if pep == '604':  set_preset_value('ts2python.UseTypeUnion', **kwargs)
-- 
2.43.0


From ba42da72d8d04ee50a11354874ba49ec7b801789 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:25:50 +0000
Subject: [PATCH 32/48] fix: namespaces with other contents than constants are
 not rendered as broken enums

---
 ts2pythonParser.py | 26 +++++++++++---------------
 1 file changed, 11 insertions(+), 15 deletions(-)

diff --git a/ts2pythonParser.py b/ts2pythonParser.py
index 50050d2..fab806f 100755
--- a/ts2pythonParser.py
+++ b/ts2pythonParser.py
@@ -1098,6 +1098,8 @@ class ts2pythonCompiler(Compiler):
         return "Any"
 
     def on_virtual_enum(self, node) -> str:
+        if any(child.name not in ('const', 'comment__') for child in node.children[1:]):
+            return self.on_namespace(node)  # more than just constant definitions
         name = self.compile(node['identifier'])
         if self.known_types[-1].get(name, '') == 'type_alias':
             # silently overwrite type_alias
@@ -1105,22 +1107,17 @@ class ts2pythonCompiler(Compiler):
         else:
             self.add_to_known_types(node, name, 'virtual_enum')
         save = self.strip_type_from_const
-        if all(child.name == 'const' for child in node.children[1:]):
-            if all(nd['literal'][0].name == 'integer'
-                   for nd in node.select_children('const') if 'literal' in nd):
-                header = f'class {name}(IntEnum):'
-            else:
-                header =  f'class {name}(Enum):'
-            self.strip_type_from_const = True
+        if all(nd['literal'][0].name == 'integer'
+               for nd in node.select_children('const') if 'literal' in nd):
+            header = f'class {name}(IntEnum):'
         else:
-            header = ''
-        namespace = []
+            header =  f'class {name}(Enum):'
+        self.strip_type_from_const = True
+        namespace = [header]
         for child in node.children[1:]:
-            namespace.append(self.compile(child))
-        if not header:
-            header = self.render_class_header(name, '')[:-1]  # leave out the trailing "\n"
-            # self.optional_keys.pop()?
-        namespace.insert(0, header)
+            namespace.extend(self.compile(child).split('\n'))
+        if not any(child.name == 'const' for child in node.children[1:]):
+            namespace.append('pass')  # an empty namespace
         self.strip_type_from_const = save
         return '\n    '.join(namespace)
 
@@ -1150,7 +1147,6 @@ class ts2pythonCompiler(Compiler):
         if local_classes:
             declarations.insert(1, local_classes)
         self.known_types.pop()
-        self.add_to_known_types(node, name, 'namespace')
         self.local_classes.pop()
         self.optional_keys.pop()
         self.scope_type.pop()
-- 
2.43.0


From c969d04f0580755a0b751dcf2333c2dd7be9855c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:26:16 +0000
Subject: [PATCH 33/48] fix: return types of functions with anonymous
 interfaces rendered on toplevel

---
 ts2pythonParser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ts2pythonParser.py b/ts2pythonParser.py
index fab806f..fd36bd3 100755
--- a/ts2pythonParser.py
+++ b/ts2pythonParser.py
@@ -1015,7 +1015,7 @@ class ts2pythonCompiler(Compiler):
                             decls.replace('\n', '\n    ')])
         elif self.render_anonymous == "toplevel":
             return ''.join([self.render_local_classes(),
-                            self.render_class_header('_'.join(self.obj_name[1:]), '') + "    ",
+                            self.render_class_header('_'.join(self.obj_name[1:] or self.obj_name), '') + "    ",
                             decls.replace('\n', '\n    ')])
         elif self.render_anonymous == "functional":
             return f'TypedDict("{self.obj_name[-1]}", {to_dict(decls)})'
-- 
2.43.0


From b9804442bac04bf85be6ce21f259c454559df984 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:28:21 +0000
Subject: [PATCH 34/48] fix: type aliases that are strings are quoted where
 they are used

---
 ts2pythonParser.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/ts2pythonParser.py b/ts2pythonParser.py
index fd36bd3..de2ce3f 100755
--- a/ts2pythonParser.py
+++ b/ts2pythonParser.py
@@ -747,7 +747,8 @@ class ts2pythonCompiler(Compiler):
                     in ('namespace', 'enum', 'virtual_enum'):
                 preface = ('# commented out, because there is already an '
                            'enumeration with the same name\n# ' + preface)
-            else:  # not any earlier, because the alias may refer to itself
+            elif types[0:1] != "'":  # a mere string must be quoted, where it is used
+                # not any earlier, because the alias may refer to itself
                 self.add_to_known_types(node, alias, 'type_alias')
             preface += self.render_local_classes()
             self.optional_keys.pop()
@@ -922,8 +923,11 @@ class ts2pythonCompiler(Compiler):
 
     def render_union(self, preface, union) -> str:
         if len(union) > 1 and any(typ[0:1] == "'" for typ in union) \
-                and any(typ.startswith('Literal[') for typ in union):
-            # string literals cannot be placed inside a quoted type union
+                and (any(typ.startswith('Literal[') for typ in union)
+                     or (len(self.path) > 1 and self.path[-2].name == 'type_alias'
+                         and 'type_parameters' in self.path[-2])):
+            # string literals cannot be placed inside a quoted type union and
+            # generic type aliases must be types rather than strings
             return preface + f"Union[{', '.join(union)}]"
         if self.use_type_union or len(union) <= 1:
             if any(typ[0:1] in ('"', "'") for typ in union):
-- 
2.43.0


From 041327f7fd0c67771c4b7807e07780cdb87f3acc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:44:31 +0000
Subject: [PATCH 35/48] fix: string literals in unions are not confused with
 types of the same name

---
 ts2pythonParser.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/ts2pythonParser.py b/ts2pythonParser.py
index de2ce3f..d30201e 100755
--- a/ts2pythonParser.py
+++ b/ts2pythonParser.py
@@ -959,6 +959,7 @@ class ts2pythonCompiler(Compiler):
 
     def on_types(self, node) -> str:
         union = []
+        literals = []  # literals[i] is True, if union[i] is a literal
         i = 0
 
         obj_name_stub = self.obj_name[-1]
@@ -973,8 +974,10 @@ class ts2pythonCompiler(Compiler):
             self.func_name = ""
             typ = self.compile_type_expression(node, nd)
             self.func_name = save
-            if typ not in union:
+            is_literal = self.use_literal_type and nd[0].name == 'literal'
+            if (typ, is_literal) not in zip(union, literals):
                 union.append(typ)
+                literals.append(is_literal)
                 i += 1
             self.obj_name[-1] = obj_name_stub
         for i in range(len(union)):
@@ -991,15 +994,14 @@ class ts2pythonCompiler(Compiler):
             preface = self.render_local_classes()
         else:
             preface = ''
-        if self.use_literal_type and \
-                any(nd[0].name == 'literal' for nd in node.children):
-            if all(nd[0].name == 'literal' for nd in node.children):
+        if any(literals):
+            if all(literals):
                 return f"Literal[{', '.join(typ for typ in union)}]"
                 # return f"Literal[{', '.join(nd.content for nd in node.children)}]"
             new_union = []
             literal_package = []
-            for i, nd in enumerate(node.children):
-                if nd[0].name == 'literal':
+            for i, is_literal in enumerate(literals):
+                if is_literal:
                     literal_package.append(union[i])
                 else:
                     if literal_package:
-- 
2.43.0


From 567e65b62864722372542bfa14aad61d5305005d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:18 +0000
Subject: [PATCH 36/48] fix: do not leave the compiler half-reset after an
 illegal setting

---
 ts2pythonParser.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/ts2pythonParser.py b/ts2pythonParser.py
index d30201e..aa8cc8f 100755
--- a/ts2pythonParser.py
+++ b/ts2pythonParser.py
@@ -470,6 +470,13 @@ class ts2pythonCompiler(Compiler):
     """
 
     def reset(self):
+        # check the configuration first, so that the compiler is not left half-reset
+        self.render_anonymous = get_config_value('ts2python.RenderAnonymous', 'local')
+        if self.render_anonymous not in ('type', 'functional', 'local', 'toplevel'):
+            raise ValueError(
+                f'Illegal value "{self.render_anonymous}" for '
+                f'ts2python.RenderAnonymous. Must be one of "type", '
+                f'"functional", "local", "toplevel".')
         super().reset()
         bcn = get_config_value('ts2python.BaseClassName', 'TypedDict')
         i = bcn.rfind('.')
@@ -479,13 +486,7 @@ class ts2pythonCompiler(Compiler):
         else:
             self.additional_imports = ''
         self.base_class_name = bcn
-        self.render_anonymous = get_config_value('ts2python.RenderAnonymous', 'local')
         self.class_decorator = get_config_value('ts2python.ClassDecorator', '').strip()
-        if self.render_anonymous not in ('type', 'functional', 'local', 'toplevel'):
-            raise ValueError(
-                f'Illegal value "{self.render_anonymous}" for '
-                f'ts2python.RenderAnonymous. Must be one of "type", '
-                f'"functional", "local", "toplevel".')
         if self.class_decorator:
             if self.class_decorator[0] != '@':
                 self.class_decorator = '@' + self.class_decorator
-- 
2.43.0


From 52d9fcae5a6378c4341fe0c854a8f031094eaec1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:44 +0000
Subject: [PATCH 37/48] fix: refer to types of enclosing namespaces by
 qualified names where they are not visible

---
 ts2pythonParser.py | 37 ++++++++++++++++++++++++++++++++++++-
 1 file changed, 36 insertions(+), 1 deletion(-)

diff --git a/ts2pythonParser.py b/ts2pythonParser.py
index aa8cc8f..0f5c3ca 100755
--- a/ts2pythonParser.py
+++ b/ts2pythonParser.py
@@ -513,6 +513,8 @@ class ts2pythonCompiler(Compiler):
         self.basic_type_aliases: Set[str] = set()
         self.obj_name: List[str] = ['TOPLEVEL_']
         self.scope_type: List[str] = ['']
+        self.namespace_types: List[Tuple[str, Set[str]]] = []  # enclosing namespaces
+        self.anonymous_depth: int = 0  # nesting of anonymous interfaces
         self.optional_keys: List[List[str]] = [[]]
         self.func_name: str = ''  # name of the current functions header or ''
         self.strip_type_from_const = False
@@ -990,6 +992,10 @@ class ts2pythonCompiler(Compiler):
                 cname = m.group(1)
                 cname, typ = self.disambiguate(cname, typ)
                 self.local_classes[-1].append(typ)
+                if self.base_class_name == 'TypedDict' and self.render_anonymous == 'toplevel' \
+                        and self.namespace_types and self.inside_class_body():
+                    path = '.'.join(name for name, _ in self.namespace_types)
+                    cname = f"'{path}.{cname}'"
                 union[i] = cname
         if self.is_toplevel():
             preface = self.render_local_classes()
@@ -1036,7 +1042,9 @@ class ts2pythonCompiler(Compiler):
         if typ.name in ('declarations_block', 'declarations_tuple'):
             self.local_classes.append([])
             self.optional_keys.append([])
+            self.anonymous_depth += 1
             decls = self.compile(typ)
+            self.anonymous_depth -= 1
             result = self.render_declarations(decls)
             self.optional_keys.pop()
             self.local_classes.pop()
@@ -1135,6 +1143,10 @@ class ts2pythonCompiler(Compiler):
         # return "# " + errmsg
         name = self.compile(node['identifier'])
         self.add_to_known_types(node, name, 'namespace')
+        self.namespace_types.append(
+            (name, {self.compile(nd['identifier']) for nd in node.children
+                    if nd.name in ('interface', 'type_alias', 'enum',
+                                   'namespace', 'virtual_enum')}))
         declarations = [f'class {name}:']
         assert len(node.children) >= 2
         self.mark_overloaded_functions(node)
@@ -1153,6 +1165,7 @@ class ts2pythonCompiler(Compiler):
         local_classes = self.render_local_classes().replace('\n', '\n    ')
         if local_classes:
             declarations.insert(1, local_classes)
+        self.namespace_types.pop()
         self.known_types.pop()
         self.local_classes.pop()
         self.optional_keys.pop()
@@ -1271,6 +1284,26 @@ class ts2pythonCompiler(Compiler):
         name = self.compile(node['name'])
         return TYPE_NAME_SUBSTITUTION.get(name, name)
 
+    def inside_class_body(self) -> bool:
+        return self.scope_type[-1] == 'interface' or self.anonymous_depth > 0
+
+    def qualified_names(self) -> Dict[str, str]:
+        """Returns the qualified names of those types of the enclosing
+        namespaces that can only be referred to by a (quoted) qualified name:
+        Inside the body of a class, Python does not see any of the names of
+        the classes around it. The others are names of types that follow later."""
+        names = dict()
+        path = ''
+        for i, (namespace, declared) in enumerate(self.namespace_types, 1):
+            path += namespace + '.'
+            type_set = self.known_types[i]  # contains the type variables, too
+            visible = not self.inside_class_body() and i == len(self.namespace_types)
+            names.update({name: path + name for name in declared | type_set.keys()})
+            if visible:
+                for name in type_set:
+                    del names[name]
+        return names
+
     def compile_type_expression(self, node, type_node) -> str:
         unknown_types = set(self.compile(tn['name']) for tn in node.select('type_name')
                             if not self.is_known_type(tn.content))
@@ -1279,7 +1312,9 @@ class ts2pythonCompiler(Compiler):
             return type_expression  # types have already been quoted where necessary
         # quote whole names, only, and leave string-literals or quoted types alone
         rx = re.compile(r'''"[^"\n]*"|'[^'\n]*'|[\w.]+''')
-        type_expression = rx.sub(lambda m: f"'{m.group(0)}'" if m.group(0) in unknown_types
+        qualified = self.qualified_names()
+        type_expression = rx.sub(lambda m: f"'{qualified.get(m.group(0), m.group(0))}'"
+                                           if m.group(0) in unknown_types or m.group(0) in qualified
                                            else m.group(0), type_expression)
         if type_expression[0:1] == "'":
             type_expression = ''.join(["'", type_expression.replace("'", ""), "'"])
-- 
2.43.0


From bd42ba3aeecfac9d9d80f89680c3c406d5261786 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:33 +0000
Subject: [PATCH 38/48] fix: respect the output directory if given as --out=DIR
 or -oDIR

---
 ts2pythonParser.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/ts2pythonParser.py b/ts2pythonParser.py
index 0f5c3ca..96df1bb 100755
--- a/ts2pythonParser.py
+++ b/ts2pythonParser.py
@@ -1580,7 +1580,7 @@ def main():
     parser.add_argument('files', nargs='+')
     parser.add_argument('-D', '--debug', action='store_const', const='debug',
                         help='Store debug information in LOGS subdirectory')
-    parser.add_argument('-o', '--out', nargs=1, default=['out'],
+    parser.add_argument('-o', '--out', nargs=1,
                         help='Output directory for batch processing')
     parser.add_argument('-v', '--verbose', action='store_const', const='verbose',
                         help='Verbose output')
@@ -1601,7 +1601,7 @@ def main():
                         help="Preserve (multiline) comments")
 
     args = parser.parse_args()
-    file_names, out, log_dir = args.files, args.out[0], ''
+    file_names, out, log_dir = args.files, args.out[0] if args.out else 'out', ''
 
     workdir = file_names[0] if os.path.isdir(file_names[0]) else os.path.dirname(file_names[0])
     from DHParser.configuration import read_local_config
@@ -1672,7 +1672,7 @@ def main():
             echo('Processing all files in directory: ' + dir_name)
             file_names = [os.path.join(dir_name, fn) for fn in os.listdir(dir_name)
                           if os.path.isfile(os.path.join(dir_name, fn))]
-        elif not ('-o' in sys.argv or '--out' in sys.argv):
+        elif not args.out:
             batch_processing = False
 
     if batch_processing:
-- 
2.43.0


From 0b1d62df3bdabaaa785b64707323c2af66d159ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:39 +0000
Subject: [PATCH 39/48] fix: untyped parameters in function types are rendered
 as Any

---
 ts2pythonParser.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ts2pythonParser.py b/ts2pythonParser.py
index 96df1bb..bec0499 100755
--- a/ts2pythonParser.py
+++ b/ts2pythonParser.py
@@ -885,7 +885,8 @@ class ts2pythonCompiler(Compiler):
             arg_list = [self.compile(nd) for nd in node.children]
             if any(arg[0:1] == '*' for arg in arg_list):
                 return '...'
-            return ', '.join(re.sub(r'^\w+\s*:\s*', '', arg) for arg in arg_list)
+            return ', '.join(re.sub(r'^\w+\s*:\s*', '', arg) if ':' in arg else 'Any'
+                             for arg in arg_list)
         return ', '.join(self.compile(nd) for nd in node.children)
 
     def on_arg_tail(self, node):
-- 
2.43.0


From 90be1b5a26984ac5fe2220adc9971d178aee0cbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:44 +0000
Subject: [PATCH 40/48] fix: report parameter lists that cannot be rendered in
 Python as errors

---
 ts2pythonParser.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/ts2pythonParser.py b/ts2pythonParser.py
index bec0499..b8f769e 100755
--- a/ts2pythonParser.py
+++ b/ts2pythonParser.py
@@ -887,6 +887,17 @@ class ts2pythonCompiler(Compiler):
                 return '...'
             return ', '.join(re.sub(r'^\w+\s*:\s*', '', arg) if ':' in arg else 'Any'
                              for arg in arg_list)
+        optional, names = False, set()
+        for nd in node.children:
+            name = nd['identifier'].content
+            if name in names:
+                self.tree.new_error(nd, f'Duplicate parameter "{name}"')
+            names.add(name)
+            if 'optional' in nd:
+                optional = True
+            elif optional and nd.name == 'argument':
+                self.tree.new_error(
+                    nd, 'A required parameter cannot follow an optional parameter!')
         return ', '.join(self.compile(nd) for nd in node.children)
 
     def on_arg_tail(self, node):
-- 
2.43.0


From e508b20938949b5ae8e4b1c3fda7d1ee901186ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:50 +0000
Subject: [PATCH 41/48] fix: escape sequences in strings

---
 ts2python.ebnf     |  2 +-
 ts2pythonParser.py | 29 ++++++++++++++++++++++++++---
 2 files changed, 27 insertions(+), 4 deletions(-)

diff --git a/ts2python.ebnf b/ts2python.ebnf
index 605a25f..fdc9ecc 100644
--- a/ts2python.ebnf
+++ b/ts2python.ebnf
@@ -190,7 +190,7 @@ literal    = integer | number | boolean | string | array | object
 integer    = INT !/[.Ee]/ ~
 number     = INT FRAC EXP ~
 boolean    = (`true` | `false`) !/\w/ ~
-string     = /"[^"\n]*"/~ | /'[^'\n]*'/~
+string     = /"(?:[^"\\\r\n]|\\(?:.|\r?\n))*"/~ | /'(?:[^'\\\r\n]|\\(?:.|\r?\n))*'/~
 array      = "[" [ literal { "," literal } ] "]"
 object     = "{" [ association { "," association } ] [","] "}"
   association = key §":" literal
diff --git a/ts2pythonParser.py b/ts2pythonParser.py
index b8f769e..c4d95fe 100755
--- a/ts2pythonParser.py
+++ b/ts2pythonParser.py
@@ -138,7 +138,7 @@ class ts2pythonGrammar(Grammar):
     literal = Forward()
     type = Forward()
     types = Forward()
-    source_hash__ = "0a2ed62dc6868ed32e8c3a7b86ecc7d2"
+    source_hash__ = "86796d64e8929b6348c2f11c05baac31"
     early_tree_reduction__ = CombinedParser.MERGE_TREETOPS
     disposable__ = re.compile('(?:EOF$|FRAC$|DOT$|EXP$|_part$|NEG$|_namespace$|_modifier$|_quoted_identifier$|_top_level_literal$|_array_ellipsis$|_top_level_assignment$|INT$)')
     static_analysis_pending__ = []  # type: List[bool]
@@ -165,7 +165,7 @@ class ts2pythonGrammar(Grammar):
     association = Series(key, Series(Drop(Text(":")), dwsp__), literal, mandatory=1)
     object = Series(Series(Drop(Text("{")), dwsp__), Option(Series(association, ZeroOrMore(Series(Series(Drop(Text(",")), dwsp__), association)))), Option(Series(Drop(Text(",")), dwsp__)), Series(Drop(Text("}")), dwsp__))
     array = Series(Series(Drop(Text("[")), dwsp__), Option(Series(literal, ZeroOrMore(Series(Series(Drop(Text(",")), dwsp__), literal)))), Series(Drop(Text("]")), dwsp__))
-    string = SmartRE(f'("[^"\\n]*")(?P<comment__>{WSP_RE__})|(\'[^\'\\n]*\')(?P<comment__>{WSP_RE__})', '/"[^"\\n]*"/ ~|/\'[^\'\\n]*\'/ ~')
+    string = SmartRE(f'(?:("(?:[^"\\\\\\r\\n]|\\\\(?:.|\\r?\\n))*")(?P<comment__>{WSP_RE__}))|(?:(\'(?:[^\'\\\\\\r\\n]|\\\\(?:.|\\r?\\n))*\')(?P<comment__>{WSP_RE__}))', '/"(?:[^"\\\\\\r\\n]|\\\\(?:.|\\r?\\n))*"/ ~|/\'(?:[^\'\\\\\\r\\n]|\\\\(?:.|\\r?\\n))*\'/ ~')
     boolean = SmartRE(f'(?P<:Text>true|false)(?!\\w)(?P<comment__>{WSP_RE__})', '`true`|`false` !/\\w/ ~')
     number = Series(INT, FRAC, EXP, dwsp__)
     integer = Series(INT, SmartRE(f'(?![.Ee])', '!/[.Ee]/'), dwsp__)
@@ -1239,7 +1239,30 @@ class ts2pythonCompiler(Compiler):
         return {'true': 'True', 'false': 'False'}[node.content]
 
     def on_string(self, node) -> str:
-        return node.content
+        def escape(m) -> str:
+            seq = m.group(0)
+            if re.fullmatch(r'\\(?:[bfnrtv\\0]|x\w\w|u\w{4})', seq):
+                return seq  # these mean the same in Python
+            elif seq[1:] in ('\n', '\r', '\r\n'):  # line continuation
+                return ''
+            elif seq[1:2] == 'u':  # code point above 0xffff
+                if seq[2] == '{':
+                    code_point = int(seq[3:-1], 16)
+                else:  # surrogate pair
+                    high, low = (int(s, 16) for s in seq[2:].split('\\u'))
+                    code_point = 0x10000 + ((high - 0xd800) << 10) + (low - 0xdc00)
+                if code_point <= 0x10ffff:
+                    return f'\\U{code_point:08x}'
+            elif seq[1:] in ('"', "'"):
+                return f'\\x{ord(seq[1]):02x}'
+            elif seq[1:] and seq[1] not in '123456789':
+                return seq[1]
+            self.tree.new_error(node, f'Illegal escape sequence in string {node.content}')
+            return ''
+
+        return re.sub(r'\\(?:u[dD][89abAB][0-9a-fA-F]{2}\\u[dD][c-fC-F][0-9a-fA-F]{2}|u[0-9a-fA-F]{4}|u\{[0-9a-fA-F]+\}'
+                      r'|x[0-9a-fA-F]{2}|0(?!\d)|\r\n|[^ux0]|)', escape, node.content,
+                      flags=re.DOTALL)
 
     def on_array(self, node) -> str:
         return '[' + \
-- 
2.43.0


From f56178b02b301f30387ce31ae9a365766289ac58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:48 +0000
Subject: [PATCH 42/48] fix: type_check resolves the forward references of
 recursive aliases

---
 ts2python/json_validation.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ts2python/json_validation.py b/ts2python/json_validation.py
index 2a69ac1..f084829 100644
--- a/ts2python/json_validation.py
+++ b/ts2python/json_validation.py
@@ -364,7 +364,7 @@ def type_check(func: Callable, check_return_type: bool = True) -> Callable:
                 values = (arg_dict[name],)
             try:
                 for value in values:
-                    validate_type(value, typ)
+                    validate_type(value, typ, func)
             except TypeError as e:
                 raise TypeError(
                     f'Parameter "{name}" of function "{func.__name__}" failed '
@@ -372,7 +372,7 @@ def type_check(func: Callable, check_return_type: bool = True) -> Callable:
         ret = func(*args, **kwargs)
         if check_return_type and return_type:
             try:
-                validate_type(ret, return_type)
+                validate_type(ret, return_type, func)
             except TypeError as e:
                 raise TypeError(
                     f'Value returned by function "{func.__name__}" failed '
-- 
2.43.0


From e247c091283a04591e531cb9ff5850e2c1fa40af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:58 +0000
Subject: [PATCH 43/48] fix: type aliases that are strings are no operands of
 "|"

---
 ts2pythonParser.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/ts2pythonParser.py b/ts2pythonParser.py
index c4d95fe..c53893b 100755
--- a/ts2pythonParser.py
+++ b/ts2pythonParser.py
@@ -500,6 +500,7 @@ class ts2pythonCompiler(Compiler):
         self.keep_comments = get_config_value('ts2python.KeepMultilineComments', False)
 
         self.overloaded_type_names: Set[str] = set()
+        self.alias_names: Set[str] = set()
         self.known_types: List[Dict[str]] = [
             {'Union': 'Union', 'List': 'List', 'Tuple': 'Tuple', 'Optional': 'Optional',
              'Dict': 'Dict', 'Set': 'Set', 'Any': 'Any', 'Generic': 'Generic',
@@ -547,6 +548,7 @@ class ts2pythonCompiler(Compiler):
         type_aliases = {nd['identifier'].content for nd in root.select_children('type_alias')}
         namespaces = {nd['identifier'].content for nd in root.select_children('namespace')}
         self.overloaded_type_names = type_aliases & namespaces
+        self.alias_names = {self.compile(nd['identifier']) for nd in root.select('type_alias')}
         self.tree.stage = 'py'
         return None
 
@@ -937,12 +939,16 @@ class ts2pythonCompiler(Compiler):
             return f'Optional[{typ}]' if node[-1].name == 'optional' else typ
 
     def render_union(self, preface, union) -> str:
+        def is_alias(typ: str) -> bool:
+            return typ[0:1] == "'" and typ.strip("'").split('.')[-1] in self.alias_names
+
         if len(union) > 1 and any(typ[0:1] == "'" for typ in union) \
-                and (any(typ.startswith('Literal[') for typ in union)
+                and (any(typ.startswith('Literal[') or is_alias(typ) for typ in union)
                      or (len(self.path) > 1 and self.path[-2].name == 'type_alias'
                          and 'type_parameters' in self.path[-2])):
-            # string literals cannot be placed inside a quoted type union and
-            # generic type aliases must be types rather than strings
+            # string literals cannot be placed inside a quoted type union,
+            # generic type aliases must be types rather than strings and
+            # aliases that are mere strings cannot be operands of "|"
             return preface + f"Union[{', '.join(union)}]"
         if self.use_type_union or len(union) <= 1:
             if any(typ[0:1] in ('"', "'") for typ in union):
-- 
2.43.0


From 46ace0f601b08a16e8a6a0166ba4614307723cfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:31 +0000
Subject: [PATCH 44/48] fix: type_check does not take the types of other
 modules for its own

---
 ts2python/json_validation.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ts2python/json_validation.py b/ts2python/json_validation.py
index f084829..6c6aed0 100644
--- a/ts2python/json_validation.py
+++ b/ts2python/json_validation.py
@@ -339,7 +339,9 @@ def type_check(func: Callable, check_return_type: bool = True) -> Callable:
         match the annotated types.
     """
     signature = inspect.signature(func)
-    arg_types = get_type_hints(func)
+    # localns: never rely on the forward references that typing keeps in its caches,
+    # because these might have been evaluated in a different module
+    arg_types = get_type_hints(func, localns={})
     return_type = arg_types.get('return', None)
     if return_type is not None:  del arg_types['return']
     assert arg_types or return_type, \
-- 
2.43.0


From 44ec67cf06e762531b6ea689fffdce224187a27c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:31 +0000
Subject: [PATCH 45/48] fix: singledispatch does not take the types of other
 modules for its own

---
 ts2python/singledispatch_shim.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ts2python/singledispatch_shim.py b/ts2python/singledispatch_shim.py
index 65fa96b..f4cb86c 100644
--- a/ts2python/singledispatch_shim.py
+++ b/ts2python/singledispatch_shim.py
@@ -159,7 +159,9 @@ def singledispatch(func):
 
             # only import typing if annotation parsing is necessary
             try:
-                argname, cls = next(iter(get_type_hints(func).items()))
+                # localns: never rely on the forward references that typing keeps in its
+                # caches, because these might have been evaluated in a different module
+                argname, cls = next(iter(get_type_hints(func, localns={}).items()))
                 if not _is_valid_dispatch_type(cls):
                     raise NameError
             except NameError:
-- 
2.43.0


From e4da1dd4510ded80ddd069c0bd382e2f88fb8a03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:01 +0000
Subject: [PATCH 46/48] fix: malformed type aliases do not break the
 preparation of the compilation

---
 ts2pythonParser.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ts2pythonParser.py b/ts2pythonParser.py
index c53893b..5617d66 100755
--- a/ts2pythonParser.py
+++ b/ts2pythonParser.py
@@ -548,7 +548,8 @@ class ts2pythonCompiler(Compiler):
         type_aliases = {nd['identifier'].content for nd in root.select_children('type_alias')}
         namespaces = {nd['identifier'].content for nd in root.select_children('namespace')}
         self.overloaded_type_names = type_aliases & namespaces
-        self.alias_names = {self.compile(nd['identifier']) for nd in root.select('type_alias')}
+        self.alias_names = {self.compile(nd['identifier']) for nd in root.select('type_alias')
+                            if 'identifier' in nd}
         self.tree.stage = 'py'
         return None
 
-- 
2.43.0


From 5bdc58efb674d4995841fc90ba873cbfb2fc298f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:20 +0000
Subject: [PATCH 47/48] fix: anonymous interfaces in the signatures of generic
 functions are not lost

---
 ts2pythonParser.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ts2pythonParser.py b/ts2pythonParser.py
index 5617d66..ee3f61b 100755
--- a/ts2pythonParser.py
+++ b/ts2pythonParser.py
@@ -666,8 +666,10 @@ class ts2pythonCompiler(Compiler):
     def process_type_parameters(self, node: Node) -> Tuple[str, str]:
         tps = ''
         preface = ''
+        save = self.obj_name[-1]
         try:
             tp = self.compile(node['type_parameters'])
+            self.obj_name[-1] = save  # might have been changed by on_types()
             tpl = [p.strip("'") for p in tp.split(', ')]
             tps = '[' + ', '.join(p for p in tpl) + ']'
             # tps = '[' + tp + ']'
-- 
2.43.0


From ecdd1b36fffddcd7aaf2906b572d4dce02c84916 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:24 +0000
Subject: [PATCH 48/48] fix: call signatures do not keep the methods that
 follow from being overloaded

---
 ts2pythonParser.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ts2pythonParser.py b/ts2pythonParser.py
index ee3f61b..3c5c76d 100755
--- a/ts2pythonParser.py
+++ b/ts2pythonParser.py
@@ -774,6 +774,8 @@ class ts2pythonCompiler(Compiler):
         first_use: Dict[str, Node] = dict()
         try:
             for func_decl in as_list(scope['function']):
+                if 'identifier' not in func_decl:
+                    continue  # call signatures do not have a name
                 name = func_decl['identifier'].content
                 if keyword.iskeyword(name):
                     name += '_'
-- 
2.43.0

