NOT_APPLICABLE = []

prop('C01', 'Validation never accepts JSON data that is not of the type',
     'Whenever JSON data is validated successfully against a type, the data is of that type: all '
     'required keys of every object are present, there are no undeclared keys, and every nested '
     'value - in lists, dictionaries, tuples, unions, optional fields, literals, enums and nested or '
     'recursive dictionary types - is of its declared type. Integers count as floats, booleans as '
     'integers, JSON arrays as tuples and the values of enum members as enums.',
     ['inputs', 'programs'],
     'every JSON value (nesting depth, array length and keys bounded) and every type expression of a '
     'systematic family (all leaf types, all containers over them, all pairs in unions, selected '
     'deeper nestings; direct, quoted and wholly quoted annotations)',
     'The tests validate a handful of hand-picked values against a handful of types; a value that '
     'is wrong at one deeper position only, or only in one alternative of a union, is never tried.',
     [JV, TD],
     [('recursive descent over type and value', JV + ': validate_type, validate_compound_type, '
       'validate_TypedDict'), ('forward reference resolution', JV + ': resolve_forward_refs')],
     'Exhaustive within the bounds: all values up to the stated depth, all listed type shapes.',
     observe=['validate_type'])

prop('C02', 'Validation never rejects JSON data that is of the type',
     'Whenever JSON data is of a type, validating it against this type succeeds. This holds for every '
     'nesting of lists, dictionaries, tuples, unions, optional fields, literals, enums, untyped '
     'parts and nested or recursive dictionary types. Integers count as floats, booleans as '
     'integers, JSON arrays as tuples and the values of enum members as enums.',
     ['inputs', 'programs'],
     'every JSON value (nesting depth, array length and keys bounded) and every type expression of a '
     'systematic family, the same as for C01',
     'The tests accept a few complete sample documents; combinations like unions in lists, enums in '
     'unions, or forward references in containers do not occur in them.',
     [JV, TD],
     [('recursive descent over type and value', JV + ': validate_type, validate_compound_type, '
       'validate_TypedDict'), ('alternatives of unions', JV + ': validate_union')],
     'Exhaustive within the bounds: all values up to the stated depth, all listed type shapes.',
     observe=['validate_type'])

prop('C03', 'Validation is pure: it does not change data or depend on history',
     'Validating data neither changes the data nor the types, and its verdict depends on the data and the '
     'type alone. So, it does not matter which values have been validated earlier, whether against the same '
     'or an other type, successfully or not, or in which order.',
     ['inputs', 'histories'],
     'pairs and triples of validations of symbolic values against types of a systematic family, each '
     'compared to a single validation in isolation',
     'The tests validate each sample once; memory of earlier validations (caches of resolved types, '
     'accumulating state) would not show.',
     [JV], [('caching of resolved types', JV + ': validate_type, resolve_forward_refs')],
     'Histories of two or three validations, bounded values.', observe=['validate_type'])

prop('C04', 'Decorated functions are guarded by the annotations of their parameters',
     'A function with runtime type-validation raises a TypeError (or ValueError for enums) and is not run, '
     'if an argument is not of the type its parameter is annotated with, however this argument is passed. '
     'Otherwise it is run exactly once with the very same arguments and its result is returned, or '
     'a TypeError is raised if the result is not of the annotated type and the validation of results is on.',
     ['inputs', 'programs'],
     'symbolic argument values and signatures with positional, keyword, default, variable and forward '
     'referenced parameters, methods, static methods and several calls in sequence',
     'The tests call three decorated functions with one wrong and one right argument each.',
     [JV], [('binding of arguments to annotations', JV + ': type_check')],
     'Signatures of a systematic family with up to three parameters; symbolic argument values.',
     observe=['type_check'])

prop('C05', 'Fields of TypedDicts are required unless they are marked as optional',
     'In TypedDict classes with runtime validation, a field is optional if and only if its annotation says '
     'so: Optional, NotRequired or a union with None at the top level, whether written directly or as '
     'a string. Inherited fields stay as they were declared, the last declaration of a field decides, and '
     'instances are plain dictionaries.',
     ['inputs', 'programs'],
     'string annotations of 40 shapes with symbolic names and literals; hierarchies of up to three classes '
     'with symbolic field names, for all pairs of forms of annotations',
     'The tests look at a few annotations, none with names that merely resemble the keywords or with '
     'literals that contain them.',
     [TD], [('classification of annotations', TD + ': _TypedDictMeta, _new_typed_dict')],
     'Bounded lengths of names and literals, systematic family of shapes.',
     observe=['TypedDict.__required_keys__', 'TypedDict.__optional_keys__'])

prop('C06', 'Single dispatch picks the implementation of the type of the argument',
     'With functions registered for classes, unions and forward-referenced types, in any order and whether '
     'or not these types are already defined at the time of registration, a call is dispatched to the '
     'implementation that has been registered for the class of the argument or its nearest base class, just '
     'as with the standard library. Calls between registrations do not alter the outcome of later calls.',
     ['histories', 'programs'],
     'histories of up to five registrations, definitions of classes and calls, with symbolic names of the '
     'forward-referenced types',
     'The tests register implementations in one order only and call afterwards.',
     [SD], [('postponed registrations', SD + ': singledispatch, register, dispatch')],
     'Bounded length of histories; classes from a fixed hierarchy.',
     observe=['singledispatch', 'singledispatchmethod'])

prop('C07', 'TypeScript types are mapped to the corresponding Python types',
     'Every type of a TypeScript document is mapped to the corresponding Python type, wherever it occurs: '
     'the basic types, literals, arrays, tuples, maps, unions, function types, generics, anonymous '
     'interfaces and references to other types, at any depth of nesting, as type of a field, parameter, '
     'constant, alias or result. The literals, field names and referenced names are those of the source.',
     ['inputs', 'programs', 'configurations'],
     'about 330 type expressions in seven places, with symbolic names and literals, for all settings of '
     'the switches for type unions, literal types and NotRequired',
     'The tests compare the code generated for selected samples and the default configuration.',
     [TS, EB], [('mapping of types', TS + ': on_types, on_type, on_array_of, on_type_tuple, on_map_signature, '
                 'on_func_type, on_generic_type, on_basic_type'), ('grammar of types', EB)],
     'Systematic family of type expressions; symbolic names and string literals of bounded length; the '
     'structure is read off the executed module, not the text.', observe=['compile_src'])

prop('C08', 'Generated fields are optional if and only if marked with "?"',
     'A field of a generated TypedDict is optional if and only if it carries a question mark in the '
     'TypeScript source, be it in an interface, a class, an anonymous interface at any depth, or inherited. '
     'This holds in every configuration, whether NotRequired is used or Optional; in the latter case, '
     'fields that admit null count as optional, too.',
     ['inputs', 'programs', 'configurations'],
     '18 shapes of documents, symbolic question marks on up to three fields, types from a family of 22, '
     'symbolic names, NotRequired on and off',
     'The tests check single optional fields of simple types in text form.',
     [TS, TD], [('rendering of optional fields', TS + ': on_declaration, includes_none, render_class_header')],
     'Required and optional keys are read off the executed module.', observe=['compile_src'])

prop('C09', 'Generated modules can be imported',
     'The Python module that is generated from a correct TypeScript document can be imported, whatever the '
     'configuration. It defines all declared names, and every name that is used in an annotation is '
     'defined in the module, also if declarations refer to each other or to themselves or occur in '
     'arbitrary order (except that base interfaces precede derived ones).',
     ['programs', 'configurations'],
     'documents of three declarations: pairs of 31 kinds of declarations referring to each other, with '
     'symbolic names, under symbolic or rotating configuration switches',
     'The tests execute few generated modules and only with the default configuration.',
     [TS, EB], [('forward references', TS + ': compile_type_expression, render_union, is_known_type'),
                ('prelude of generated modules', TS + ': GENERAL_IMPORTS, TYPEDDICT_IMPORTS')],
     'All pairs of kinds (three fifths of them in the quick tier).', observe=['compile_src'])

prop('C10', 'Names are preserved by the transpiler',
     'The names of types, fields, parameters, functions, methods, constants, enum items, namespaces and type '
     'parameters appear unaltered in the generated module, both where they are declared and where they are '
     'referred to. The only exception are Python keywords, which receive an underscore as suffix.',
     ['inputs', 'programs'],
     'all names of 1 to 11 characters (letters, digits, underscore) in 37 places',
     'The tests use a small number of ordinary names. Names that begin with or resemble reserved words '
     'are not tried.',
     [TS, EB], [('names', TS + ': on_name, on_identifier'), ('grammar of names', EB + ': identifier, name')],
     'Exhaustive for names up to the stated length.', observe=['compile_src'])

prop('C11', 'White space and comments do not influence the generated code',
     'White space and comments may be added, changed or removed between any two tokens of a TypeScript '
     'document, as far as the tokens remain separated, without changing the generated code (comments are not '
     'preserved by default) or making the document unacceptable.',
     ['inputs'],
     'every gap between tokens of 12 documents, filled with symbolic white space and comments with '
     'symbolic contents',
     'The tests contain comments and line breaks in the usual places only.',
     [EB, TS], [('white space and comments', EB + ': @whitespace, @comment')],
     'One filled gap at a time (or the same filling in all gaps), bounded length of comments.',
     observe=['compile_src'])

prop('C12', 'Values of enum items, constants and literal types are those of the source',
     'The values of enum items, of constants and of literal types in the generated module equal the values '
     'in the TypeScript source, wherever these occur: strings in either kind of quotes (including escape sequences), integers, '
     'floating point numbers, booleans, arrays and objects of them.',
     ['inputs', 'programs', 'configurations'],
     'symbolic strings (2 to 6 printable characters), integers and decimal numbers in 16 places, in all '
     'combinations of kinds of values',
     'The tests contain few and ordinary values. A string that contains a quotation mark, comment sign, '
     'bracket or comma, or that equals the name of a type, is not among them.',
     [TS, EB], [('values', TS + ': on_literal, on_string, on_number, on_const, on_enum, render_namespace'),
                ('grammar of literals', EB + ': literal, string, number')],
     'Systematic places; symbolic characters in values of bounded length; escape sequences of all kinds.',
     observe=['compile_src'])

prop('C13', 'Repeated and interrupted compilations of files yield the current result',
     'After process_file has compiled a source, the result file and the files with messages are the same as '
     'after a compilation in an empty directory, whatever happened before: earlier compilations of the same '
     'or other versions of the source, with other settings, with errors, or interrupted at any point. An '
     'unchanged source without errors is not compiled again.',
     ['inputs', 'crash_points', 'histories'],
     'histories of two to three runs over five kinds of documents with symbolic names; the first runs can be '
     'interrupted before any effect on the file system or within writing',
     'The tests compile single files in clean directories. No test interrupts a compilation.',
     [TS], [('recompilation on change', TS + ': process_file, source_hash')],
     'All interruption points of the runs, writes cut at six points; md5 taken as injective.',
     observe=['process_file'])

prop('C14', 'The result of a compilation depends on document and configuration only',
     'The generated code and the messages depend on nothing but the document and the configuration: not on '
     'the documents compiled before in the same process or the errors in them, not on the other '
     'files of a batch or their order, and not on the order of iteration over sets.',
     ['inputs', 'histories', 'configurations'],
     'pairs of 38 kinds of documents with symbolic names (that can coincide), settings and order of sets; '
     'batches of three files in any order',
     'The tests compile each document once and do not look at traces of earlier compilations.',
     [TS], [('state of the compiler', TS + ': ts2pythonCompiler.reset, prepare'),
            ('batches', TS + ': batch_process')],
     'Histories of two documents (three in the thorough tier).', observe=['compile_src', 'batch_process'])

prop('C15', 'The options of the command line take effect as documented',
     'Each option of the command line has its documented effect, in its short or long form, in any order and '
     'in combination with the other options: the version given with --compatibility and the PEPs given with '
     '--peps decide (later options override earlier ones; PEPs with "~" are switched off) which of Literal types, '
     'NotRequired, type unions, enums and so on are used; --anonymous, --base, --decorator and --comments '
     'change the rendering accordingly; --out decides on the place of the results. Illegal values are rejected with a '
     'message and leave no result.',
     ['inputs', 'configurations'],
     'symbolic version numbers, PEP numbers, modes and names as values of the options, in all pairs of options; single '
     'files, several files and directories',
     'The tests run the command line with hardly any options, and never with combinations or illegal values.',
     [TS], [('command line', TS + ': main'), ('batches', TS + ': batch_process')],
     'Systematic pairs of options (triples in the thorough tier), symbolic values.', observe=['main'])

prop('C16', 'Any text yields valid Python code or error messages',
     'Whatever the input, correct or malformed: the transpiler does not raise an exception. Either the generated '
     'code is syntactically valid Python code and nothing of the document is lost (except imports and variables on '
     'toplevel), or there is at least one error message, and each message has a text and a position within '
     'the document. A source text without line breaks is not confused with the name of a file.',
     ['inputs'],
     '14 documents with a few symbolic ASCII characters at any position instead of the original ones; short '
     'texts of symbolic characters only',
     'The tests contain a handful of malformed documents, and do not look at whether broken code is generated from '
     'them without a message.',
     [TS, EB], [('error recovery', EB + ': @..._resume, mandatory items'), ('compilation', TS + ': compile_src, ts2pythonCompiler')],
     'One to three consecutive symbolic characters per document.', observe=['compile_src'])

prop('C17', 'JSON data is valid for a generated type iff it is of the TypeScript type',
     'JSON data that is validated against a type of the module generated from a TypeScript document is accepted '
     'if and only if it is of the TypeScript type: with all fields that are not marked with "?", no others '
     'than those declared or inherited, and all values of the types of their fields, through named and anonymous '
     'interfaces, aliases, enums, generics, namespaces, recursion, arrays, tuples, maps and unions, whatever the '
     'configuration and order of the declarations.',
     ['inputs', 'programs', 'configurations'],
     'every JSON value (depth, length and keys bounded) against about 210 documents: fields and aliases of 150 types and '
     '50 documents with inheritance, generics, namespaces, recursion and anonymous interfaces, in several configurations',
     'The tests look either at the generated text or validate data against hand-written classes. Whether a generated '
     'class accepts the right data is tested with one example.',
     [TS, JV, TD],
     [('generated types', TS + ': on_interface, on_declaration, on_types, render_local_classes, render_union'),
      ('validation', JV + ': validate_type, type_check, resolve_forward_refs')],
     'All values within the bounds for each document; fixed list of documents.', observe=['compile_src', 'validate_type'])

prop('C18', 'Functions and methods keep their signatures',
     'Every function of a document and every method of its interfaces, classes and namespaces is a function of the generated '
     'module under the same name, with exactly its parameters in their order under their names: optional parameters default '
     'to None and admit None, rest parameters collect the remaining arguments, methods have a leading "self"; the types of '
     'parameters and result are those of the source. Overloads that differ in the class of their first parameter all persist, '
     'and each class is dispatched to its overload.',
     ['inputs', 'programs', 'configurations'],
     'every name (length bounded), number of optional parameters and kind of rest parameter, 20 types, 12 places, and groups of '
     'two or three overloads among further methods and call signatures',
     'The tests compare the generated text of a handful of functions; none inspects a signature or calls an overload.',
     [TS],
     [('functions', TS + ': on_function, mark_overloaded_functions, on_arg_list, on_argument, on_arg_tail, on_optional')],
     'One to three functions per document, up to two typed parameters and a rest parameter; constructors are dropped '
     '(mandated by the tests).', observe=['compile_src'])

