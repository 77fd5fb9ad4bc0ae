"""writes properties.jsonl"""
import json, os
G, Y = 'pp/yugen.py', 'pp/yup.py'
P = []


def p(i, title, st, over, qt, why, files, mech, obs):
    P.append({'id': i, 'title': title, 'statement': st, 'quantifier': {'over': over, 'text': qt}, 'why_tests_cant': why,
              'anchors': {'files': files, 'mechanism': [{'name': a, 'where': b} for a, b in mech], 'observe_at': obs, 'hook_needed': None}})


p('P01', 'Text outside macro constructs reaches the output unchanged',
  'A source text that contains no preprocessor construct is translated successfully and its text is the output, character for character, apart from line ends, which all become LF. '
  'This holds for every comment-skipping mode and for C and Python output; only text whose C comment or Python string is itself broken may be refused by a mode that must recognise it.',
  ['inputs', 'configurations'], 'every text over the accepted characters x skip mode x output language',
  'The kit compares a handful of texts; which characters and brackets are inert depends on every scanner in the parser and on the mode.',
  [G], [('text and plain scanners', G + ':ps_text, ps_plain'), ('plain joining and post-processing', G + ':yueval, replace_steady, reduce_emptiness')], ['generated text', 'log'])
p('P02', 'Reducing emptiness removes only trailing blanks and surplus blank lines',
  'With emptiness reduction on, the output has the same non-blank lines in the same order, each differing at most by trailing white space, every run of terminated blank lines becomes at most one blank line, and no two lines are joined or separated. '
  'Reducing an already reduced text changes nothing, and with the option off the text is not touched at all.',
  ['inputs', 'configurations'], 'every evaluated text (with and without browse data) x option on/off',
  'Tests assert a few expected outputs with the option at one value; the guarantee is about every arrangement of blank lines, spaces, tabs and line ends.',
  [G], [('reduction', G + ':reduce_emptiness'), ('offset bookkeeping', G + ':RESULT')], ['generated text'])
p('P03', 'A diagnostic names the source file, line and column of the offending text',
  'When a construct is refused, by the parser, the evaluator, a macro, an import or an expression, the message names the file that contains the construct and the number of its line, and shows that line with a caret under the construct; an expression that evaluates to no text is reported by its syntax tree instead. '
  'This stays true whatever text, line ends and multi-line constructs precede it.',
  ['inputs', 'programs'], 'every preceding text x every kind of refused construct',
  'Tests assert that an error is raised, not where it is reported; the position depends on all text before it.',
  [G], [('location formatting', G + ':_loc, SOURCE.loc, trim_with_browse')], ['error log'])
p('P04', 'Browse data lead from every generated character to where it came from',
  'With browse data enabled, following the recorded offset and browse tables from any position of the generated text reaches a position of a recorded source file where the same text stands, for all text copied from a source, including text moved by imports, loops, indentation and emptiness reduction. '
  'Text of a macro or of an evaluated text leads to the application and to its definition, and the tables are sorted by position.',
  ['inputs', 'programs'], 'every text and program shape with browse enabled, every position of its output',
  'The kit has no test of the browse tables; they are maintained by many small offset corrections that only agree for some texts.',
  [G, Y, 'sublime_text/yupp.py'], [('browse and offset tables', G + ':RESULT, _merge_offset, reduce_emptiness, add_indent'), ('navigation', 'sublime_text/yupp.py')], ['*.json written next to the output'])
p('P05', 'Substituted text follows the indentation of the application it replaces',
  'When an application that stands first on its line yields several lines, the common indentation of the text is removed and every line after the first gets the indentation of the application, so that relative indentation is kept. '
  'White space that follows a definition, a macro definition or a preprocessor comment standing first on its line disappears with it, and with the option off no indentation is added or removed; the white space of blank lines is not specified.',
  ['inputs', 'configurations'], 'every indentation, body and following text x option on/off',
  'Tests show single layouts; the rule must hold for every mix of spaces, tabs, blank lines and nesting.',
  [G], [('trimming', G + ':TRIM, trim_with_browse, add_indent'), ('option', Y + ':--pp-trim-app-indent')], ['generated text'])
p('P06', 'Number and string literals keep their value',
  'A decimal, octal, hexadecimal or floating literal accepted in an expression denotes the number it denotes in C, whatever its sign, the gap after the sign and its suffix. '
  'A string or character literal, with any escapes, is printed exactly as written, and text that opens a literal and never closes it is not taken for one.',
  ['inputs'], 'every character sequence at a literal position',
  'Tests use fewer than ten literals; the accepted set is defined by several regular expressions and conversions which must agree with each other.',
  [G], [('number', G + ':ps_number, re_INT, re_FLOAT'), ('string', G + ':ps_quote, re_STR, re_CHR')], ['generated text'])
p('P07', 'Any source text is either translated or refused with a located diagnostic',
  'For every source text that does not recurse without end by itself, processing terminates and yields either a translation or a diagnostic, and parsing always terminates; a diagnostic of the parser or of the evaluator carries the file, line and column, and processing never ends in an internal failure of the preprocessor itself and never hangs. '
  'Text that opens a construct and does not close it is refused, not silently dropped.',
  ['inputs'], 'every text, in particular every damaged construct',
  'Tests feed well-formed programs; totality is a statement about all texts, malformed ones first.',
  [G, Y], [('recursive descent parser', G + ':yuparse, ps_*'), ('error reporting', Y + ':_pp')], ['result status', 'error log'])
p('P08', 'Code enclosures, quotes and comments delimit exactly their own text',
  'Every form of enclosure - square brackets, reversed brackets, double commas, code, quote, infix and comment forms - yields exactly the text between its delimiters, balanced brackets and nested enclosures included, and the text after the closing delimiter is processed as if the enclosure had not been there. '
  'Comments yield nothing; end tags of any construct must match the construct that they close.',
  ['inputs', 'programs'], 'every enclosed text, balanced or not, in every enclosure form',
  'Balanced-bracket counting and the closing rules interact for all texts; tests show one text per form.',
  [G], [('enclosures', G + ':ps_code, ps_quote, ps_comment, ps_infix, ps_plain'), ('end tags', G + ':ps_application, ps_set, ps_let')], ['generated text'])
p('P09', 'Arguments reach the parameters they are meant for',
  'In an application, named arguments go to the parameter of that name, the remaining arguments go to the remaining parameters from left to right, missing ones take their defaults, and surplus ones are collected in the variable argument list, if there is one, for every number, order and mix of arguments. '
  'Spreading a list into the arguments is the same as writing its items, and supplying too few arguments leaves a function of the missing parameters.',
  ['programs', 'inputs'], 'every parameter list x argument list of bounded length',
  'The binding rule has many interacting cases (named, default, currying, spread, late-bound, variadic) and tests try a few combinations.',
  [G], [('application of lambdas', G + ':BOUND_LAMBDA, yueval'), ('argument parsing', G + ':ps_application')], ['generated text'])
p('P10', 'Names are resolved lexically and definitions stay in their scope',
  'A name denotes the innermost enclosing binding - parameter, local binding or definition - of the place where it is written, a later definition shadows an earlier one only for the text after it, and a definition inside a code enclosure or a local binding never changes the value seen outside. '
  'An unbound name stands for itself, is never captured by a parameter of a function it is passed to, and a late-bound name that is not bound where it is written takes the value that the function announcing it supplies.',
  ['programs'], 'every nesting of definitions, local bindings and functions of bounded size, every choice of names',
  'Capture and shadowing errors need coinciding names; tests use distinct ones.',
  [G], [('environments', G + ':ENV, LAMBDA, yueval'), ('set and let', G + ':SET, LET')], ['generated text'])
p('P11', 'Conditionals, loops and subscripts select and repeat exactly what they say',
  'A conditional evaluates to its consequent unless the condition is zero or empty, and only the chosen branch is evaluated; a chain of conditionals takes the first that holds. '
  'Applying a list runs the functions, one after another, on every item in order and collects the results, and applying a number selects the item of the list with this index, counting from the end for negative indices; an index outside the list yields nothing.',
  ['programs', 'inputs'], 'every condition value, list length and index within the bounds',
  'Off-by-one selection, evaluation of the wrong branch and empty lists only show for particular values.',
  [G], [('conditional', G + ':COND, yueval'), ('for-each and subscript', G + ':yueval')], ['generated text'])
p('P12', 'Macros and string applications substitute text exactly',
  'Applying a macro gives the result of processing its body with every parameter replaced by the text of its argument, and applying a string replaces every field by the matching positional or named argument and leaves all other text of the string as it is. '
  'Evaluating a text as source gives what the same text gives when written in the source, in the environment of that place.',
  ['programs', 'inputs'], 'every body, argument text and field combination within the bounds',
  'Substitution is textual, so every argument character may interact with the body; tests use identifiers.',
  [G], [('macro expansion', G + ':MACRO, yueval'), ('string application', G + ':STR handling in yueval')], ['generated text'])
p('P13', 'Built-in functions compute what the documentation says',
  'Every documented built-in function returns, for all arguments it accepts, the value the manual describes, including conversions, list and string functions, comparisons and arithmetic; equal calls give equal results however often and in whatever order they are made. '
  'A call with unsuitable arguments is refused with a diagnostic that locates the call.',
  ['inputs', 'histories'], 'every argument value within the bounds for each listed built-in',
  'The kit exercises few built-ins with one or two values each, never twice in one run.',
  [G, 'doc/builtin.md'], [('table of built-ins', G + ':builtin'), ('application of built-ins', G + ':yueval')], ['generated text', 'error log'])
p('P14', 'Iterators yield the successive values of their variable, each once',
  'Every emission yields the current value of its variable and then advances it with the given function, or takes the next item of a list; across any interleaving of several iterators and any number of uses each value appears exactly once and in order. '
  'Emissions of one variable never disturb another variable or a variable of the same name in another scope.',
  ['histories', 'programs'], 'every sequence of emissions of bounded length over several variables',
  'Iterators are state carried through evaluation; tests use one short fixed sequence.',
  [G], [('emit', G + ':EMIT, yueval')], ['generated text'])
p('P15', 'An import finds the right module, takes effect once and keeps its definitions',
  'An imported name is looked up in the working directory, then next to the input file, then in the configured directories in order, then in the library, a bare name getting the default extension, and the first file found is used; definitions made by the module are visible after the import as if they were written there. '
  'A module imported again, directly or through other modules, is not processed twice, and a missing module is a located error.',
  ['configurations', 'programs'], 'every placement of modules in the search directories x import order, repeated and nested imports',
  'Tests import one library module once.',
  [G], [('module search', G + ':_import_source, yushell'), ('once-only inclusion', G + ':ps_import')], ['generated text', 'error log'])
p('P16', 'Every input file has its own documented output name and is never overwritten',
  'The name of the output is derived from the name of the input as documented: the part after ".yu-" becomes the extension, ".yu" is dropped from a double extension, other names get ".yugen" inserted, and an output directory replaces the directory of the input. '
  'The output name always differs from the input name, so that the source is never overwritten.',
  ['inputs', 'configurations'], 'every file name over the characters that matter x output directory given or not',
  'Tests do not touch file naming; the rule is a case split over where the dots are.',
  [Y], [('output name', Y + ':_output_fn')], ['files written'])
p('P17', 'A failed or interrupted run never loses data and never reports success',
  'If translation fails, the previous output stays in place untouched; if writing fails or the process dies at any moment, the previous output still exists complete under its own or its backup name, a text under the name of the output is always complete, and the source is never modified. '
  'The run reports success only if the output has been written completely, and the exit status is non-zero exactly if some file was not processed.',
  ['fault_sequences', 'crash_points', 'histories'], 'every file operation of a run failing or being the last one, for every prior state of output and backup and every mix of good and bad files',
  'No test touches files, injects a fault or looks at the exit status.',
  [Y, '__main__.py'], [('backup and save', Y + ':shell_backup, shell_savetofile, _pp_stream'), ('exit status', Y + ':cli, ' + '__main__.py:main')], ['files', 'console output', 'exit status'])
p('P18', 'Generated code is reused only when it is newer than everything it depends on',
  'When a source is loaded through the package, previously generated code is reused if and only if it exists, is strictly newer than the source and all its declared dependencies, and regeneration is not forced; otherwise it is generated anew. '
  'The caller receives the same code either way.',
  ['histories', 'configurations'], 'every order of modification times of source, output and dependencies x force',
  'It is a relation over all orders of times and missing files; no test covers it.',
  [Y], [('skip decision', Y + ':proc_stream')], ['code returned', 'files written'])
p('P19', 'Options come from the right place and one file cannot influence another',
  'The settings of a source are the defaults, overridden by the directory configuration, overridden by the configuration of that file; unknown or ill-typed entries are ignored, and constants defined on the command line or in a configuration are visible in that run. '
  'Processing a file gives the same result whatever was processed before it in the same process.',
  ['configurations', 'histories'], 'every assignment of settings to the two levels; every ordered pair of sources',
  'Tests run each source in a fresh state and never use configuration files.',
  [Y, G, 'pp/yuconfig.py'], [('configuration', Y + ':shell_parse_yuconfig, _pp_configure'), ('state of a run', G + ':yushell, yuinit')], ['generated text'])
p('P20', 'The magic comment selects preprocessing and is cleaned from the Python output',
  'A Python source whose first or second line declares the "yupp" coding, alone or followed by a base encoding, is recognised whatever surrounds the declaration; the generated source declares exactly the base encoding, or nothing if there is none, and keeps everything else but white space before the declaration. '
  'A codec lookup succeeds exactly for the name "yupp", optionally followed by a dot and a known encoding, and the number of header lines is reported truthfully. The name "yupp" is recognised in any letter case.',
  ['inputs'], 'every header line and codec name within the bounds',
  'Tests contain no coding header; recognition is by several independent string tests that must agree.',
  [G, '__init__.py', Y], [('header', G + ':ps_header_python'), ('codec search', '__init__.py:yupp_search_function')], ['generated text', 'codec lookup'])
p('P21', 'Tracebacks of preprocessed Python code show the place in the generated file',
  'For a source that was preprocessed, a traceback shows the generated file and the line of it that corresponds to the executed line (the header lines that were removed do not count, and no line is less than 1); for every other file the traceback is exactly the one Python prints. '
  'The text of the exception is never altered.',
  ['inputs', 'histories'], 'every set of substituted files, number of removed lines and traceback',
  'No test uses the traceback module of the package.',
  ['pylib/yutraceback3.py', 'pylib/yutraceback.py', '__init__.py'], [('substitution', 'pylib/yutraceback3.py')], ['printed traceback'])
p('P22', 'One source can produce several outputs, one per pass, each from a full run',
  'A source that declares a list of passes is processed once per item of the list, in order, and each pass writes its own output computed as if it were the only one; the process stops after the last item or at the first failed pass. '
  'An output file name set by the source is the one that is written, and the default one is then not written.',
  ['programs', 'histories'], 'every list of passes of bounded length, with failing passes at any position',
  'The feature is not covered by the tests; it is a loop with state between whole runs.',
  [G, Y], [('passes', G + ':__PASSAGE__, feedback'), ('loop', Y + ':cli')], ['files written', 'exit status'])
p('P23', 'Skipped comments are inert',
  'With comment skipping on for the language of the output, everything from the start of a comment to its end is copied to the output and nothing in it is processed, and the text after it is processed as usual. '
  'With skipping off, or in the other language, the same text is processed normally, and comment signs inside string literals of the output language do not start a comment.',
  ['inputs', 'configurations'], 'every comment text and position x mode x output language',
  'Tests use one comment per language.',
  [G], [('comments', G + ':ps_remark_c, ps_remark_python, ps_string_python, ps_text')], ['generated text'])
p('P24', 'Quoting and unquoting of strings are inverse',
  'Quoting a text gives a literal of the output language which denotes that text, and unquoting a literal gives the text which it denotes, so unquoting a quoted text returns it. '
  'The length of a literal is the number of characters it denotes.',
  ['inputs'], 'every text within the bounds, every literal with escapes',
  'The escapes, the quote characters and characters beyond ASCII each need their own case; tests use letters.',
  [G], [('q, qs, unq, strlen', G + ':_q, _unq')], ['generated text'])
p('P25', 'The libraries do what their manual says',
  'The macros of the standard library give the dictionaries, conditions, sequences, C macros, binary numbers and functions which lib/README.md describes, for every argument; '
  'a header made with the header helper declares each name for its users, defines it for its implementation and is read once, in C and in C++; '
  'a coroutine continues behind the construct where it stopped (at it, if it waits or has quit), executes its statements in order, runs its exit code on each leaving and returns the status of the construct, with and without coroutine.h.',
  ['inputs', 'histories'], 'every argument of the macros within the bounds, every composition of constructs and every history of conditions',
  'Tests compare the syntax tree of the library and a few outputs; what the generated C code means for each compiler and each history of calls is not tested.',
  ['lib/stdlib.yu', 'lib/h.yu', 'lib/h-light.yu', 'lib/hlib.yu', 'lib/coroutine.yu', 'lib/coroutine-h.yu', 'lib/coroutine.h', 'lib/corolib.yu', 'lib/coroutine-py.yu', G],
  [('standard library', 'lib/stdlib.yu'), ('headers', 'lib/h.yu, lib/h-light.yu'), ('coroutines', 'lib/coroutine.yu, lib/coroutine.h, lib/coroutine-py.yu')], ['generated text'])

p('P26', 'The console and the command line do what was typed',
  'At the prompt, the lines typed since the last run form one text; the run command translates it as a file with this text would be translated, shows the result once, and reports success if and only if the translation succeeded; '
  'a failing text is reported and leaves the session usable; what was run before does not influence what is typed after it, and the exit command ends the session with status zero. A text given on the command line is translated likewise. '
  'Every option of the command line sets its own setting and no other, of a switch given twice the last one wins, repeated directories and constants add up in the given order, and a response file stands for the arguments it holds; '
  'the levels of tracing, logging and of traceback do not change what is generated. A wrong command line is refused with status two and nothing is written.',
  ['inputs', 'histories', 'configurations'], 'every session of bounded length, every combination of a bounded number of arguments',
  'No test starts the program; the console keeps state between texts and the options have to reach the place where they are used.',
  [Y, 'pp/yuconfig.py'], [('command line', Y + ':shell_parse_cli_arguments, cli'), ('console', Y + ':cli, shell_input, _pp_test, _pp_text')], ['console', 'files written', 'exit status'])
p('P27', 'The editor leads from generated text to its origin and back',
  'In the editor, the command "go to origin" at a position of a generated file with browsing data leads to the place in the source the data record for it: to the very character for copied text, '
  'to the application and, repeated, on to the definition for the text of a macro; repeated to the end it leads back to the position it started from, also after jumps from other positions or from another generated file with the same source. '
  'A position without a recorded place leads nowhere. A source is found in the working directory, next to the generated file or in the folders of the project. '
  'Without browsing data the command switches between the generated file and the source of its name. After the file was generated again, the new data count.',
  ['inputs', 'histories'], 'every table and cursor position within the bounds, every position of generated programs, histories of jumps',
  'The plugin has no tests, since it needs the editor; positions, shifts and chains of places combine freely.',
  ['sublime_text/Data/Packages/yupp/yupp.py', Y, G], [('editor plugin', 'sublime_text/Data/Packages/yupp/yupp.py:open_file, close_file, search_file, GotoOriginCommand'), ('browsing data', Y + ':_pp_stream')], ['view and cursor of the editor'])

fn = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl')
with open(fn, 'w') as f:
    for x in P:
        assert len(x['title']) <= 80, x['title']
        f.write(json.dumps(x) + '\n')
print(len(P))
