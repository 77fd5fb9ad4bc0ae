import sys; sys.path.insert(0, '/verif/tools')
from seed import make
exec(open('/verif/tools/seeds2.py').read().split("make('default-from-caller'")[0].split('from seed import make\n')[1])
REPL = S + '''import builtins, io
def session(*lines):
    it = iter(lines)
    def inp(prompt=''):
        try:
            return next(it)
        except StopIteration:
            raise EOFError
    yup.input = inp
    o, sys.stdout = sys.stdout, io.StringIO()
    try:
        r = yup.cli(['-q'])
        return r, sys.stdout.getvalue()
    finally:
        sys.stdout = o


'''
make('failed-text-stays', 'P26', [(U, "                _pp_test( test, False )\n                test = ''", "                if _pp_test( test, False ):\n                    test = ''")],
     'a text that fails in the console, and another one after it', 'the lines of the failing text are run again with the next ones',
     REPL + "r, o = session('($inc \"z\")', 'test', 'hello', 'test', 'exit')\ncheck(r == 0 and '--> hello' in o and '* OK *' in o, repr(o))\n")
     'a form feed, a vertical tab or another separator of str.splitlines before the place of an error', 'the line number of the diagnostic counts characters that are no line ends',
     S + "import logging\nout = []\nyugen.log.addHandler(type('H', (logging.Handler,), {'emit': lambda s, r: out.append(r.getMessage())})())\ntranslate('a\\x85b\\n($inc \"z\")\\n')\ncheck(out and 'line 2' in out[-1], out)\n")
make('blanks-are-no-empty-line', 'P02', [(G, '_filter.empty = not ln.strip()', "_filter.empty = not ln.strip( ' \\n\\r' )")],
     'a line with a tab between empty lines', 'more than one empty line in succession stays',
     D + "expect('a\\n\\n\\t\\n\\nb\\n', 'a\\n\\nb\\n', pp_reduce_emptiness=True)\n")
make('longer-codec-name', 'P20', [(I, 'if dot != len( __pp_name__ ):', 'if dot < len( __pp_name__ ):')],
     'a name of a codec that begins with yupp and has a base encoding', 'another codec is taken for that of the package',
     D + "m = sys.modules['yupp']\nf = m.yupp_search_function\nsys.exit(0 if f('yuppie.utf-8') is None and f('yupp.utf-8') is not None else 1)\n")
make('open-triple-string', 'P07', [(G, "        if not ln:\n            raise EOFError( '%s: unexpected EOF into multi-line string'", "        if not ln and _1x:\n            raise EOFError( '%s: unexpected EOF into multi-line string'")],
     'a triple-quoted string without an end in a Python source', 'the translation does not end',
     D + "import signal\nsignal.alarm(20)\nok, plain = translate('x = \"\"\"abc\\n', 't.yu-py', 't.py')\nsys.exit(0 if not ok else 1)\n")
make('suffix-and-sign', 'P06', [(G, "  | [1-9]\\d*               #  decimal\n)[lL]?", "  | [1-9]\\d*(?:[eE]\\d+)?   #  decimal\n)[lL]?")],
     'a decimal number followed by a letter e and digits', 'it is refused',
     D + "expect('($add 1 2)', '3')\nok, p = translate('($(1 2e3))')\nsys.exit(0 if ok else 1)\n")
make('tag-of-last-code', 'P08', [(G, """                    continue
#   ---- gap
                ( look, _ ) = ps_gap( look, depth + 1 )
#   ---- ) & [eq depth_pth 0] <<""", """                    continue
#   ---- ) & [eq depth_pth 0] <<""")],
     'a tag with a blank behind it after a code of double commas', 'the end of the code is not found there',
     D + "expect('($set f \\\\x.[<($x)>])($f,,a\\\\f )', '<a>')\n")
     'a text with a backslash right before a quotation mark', 'the literal ends too early',
     D + r"""expect('($qs (`a\\\\' + "'" + 'b))', "'a" + '\\' * 4 + "\\'b'")
""")
