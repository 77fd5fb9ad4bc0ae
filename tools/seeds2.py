import sys; sys.path.insert(0, '/verif/tools')
from seed import make
G, U, I = 'pp/yugen.py', 'pp/yup.py', '__init__.py'
D = 'import os, sys\nsys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))\nfrom lib import *\n'
S = D + '''import shutil, tempfile
_d = tempfile.mkdtemp()
os.chdir(_d)
import atexit
atexit.register(lambda: (os.chdir('/'), shutil.rmtree(_d)))


def write(fn, text):
    if os.path.dirname(fn):
        os.makedirs(os.path.dirname(fn), exist_ok=True)
    with open(fn, 'w', newline='') as f:
        f.write(text)


def read(fn):
    with open(fn, newline='') as f:
        return f.read()


def check(x, *a):
    if not x:
        print(*a)
        sys.stdout.flush()
        sys.exit(1)


'''
make('default-from-caller', 'P09', [(G, 'd_default[ var ] = yueval( default, env, depth + 1 )', 'd_default[ var ] = default')],
     'a default value which refers to a name that has another value where the function is applied', 'the default is evaluated where the function is applied',
     D + "expect('', '')\n")
make('backup-before-translation', 'P17', [(U, '            shell_backup( fn_o )\n', ''), (U, '        ok, plain = _pp()\n        if ok:\n#           -- check', '        shell_backup( fn_o )\n        ok, plain = _pp()\n        if ok:\n#           -- check')],
     'a translation which fails while there is an output of a former run', 'the previous output is moved away although nothing replaces it',
     S + "write('a.yu-c', 'x\\n')\nyup.cli(['-q', 'a.yu-c'])\nwrite('a.yu-c', '($')\nyup.cli(['-q', 'a.yu-c'])\ncheck(os.path.isfile('a.c') and read('a.c') == 'x\\n', 'the previous output is lost', os.listdir('.'))\n")
make('dot-in-directory', 'P16', [(U, 'if not os.path.splitext( fn_o )[ 1 ]:', "if '.' not in fn_o:")],
     'an input x.yu in a directory with a dot in its name', 'the output has no suffix .yugen',
     S + "check(yup._output_fn('v1.2/a.yu') == 'v1.2/a.yugen', yup._output_fn('v1.2/a.yu'))\n")
make('same-time-is-new', 'P18', [(U, 'if all( _getmtime( d ) < t for d in deps ):', 'if all( _getmtime( d ) <= t for d in deps ):')],
     'a source changed within the resolution of file times after its output was generated', 'stale generated code is used',
     S + "write('a.yu-py', 'x = 1\\n')\nyup.proc_file('a.yu-py')\nwrite('a.yu-py', 'x = 2\\n')\nt = os.path.getmtime('a.py')\nos.utime('a.yu-py', (t, t))\nyup.proc_file('a.yu-py')\ncheck(read('a.py') == 'x = 2\\n', read('a.py'))\n")
make('constants-stay', 'P19', [(U, "config.pp_define = cfg.get( 'pp_define', [])", "config.pp_define = cfg.get( 'pp_define', config.pp_define )")],
     'two sources loaded in one process, the second with a configuration that assigns something other than a list to pp_define', 'constants of the first source are defined in the second one',
     S + "write('a.yu-c', '($K)\\n')\nwrite('a.yuconfig', 'pp_define = [( \"K\", 5 )]\\n')\nwrite('b.yu-c', '($K)\\n')\nwrite('b.yuconfig', 'pp_define = None\\n')\nprint(yup.proc_file('a.yu-c'), yup.proc_file('b.yu-c'))\nprint(read('a.c'), read('b.c'))\n")
make('passage-of-former-file', 'P22', [(U, '        for path in args.files:\n            config.passage = 0\n', '        config.passage = 0\n        for path in args.files:\n')],
     'two input files on one command line, both with several passes', 'the second file is processed only for its last passes',
     S + "for n in 'ab':\n    write(n + '.yu', '($set p ($__PASSAGE__ (1 2)))($set __OUTPUT_FILE__ ($\"\" ($__FILE__) ($p) \".c\"))($p)\\n')\nyup.cli(['-q', 'a.yu', 'b.yu'])\nprint(os.listdir('.'))\n")
make('blank-line-width', 'P04', [(G, '                    total += len( ln )\n', '                    total += 1\n')],
     'browse data and emptiness reduction on, and a removed surplus line that holds blanks', 'all positions after it lead to the wrong place',
     S + "write('a.yu', 'a\\n\\n  \\nb\\n')\nimport json\nyup.cli(['-q', '--pp-browse', 'a.yu'])\nprint(os.listdir('.'), read('a.yugen.json'))\n")
make('comment-needs-no-end', 'P23', [(G, "    elif sou[ :2 ] == '/*':\n        i = 2\n", "    elif sou[ :2 ] == '/*':\n        i = 1\n")],
     'a C comment which begins with "/*/"', 'the comment is taken to end at once and what it contains is processed',
     D + "expect('/*/($set x 1)*/', '/*/($set x 1)*/', pp_skip_comments=yugen.PP_SKIP_C_COMMENTS)\n")
make('capitalize-first', 'P13', [(G, 's.capitalize()', 's[ :1 ].upper() + s[ 1: ]')],
     'capitalize of a text with upper-case letters after the first character', 'they stay in upper case',
     D + "expect('($capitalize \"aBC\")', 'Abc')\n")
make('shebang-not-counted', 'P21', [(U, '            return i\n', '            return 1\n')],
     'a source with shebang and magic comment which is loaded again without change', 'a traceback shows a wrong line',
     S + "from io import StringIO\nsrc = '#!/usr/bin/python\\n# coding: yupp\\nx = 1\\n'\nwrite('a.yu-py', src)\na = yup.proc_stream(open('a.yu-py'), 'a.yu-py')\nos.utime('a.yu-py', (1, 1))\nb = yup.proc_stream(open('a.yu-py'), 'a.yu-py')\ncheck(a[3] == b[3], a, b)\n")
make('leading-blank-string', 'P12', [(G, '_unq( node.ast ).strip()', '_unq( node.ast ).rstrip()')],
     'a string evaluated with ($$ ) that begins with a blank followed by an application and more text', 'the text is enclosed once more',
     D + "expect('<($$\" ($set x 4)a($x)\")>', None)\n")
make('dir-is-module', 'P15', [(G, "    lpath = lib\n    if not os.path.isfile( lpath ):", "    lpath = lib\n    if not os.path.exists( lpath ):")],
     'a directory in the working directory that has the name of the imported file', 'the import fails instead of the search going on',
     S + "os.mkdir('stdlib.yu')\nexpect('($import stdlib)($unless 0 1)', None)\n")
make('c-init-lost', 'P25', [('lib/h.yu', '''#else
#define ($h-name)_VAR_C( decl ) \\
	decl
#define ($h-name)_VAR_C_INIT( decl, ... ) \\
	decl = __VA_ARGS__
''', '''#else
#define ($h-name)_VAR_C( decl ) \\
	decl
#define ($h-name)_VAR_C_INIT( decl, ... ) \\
	decl
''')], 'a header with ($var-c-init ), implemented in C, not in C++', 'the variable is defined without its initial value', D + "expect('', '')\n")
