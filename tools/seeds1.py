import sys; sys.path.insert(0, '/verif/tools')
from seed import make
G = 'pp/yugen.py'
D = 'import os, sys\nsys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))\nfrom lib import *\n'
make('evaluated-text-not-enclosed', 'P12', [(G, "if not node.ast.startswith( '($' ):", "if '($' not in node.ast:")],
     'a string evaluated with ($$ ) that does not begin with an application but contains one', 'the text is not taken for the inside of an application and is copied to the output',
     D + "expect('($set x 4)<($$\"add 3 ($x)\")>', '<7>')\n")
make('shared-list', 'P14', [(G, "                return copy.deepcopy( val )\n", "                return val if isinstance( val, list ) else copy.deepcopy( val )\n")],
     'a list bound to two names, one of which is then taken apart with emit', 'an emission of one variable removes the item from the other one too',
     D + "expect('($set a (1 2 3))($set b a)($emit b)($emit b)<($a)>', '12<123>')\n")
make('indent-after-final-eol', 'P05', [(G, "            if ord( self[ -1 ]) in ps_EOL:\n                ln.append( '' )\n            return PLAIN( SOURCE( indent.join", "            return PLAIN( SOURCE( indent.join")],
     'an indented application of a macro that contains a definition and text with a line end right before another construct', 'the line after that line end loses its indentation',
     D + "expect('q($macro m (x)X($set y 1)a\\n($set z 2)b)\\n  ($m 5)\\n', 'q\\n  Xa\\n  b\\n')\n")
make('empty-result-dropped', 'P11', [(G, "                        if x is not None:\n                            lst.append( x )\n                    return lst", "                        if x is not None and x != []:\n                            lst.append( x )\n                    return lst")],
     'a loop whose function yields an empty list for some item, the result used as a list', 'the empty result is left out and later items move to a lower index',
     D + "expect('($1 ($((1 2) () (3)) \\\\i.($i)))', '')\n")
