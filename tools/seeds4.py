import sys; sys.path.insert(0, '/verif/tools')
from seed import make
E = 'sublime_text/Data/Packages/yupp/yupp.py'
ED = r'''import os, sys, json, shutil, tempfile, types
repo = os.getcwd()
tmp = os.path.realpath(tempfile.mkdtemp())
os.chdir(tmp)
views = {}
active = [None]
class Region(object):
    def __init__(self, a, b=None):
        self.a, self.b = a, a if b is None else b
    def begin(self):
        return min(self.a, self.b)
class Sel(list):
    def clear(self):
        del self[:]
    def add(self, r):
        self.append(r)
class Window(object):
    def folders(self):
        return [tmp + '/one', tmp + '/two']
    def open_file(self, fn):
        if fn not in views:
            views[fn] = View(fn)
        active[0] = views[fn]
        return views[fn]
window = Window()
class View(object):
    def __init__(self, fn):
        self.fn, self.s = fn, Sel([Region(0)])
    def file_name(self):
        return self.fn
    def window(self):
        return window
    def sel(self):
        return self.s
    def __getattr__(self, name):
        return lambda *a: None
class TextCommand(object):
    def __init__(self, view):
        self.view = view
sublime = types.ModuleType('sublime')
sublime.Region, sublime.HIDDEN, sublime.PERSISTENT = Region, 1, 2
plugin = types.ModuleType('sublime_plugin')
plugin.EventListener, plugin.TextCommand = type('EventListener', (object,), {}), TextCommand
sys.modules['sublime'], sys.modules['sublime_plugin'] = sublime, plugin
mod = types.ModuleType('plugin')
p = repo + '/sublime_text/Data/Packages/yupp/yupp.py'
exec(compile(open(p, encoding='utf8').read(), p, 'exec'), mod.__dict__)
ls = mod.yu_browse()
def put(fn, text, t=None):
    d = os.path.dirname(fn)
    if d and not os.path.isdir(d):
        os.makedirs(d)
    with open(fn, 'w') as f:
        f.write(text)
    if t:
        os.utime(fn, (t, t))
def data(fn, files, browse, offset=()):
    put(fn + '.json', json.dumps({'files': files, 'browse': browse, 'offset': list(offset)}))
def jump(fn, pos=None):
    v = window.open_file(os.path.join(tmp, fn))
    if v.fn not in seen:
        seen.append(v.fn)
        ls.on_load(v)
    ls.on_activated(v)
    if pos is not None:
        v.s[:] = [Region(pos)]
    mod.GotoOriginCommand(v).run(None)
    a = active[0]
    if a.fn not in seen:
        seen.append(a.fn)
        ls.on_load(a)
    ls.on_activated(a)
    return os.path.relpath(a.fn, tmp), a.s[0].begin()
seen = []
def leave(ok):
    os.chdir('/')
    shutil.rmtree(tmp)
    sys.exit(0 if ok else 1)
'''
make('older-is-no-change', 'P27', [(E, 'if file_mtime[ fn ] != os.path.getmtime( fn ):', 'if file_mtime[ fn ] < os.path.getmtime( fn ):')],
     'a generated file replaced by an older one while it is open', 'the former browsing data are used',
     ED + '''put('a.yu', 'x' * 50)
put('t.c', 'x' * 20, 2000)
data('t.c', ['a.yu'], [[0, 0, 5]])
r1 = jump('t.c', 3)
put('t.c', 'x' * 20, 1000)
data('t.c', ['a.yu'], [[0, 0, 15]])
r2 = jump('t.c', 4)
leave(r1 == ('a.yu', 8) and r2 == ('a.yu', 19))
''')
make('same-source-in-chain', 'P27', [(E, """                        if fn_to not in file_jump:
                            file_jump[ fn_to ] = {}
""", """                        file_jump[ fn_to ] = {}
""")],
     'the text of a macro that is applied in the file in which it is defined', 'the command does not lead back from the definition',
     ED + '''put('a.yu', 'x' * 50)
put('t.c', 'x' * 20)
data('t.c', ['a.yu'], [[0, 0, 25], [5, 0, 30], [5, 0, -10]])
r = [jump('t.c', 7), jump('a.yu'), jump('a.yu')]
leave(r == [('a.yu', 30), ('a.yu', 10), ('t.c', 7)])
''')
