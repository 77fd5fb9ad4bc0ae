"""loads the package from the current directory and translates texts"""
import importlib.util, os, sys
sys.argv = ['yup.py']
REPO = os.getcwd()


def load():
    spec = importlib.util.spec_from_file_location('yupp', os.path.join(REPO, '__init__.py'), submodule_search_locations=[REPO])
    m = importlib.util.module_from_spec(spec)
    sys.modules['yupp'] = m
    spec.loader.exec_module(m)
    import yupp.pp.yup as yup, yupp.pp.yugen as yugen
    return yup, yugen


yup, yugen = load()


def translate(text, name='t.yu', out='t.yugen', **cfg):
    c = {'quiet': True, 'traceback': 0, 'pp_reduce_emptiness': False}
    c.update(cfg)
    yup._pp_configure(c)
    yugen.yushell(text, name, out)
    yugen.yuinit()
    return yup._pp()


def expect(text, want, **cfg):
    ok, plain = translate(text, **cfg)
    if not ok or str(plain) != want:
        print('%r: expected %r, got %r %r' % (text, want, ok, str(plain)))
        sys.exit(1)
