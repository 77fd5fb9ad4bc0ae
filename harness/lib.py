# -*- coding: utf-8 -*-
"""
Helpers shared by the harnesses.  Runs in two modes: symbolically (instrumented,
Python 3.12) and concretely on the real code (PyPy 3.9); see sym/explore.py and
sym/replay.py for the interface `h`.
"""

# every character the preprocessor accepts in a source text
LATIN = '\t\n\r' + ''.join(chr(c) for c in range(0x20, 0x100))
ACCEPT = LATIN
ASCII = '\t\n' + ''.join(chr(c) for c in range(0x20, 0x7f))
LINE = ''.join(c for c in ACCEPT if c not in '\n\r')


class Res(object):
    def __init__(self, ok, plain, logs, shell):
        self.ok, self.plain, self.logs = ok, plain, logs
        self.offset = getattr(plain, 'offset', None)
        self.browse = getattr(plain, 'browse', None)
        self.shrink = shell.shrink

    def levels(self, *names):
        return [m for l, m in self.logs if l in names]

    def errors(self):
        return self.levels('ERROR', 'CRITICAL')

    def warnings(self):
        return self.levels('WARNING', 'WARN')


def configure(h, **cfg):
    c = {'quiet': True, 'traceback': 0}
    c.update(cfg)
    h.yup._pp_configure(c)


def pp(h, text, name='t.yu', out='t.yugen', **cfg):
    """the whole pipeline: configuration, parsing, evaluation, post-processing"""
    c = {'pp_reduce_emptiness': False}
    c.update(cfg)
    configure(h, **c)
    h.clear()
    g = h.yugen
    g.yushell(text, name, out)
    g.yuinit()
    ok, plain = h.yup._pp()
    return Res(ok, plain, h.logs(), g.yushell)


def unify_eol(text):
    return text.replace('\r\n', '\n').replace('\r', '\n')


def out_is(h, r, want, what):
    """the translation succeeded with exactly this text"""
    h.observe('ok', r.ok)
    h.check(r.ok, what + ': translation fails')
    h.observe('plain', r.plain)
    h.check(h.eq(r.plain, want), what)


def join(parts):
    s = ''
    for p in parts:
        s = s + p
    return s


def xplain(r):
    """text of a result as a plain string"""
    return '' + str(r)


def plain_prefix(h, name, n, alphabet=None):
    """n characters that open no construct, whatever follows them"""
    c = h.chars(name, n, ACCEPT if alphabet is None else alphabet)
    h.assume('($' not in c)
    h.assume('(`' not in c)
    return c


def located(h, msg, name, text, off, what, up=None):
    """the diagnostic ends with the place `off` of the text (unified) of the file `name`;
    `up`: any place from `off` to `up` is right"""
    ls = msg.split('\n')
    while ls and not ls[-1]:
        ls.pop()
    h.check(len(ls) >= 3 and ls[-1].strip(' ') == '^', what + ': a location is given')
    head, shown, caret = ls[-3], ls[-2], ls[-1]
    p = off
    while True:
        b = text.rfind('\n', 0, p) + 1
        e = text.find('\n', p)
        if e < 0:
            e = len(text)
        no = text.count('\n', 0, p) + 1
        line = text[b:e]
        good = head == '  %s "%s", line %d' % (name[0], name[1], no)
        if good and shown[:4] == '    ' and len(caret) >= 5:
            s = shown[4:]
            c = len(caret) - 5
            # the caret stands under the place: the rest of the shown line is the rest of the source line
            if c == 0 and p - b < len(line) - len(line.lstrip()) and s == line.lstrip():
                # white space before the line is not shown
                return
            if c <= len(s) and len(s) - c == e - p and line.lstrip() == s.lstrip() and s[c:] == text[p:e]:
                return
        if up is None or p >= up:
            break
        p += 1
    h.observe('message', msg)
    h.check(False, what + ': the diagnostic shows the file, the line and the column of the construct')
