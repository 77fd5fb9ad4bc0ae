# -*- coding: utf-8 -*-
MODES = [(0, 't.yugen'), (1, 't.c'), (2, 't.py'), (3, 't.c'), (3, 't.py')]

META = {
    'id': 'P01',
    'bounds': 'texts of 0..N characters over all 227 accepted characters (N=4 quick, 5 thorough) '
              'and over the punctuation alphabet (N=4 quick, 5 thorough), alone and next to fixed surroundings; '
              'comment-skipping modes 0..3, C and Python output',
    'covers': ['text'],
    'budget': {'quick': 60, 'thorough': 800},
}

PUNCT = '($)`[],;{}\\"\'/*#\n\r aA1_.&*=-:'


def verbatim(h, n, alphabet, mode, pre, post):
    skip, out = MODES[mode]
    body = h.chars('c', n, alphabet)
    text = pre + body + post
    h.describe(text)
    # no construct of the preprocessor in the text
    h.assume('($' not in text)
    h.assume('(`' not in text)
    r = pp(h, text, 't.yu', out, pp_skip_comments=skip)
    h.cover('text')
    c_mode = skip == 1 or skip == 3 and out != 't.py'
    py_mode = skip == 2 or skip == 3 and out == 't.py'
    if not r.ok:
        # broken C or Python lexis that the comment-skipping modes must refuse
        h.observe('ok', r.ok)
        t = unify_eol(text)
        legit = c_mode and '/*' in t or py_mode and ("'''" in t or '"""' in t or '\\\n' in t and ('"' in t or "'" in t))
        h.check(legit and len(r.errors()) == 1, 'text without constructs is translated')
        h.cover('refused')
        return
    out_is(h, r, unify_eol(text), 'text without constructs is passed through unchanged')
    h.check(not r.warnings() and not r.errors(), 'no message for a text without constructs')


def TASKS(tier):
    q = tier == 'quick'
    t = []
    n = 4 if q else 5
    for m in range(5):
        for k in range(0, n + 1):
            t.append(('latin-%d-m%d' % (k, m), 'verbatim', (k, ACCEPT, m, '', '')))
    for m in range(5):
        t.append(('ctx-m%d' % m, 'verbatim', (2, ACCEPT, m, 'a(b, "', '") \\\n//x\n')))
        t.append(('ctx2-m%d' % m, 'verbatim', (2, ACCEPT, m, '/* [a] ', ' ]b[ */\n#z')))
    n = 4 if q else 5
    for m in range(5):
        t.append(('punct-%d-m%d' % (n, m), 'verbatim', (n, PUNCT, m, '', '')))
    return t
