"""Add a line "fixed:" to known-findings.txt: fixed.py P13 <commit> <what failed>"""
import sys
p = '/verif/known-findings.txt'
ls = open(p).read().split('\n')
k = next((i for i, l in enumerate(ls) if l.startswith('{')), len(ls))
ls.insert(k, 'fixed: property=%s %s %s' % (sys.argv[1], sys.argv[2], ' '.join(sys.argv[3:])))
open(p, 'w').write('\n'.join(ls))
