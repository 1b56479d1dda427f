#!/usr/bin/env python3
"""Writes contracts/90-accessors.spec: the contracts of the constructors, setters, getters and builders.
Used once, when the contracts were written (the result was reviewed and is committed); no check runs it."""
import re, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
R = '/repo/libs/'
PK = [('asts/domain/grammars/values', 'values'), ('asts/domain/grammars/cardinalities', 'cardinalities'), ('asts/domain/grammars', 'grammars'),
      ('asts/domain/grammars/coverages', 'coverages'), ('asts/domain/trees', 'trees'), ('cryptography/domain/hashtrees', 'hashtrees'),
      ('databases/domain/contents', 'contents'), ('databases/domain/references', 'references'),
      ('interpreters/domain/instructions', 'instructions'), ('interpreters/domain/instructions/applications', 'iapplications'),
      ('interpreters/domain/instructions/attachments', 'iattachments'), ('interpreters/domain/instructions/modules', 'imodules'),
      ('interpreters/domain/instructions/parameters', 'iparameters'), ('interpreters/domain/programs', 'programs'),
      ('interpreters/domain/programs/modules', 'pmodules'), ('queries/domain/queries', 'queries')]
have, aliased = set(), set()
for f in sorted(os.listdir(V + '/contracts')):
    if f.startswith('9'): continue
    s = open(V + '/contracts/' + f).read()
    have |= set(re.findall(r'^\(func (\S+)', s, re.M))
    aliased |= set(re.findall(r'^\(pkg (\S+)', s, re.M))
SKIP = set(open(V + '/tools/accessors.skip').read().split()) if os.path.exists(V + '/tools/accessors.skip') else set()
out, groups = [], {}
def low(s): return s[0].lower() + s[1:]
for d, al in PK:
    if al not in aliased: out.append('(pkg %s libs/%s)' % (al, d))
    src = {}
    for f in sorted(os.listdir(R + d)):
        if f.endswith('.go') and not f.endswith('_test.go') and f != 'test_helper.go': src[f] = open(R + d + '/' + f).read()
    allsrc = '\n'.join(src.values())
    structs = {}
    for m in re.finditer(r'^type (\w+) struct \{\n(.*?)^\}', allsrc, re.M | re.S):
        structs[m.group(1)] = [tuple(l.split(None, 1)) for l in m.group(2).strip().split('\n') if l.strip()]
    for f, s in src.items():
        for m in re.finditer(r'^func \((\w+) \*?(\w+)\) (\w+)\((.*?)\)(.*?)\{\n(.*?)^\}\n', s, re.M | re.S):
            v, T, M, ps, rs, body = m.groups()
            key = '%s.%s.%s' % (al, T, M)
            if key in have or key in SKIP: continue
            ft = dict(structs.get(T, []))
            b = re.sub(r'\s+', ' ', body.replace(v + '.', 'S.')).strip()
            g = lambda p: re.fullmatch(p, b)
            isl = lambda f: ft[f].startswith('[]') or ft[f].startswith('map')
            nil = lambda f: '(= (len (fld self %s)) 0)' % f if isl(f) and not ft[f].startswith('map') else '(isnil (fld self %s))' % f
            pn = [p.split()[0] for p in ps.split(',')] if ps.strip() else []
            e = None
            if g(r'return S\.\w+'): e = ('', 'get', '(= res (fld self %s))' % b[9:])
            elif g(r'return \*S\.\w+'): e = ('', 'get', '(= res (deref (fld self %s)))' % b[10:])
            elif g(r'return S\.\w+ != nil'): e = ('', 'get', '(= res (not (isnil (fld self %s))))' % b[9:-7])
            elif g(r'return S\.\w+ != ""'): e = ('', 'get', '(= res (not (= (fld self %s) "")))' % b[9:-6])
            elif g(r'S\.\w+ = \w+ return ' + v):
                fd, p = re.match(r'S\.(\w+) = (\w+)', b).groups()
                if p == 'true': e = ('(modifies (fld self %s))' % fd, 'set', '(= res self) (fld self %s)' % fd)
                else: e = ('(nullable %s) (modifies (fld self %s))' % (p, fd), 'set', '(= res self) (= (fld self %s) %s)' % (fd, p))
            elif g(r'S\.\w+ = &\w+ return ' + v):
                fd, p = re.match(r'S\.(\w+) = &(\w+)', b).groups()
                e = ('(nullable %s) (modifies (fld self %s))' % (p, fd), 'set', '(= res self) (not (isnil (fld self %s))) (= (deref (fld self %s)) %s)' % (fd, fd, p))
            elif M == 'Create' and g(r'return create\w+\(.*\)'):
                fac = re.match(r'return (create\w+)', b).group(1)
                fb = re.search(r'^func ' + fac + r'\(.*?^\}\n', allsrc, re.M | re.S).group(0)
                z = []
                for fd, val in re.findall(r'^\t\t(\w+):\s+(.*),$', fb, re.M):
                    if val == 'nil': z.append('(isnil (fld res %s))' % fd if not ft[fd].startswith('[]') else '(isnil (fld res %s)) (= (len (fld res %s)) 0)' % (fd, fd))
                    elif val == '""': z.append('(= (fld res %s) "")' % fd)
                    elif val == 'false': z.append('(not (fld res %s))' % fd)
                    elif val == '0': z.append('(= (fld res %s) 0)' % fd)
                e = ('(fresh)', 'create', ' '.join(z))
            elif M == 'Now':
                bb = body.replace(v + '.', 'S.')
                N = set(re.findall(r'if S\.(\w+) != nil && len\(S\.\w+\) <= 0 \{', bb))
                O = low(re.match(r'\s*\(\s*(\w+)', rs).group(1))
                of = dict(structs.get(O, []))
                pres = lambda f: ('(>= (len (fld self %s)) 1)' % f) if f in N else ('(not (= (fld self %s) ""))' % f if ft[f] == 'string' else
                       ('(> (fld self %s) 0)' % f if ft[f].startswith('uint') or ft[f].startswith('int') else ('(fld self %s)' % f if ft[f] == 'bool' else '(not (isnil (fld self %s)))' % f)))
                mand = re.findall(r'if S\.(\w+) (?:== nil|== ""|<= 0) \{\s*return nil,', bb)
                altS = re.findall(r'if S\.(\w+) (?:!= nil|!= "") \{\s*(?:content := .*\n\s*)?return create', bb)
                lastErr = bool(re.search(r'return nil, errors.New\([^\n]*\)\s*$', bb.strip()))
                conds = [pres(f) for f in mand]
                if lastErr: conds.append('(or %s)' % ' '.join(pres(f) for f in altS))
                ens = ['(= (ok err) %s)' % ('true' if not conds else conds[0] if len(conds) == 1 else '(and %s)' % ' '.join(conds))]
                res = ['(not (isnil res))']
                prior = []
                for fd, t in structs[T]:
                    if t.endswith('Builder') or t.endswith('Adapter') : continue
                    o = fd
                    if o not in of and len(fd) > 1 and fd[0] == 'p' and fd[1].isupper(): o = low(fd[1:])
                    if o not in of:
                        print('?', key, fd, of); res.append('(TODO %s)' % fd); continue
                    val = '(fld self %s)' % fd
                    if o != fd or (t.startswith('*') and not of[o].startswith('*')): val = '(deref %s)' % val
                    r = '(fld res %s)' % o
                    if lastErr and fd in altS:
                        if prior:
                            z = {'string': '(= %s "")' % r}.get(of[o], '(= (len %s) 0)' % r if of[o].startswith('[]') else '(isnil %s)' % r)
                            res.append('(if (or %s) %s (= %s %s))' % (' '.join(prior), z, r, val))
                        else: res.append('(= %s %s)' % (r, val))
                        prior.append(pres(fd))
                    else: res.append('(= %s %s)' % (r, val))
                N = sorted(N)
                w = lambda s: re.sub(r'\(fld self (%s)\)' % '|'.join(N), r'(old (fld self \1))', s) if N else s
                e = (' '.join('(modifies (fld self %s))' % n for n in N), 'build', w('\n      '.join(ens + ['(=> (ok err) (and %s))' % '\n        '.join(res)])))
            if not e: continue
            results = '(results res err)' if M == 'Now' else '(results res)'
            out.append('(func %s%s %s (inline)%s\n  (behavior %s (ensures %s)))' % (key, ' (params %s)' % ' '.join(pn) if pn else '', results, ' ' + e[0] if e[0] else '', e[1], e[2]))
            groups.setdefault(al, []).append('(%s %s)' % (key, e[1]))
out.append('')
L = ('values', 'cardinalities', 'grammars', 'coverages', 'trees')
groups['trees'] += ['(grammars.elementBuilder.Now build)', '(grammars.suiteBuilder.Now build)', '(coverages.resultBuilder.Now build)', '(trees.elementsBuilder.Now build)', '(trees.blockBuilder.Now build)']
groups['references'] += ['(references.commitBuilder.Now build)', '(references.contentContentKeysBuilder.Now build)', '(references.commitsBuilder.Now build)', '(hashtrees.builder.Now head)']
for prop, als in [('C16', L), ('C27', [a for _, a in PK if a not in L])]:
    out.append('(prop %s\n  %s)' % (prop, '\n  '.join(g for a in als for g in groups.get(a, []))))
open(V + '/contracts/90-accessors.spec', 'w').write('\n'.join(out) + '\n')
