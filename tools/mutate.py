#!/usr/bin/env python3
"""Systematic source mutants of candystore: mutate.py SRC_DIR OUT.jsonl
One mutant per line: {id,file,line,op,old,new} where old/new are lists of lines at `line` (1-based)."""
import json, re, sys
src, out = sys.argv[1], sys.argv[2]
FILES = ['shard', 'router', 'lists', 'queues', 'store', 'hashing', 'stats', 'typed']
res = []

def add(f, ln, op, old, new):
    if old != new:
        res.append(dict(id=len(res), file=f'src/{f}.rs', line=ln, op=op, old=old, new=new))

def code(l):
    s = l.strip()
    return s and not s.startswith('//') and not s.startswith('#')

for f in FILES:
    L = open(f'{src}/{f}.rs').read().split('\n')
    # skip test functions
    skip = set()
    i = 0
    while i < len(L):
        if L[i].strip() == '#[test]':
            j = i + 1
            while L[j] != '}':
                j += 1
            skip.update(range(i, j + 1))
            i = j
        i += 1
    for i, l in enumerate(L):
        if i in skip or not code(l):
            continue
        s, ind = l.strip(), len(l) - len(l.lstrip())
        def sub(op, a, b):
            for m in re.finditer(a, l):
                add(f, i + 1, op, [l], [l[:m.start()] + re.sub(a, b, l[m.start():m.end()]) + l[m.end():]])
        if 'fn ' not in l and 'impl' not in l and '->' not in l and '=>' not in l.replace('=> {', ''):
            sub('rel', r' <= ', ' < ')
            sub('rel', r' >= ', ' > ')
            sub('rel', r' < ', ' <= ')
            sub('rel', r' > ', ' >= ')
        sub('rel', r' == ', ' != ')
        sub('rel', r' != ', ' == ')
        sub('arith', r' \+= 1;', ' += 0;')
        sub('arith', r' -= 1;', ' -= 0;')
        sub('arith', r' \+ 1\b', '')
        sub('arith', r' - 1\b', '')
        sub('bool', r'&&', '||')
        sub('bool', r'\|\|', '&&')
        sub('bool', r'\btrue\b', 'false')
        sub('bool', r'\bfalse\b', 'true')
        sub('minmax', r'\.max\(', '.min(')
        sub('minmax', r'\.min\(', '.max(')
        sub('atom', r'fetch_add\(', 'fetch_sub(')
        sub('atom', r'fetch_sub\(', 'fetch_add(')
        sub('lock', r'let _(row_)?guard = ', 'let _ = ')
        sub('lock', r'\.write\(\);', '.read();')
        sub('arith', r'\b0\b', '1') if re.search(r'= 0;|\(0\)', l) else None
        sub('not', r'\bif !', 'if ')
        sub('not', r'\bif (?!let|!)', 'if !')  if re.search(r'\bif [a-z_.]+(\([^()]*\))?(\.[a-z_]+\(\))* \{$', l) else None
        sub('const', r'HEADER_SIZE \+ ', '')
        sub('ns', r'_NAMESPACE: &\[u8\] = &\[(\d)\]', lambda m: m.group(0).replace('[%s]' % m.group(1), '[%d]' % (int(m.group(1)) % 7 + 1)))
    # statements: a line of code at some indent ending with ';', possibly spanning several lines at the same indent
    stm = []
    i = 0
    while i < len(L):
        l = L[i]
        if i in skip or not code(l) or l.startswith(('use ', 'const', 'pub', '}', 'static', 'typed_builtin')):
            i += 1; continue
        ind = len(l) - len(l.lstrip())
        s = l.strip()
        if ind >= 8 and re.match(r'[a-z_*(]', s) and not re.match(r'(if|while|for|loop|match|else|fn|impl|pub|let mut v = vec)', s):
            j = i
            # extend to the end of the statement
            while not L[j].rstrip().endswith(';') or (j > i and len(L[j]) - len(L[j].lstrip()) > ind):
                j += 1
                if j >= len(L) or j > i + 14: break
                lj = L[j]; ij = len(lj) - len(lj.lstrip())
                if lj.strip() and ij < ind: break
                if ij == ind and lj.strip()[0] not in ').}]' : break
            ok = j < len(L) and L[j].rstrip().endswith(';') and (j == i or len(L[j]) - len(L[j].lstrip()) in (ind, ind + 4))
            if ok:
                stm.append((i, j, ind))
                if not re.match(r'(let|return|break|continue|bail|ensure|assert)', s):
                    add(f, i + 1, 'del', L[i:j + 1], [' ' * ind + '();'])
                elif re.match(r'(ensure|assert)', s):
                    add(f, i + 1, 'del', L[i:j + 1], [' ' * ind + '();'])
                elif s in ('break;', 'continue;'):
                    add(f, i + 1, 'del', L[i:j + 1], [' ' * ind + '();'])
                i = j + 1
                continue
        i += 1
    for (a, b, ind), (c, d, ind2) in zip(stm, stm[1:]):
        # neighbours, only blank or comment lines between
        if ind == ind2 and all(not code(L[k]) for k in range(b + 1, c)):
            add(f, a + 1, 'swap', L[a:d + 1], L[c:d + 1] + L[b + 1:c] + L[a:b + 1])
        # statement following, with one block between is skipped
json_out = open(out, 'w')
for r in res:
    json_out.write(json.dumps(r) + '\n')
from collections import Counter
print(len(res), Counter(r['op'] for r in res), Counter(r['file'] for r in res))
