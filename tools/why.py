#!/usr/bin/env python3
"""Explain the mismatches TLC reported: why.py TRACE TLC-OUTPUT [n]"""
import json, re, sys
def grid(o):
    f = lambda v: '.' if v == -999999 else str(v)
    if o['k'] == 'V': return 'V ' + o['d'] + ' ' + ' '.join(map(f, o['x']))
    return 'M ' + o['d'] + ' ' + ' / '.join(' '.join(map(f, r)) for r in o['x'])
rejects = re.findall(r'<<"REJECT", "(\d+)", "(.*?)", "(.*)">>', open(sys.argv[2]).read())
tr = [json.loads(l) for l in open(sys.argv[1])]
n = int(sys.argv[3]) if len(sys.argv) > 3 else 10
print(len(rejects), 'rejects')
for ln, exp, st in rejects[:n]:
    st = json.loads(st.replace('\\"', '"')); r = tr[int(ln) - 1]
    print('--- record', ln, {k: v for k, v in r.items() if k not in ('w', 'x')})
    for k in ('o', 'a', 'b', 'm'):
        if r.get(k) in st: print('   ', k, r[k], grid(st[r[k]]))
    for w in r['w']: print('    saw ', w['id'], grid(w), {k: v for k, v in w.items() if k not in 'xkd' and k != 'id'})
    print('    want', exp.replace('\\"', '"').replace('-999999', '.'))
