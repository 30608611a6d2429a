"""Differences between documents against spec/Diff.tla."""
from vlib import *
import bgen, random
from checks_tok import table
from checks_bind import run_lines, hash_
from multiprocessing import Pool
Q = TIER == 'quick'
NAMES = ['a', 'b', 'c', 'd', 'key', '', 'k\\n', '\\u0061', 'name\\"x', 'aa', 'ab', 'abc', '\u00e9', '}', 'null']
def num(r):
    x = r.random()
    if x < .3: return str(r.randint(-9, 20))
    if x < .5: return '%s%d.%d' % (r.choice(['', '-']), r.randint(0, 30), r.randint(0, 9999999))
    if x < .6: return r.choice(['0', '-0', '0.0', '1e2', '100', '1E+2', '1.0e-7', '0.0000001', '-1e-7', '1e300', '-1e300', '3e-300', '1e22', '123456789012345', '0.1', '0.10', '1e400', '-1e400', '2e-400', '4.9e-324', '1e-310', '1e999999999', '1e-999999999'])
    return '%d.%06d' % (r.randint(0, 3), r.randint(0, 999999))
def near(r, s):
    """a number close to s, or the same in another spelling"""
    x = r.random()
    if 'e' in s or 'E' in s: return r.choice([s, s.upper(), s.lower(), num(r)])
    if x < .25: return s + ('0' if '.' in s else '.0')
    if x < .35: return s + 'e0'
    k = r.choice([1, 2, 3, 4, 5, 6, 7, 8, 9, 12])
    if '.' not in s: s += '.'
    i, f = s.split('.'); f = (f + '0' * 14)[:14]
    v = int(f) + r.choice([-1, 1, 2, 3, 5, 9]) * 10 ** (14 - k) * (1 if x < .8 else 2)
    if not 0 <= v < 10 ** 14: return s + '5'
    return i + '.' + ('%014d' % v).rstrip('0') if v else i
def scalar(g, r):
    x = r.random()
    if x < .45: return num(r)
    if x < .7: return r.choice(['"a"', '"b"', '"1"', '""', '"true"', '"ab"', '"aB"', '"\\u0061"', '"x\\n"', '"longer text, a bit"', '"longer text, a bix"']) if r.random() < .7 else g.string()
    return r.choice(['true', 'false', 'null'])
def tree(g, r, d):
    x = r.random()
    if d <= 0 or x < .45: return scalar(g, r)
    n = r.choice([0, 1, 1, 2, 3, 4])
    if x < .75: return ('o', [(nm, tree(g, r, d - 1)) for nm in r.sample(NAMES, n)])
    return ('a', [tree(g, r, d - 1) for _ in range(n)])
def change(g, r, t, p):
    """t with some changes"""
    if r.random() < p * .3: return tree(g, r, 2)
    if isinstance(t, str):
        if r.random() >= p: return t
        if t[0] in '-0123456789': return near(r, t) if r.random() < .7 else '"' + t + '"'
        if t[0] == '"' and r.random() < .5:
            i = r.randrange(1, len(t)); return t[:i] + 'z' + t[i:] if t[i - 1] != '\\' and '\\' not in t else '"z"'
        return scalar(g, r)
    l = list(t[1])
    if t[0] == 'o':
        l = [(n, change(g, r, v, p)) for n, v in l if r.random() >= p * .4]
        if r.random() < .4: r.shuffle(l)
        have = {n for n, _ in t[1]}
        while r.random() < p * .6:
            free = [n for n in NAMES if n not in have]
            if not free: break
            nm = r.choice(free); have.add(nm); l.insert(r.randint(0, len(l)), (nm, tree(g, r, 2)))
        return ('o', l)
    l = [change(g, r, v, p) for v in l]
    if l and r.random() < p: i = r.randrange(len(l)); l = l[:i] + (l[i + 1:] if r.random() < .4 else [])
    if r.random() < p: l = l + [tree(g, r, 2) for _ in range(r.randint(1, 3))]
    elif r.random() < p * .3: l.insert(r.randint(0, len(l)), tree(g, r, 2))
    return ('a', l)
def gen(a):
    seed, n = a
    g = bgen.Gen(seed, bgen.P(odd=0, relax=0)); r = g.r; out = []
    opts = lambda: r.choice(['d', 'd', 'n', 'z', 'f1', 'f2', 'f3', 'f4', 'f5', 'f7', 'f9'])
    for _ in range(n):
        g.wsp = r.choice([.8, 1])
        while True:
            t = tree(g, r, r.choice([1, 2, 3, 4]))
            if not isinstance(t, str): break
        ts = [t]
        for _ in range(r.choice([1, 1, 2, 3])): ts.append(change(g, r, r.choice(ts), r.choice([0, .05, .1, .2, .4])))
        docs = [g.render(x, 0).encode('latin1', 'replace') for x in ts]
        if r.random() < .08: docs.append(r.choice([b'', b' ', b'"x"', b'true ', b'12 ', b'null', b'{}', b'[]']))
        if any(len(x) > 1500 for x in docs): continue
        N = len(docs); ix = list(range(1, N + 1))
        if r.random() < .3: r.shuffle(ix)
        ops = ['B@%d@%s' % (ix[0], opts())]; ds = [ix[0]]; cnt = 0; empty = [x.strip()[:1] not in (b'{', b'[') for x in docs]
        for j in ix[1:] + [r.choice(ix) for _ in range(r.choice([0, 0, 1]))]:
            ops.append('D@%d' % j); cnt += not empty[j - 1]
        for _ in range(r.choice([0, 1, 1, 2, 3])):
            x = r.random()
            if x < .5 and cnt: ops.append('C@%d' % r.randrange(cnt))
            elif x < .8: ops.append('I@' + opts())
            elif x < .95: j = r.randint(1, N); ops.append('D@%d' % j); cnt += not empty[j - 1]
            else: ops.append('B@%d@%s' % (r.randint(1, N), opts())); cnt = 0
        out.append(','.join(d.hex() or '-' for d in docs) + ' ' + ' '.join(ops))
    return out
def pairs(n):
    """all pairs of small documents"""
    leaves = ['1', '2', '"1"', 'null', '[]', '{}']
    docs = ['[]', '{}'] + ['[%s]' % x for x in leaves] + ['{"a":%s}' % x for x in leaves] + ['{"b":1}', '[[1]]', '[[],[]]', '[[1],2]', '[{"a":1}]', '{"a":[1]}', '{"a":[1,[2],3]}', '{"a":{"b":1}}', '{"a":1,"b":2}', '{"b":2,"a":1}', '[1,[2],[3]]', '[1]', '[1,2,[3,[4]],5]', '[1,{"a":[2]},3]', '[{},[],1]']
    return ['%s,%s B@1@n D@2 C@0 I@n' % (a.encode().hex(), b.encode().hex()) for a in docs for b in docs]
def par(fn, tag, n):
    with Pool(NCPU) as pool: return [l for p in pool.map(fn, [(SEED * 1000 + hash_(tag) + k, n // NCPU) for k in range(NCPU)]) for l in p]
def show(l, d):
    return dict(documents=[bytes(bl(h)).decode('latin1') for h in l.split(' ')[0].split(',')], operations=l.split(' ')[1:],
                marks=[dict(op=o['op'], diffs=[''.join(x['m']) for x in o.get('obs', [])], counts=[x['count'] for x in o.get('obs', [])]) for o in d['ops']])
def c16(ctx):
    model_check(ctx, 'DiffMC.tla', 'DiffMC.cfg' if Q else 'DiffMC_deep.cfg')
    gen_, env = table(ctx)
    recs = run_lines(ctx, 'diff.cpp', pairs(0) + par(gen, 'c16', 8000 if Q else 200000), ['sse2', 'san'], 'diff', gen_, env)
    for l, d in recs[-3:]: ctx.samples.append(show(l, d))
    ctx.add('histories', len(recs)); ctx.add('diffs', sum(len(o.get('obs', [])) for _, d in recs for o in d['ops'])); ctx.add('marked_tokens', sum(len(x['m']) for _, d in recs for o in d['ops'] for x in o.get('obs', [])))
    B = 40000
    for lo in range(0, len(recs), B):
        todo = recs[lo:lo + B]
        for _ in range(3):
            if not todo: break
            bad = validate(ctx, 'DiffTrace.tla', 'DiffTrace.cfg', [d for _, d in todo])
            if not bad: break
            l, d = todo[bad[0]]
            ctx.violation('%s: a difference is reported wrongly: %s' % (ctx.last_violated, json.dumps(show(l, d))[:900]), dict(invariant=ctx.last_violated, line=l, record=d, **show(l, d)))
            todo = todo[:bad[0]]
    ctx.assumptions = ['documents are valid JSON with distinct member names per object', 'whether numbers that differ by about the tolerance, or by less than 1e-14 of their size, are the same is left open']
    return ctx.finish()
