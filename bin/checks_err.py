"""Error reports against spec/Err.tla."""
from vlib import *
import bgen, btypes as bt
from checks_tok import table
from checks_bind import run_lines, hash_, judge_simple
from multiprocessing import Pool
Q = TIER == 'quick'
def gen(a):
    seed, n = a
    g = bgen.Gen(seed, bgen.P(odd=.1, relax=0, deep=0)); r = g.r; out = []
    def elem():
        x = r.random()
        if x < .9: return str(r.randint(-99999, 99999))
        return r.choice(['"x"', 'true', 'null', '99999999999', '"12"', '[1]', '{}', '"a longer text that is not a number"', '1.5'])
    def struct():
        ms = [(k, str(r.randint(0, 9))) for k in ['x', 'why', 'o'] if r.random() < .7]
        for _ in range(r.choice([0, 0, 1, 2, 3])): ms.insert(r.randint(0, len(ms)), (r.choice(['a', 'bb', 'unknown name', 'X', 'whyy', '\u00e9', 'k\\n']), g.any(1, True)))
        return ('o', ms)
    while len(out) < n:
        g.wsp = r.choice([.3, .6, .8, .95, 1]); mode = r.choice('tttvvvks')
        if mode == 't': t = ('a', [g.any(3, True) for _ in range(r.choice([1, 3, 8, 20]))]) if r.random() < .5 else g.any(4, True)
        elif mode == 's': t = struct()
        else: t = ('a', [elem() for _ in range(r.choice([0, 1, 2, 5, 12, 40, 120]))])
        opt = r.randrange(16) if r.random() < .15 and mode != 'k' else 0
        s = g.render(t, opt)
        if r.random() < .2: s = r.choice(['\n', '\n\n\n', ' ' * 300, '\r\n', ' ' * 40]) + s
        if r.random() < .2: s += r.choice(['\n', '\n\n', ' '])
        if r.random() < (.85 if mode == 't' else .3 if mode != 'k' else 0): s = g.mutate(s)
        if mode in 'ts' and r.random() < .1: s = s[:r.randint(0, len(s))] + r.choice(['}', ']', ',', 'x', '\x01', '"\n', '1a']) + s[r.randint(0, len(s)):]
        if mode == 'k' and r.random() < .5: opt |= 16
        if mode == 't' and r.random() < .3: opt |= r.choice([32, 64, 96])
        b = s.encode('latin1', 'replace')
        if 0 in b or len(b) > 1500 or not b: continue
        cuts = '-'
        if r.random() < .4 and len(b) > 1 and mode != 'k':
            x = r.random()
            cuts = ','.join(map(str, range(1, len(b)))) if x < .2 else ','.join(map(str, sorted({r.randint(1, len(b) - 1) for _ in range(r.randint(1, 4))})))
        cfg = '- -' if r.random() < .6 else '%d %d' % (r.choice([0, 1, 2, 3, 10]), r.choice([0, 1, 5, 38, 200]))
        out.append('%d %s %s %s@%s@%d' % (opt, mode, cfg, b.hex(), cuts, r.randrange(4)))
    return out
def par(fn, tag, n):
    with Pool(NCPU) as pool: return [l for p in pool.map(fn, [(SEED * 1000 + hash_(tag) + k, n // NCPU) for k in range(NCPU)]) for l in p]

def show(l, d):
    tx = lambda b: bytes(b).decode('latin1')
    return dict(document=tx(d['doc']), mode=d['mode'], options=l.split(' ')[0], cuts=l.split('@')[1], settings=l.split(' ')[2:4], error=tx(d['ename']), quoted=[tx(x) for x in d['lines']], row=d['line'], column=d['char'], told=tx(d['told']))
def c21(ctx):
    model_check(ctx, 'ErrMC.tla', 'ErrMC.cfg' if Q else 'ErrMC_deep.cfg')
    gen_, env = table(ctx)
    tp = ctx.path('types.json'); T = bt.Table([bt.V(bt.I())]); json.dump(T.json(), open(tp, 'w'))
    recs = run_lines(ctx, 'err.cpp', par(gen, 'c21', 8000 if Q else 200000), ['sse2', 'san'], 'reporting an error', gen_, env)
    ctx.add('parses', len(recs)); ctx.add('reports', sum(not d['ok'] and not d['more'] for _, d in recs))
    judge_simple(ctx, 'ErrTrace', recs, 'an error is reported wrongly', show, env=dict(TYPES=tp))
    ctx.assumptions = ['the place of an error is known exactly only for texts and for token lists of integers', 'with comments allowed, the mark may be before the comment']
    return ctx.finish()
