"""Maps and metadata against spec/Members.tla, Meta.tla and Bind.tla."""
from vlib import *
import btypes as bt, bgen
from checks_tok import table
from checks_bind import run_lines, hash_
from multiprocessing import Pool
Q = TIER == 'quick'

def types():
    point = bt.ST('Point', [bt.Mem('x', bt.I()), bt.Mem('y', bt.I())], style='short')
    base = bt.ST('Base1', [bt.Mem('b1', bt.I()), bt.Mem('shared', bt.S, 'shared_name', ['sn'])])
    der = bt.ST('Der', [bt.Mem('d1', bt.I()), bt.Mem('d2', bt.S, 'dee', ['d-two']), bt.Mem('d3', bt.V(point))], su=[base])
    rec = bt.ST('Rec', [bt.Mem('a', bt.SOPT(bt.I())), bt.Mem('b', bt.SOPT(bt.S)), bt.Mem('key', bt.UP(point)), bt.Mem('x', bt.OPTC(bt.V(bt.I())))], style='short')
    none = bt.ST('Quiet', [bt.Mem('o', bt.SOPT(bt.I()))], style='short')
    return [bt.I(64), bt.I(32), bt.S, bt.B, bt.F(), bt.V(bt.I()), bt.V(bt.S), point, der, rec, none, bt.MAP(bt.I()), bt.MAP(bt.V(bt.S)), bt.SOPT(bt.I()), bt.OPTC(bt.S), bt.UP(point), bt.NULC(bt.I()), bt.V(point), bt.SP(bt.V(bt.I())), bt.STUP(bt.I(), bt.S), bt.JTOK]
NAMES = ['a', 'b', 'c', 'key', '', 'x', 'k\n', 'name"quoted', '\\', 'a longer name, with blanks', '\xe9', '}', 'zz', 'd1', 'null', 'before', '\x01', '/']
def hist(a):
    seed, n = a
    g = bgen.Gen(seed, bgen.P(wrong=.01, mutate=0, relax=0, deep=.03, odd=.1)); r = g.r
    TS = types(); inf = [bgen.info(t) for t in TS]
    hx = lambda s: s.encode('latin1', 'replace').hex() or '-'
    ST = [i for i, t in enumerate(TS) if t.k == 'struct']
    out = []
    def doc():
        g.wsp = r.choice([.9, 1])
        ms = []
        for _ in range(r.choice([0, 1, 2, 3, 5, 8])):
            nm = r.choice(['a', 'b', 'c', 'key', '', 'x', 'k\\n', 'name\\"quoted', '\\u0061', '\\\\', '}', 'k\\u000a', '\u00e9', 'b1', 'dee', 'd1', 'before', '\\/'])
            if r.random() < .85 and any(nm == x for x, _ in ms): continue
            t = r.choice(TS); ms.append((nm, g.gen(t, True, 2) if r.random() < .6 else g.any(3, True)))
        return g.render(('o', ms), 0)
    def value(i):
        g.wsp = 1
        if r.random() < .2 and TS[i].k in ('sopt', 'optc', 'up', 'nulc', 'sp'): return '{}'
        for _ in range(20):
            d = g.render(('o', [('v', g.gen(TS[i], True, 2))]), 0)
            if g.floatsafe(d) or not inf[i]['flt']: return d
        return '{}'
    for _ in range(n):
        ops = []
        x = r.random()
        if x < .55: ops.append('D@' + hx(doc()))
        elif x < .65: i = r.choice(ST); ops.append('A@%d@%s' % (i, hx(value(i))))
        elif x < .68: g.wsp = 1; ops.append('D@' + hx(g.render(('a', [g.any(2, True) for _ in range(r.randint(0, 4))]), 0)))
        arr = x >= .65 and x < .68
        for _ in range(r.choice([2, 4, 6, 10, 16])):
            y = r.random(); nm = hx(r.choice(NAMES)) if r.random() < .6 else hx(r.choice(NAMES[:5])); i = r.randrange(len(TS))
            if y < .4 and not arr:
                while inf[i]['raw']: i = r.randrange(len(TS))
                ops.append('S@%s@%d@%s' % (nm, i, hx(value(i))))
                if r.random() < .5: ops.append('C@%s@%d' % (nm, i))
            elif y < .55: ops.append('C@%s@%d' % (nm, i))
            elif y < .65: ops.append('F@' + nm)
            elif y < .73: ops.append('W@%d' % r.choice(ST + [11, 20]))
            elif y < .82: ops.append('X@%s%db%d' % (r.choice('pc'), r.choice([0, 2, 3]), r.choice([0, 0, 1, 5])))
            elif y < .88: ops.append(r.choice('YYV'))
            elif y < .92 and not arr: ops.append('D@' + hx(doc()))
            elif y < .94 and not arr: i = r.choice(ST); ops.append('A@%d@%s' % (i, hx(value(i))))
            elif y < .98:
                b = doc(); b = b[:r.randint(1, len(b))] if r.random() < .5 else g.mutate(b)
                if '\0' not in b: ops.append('B@' + hx(b))
        if r.random() < .5: ops.append('X@p2b0')
        if ops: out.append('H ' + ' '.join(ops))
    return out
def metas(a):
    seed, n = a
    g = bgen.Gen(seed, bgen.P(deep=.03, relax=0, odd=0)); r = g.r; out = []
    for _ in range(n):
        g.wsp = r.choice([.9, 1]); d = r.choice([1, 2, 3, 5, 7])
        s = ''.join(g.render(g.scopetree(d), 0) for _ in range(r.choice([1, 1, 1, 2])))
        b = s.encode('latin1', 'replace')
        if 0 < len(b) < 1500 and 0 not in b: out.append('M ' + b.hex())
    return out
def small(n):
    """every arrangement of n brackets and values"""
    out = []
    def go(s, st, left):
        if left == 0:
            if not st: out.append(s)
            return
        pre = ('' if s == '' or s[-1] in '[{' else ',') if st else ''
        nm = '"k":' if st and st[-1] == '{' else ''
        if len(st) < left:
            go(s + pre + nm + '[', st + '[', left - 1); go(s + pre + nm + '{', st + '{', left - 1)
        if st:
            go(s + pre + nm + '1', st, left - 1)
            go(s + (']' if st[-1] == '[' else '}'), st[:-1], left - 1)
    for k in range(2, n + 1): go('', '', k)
    return ['M ' + s.encode().hex() for s in out]
def par(fn, tag, n):
    with Pool(NCPU) as pool: return [l for p in pool.map(fn, [(SEED * 1000 + hash_(tag) + k, n // NCPU) for k in range(NCPU)]) for l in p]

def run(ctx, lines, what, desc):
    gen, env = table(ctx)
    tab = bt.Table(types()); tf = ctx.path('types.json'); json.dump(tab.json(), open(tf, 'w'))
    recs = run_lines(ctx, 'map.cpp', lines, ['sse2', 'san'], what, dict(gen, **{'types_gen.h': tab.cpp()}), env, std='gnu++17')
    ix = [tab.ix[id(t)] for t in tab.roots]
    for n, (l, d) in enumerate(recs):
        d['lx'] = n % 40 == 0 and len(l) < 1500
        for o in d.get('ops', []):
            if 'ty' in o: o['ty'] = ix[o['ty']]
    for l, d in recs[::max(1, len(recs) // 3)][:3]: ctx.samples.append(desc(l, d))
    B = 40000
    for lo in range(0, len(recs), B):
        todo = recs[lo:lo + B]
        for _ in range(3):
            if not todo: break
            bad = validate(ctx, 'MapTrace.tla', 'MapTrace.cfg', [d for _, d in todo], env={'TYPES': tf})
            if not bad: break
            l, d = todo[bad[0]]
            ctx.violation('%s: %s: %s' % (ctx.last_violated, what, json.dumps(desc(l, d))[:700]), dict(invariant=ctx.last_violated, line=l, record=d, **desc(l, d)))
            todo = todo[:bad[0]]
    return recs
def show(l, d):
    TS = types(); u = lambda h: bytes(bl(h)).decode('latin1'); out = []
    for p, o in zip([x.split('@') for x in l.split(' ')[1:]], d['ops']):
        k = p[0]
        if k == 'D': out.append('parse ' + u(p[1]))
        elif k == 'S': out.append('set %r to %s from %s' % (u(p[1]), TS[int(p[2])].cpp, u(p[3])))
        elif k == 'A': out.append('set all to %s from %s' % (TS[int(p[1])].cpp, u(p[2])))
        elif k == 'C': out.append('cast %r to %s: %s' % (u(p[1]), TS[int(p[2])].cpp, o['ok']))
        elif k == 'W': out.append('cast all to %s: %s' % (TS[int(p[1])].cpp, o['ok']))
        elif k == 'F': out.append('find %r: %d' % (u(p[1]), o['at']))
        elif k == 'X': out.append('write: ' + bytes(o['text']).decode('latin1'))
        elif k == 'B': out.append('context used for ' + u(p[1]))
        else: out.append({'Y': 'copy', 'V': 'move'}[k])
    return dict(history=out)
def c14(ctx):
    model_check(ctx, 'MapMC.tla', 'MapMC.cfg' if Q else 'MapMC_deep.cfg')
    recs = run(ctx, par(hist, 'c14', 8000 if Q else 200000), 'a map does not hold what was put into it', show)
    ctx.add('histories', len(recs)); ctx.add('operations', sum(len(d['ops']) for _, d in recs))
    ctx.assumptions = ['parsed documents outlive the map, as the token list refers to them', 'a history ends with a document that cannot be parsed', 'members are only set in maps that hold an object']
    return ctx.finish()
def c15(ctx):
    model_check(ctx, 'MetaMC.tla', 'MetaMC.cfg' if Q else 'MetaMC_deep.cfg')
    recs = run(ctx, small(8 if Q else 10) + par(metas, 'c15', 6000 if Q else 200000), 'metadata does not describe the token list', lambda l, d: dict(document=bytes(d['doc']).decode('latin1'), meta=d['meta']))
    ctx.add('token_lists', sum(d['whole'] for _, d in recs)); ctx.add('entries', sum(len(d['meta']) for _, d in recs))
    return ctx.finish()
