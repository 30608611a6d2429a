"""Typed parsing and serializing against spec/Bind.tla."""
from vlib import *
import btypes as bt, bgen
from checks_tok import table
from multiprocessing import Pool
Q = TIER == 'quick'

def _gen(a):
    seed, roots, weights, prof, n = a
    g = bgen.Gen(seed, prof)
    ii = [bgen.info(t) for t in roots]
    out = []
    for _ in range(n):
        i = g.r.choices(range(len(roots)), weights)[0]
        out.append(g.case(i, roots[i], ii[i]))
    return out

def records(ctx, roots, weights, prof, n, configs, tag='bind', groups=None):
    """Builds the harness for the roots, runs n generated histories; returns (type table, records)."""
    groups = groups or max(1, min(4, len(roots)))
    bounds = [len(roots) * g // groups for g in range(groups + 1)]
    parts = []
    for g in range(groups):
        rs = roots[bounds[g]:bounds[g + 1]]
        if rs: parts.append((bounds[g], rs, bt.Table(rs)))
    gen, env = table(ctx)
    jobs = [(p, c) for p in range(len(parts)) for c in configs]
    exes = dict(zip(jobs, pmap(lambda j: build(ctx, 'bind.cpp', j[1], std='gnu++17', gen=dict(gen, **{'types_gen.h': parts[j[0]][2].cpp()})), jobs)))
    tab = bt.Table(roots)
    with Pool(NCPU) as pool:
        lines = [l for part in pool.map(_gen, [(SEED * 1000 + hash_(tag) + k, roots, weights, prof, n // NCPU) for k in range(NCPU)]) for l in part]
    rawty = {i + 1: x['raw'] for i, x in enumerate(tab.json())}
    recs = []
    # every line runs in every configuration; they must agree
    def go(job):
        pi, c = job
        lo, rs, _ = parts[pi]
        mine = [l for l in lines if lo <= int(l.split(' ', 1)[0]) < lo + len(rs)]
        out = {}
        K = max(1, len(mine) // 2000)
        for q in range(K):
            sub = mine[len(mine) * q // K:len(mine) * (q + 1) // K]
            if not sub: continue
            rel = []
            for l in sub:
                a, b = l.split(' ', 1); rel.append('%d %s' % (int(a) - lo, b))
            r = run_harness(ctx, exes[job], [], env, stdin=('\n'.join(rel) + '\n').encode())
            for l, o in zip(sub, r.lines): out[l] = o
            if r.crash:
                f = r.crash[1].split(' ')
                ctx.violation('%s while parsing into %s (%s build)' % (r.crash[0], rs[int(f[0])].cpp if f[0].isdigit() else '?', c),
                              dict(config=c, crash=r.crash[0], type=rs[int(f[0])].cpp if f[0].isdigit() else '?', line=r.crash[1][:4000]))
        return job, out
    res = dict(pmap(go, jobs))
    for pi in range(len(parts)):
        lo, rs, _ = parts[pi]
        base = res[(pi, configs[0])]
        for l, o in base.items():
            d = json.loads(o)
            d['ty'] = tab.ix[id(roots[d.pop('root') + lo])]
            d['lx'] = len(recs) % 40 == 0
            if not d['lx'] and not rawty[d['ty']]:
                for st in d['steps']: st['doc'] = []   # only captures and lx look at the text
            recs.append((l, d))
            for c in configs[1:]:
                o2 = res[(pi, c)].get(l)
                if o2 is not None and o2 != o:
                    ctx.violation('builds %s and %s differ: %s' % (configs[0], c, roots[int(l.split(' ', 1)[0])].cpp), dict(line=l, a=json.loads(o), b=json.loads(o2)))
    return tab, recs
def hash_(s): return int(sha(s), 16) % 10**6

def _gen_lines(a):
    fn, seed, prof, n = a
    g = bgen.Gen(seed, prof)
    return [getattr(bgen, fn)(g) for _ in range(n)]
def gen_lines(tag, fn, prof, n):
    with Pool(NCPU) as pool:
        return [l for part in pool.map(_gen_lines, [(fn, SEED * 1000 + hash_(tag) + k, prof, n // NCPU) for k in range(NCPU)]) for l in part]

def run_lines(ctx, src, lines, configs, what, gen=None, env=None, std='c++17'):
    """Runs the lines in every configuration; returns [(line, record)] of the first; the others must agree."""
    exes = dict(pmap(lambda c: (c, build(ctx, src, c, std=std, gen=gen)), configs))
    parts = [lines[len(lines) * k // NCPU:len(lines) * (k + 1) // NCPU] for k in range(NCPU)]
    out = {}
    for c in configs:
        def go(part):
            if not part: return []
            r = run_harness(ctx, exes[c], [], env, stdin=('\n'.join(part) + '\n').encode())
            if r.crash: ctx.violation('%s in %s (%s build)' % (r.crash[0], what, c), dict(config=c, crash=r.crash[0], line=r.crash[1][:4000]))
            return list(zip(part, r.lines))
        out[c] = [x for p in pmap(go, parts) for x in p]
        if c != configs[0]:
            ref = dict(out[configs[0]])
            for l, o in out[c]:
                if ref.get(l, o) != o: ctx.violation('%s: builds %s and %s differ' % (what, configs[0], c), dict(line=l, a=ref[l], b=o)); break
    return [(l, json.loads(o)) for l, o in out[configs[0]]]

def judge_simple(ctx, module, recs, what, describe, env=None, maxbad=3):
    for l, d in recs[:3]: ctx.samples.append(describe(l, d))
    todo = recs
    for _ in range(maxbad):
        bad = validate(ctx, module + '.tla', module + '.cfg', [d for _, d in todo], env=env)
        if not bad: return
        l, d = todo[bad[0]]
        ctx.violation('%s: %s' % (what, json.dumps(describe(l, d))[:600]), dict(invariant=ctx.last_violated, line=l, record=d, **describe(l, d)))
        todo = todo[:bad[0]]
        if not todo: return

def scopes(ctx, n):
    model_check(ctx, 'ScopeMC.tla', 'ScopeMC.cfg')
    gen, env = table(ctx)
    recs = run_lines(ctx, 'scope.cpp', gen_lines('scope', 'scope_case', bgen.P(deep=.08), n), ['sse2', 'san'], 'reading with scopes', gen, env)
    def desc(l, d):
        f = l.split(' ')
        return dict(document=bytes(bl(f[2])).decode('latin1'), options=int(f[0]), delivery=int(f[1]), cuts=f[3], operations=''.join(o['op'] for o in d['ops']), results=[o['res'] for o in d['ops']])
    judge_simple(ctx, 'ScopeTrace', recs, 'a scope was not left where it ends', desc)

def releases(ctx, n):
    gen, env = table(ctx)
    recs = run_lines(ctx, 'release.cpp', gen_lines('release', 'rel_case', bgen.P(), n), ['sse2', 'san'], 'giving buffers back', gen, env)
    def desc(l, d):
        f = l.split(' ')
        return dict(document=bytes(bl(f[2])).decode('latin1'), options=int(f[0]), delivery=int(f[1]), cuts=f[3], replaced_by=bytes(bl(f[6])).decode('latin1') if len(f) > 4 else None, events=[e['e'] + str(e.get('b', '')) for q in d['parts'] for e in q['ev']][:60])
    judge_simple(ctx, 'RelTrace', recs, 'a buffer was not given back when it was done with, or a token is wrong', desc)

def brief(tab, l, d):
    t = tab.list[d['ty'] - 1]
    docs = [bytes.fromhex(x.split('@')[0]).decode('latin1') for x in l.split(' ')[5:]]
    return dict(type=t.cpp, documents=docs, outcomes=[s['ok'] for s in d['steps']],
                value=(d['steps'][-1].get('val') if d['steps'] else None), written=[bytes(w['text']).decode('latin1') for w in d['ser']])

def judge(ctx, tab, recs, spec='BindTrace', workers=None, maxbad=3):
    """TLC decides every record."""
    tf = ctx.path('types.json'); json.dump(tab.json(), open(tf, 'w'))
    todo = list(range(len(recs)))
    for r in recs[:3]: ctx.samples.append(brief(tab, *r))
    for _ in range(maxbad):
        bad = validate(ctx, spec + '.tla', spec + '.cfg', [recs[i][1] for i in todo], env={'TYPES': tf}, workers=workers)
        if not bad: return
        b = todo[bad[0]]
        l, d = recs[b]
        ctx.violation('%s: the object does not hold what the documents say, or is not written as it is: %s' % (ctx.last_violated, json.dumps(brief(tab, l, d))[:600]),
                      dict(invariant=ctx.last_violated, line=l, record=d, **brief(tab, l, d)))
        todo = [x for k, x in enumerate(todo) if k < bad[0]]
        if not todo: return

def pick(names, rand=0):
    f = [t for t in bt.fixed() if names is None or t.cpp in names or (t.k not in ('struct',) and 'CONTAINERS' in names)]
    return f + (bt.rand_types(SEED * 7 + 1, rand) if rand else [])

ASSUME = ['values of floating point members have at most 6 significant digits in these documents (C13 covers the conversion itself)',
          'documents contain no NUL byte', 'references and token lists are parsed from one contiguous buffer that outlives them',
          'points in time lie after 1974, so that their unit can be recognised']
def bind(ctx, tag, roots, prof, n, configs=('sse2', 'san')):
    tab, recs = records(ctx, roots, [3 if t.k == 'struct' else 1 for t in roots], prof, n, list(configs), tag)
    ctx.add('histories', len(recs)); ctx.add('documents', sum(len(d['steps']) for _, d in recs)); ctx.add('documents_accepted', sum(s['ok'] for _, d in recs for s in d['steps']))
    ctx.add('texts_written', sum(len(d['ser']) for _, d in recs)); ctx.add('types', len(tab.list))
    ctx.assumptions = ASSUME
    B = 40000
    for k in range(0, len(recs), B): judge(ctx, tab, recs[k:k + B])

def thorough(ctx, tag, roots, prof, n=240000, seeds=6):
    """more of the same, and random types"""
    bind(ctx, tag, roots, prof, n)
    for s in range(seeds):
        bind(ctx, '%s-r%d' % (tag, s), bt.rand_types(SEED * 100 + s, 10), prof, 30000)

def c05(ctx):
    scopes(ctx, 8000 if Q else 200000)
    prof = bgen.P(unknown=.95, deep=.12, absent=.4, wrong=.004, mutate=.05, ser=0, steps=(1, 1, 2), more=.4)
    roots = pick(['Point', 'OptIn', 'Names', 'Der', 'Node', 'Nest', 'Enums'])
    bind(ctx, 'c05', roots, prof, 8000) if Q else thorough(ctx, 'c05', roots, prof)
    return ctx.finish()
def c06(ctx):
    releases(ctx, 8000 if Q else 200000)
    prof = bgen.P(cut=.97, relax=0, wrong=.005, mutate=.05, unknown=.4, ser=.15, deep=.06)
    roots = pick(['Raws', 'Refs', 'Strs', 'Names']) + [bt.V(bt.R('joa')), bt.MAP(bt.R('jobj')), bt.STUP(bt.R('jarr'), bt.S, bt.R('joa'))]
    bind(ctx, 'c06', roots, prof, 8000) if Q else thorough(ctx, 'c06', roots, prof)
    return ctx.finish()
def c09(ctx):
    prof = bgen.P(ser=.1, unknown=.4, absent=.25, dup=.08, wrong=.008, mutate=.06)
    roots = pick(['Scal', 'Names', 'Der', 'Der2', 'Nest', 'Node', 'Big', 'Opts', 'Point'], 3)
    bind(ctx, 'c09', roots, prof, 14000) if Q else thorough(ctx, 'c09', roots, prof)
    return ctx.finish()
def c10(ctx):
    prof = bgen.P(wrong=.001, mutate=0, relax=.02, ser=1, more=0, cut=.15, unknown=.03, steps=(1, 1, 2), odd=.4)
    roots = pick(None, 4)
    bind(ctx, 'c10', roots, prof, 14000) if Q else thorough(ctx, 'c10', roots, prof)
    return ctx.finish()
def c18(ctx):
    prof = bgen.P(wrong=.015, ser=.1, unknown=.05, absent=.3, steps=(1, 1, 2, 2, 3), mutate=.1)
    roots = pick(['Cont', 'Uno', 'CONTAINERS', 'Nest', 'Strs'])
    bind(ctx, 'c18', roots, prof, 14000) if Q else thorough(ctx, 'c18', roots, prof)
    return ctx.finish()
def c19(ctx):
    prof = bgen.P(wrong=.01, ser=.7, unknown=.1, mutate=.15)
    roots = pick(['Enums']) + bt.enum_types()
    bind(ctx, 'c19', roots, prof, 14000) if Q else bind(ctx, 'c19', roots, prof, 400000)
    return ctx.finish()
def c20(ctx):
    prof = bgen.P(wrong=.008, ser=.7, unknown=.05, absent=.4, null=.3, steps=(1, 2, 2, 3, 3), mutate=.03)
    roots = pick(['Opts', 'OptMix', 'OptIn'], 3)
    bind(ctx, 'c20', roots, prof, 14000) if Q else thorough(ctx, 'c20', roots, prof)
    return ctx.finish()
