"""Calling functions from documents against spec/Calls.tla."""
from vlib import *
import btypes as bt, bgen, random
from btypes import I, S, B, F, V, MAP, STUP, SOPT, ST, Mem
from checks_tok import table
from checks_bind import run_lines, hash_
from multiprocessing import Pool
Q = TIER == 'quick'

class Fn:
    """a C++ method; ret: '' nothing, 'echo' its argument, 'tag' a text of its own; ctx: what it is passed besides the argument;
    mod: it reports an error when the number of calls so far is a multiple of it; ref: how the argument is passed"""
    def __init__(self, c, arg=None, ret='', ctx=0, mod=0, name=None, al=(), ref=0): self.__dict__.update(locals()); self.j = name if name is not None else c
class Cls:
    def __init__(self, cpp, fns, su=(), style='full'): self.cpp = cpp; self.fns = fns; self.su = list(su); self.style = style

def classes():
    pt = ST('Pt', [Mem('x', I()), Mem('y', SOPT(I())), Mem('tags', V(S), None, ['labels'])], style='short')
    # one class of every kind of function
    kinds = []
    for a, t in enumerate([None, I(), S, pt]):
        for r in (['', 'tag'] if t is None else ['', 'echo', 'tag']):
            for x in (0, 1, 2): kinds.append(Fn('k%d%s%d' % (a, r, x), t, r, x, 2 + (a + x) % 3 if x else 0, ref=(a + x) % 3))
    k = Cls('Kinds', kinds)
    a0 = Cls('A0', [Fn('deep', I(), 'echo'), Fn('same', S, 'tag', 1, 3, al=['a0same'])])
    a1 = Cls('A1', [Fn('one', I(), 'echo', al=['uno', 'eins']), Fn('same', I(), 'tag'), Fn('two', MAP(I()), 'echo', 1, 2)], [a0])
    a2 = Cls('A2', [], [a1], 'none')
    b1 = Cls('B1', [Fn('bee', V(I()), 'echo', 2, 3), Fn('only', None, 'tag'), Fn('over', None, '')], style='short')
    d = Cls('Dv', [Fn('over', STUP(I(), S), 'echo', al=['deep', 'bee2', 'x']), Fn('own', B, 'echo', name='o w n', al=['one', 'own']), Fn('odd', F(), 'tag', 1, 2, name='', al=['y\\n', 'odd']), Fn('last', pt, 'echo')], [a2, b1])
    e = Cls('Ex', [Fn('e1', S, ''), Fn('e2', V(pt), 'echo', 1, 4)], [b1], 'ext')
    e0 = Cls('Ex0', [Fn('solo', S, 'echo')], [], 'ext')
    return [k, d, e, e0, b1, a1]

class Calls:
    """classes and their functions: C++ source and the table for TLC"""
    def __init__(self, roots):
        self.roots = roots; self.cls = []; self.fns = []; self.types = []
        for r in roots: self.add(r)
        for f in self.fns:
            if f.arg is not None and not any(t is f.arg for t in self.types): self.types.append(f.arg)
        self.tab = bt.Table(self.types + [S])
    def add(self, c):
        if c in self.cls: return
        for s in c.su: self.add(s)
        self.cls.append(c)
        for f in c.fns: f.id = len(self.fns) + 1; self.fns.append(f)
    def json(self):
        by = lambda s: list(s.encode('latin1'))
        return dict(types=self.tab.json(), str=self.tab.ix[id(S)],
                    fns=[dict(n=by(f.j), al=[by(a) for a in f.al], arg=self.tab.ix[id(f.arg)] if f.arg is not None else 0, ret=f.ret, ctx=f.ctx > 0, mod=f.mod, tag=by('f%d' % f.id), msg=by('msg%d.' % f.id)) for f in self.fns],
                    cls=[dict(f=[f.id for f in c.fns], su=[self.cls.index(s) + 1 for s in c.su]) for c in self.cls])
    def cpp(self):
        cs = self.tab.cstr; o = ['struct Entry {}; template <class T> Entry entry() { return {}; }', self.tab.cpp()]
        for c in self.cls:
            L = ['struct %s%s {' % (c.cpp, ' : ' + ', '.join('public ' + s.cpp for s in c.su) if c.su else '')]
            for f in c.fns:
                a = []
                if f.arg is not None: a.append({0: 'const %s &a', 1: '%s a', 2: '%s &a'}[f.ref] % f.arg.cpp)
                if f.ctx: a.append({1: 'JS::CallFunctionErrorContext &c', 2: 'JS::CallFunctionContext &c'}[f.ctx])
                r = {'': 'void', 'echo': f.arg.cpp if f.arg else '', 'tag': 'std::string'}[f.ret]
                b = 'note(%d%s);' % (f.id, ', a' if f.arg is not None else '')
                if f.ctx == 1: b += ' if (%d && ncalls %% %d == 0) c.setError("msg%d.");' % (f.mod, f.mod or 1, f.id)
                if f.ctx == 2: b += ' if (%d && ncalls %% %d == 0) c.error_context.setError(JS::Error(int(JS::Error::UserDefinedErrors) + %d), "msg%d.");' % (f.mod, f.mod or 1, f.id, f.id)
                b += {'': '', 'echo': ' return a;', 'tag': ' return "f%d";' % f.id}[f.ret]
                L.append('  %s %s(%s) { %s }' % (r, f.c, ', '.join(a), b))
            def info(f):
                al = ''.join(', ' + cs(x) for x in f.al)
                if f.name is None: return 'JS_FUNCTION_ALIASES(%s%s)' % (f.c, al) if f.al else 'JS_FUNCTION(%s)' % f.c
                return 'JS_FUNCTION_WITH_NAME_ALIASES(%s, %s%s)' % (f.c, cs(f.name), al) if f.al else 'JS_FUNCTION_WITH_NAME(%s, %s)' % (f.c, cs(f.name))
            sup = 'JS_SUPER_CLASSES(%s)' % ', '.join('JS_SUPER_CLASS(%s)' % s.cpp for s in c.su)
            names = ', '.join(f.c for f in c.fns); infos = ', '.join(info(f) for f in c.fns); plain = all(f.name is None and not f.al for f in c.fns); ext = ''
            if c.style == 'none': L.append('  JS_FUNCTION_CONTAINER_WITH_SUPER_WITHOUT_MEMBERS(%s);' % sup)
            elif c.style == 'short' and plain: L.append('  JS_FUNC_OBJ_SUPER(%s, %s);' % (sup, names) if c.su else '  JS_FUNC_OBJ(%s);' % names)
            elif c.style == 'ext': ext = 'JS_FUNCTION_CONTAINER_EXTERNAL_WITH_SUPER(%s, %s, %s)' % (c.cpp, sup, infos) if c.su else 'JS_FUNCTION_CONTAINER_EXTERNAL(%s, %s)' % (c.cpp, infos)
            else: L.append('  JS_FUNCTION_CONTAINER_WITH_SUPER(%s, %s);' % (sup, infos) if c.su else '  JS_FUNCTION_CONTAINER(%s);' % infos)
            L.append('};'); o.append('\n'.join(L) + '\n' + ext)
        o.append('inline void classes(std::vector<Runner> &r) { ' + ' '.join('r.push_back(&runCase<%s>);' % c.cpp for c in self.cls) + ' }')
        return '\n'.join(o) + '\n'

def order(c):
    return list(reversed(c.fns)) + [f for s in reversed(c.su) for f in order(s)]
def _gen(a):
    seed, n = a
    c = Calls(classes())
    p = bgen.P(wrong=.02, mutate=.08, relax=.1, odd=.2, unknown=.2, absent=.1)
    g = bgen.Gen(seed, p); r = g.r; out = []
    while len(out) < n:
        k = r.choice(c.roots); fs = order(k); g.wsp = r.choice([.5, .9, 1, 1])
        pw = p.wrong = r.choice([0, 0, .02, .15])
        relax = r.randrange(1, 16) if r.random() < .1 else 0
        def member():
            f = r.choice(fs); x = r.random()
            nm = f.j if x < .6 or not f.al else r.choice(f.al)
            if x > .93: nm = r.choice([nm + 'x', nm[:-1], nm.upper(), '', 'k', '\\u0061', nm + ' ', 'unknown', f.c, 'null'])
            if r.random() < pw: v = g.any(2, True)
            elif f.arg is None: v = r.choice(['null', ('a', []), ('o', []), 'true']) if r.random() < .6 else g.any(2, True)
            else: v = g.gen(f.arg, bgen.info(f.arg)['flt'])
            return nm, v
        def document():
            if r.random() < .04: return g.any(2, True)
            return ('o', [member() for _ in range(r.choice([0, 1, 2, 3, 4, 6, 8]))])
        docs = [document() for _ in range(r.choice([1, 1, 1, 2, 3]))]
        s = ''.join(g.render(x, relax) for x in docs)
        if r.random() < p.mutate: s = g.mutate(s)
        if r.random() < .01:
            big = '"' + 'abcdefgh' * r.choice([140, 300, 560]) + '"'
            s = s.replace('""', big, 3)
        if not g.floatsafe(s.replace('"', ' ')): continue
        b = s.encode('latin1', 'replace')
        if 0 in b or len(b) > 14000: continue
        cuts = '-'
        if r.random() < .5 and len(b) > 1:
            x = r.random()
            cuts = ','.join(map(str, range(1, len(b)))) if x < .3 else ','.join(map(str, sorted({r.randint(1, len(b) - 1) for _ in range(r.randint(1, 4))})))
        mode = r.choice([0, 0, 1]); opt = relax if r.random() < .9 else r.randrange(16)
        out.append('%d %d %d %s%db%d %d %s@%s@%d' % (c.cls.index(k), r.choice([7, 7, 5, 6, 4, 3]) | r.choice([0, 0, 8, 16, 24]), opt, r.choice('pc'), r.choice([0, 1, 2, 4]), r.choice([0, 1, 2, 7, 31]), mode, b.hex() or '-', cuts, r.randrange(4)))
    return out

def records(ctx, n, tag, configs=('sse2', 'san')):
    c = Calls(classes()); gen, env = table(ctx)
    with Pool(NCPU) as pool: lines = [l for p in pool.map(_gen, [(SEED * 1000 + hash_(tag) + k, n // NCPU) for k in range(NCPU)]) for l in p]
    recs = run_lines(ctx, 'calls.cpp', lines, list(configs), 'calling functions', dict(gen, **{'calls_gen.h': c.cpp()}), env)
    for i, (l, d) in enumerate(recs):
        d['lx'] = i % 40 == 0 and len(d['doc']) < 800 and len(d['text']) < 800
        if not d['lx']: d['doc'] = []
    tf = ctx.path('calls.json'); json.dump(c.json(), open(tf, 'w'))
    ty = ctx.path('types.json'); json.dump(c.json()['types'], open(ty, 'w'))
    return c, recs, {'CALLS': tf, 'TYPES': ty}
def show(c, l, d):
    f = l.split(' ')
    return dict(cls=c.cls[int(f[0])].cpp, document=bytes(bl(f[5].split('@')[0])).decode('latin1')[:1500], cuts=f[5].split('@')[1][:60], allow_missing=bool(int(f[1]) & 8), stop=bool(int(f[1]) & 16), result=bytes(d['text']).decode('latin1')[:1500],
                calls=[[c.fns[x['f'] - 1].c for x in q['log']] for q in d['runs']], list=[[(bytes(x['n']).decode('latin1'), x['err']) for x in q['ex']] for q in d['runs']], returned=[q['err'] for q in d['runs']])
def small(quiet):
    """three classes for the model checker"""
    a = Cls('P', [Fn('a', I(), 'echo', al=['p', 'b']), Fn('c', None, '')])
    b = Cls('Q', [Fn('b', S, 'tag', 1, 0 if quiet else 2, al=['c']), Fn('a', V(I()), 'echo')], [a])
    return Calls([b]).json()
def c17(ctx):
    for quiet in (True, False):
        w = small(quiet); wf = ctx.path('world%d.json' % quiet); json.dump(w, open(wf, 'w')); tf = ctx.path('wtypes.json'); json.dump(w['types'], open(tf, 'w'))
        model_check(ctx, 'CallsMC.tla', 'CallsMC.cfg' if Q else 'CallsMC_deep.cfg', env={'CALLS': wf, 'TYPES': tf})
    c, recs, env = records(ctx, 16000 if Q else 300000, 'c17')
    for l, d in recs[:3]: ctx.samples.append(show(c, l, d))
    ctx.add('histories', len(recs)); ctx.add('documents', sum(len(d['runs']) for _, d in recs)); ctx.add('calls', sum(len(q['log']) for _, d in recs for q in d['runs'])); ctx.add('functions', len(c.fns))
    B = 40000
    for lo in range(0, len(recs), B):
        todo = recs[lo:lo + B]
        for _ in range(3):
            if not todo: break
            bad = validate(ctx, 'CallsTrace.tla', 'CallsTrace.cfg', [d for _, d in todo], env=env)
            if not bad: break
            l, d = todo[bad[0]]
            ctx.violation('%s: a document was not executed as it says: %s' % (ctx.last_violated, json.dumps(show(c, l, d))[:900]), dict(invariant=ctx.last_violated, line=l, record=d, **show(c, l, d)))
            todo = todo[:bad[0]]
    ctx.assumptions = ['functions do not themselves execute documents with the same context', 'after a document that could not be executed to its end nothing more is read from that context']
    return ctx.finish()
