"""C01-C04, C22: the tokenizer against spec/Tok.tla."""
from vlib import *

ALL = ','.join(str(i) for i in range(16))
RELAX = ','.join(str(i) for i in range(1, 16))
Q = TIER == 'quick'

def table(ctx):
    """Export the control of Tok.tla with TLC; returns (generated header, env)."""
    j = ctx.path('tab.json')
    tlc(ctx, 'TokTable.tla', 'TokTable.cfg', env={'OUT': j}, workers=1, name='export of the control table')
    subprocess.check_call([sys.executable, os.path.join(VERIF, 'bin', 'gen_table.py'), j, ctx.path('tok_table.h'), ctx.path('tok_table.bin')])
    return {'tok_table.h': open(ctx.path('tok_table.h')).read()}, {'TOK_TABLE': ctx.path('tok_table.bin')}

DELIV = ['push', 'callback', 'queue', 'push+release', 'callback+release']
def describe(opt, hx, cuts, how):
    return dict(options=dict(unquoted=bool(opt & 1), newline=bool(opt & 2), superfluous_comma=bool(opt & 4), comments=bool(opt & 8)),
                input=bytes(bl(hx)).decode('latin1'), input_hex=hx, cuts=cuts, delivery=DELIV[how])

def rec_json(line):
    f = line.split(' ')
    opt = int(f[1])
    toks = [] if f[5] == '-' else [dict(zip(('nt', 'n', 'vt', 'v'), t.split(','))) for t in f[5].split(';')]
    # tokens are nt,hex,vt,hex but the type letters themselves may be brackets, never commas
    for t in toks: t['n'] = bl(t['n']); t['v'] = bl(t['v'])
    return dict(o=dict(a=bool(opt & 1), n=bool(opt & 2), s=bool(opt & 4), c=bool(opt & 8)), **{'in': bl(f[2])},
                cuts=[] if f[3] == '-' else [int(x) for x in f[3].split(',')], toks=toks, failed=f[6] != '0',
                marks=[] if f[7] == '-' else [int(x) for x in f[7].split(',')])

def run_tok(ctx, what, optset, plan, recs_wanted, kinds):
    """plan: list of (config, nrandom, depth).  Returns (records, bad) lines."""
    gen, env = table(ctx)
    exes = dict(pmap(lambda c: (c[0], build(ctx, 'tok.cpp', c[0], gen=gen)), plan))
    recs = []; bad = []
    for i, (cfg, n, depth) in enumerate(plan):
        rs = pmap(lambda sh: run_harness(ctx, exes[cfg], [what, optset, SEED, n // NCPU, depth, sh, NCPU, recs_wanted // NCPU if i == 0 else 0], env), range(NCPU))
        for r in rs:
            if r.crash:
                f = r.crash[1].split()
                ctx.violation('%s in the tokenizer (%s build)' % (r.crash[0], cfg),
                              dict(config=cfg, crash=r.crash[0], **(describe(int(f[1]), f[2], f[3], int(f[4])) if len(f) > 4 else {})))
            for l in r.lines:
                if l.startswith('STAT '):
                    _, k, v = l.split()
                    if k == 'table_entries_hit': ctx.cov[cfg + '_' + k] = max(ctx.cov.get(cfg + '_' + k, 0), int(v))
                    else: ctx.add(cfg + '_' + k, int(v))
                elif l.startswith('MISMATCH '):
                    f = l.split()
                    if f[1] in kinds:
                        ctx.violation('%s: %r' % (f[1], bytes(bl(f[3]))[:200]), dict(config=cfg, kind=f[1], **describe(int(f[2]), f[3], f[4], int(f[5]))))
                elif l.startswith('BADREC '): bad.append(l)
                elif l.startswith('REC ') and i == 0: recs.append(l)
    return recs, bad

def trace_check(ctx, recs, bad, must=True):
    rs = [rec_json(l) for l in recs]
    for r in rs[:3]:
        ctx.samples.append(dict(options=r['o'], input=bytes(r['in']).decode('latin1'), cuts=r['cuts'], tokens=len(r['toks']), failed=r['failed']))
    rej = validate(ctx, 'TokTrace.tla', 'TokTrace.cfg', rs)
    if rej and not must:
        ctx.cov['records_deviating_from_model'] = len(rej); return
    if rej: raise CheckError('TLC rejects a record the exported table accepts: %r' % (rs[rej[0]],))
    # every deviation the table found must be one for TLC, too
    for l in bad[:2]:
        b = rec_json(l)
        if not validate(ctx, 'TokTrace.tla', 'TokTrace.cfg', [b]):
            raise CheckError('TLC accepts a record the exported table rejects: %r' % (b,))

def fast():
    return ['sse2', 'scalar', 'sse42'] + (['avx2'] if have_avx2() else [])

def c01(ctx):
    plan = [('sse2', 16000, 4), ('scalar', 8000, 3), ('san', 2000, 2)] if Q else \
           [('sse2', 600000, 5)] + [(c, 200000, 4) for c in fast()[1:]] + [('san', 60000, 3), ('sanscalar', 60000, 3)]
    recs, bad = run_tok(ctx, 'chunk', ALL, plan, 4000 if Q else 40000, ('segmentation',))
    trace_check(ctx, recs, [])
    return ctx.finish()

def conf(ctx, optset, kinds, plan):
    recs, bad = run_tok(ctx, 'conf', optset, plan, 4000 if Q else 60000, kinds)
    trace_check(ctx, recs, bad if ctx.violations else [])

def plan_conf(n, d):
    if Q: return [('sse2', n, d), ('scalar', n // 2, d - 1), ('san', n // 10, d - 3)]
    return [('sse2', n * 20, d + 1)] + [(c, n * 4, d) for c in fast()[1:]] + [('san', n, d - 1)]

def c02(ctx):
    model_check(ctx, 'TokMC.tla', 'TokMC_bytes.cfg')
    if not Q: model_check(ctx, 'TokMC.tla', 'TokMC_lex.cfg')
    conf(ctx, '0', ('valid',), plan_conf(400000, 6))
    return ctx.finish()

def c03(ctx):
    model_check(ctx, 'TokMC.tla', 'TokMC_lex.cfg')
    if not Q: model_check(ctx, 'TokMC.tla', 'TokMC_bytes.cfg')
    conf(ctx, '0', ('accept',), plan_conf(400000, 6))
    # the recorded deviation
    gen, env = table(ctx)
    exe = build(ctx, 'tok.cpp', 'sse2', gen=gen)
    r = run_harness(ctx, exe, ['one', 0, '[1,]'.encode().hex(), '-', 0], env)
    if any(l.startswith('whole') and 'error' not in l for l in r.lines):
        ctx.known.append('[1,] (a comma behind the last, scalar, array element) is accepted without the superfluous-comma option')
    return ctx.finish()

def c04(ctx):
    model_check(ctx, 'TokMC.tla', 'TokMC_relax.cfg')
    model_check(ctx, 'TokMC.tla', 'TokMC_relaxb.cfg')
    conf(ctx, RELAX, ('valid', 'accept'), plan_conf(400000, 5))
    return ctx.finish()

def c22(ctx):
    gen, env = table(ctx)
    # (name, flags, language standard)
    cfgs = [('scalar', 'c++17'), ('sse2', 'c++17'), ('sse42', 'c++17')] + ([('avx2', 'c++17')] if have_avx2() else []) + [('sse2', 'c++11'), ('scalar', 'c++20')]
    if not Q: cfgs += [('sse2', 'c++14'), ('avx2' if have_avx2() else 'sse42', 'c++11')]
    exes = dict(pmap(lambda c: (c, build(ctx, 'tok.cpp', c[0], std=c[1], gen=gen)), cfgs))
    n, d = (160000, 4) if Q else (4000000, 5)
    recs = []
    def go(sh):
        ref = None
        for c in cfgs:
            nm = '/'.join(c)
            r = run_harness(ctx, exes[c], ['digest', ALL, SEED, n // NCPU, d, sh, NCPU, 60], env)
            if r.crash:
                f = r.crash[1].split()
                ctx.violation('%s in the %s build' % (r.crash[0], nm), dict(config=nm, crash=r.crash[0], **(describe(int(f[1]), f[2], f[3], int(f[4])) if len(f) > 4 else {})))
                return
            ds = [l for l in r.lines if l.startswith('D ')]
            recs.extend(l for l in r.lines if l.startswith('REC '))
            if ref is None: ref = ds; continue
            ctx.add('compared_' + nm, len(ref))
            if ds != ref:
                for a, b in zip(ref, ds):
                    if a != b:
                        f = a.split()
                        ctx.violation('builds %s and %s differ on %r' % (cfgs[0], nm, bytes(bl(f[2]))[:200]), dict(configs=[cfgs[0], nm], **describe(int(f[1]), f[2], f[3], 3)))
                        break
                else:
                    raise CheckError('digests of different length')
    pmap(go, range(NCPU))
    if not ctx.violations: trace_check(ctx, recs, [], must=False)
    return ctx.finish()
