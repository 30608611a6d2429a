"""The serializer and reformat against spec/Layout.tla."""
from vlib import *
import bgen
from checks_tok import table
from checks_bind import gen_lines, run_lines, judge_simple
Q = TIER == 'quick'

def mc(ctx):
    for c in ['SerMC'] if Q else ['SerMC_wide', 'SerMC_deep']: model_check(ctx, 'SerMC.tla', c + '.cfg')

def ser(ctx, fn, tag, n, what, configs=('sse2', 'san')):
    gen, env = table(ctx)
    lines = gen_lines(tag, fn, bgen.P(deep=.06, huge=0), n)
    recs = run_lines(ctx, 'ser.cpp', lines, list(configs), what, gen, env)
    for k, (l, d) in enumerate(recs): d['lx'] = k % 40 == 0 and len(d['text'] if d['kind'] == 'W' else d['out']) < 800
    ctx.add('cases', len(recs)); ctx.add('tokens', sum(len(d['tks']) if d['kind'] == 'W' else len(d['in']['tk']) for _, d in recs))
    txt = lambda b: bytes(b).decode('latin1')
    def desc(l, d):
        if d['kind'] == 'W': return dict(options=d['s'], output_buffers=l.split(' ')[7][:80], tokens=[t['nt'] + ':' + txt(t['n']) + ' ' + t['vt'] + ':' + txt(t['v']) for t in d['tks']][:60], results=d['res'][:60], text=txt(d['text'])[:2000])
        return dict(options=d['s'], document=txt(d['doc'])[:2000], succeeded=d['ok'], out=txt(d['out'])[:2000])
    B = 40000
    for k in range(0, len(recs), B): judge_simple(ctx, 'SerTrace', recs[k:k + B], what, desc)

def c07(ctx):
    mc(ctx)
    ser(ctx, 'ser_case', 'c07', 16000 if Q else 500000, 'the serializer does not write what it was given')
    ctx.assumptions = ['token sequences have the shape of documents (names inside objects only); values and names are written as they are given, already escaped']
    return ctx.finish()
def c08(ctx):
    mc(ctx)
    ser(ctx, 'ref_case', 'c08', 12000 if Q else 400000, 'reformatting changed more than the layout')
    ctx.assumptions = ['documents contain no NUL byte', 'input that merely ends early is reformatted as far as it goes']
    return ctx.finish()
