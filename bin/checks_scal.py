"""Strings and integers against spec/Str.tla and spec/Num.tla."""
from vlib import *
import random, re
from multiprocessing import Pool
from checks_tok import table
from checks_bind import run_lines, hash_
Q = TIER == 'quick'

def judge(ctx, recs, what, desc, mod='ScalTrace'):
    for l, d in recs[::max(1, len(recs) // 3)][:3]: ctx.samples.append(desc(l, d))
    B = 60000; n = 0
    for lo in range(0, len(recs), B):
        todo = recs[lo:lo + B]
        while todo and n < 3:
            bad = validate(ctx, mod + '.tla', mod + '.cfg', [d for _, d in todo])
            if not bad: break
            l, d = todo[bad[0]]; n += 1
            ctx.violation('%s: %s' % (what, json.dumps(desc(l, d))[:600]), dict(invariant=ctx.last_violated, line=l, record=d, **desc(l, d)))
            todo = todo[:bad[0]]

# ---------------------------------------------------------------- strings
PIECE = ['\\n', '\\t', '\\"', '\\\\', '\\/', '\\b', '\\f', '\\r', '\\q', '\\x41', '\\u12', '\\uZZZZ', '\\u123g', '\\u', '\\U0041', '\\a', '\\0', "\\'", '\\u00G0', '\\\\u0041', '\\\\\\n', '\\u{41}',
         '\\ud83d', '\\udc00', '\\ud83d\\u0041', '\\ud83dx', '\\ud83d\\n', '\\ud83d\\', '\\uDBFF\\uDFFF', '\\ud800\\udc00', '\\udc00\\ud800', '\\ud83d\\ud83d\\ude00', '\\ud83d\\u12', '\\ud83d\\ude0', '\\ud83d\\uZZZZ', '\\ud83d\\\\ude00']
SIMPLE = re.compile(r'(?:[^"\\]|\\.)*', re.S)
def body(r):
    """raw text of a string"""
    while True:
        o = ''
        n = r.choice([0, 1, 2, 3, 7, 14, 15, 16, 17, 30, 31, 32, 33, 34, 48, 63, 64, 65, 100])
        dense = r.random()
        while len(o) < n:
            x = r.random()
            if x < dense * .5: o += r.choice(PIECE)
            elif x < dense * .7: o += '\\u%04x' % r.choice([r.randrange(65536), r.randrange(256), r.choice([0x7f, 0x80, 0x7ff, 0x800, 0xffff, 0xd7ff, 0xe000, 0, 0x1f, 0x22, 0x5c])])
            elif x < dense * .75: c = r.randrange(0x10000, 0x110000) - 0x10000; o += ('\\u%04x\\u%04X' % (0xd800 + c // 1024, 0xdc00 + c % 1024))
            elif x < dense * .85: o += chr(r.randrange(1, 256)) if r.random() < .7 else chr(r.randrange(1, 32))
            else: o += r.choice('abcdefuU0189/{}[],: ')
        if SIMPLE.fullmatch(o) and '\0' not in o: return o.encode('latin1')
def cutspec(r, n):
    x = r.random()
    if x < .4 or n < 3: return '-'
    if x < .6: return ','.join(map(str, range(1, n)))
    return ','.join(map(str, sorted({r.randint(1, n - 1) for _ in range(r.randint(1, 4))})))
def s_lines(a):
    seed, n = a; r = random.Random(seed); out = []
    for _ in range(n):
        b = body(r)
        out.append('S %s %s' % (b.hex() or '-', cutspec(r, len(b) + 4)))
    return out
def contents(r):
    n = r.choice([0, 1, 2, 3, 8, 15, 16, 17, 31, 32, 33, 34, 47, 48, 49, 64, 65, 80])
    p = r.choice([0, .05, .3, 1])
    return bytes(r.choice([r.randrange(256), r.randrange(32), 34, 92, 127, 128, 255]) if r.random() < p else r.choice(b'abcdefghXYZ 0189/\xc3\xa9') for _ in range(n))
def e_lines(a):
    seed, n = a; r = random.Random(seed)
    return ['E %s' % (contents(r).hex() or '-') for _ in range(n)]
def par(fn, tag, n):
    with Pool(NCPU) as pool: return [l for p in pool.map(fn, [(SEED * 1000 + hash_(tag) + k, n // NCPU) for k in range(NCPU)]) for l in p]
def s_all():
    """every \\uXXXX, and surrogate pairs (all of them when thorough)"""
    out = []
    for lo in range(0, 65536, 64): out.append('S %s -' % ''.join('\\u%04x' % c if c & 1 else '\\u%04X' % c for c in range(lo, lo + 64)).encode().hex())
    step = 61 if Q else 1
    cs = list(range(0x10000, 0x110000, step))
    for k in range(0, len(cs), 48):
        out.append('S %s -' % ''.join('\\u%04x\\u%04x' % (0xd800 + (c - 0x10000) // 1024, 0xdc00 + (c - 0x10000) % 1024) for c in cs[k:k + 48]).encode().hex())
    return out
def e_all():
    """every byte at every position of a block"""
    out = []
    for c in list(range(0, 36)) + [47, 91, 92, 93, 126, 127, 128, 0xa2, 0xdc, 0xff] if Q else range(256):
        for n in (range(0, 36, 1) if Q else range(0, 80)):
            for tail in ((0, 17) if Q else (0, 1, 15, 16, 17, 31, 33)):
                out.append('E ' + (b'k' * n + bytes([c]) + b'z' * tail).hex())
    return out
CFG = ['sse2', 'scalar', 'san'] + (['avx2'] if have_avx2() else [])
def strings(ctx, n):
    gen, env = table(ctx)
    S = s_all() + par(s_lines, 'c11s', n); E = e_all() + par(e_lines, 'c11e', n)
    recs = run_lines(ctx, 'scal.cpp', S + E, CFG, 'strings', gen, env, std='gnu++17')
    txt = lambda b: bytes(b).decode('latin1')
    def desc(l, d):
        if d['kind'] == 'S': return dict(source=txt(d['raw']), parsed=[txt(x) for x in d.get('dec', [])], cuts=l.split(' ')[2])
        return dict(contents=txt(d['raw']), written=txt(d['tm']), read_back=d['back'])
    ctx.add('strings_parsed', len(S)); ctx.add('strings_written', len(E))
    judge(ctx, recs, 'a string does not survive', desc)

# ---------------------------------------------------------------- integers
def spell(r, v):
    """some spelling of the integer v, maybe with a fraction that does not matter"""
    s = str(abs(v)); sg = '-' if v < 0 else ''
    x = r.randrange(14)
    if x < 4: pass
    elif x == 4: s = '0' * r.choice([1, 2, 20, 40]) + s
    elif x == 5: s += '.' + r.choice(['', '0', '9', '99999999999999999999', '5', '000000000000000000000000000001', '4999'])
    elif x == 6: s += r.choice(['e0', 'E0', 'e+0', 'e-0', 'e00', '.0e0'])
    elif x == 7:
        k = r.randint(1, 45); s = s.zfill(k + 1); s = s[:-k] + '.' + s[-k:] + 'e%d' % k
    elif x == 8:
        k = r.randint(1, 45); s = s + '0' * k + 'e-%d' % k
    elif x == 9:
        k = r.randint(1, 25); s = s + '0' * k + '.' + r.choice(['', '7', '000']) + 'E-%d' % k
    elif x == 10:
        z = len(s) - len(s.rstrip('0'))
        if z and v: s = s[:-z] + r.choice(['e%d', 'E+%d', 'e0%d']) % z
    elif x == 11:
        k = r.randint(1, 30); s = '0.' + s.zfill(k) + 'e%d' % max(k, len(s))
        # the digits after the dot are max(k, len) wide
    elif x == 12:
        k = r.randint(0, len(s)); s = (s[:k] or '0') + '.' + s[k:] + 'e%d' % (len(s) - k)
    else:
        s = s + r.choice(['.5', '.999', 'e1', 'e2', 'e5', 'e-1', 'e-2', 'e-19', 'e40', 'e-40', 'e400', 'e-400', 'e99999999999', 'e-99999999999'])
    return sg + s
JUNK = ['', '-', '+', '+1', '.', '-.', '..', '1..2', '1.2.3', 'e', 'e5', '.e5', '1e', '1e+', '1e-', '1E', '--1', '1-', '1+1', '-e1', '1e1.5', '1e1e1', '0x10', '1 ', ' 1', '  12', ' -3', '- 3', '1,2', 'abc', '12a', 'true', 'nan', 'inf', '-inf',
        'Infinity', '1_000', '١', '1e1 ', '\t7', '+ 1', '00', '-00', '-0', '0e5', '.5', '-.5', '5.', '-5.', '.0', '0.', '1.e3', '1.5e', '0.e-1', '+0', '1e+05', '1e-05', ' ', '   ']
BASE = [s * (2**k + d) for k in list(range(0, 12)) + [15, 16, 17, 31, 32, 33, 62, 63, 64, 65, 126, 127, 128, 129, 140] for d in range(-3, 4) for s in (1, -1)] + \
       [s * (10**k + d) for k in range(0, 46) for d in (-1, 0, 1) for s in (1, -1)]
NUMTOK = re.compile(r'[0-9+-][0-9+.eE-]*')
def i_line(s, r):
    q = 1 if not NUMTOK.fullmatch(s) or r.random() < .15 else 0
    return 'I %s %d' % (s.encode().hex() or '-', q)
def i_lines(a):
    seed, n = a; r = random.Random(seed); out = []
    for _ in range(n):
        x = r.random()
        if x < .55: v = r.choice(BASE)
        elif x < .8: v = r.choice([1, -1]) * r.getrandbits(r.randint(1, 135))
        else: v = r.choice([1, -1]) * r.randrange(10**r.randint(1, 40))
        s = spell(r, v)
        if r.random() < .06:
            k = r.randint(0, len(s)); s = s[:k] + r.choice('+-.eE0123456789 x') + s[k + r.randint(0, 1):]
        out.append(i_line(s, r))
    return out
def integers(ctx, n):
    gen, env = table(ctx)
    r = random.Random(SEED)
    fix = [i_line(s, r) for s in JUNK if '"' not in s] + [i_line(str(v), r) for v in BASE] + ['I %s 0' % w.encode().hex() for w in ('true', 'false', 'null')]
    # every limit approached with a part of the digits in the exponent, and with superfluous digits behind the point
    for w in (8, 16, 32, 64, 128):
        for lim in (2 ** w, 2 ** (w - 1)):
            for k in range(1, len(str(lim)) + 1):
                for d in (-1, 0, 1):
                    m = lim // 10 ** k + d
                    for sg in ('', '-'):
                        fix.append(i_line('%s%de%d' % (sg, m, k), r))
                        if d <= 0 and k < 12: fix.append(i_line('%s%d%se-%d' % (sg, lim + d, '0' * k if k % 2 else '9' * k, k), r))
                        t = str(lim + d)
                        if k < len(t): fix.append(i_line('%s%s.%se%d' % (sg, t[:k], t[k:], len(t) - k), r))
    allv = [i_line(str(v), r) for v in (list(range(-140, 270)) + [r.randint(-33000, 66000) for _ in range(3000)] if Q else range(-33000, 66000))]
    recs = run_lines(ctx, 'scal.cpp', fix + allv + par(i_lines, 'c12', n), ['sse2', 'san'], 'integers', gen, env, std='gnu++17')
    ctx.add('spellings', len(recs)); ctx.add('conversions', sum(len(d['res']) for _, d in recs)); ctx.add('accepted', sum(x['ok'] for _, d in recs for x in d['res']))
    def desc(l, d):
        return dict(number=bytes(d['raw']).decode('latin1'), quoted=l.endswith('1'), results=['%s%d: %s' % ('i' if x['sg'] else 'u', x['w'], (('-' if x['v']['neg'] else '') + ''.join(map(str, x['v']['d'])) + ' written ' + bytes(x['text']).decode()) if x['ok'] else 'error') for x in d['res']])
    judge(ctx, recs, 'an integer is converted wrongly', desc)

def c11(ctx):
    model_check(ctx, 'StrMC.tla', 'StrMC.cfg' if Q else 'StrMC_deep.cfg')
    strings(ctx, 12000 if Q else 300000)
    ctx.assumptions = ['source text contains no NUL byte (string contents may)']
    return ctx.finish()
def c12(ctx):
    model_check(ctx, 'NumMC.tla', 'NumMC.cfg' if Q else 'NumMC_deep.cfg')
    integers(ctx, 16000 if Q else 500000)
    return ctx.finish()

# ---------------------------------------------------------------- floating point
def f_fixed():
    L = []
    for s in JUNK:
        if '"' in s: continue
        L.append('P %s %d' % (s.encode().hex() or '-', 0 if NUMTOK.fullmatch(s) else 1))
    for e in range(-400, 400, 7): L.append('P %s 0' % ('1e%d' % e).encode().hex())
    for e in range(-50, 45): L += ['P %s 0' % ('-%se%d' % (m, e)).encode().hex() for m in ('1', '9.999999999999999999', '0.000012345678901234567')]
    # the edges of both formats and the middles next to them
    for s in ['3.4028234663852885e38', '3.4028235677973366e38', '3.40282356779733661e38', '3.402823567797336616e38', '3.402823567797336617e38', '340282356779733661e21', '3402823567797336616e20', '1.7976931348623157e308',
              '1.797693134862315807e308', '1.797693134862315808e308', '17976931348623158e292', '1.7976931348623159e308', '7.0064923216240853e-46', '7.0064923216240854e-46', '7.006492321624085354e-46', '7.006492321624085355e-46', '1.401298464324817e-45',
              '2.4703282292062327e-324', '2.4703282292062328e-324', '2.470328229206232720e-324', '2.470328229206232721e-324', '4.9406564584124654e-324', '2.2250738585072011e-308', '2.2250738585072012e-308', '2.225073858507201136e-308', '2.225073858507201137e-308',
              '1.1754942807573642e-38', '1.1754943e-38', '1.17549435082229e-38', '9007199254740993', '9007199254740992', '9007199254740991', '9007199254740993e1', '9007199254740995', '16777217', '16777219', '33554431', '33554433', '9223372036854775807', '9223372036854775808',
              '9999999999999999999', '1e22', '1e23', '8.5e22', '4503599627370496.5', '4503599627370497.5', '4503599627370498.5', '0.1', '0.3', '1e19', '1e-22', '1e-23', '123456789012345678e-17', '0.000000000000000000000000000000000000000000001', '0e999999999', '1e999999999', '1e-999999999', '0.0000000000000000000e400']:
        for t in (s, '-' + s, '00' + s): L.append('P %s 0' % t.encode().hex())
    import struct
    for k in range(-1074, 1024):
        b = struct.unpack('<Q', struct.pack('<d', 2.0 ** k))[0]
        for d in ((0,) if Q and k % 5 else (0, -1, 1)): L.append('W d %x' % max(b + d, 1))
    for k in range(-149, 128):
        b = struct.unpack('<I', struct.pack('<f', 2.0 ** k))[0]
        for d in ((0,) if Q else (0, -1, 1)): L.append('W f %x' % max(b + d, 1))
    for k in range(-323, 309, 3 if Q else 1):
        b = struct.unpack('<Q', struct.pack('<d', float('1e%d' % k)))[0]
        L += ['W d %x' % (b | s) for s in (0, 1 << 63)]
    L += ['W d 0', 'W d 8000000000000000', 'W d 7fefffffffffffff', 'W d ffefffffffffffff', 'W d 1', 'W f 0', 'W f 80000000', 'W f 7f7fffff', 'W f 1']
    return L
def floats(ctx):
    gen, env = table(ctx)
    lines = f_fixed(); r = random.Random(SEED * 77)
    per = 40000; sweeps = 6 if Q else 400; tot = 0
    for a in ('w d', 'w f', 'p d', 'p f'):
        for _ in range(sweeps): lines.append('R %s %d %d %d' % (a, r.getrandbits(48), per, 200 if Q else 4000)); tot += per
    if Q:
        for _ in range(24): lines.append('S %d %d %d %d' % (r.getrandbits(31), r.randrange(1, 30) * 2 + 1, 40000, 4000)); tot += 40000
    else:   # every float
        for b in range(0, 2**31, 2**20): lines.append('S %d 1 %d %d' % (b, 2**20, 2**18)); tot += 2**20
    r.shuffle(lines)
    recs = run_lines(ctx, 'float.cpp', lines, ['sse2'], 'floating point numbers', gen, env, std='gnu++17')
    f = [l for l in f_fixed() if l[0] in 'PW']
    run_lines(ctx, 'float.cpp', f + ['R %s 5 10000 0' % a for a in ('w d', 'w f', 'p d', 'p f')], ['san'], 'floating point numbers', gen, env, std='gnu++17')
    flat = [(l, d) for l, ds in recs for d in ds]
    ctx.add('values_compared_with_the_c_library', tot); ctx.add('values_decided_by_the_model', len(flat))
    if len(flat) > 60000:      # nearly everything is wrong: the first ones will do
        flat = flat[:60000]
    def desc(l, d):
        v = d.get('v') or {}
        m = sum(x * 10000**i for i, x in enumerate(v.get('m', [])))
        return dict(text=bytes(d['raw']).decode('latin1'), type={'f': 'float', 'd': 'double'}[d['w']], what='written' if d['kind'] == 'W' else 'parsed', ok=d['ok'], value='%s%s' % ('-' if v.get('neg') else '', 'inf' if v.get('inf') else '%d * 2^%d' % (m, v.get('e', 0))))
    judge(ctx, flat, 'a floating point number is converted wrongly', desc, 'FltTrace')
def c13(ctx):
    model_check(ctx, 'FltMC.tla', 'FltMC.cfg' if Q else 'FltMC_deep.cfg')
    floats(ctx)
    ctx.assumptions = ['the C++ standard library preselects which of the swept values the model looks at: all that it converts differently, and a sample of the others']
    return ctx.finish()
