"""Documents and histories for the binding checks, directed by the type they are parsed into."""
import random, re
import btypes as bt

class P:
    """what to generate: probabilities"""
    def __init__(self, **kw):
        self.wrong = .02      # a value of some other shape
        self.absent = .12     # a member left out
        self.dup = .04        # a member twice
        self.unknown = .25    # unknown members in an object
        self.null = .08       # null somewhere
        self.mutate = .12     # a byte changed in the finished document
        self.relax = .12      # relaxed syntax
        self.cut = .5         # several buffers
        self.steps = (1, 1, 1, 2, 2, 3)
        self.deep = .05       # very deep unknown values
        self.huge = .06       # of these, beyond what fits in a byte
        self.more = .2        # a further document behind it
        self.width = 4
        self.ser = .6
        self.odd = .3         # unusual spellings of scalars
        self.fill = 1.0       # how full containers are
        self.__dict__.update(kw)

INTS = ['0', '1', '-1', '7', '42', '-17', '127', '128', '-128', '-129', '255', '256', '32767', '32768', '-32768', '-32769', '65535', '65536', '2147483647', '2147483648', '-2147483648', '-2147483649',
        '4294967295', '4294967296', '9223372036854775807', '9223372036854775808', '-9223372036854775808', '-9223372036854775809', '18446744073709551615', '18446744073709551616', '99999999999999999999999']
ESC = ['\\n', '\\t', '\\"', '\\\\', '\\/', '\\b', '\\f', '\\r', '\\u0041', '\\u00e9', '\\u20AC', '\\ud83d\\ude00', '\\u0001', '\\u0000', '\\u001f', '\\u007f', '\\u0800', '\\ud800\\udc00', '\\udbff\\udfff']
class Gen:
    def __init__(self, seed, prof):
        self.r = random.Random(seed); self.p = prof
    def ch(self, pr): return self.r.random() < pr
    # ---- scalars (raw text)
    def number(self, short=False):
        r = self.r
        if short:
            x = r.randrange(6)
            if x == 0: return str(r.randint(-999, 999))
            if x == 1: return '%d.%d' % (r.randint(-99, 99), r.randint(0, 999))
            if x == 2: return '%d.%de%d' % (r.randint(-9, 9), r.randint(0, 99), r.randint(-20, 20))
            if x == 3: return r.choice(['0', '-0', '0.0', '-0.0', '.5', '5.', '00012', '1E3', '1e+05', '-1.5E-3'])
            if x == 4: return '%de%d' % (r.randint(-999, 999), r.randint(-20, 20))
            return str(r.randint(-99999, 99999))
        x = r.randrange(10)
        if x < 4: return str(r.randint(-200, 200))
        if x < 6: return r.choice(INTS)
        if not self.ch(self.p.odd): return str(r.randint(-70000, 70000))
        if x == 6: return r.choice(INTS) + r.choice(['.0', '.9', '.', 'e0', 'E1', 'e-1', '.5e1', 'e2', 'e-5', 'e+3'])
        if x == 7: return '%s%d.%de%d' % (r.choice(['', '-']), r.randint(0, 9), r.randint(0, 10**9), r.randint(-3, 22))
        if x == 8: return r.choice(['-0', '00012', '.5', '-.9', '5.', '1e400', '-1e400', '1e-400', '0e999', '1E0', '123456789012345678901234567890', '0.000000000000000000001'])
        return str(r.randint(-2**r.randint(1, 129), 2**r.randint(1, 129)))
    def strbody(self):
        r = self.r
        n = r.choice([0, 1, 2, 3, 5, 8, 13, 20, 31, 32, 33, 40]) if self.ch(.5) else r.randint(0, 6)
        o = ''
        while len(o) < n:
            x = r.randrange(12)
            if x < 6: o += r.choice('abcXYZ 019_.{}[],:/')
            elif x < 8: o += r.choice(ESC)
            elif x == 8: o += r.choice(['\u00e9', '\u00ff', '\u0080', '\x7f', '\u00c3', '\u00a9'])
            elif x == 9: o += r.choice(['\\ud83d', '\\udc00', '\\u12', '\\x', '\\ud83d\\u0041', '\\uZZZZ', '\\q']) if self.ch(self.p.odd) else 'k'
            else: o += r.choice('abcdefgh')
        return o
    def string(self): return '"' + self.strbody() + '"'
    def scalar(self, short):
        x = self.r.randrange(7)
        if x < 2: return self.number(short)
        if x < 4: return self.string()
        return self.r.choice(['true', 'false', 'null'])
    # ---- trees: str (scalar text) | ('o', [(name, tree)]) | ('a', [tree])
    def name(self):
        return self.r.choice(['zz', 'unknown', '', 'a', 'b', 'x', 'key', 'k\\n', 'long name with blanks', 'é', '}', 'name\\"quoted', 'null'])
    def any(self, d, short):
        if self.ch(self.p.deep):
            t = self.scalar(short)
            if self.ch(self.p.huge): return self.huge(t)
            for _ in range(self.r.choice([3, 7, 20, 60])): t = ('a', [t]) if self.ch(.5) else ('o', [(self.name(), t)])
            return t
        x = self.r.randrange(8)
        if d <= 0 or x < 4: return self.scalar(short)
        if x < 6: return ('a', [self.any(d - 1, short) for _ in range(self.r.randint(0, 3))])
        return ('o', [(self.name(), self.any(d - 1, short)) for _ in range(self.r.randint(0, 3))])
    def huge(self, t):
        """beyond what fits in a byte: nesting of one kind, or many elements"""
        n = self.r.choice([255, 256, 257, 300])
        if self.ch(.4): return ('a', [t] + ['%d' % (i % 7) for i in range(n)]) if self.ch(.5) else ('o', [('k%d' % i, '%d' % (i % 7)) for i in range(n)])
        a = self.ch(.5)
        for _ in range(n): t = ('a', [t]) if a else ('o', [('', t)])
        return t
    def cnt(self): return self.r.choice([0, 1, 1, 2, 2, 3, self.p.width])
    def gen(self, t, short, d=4):
        r, k, p = self.r, t.k, self.p
        if self.ch(p.wrong): return self.any(2, short)
        if k not in ('nul', 'nulc', 'up', 'sp', 'silp') and self.ch(p.null * p.wrong): return 'null'
        if k in ('int', 'enumv'):
            n = self.number(short)
            if k == 'enumv': n = r.choice(['-5', '0', '7', '3'])
            elif t.w <= 16 and self.ch(.4): n = str(r.randint(-2**(t.w - 1), 2**(t.w - 1)))
            if self.ch(p.odd * .2): n = '"' + r.choice(['', ' ', '  ']) + n + '"'
            return n
        if k == 'flt': return self.number(True)
        if k == 'bool': return r.choice(['true', 'false', 'true', 'false', '"true"' if self.ch(p.odd) else 'true'])
        if k == 'time':
            return r.choice([lambda: str(r.randint(120000000, 9 * 10**9)), lambda: str(r.randint(110 * 10**9, 9 * 10**12)), lambda: str(r.randint(110 * 10**12, 9 * 10**15)), lambda: str(r.randint(110 * 10**15, 9 * 10**18)),
                             lambda: str(r.randint(120000, 9 * 10**6)) + '000000000', lambda: str(r.randint(11 * 10**8, 9 * 10**9) * 10**9 + r.choice([0, 10**6, 10**3, 1]))])()
        if k in ('str', 'sils'): return self.string() if not self.ch(p.wrong * 3) else self.any(1, short)
        if k == 'enum':
            if self.ch(.08): return r.choice([lambda: str(r.randint(-2, len(t.names) + 1)), lambda: '"' + r.choice(t.names)[:-1] + '"', lambda: '"' + r.choice(t.names) + 'x"', lambda: '"' + r.choice(t.names).upper() + '"', lambda: r.choice(t.names), lambda: '" %s"' % r.choice(t.names)])()
            return '"' + r.choice(t.names) + '"'
        if k in ('jobj', 'robj'): return ('o', [(self.name(), self.any(2, short)) for _ in range(r.randint(0, 3))])
        if k in ('jarr', 'rarr'): return ('a', [self.any(2, short) for _ in range(r.randint(0, 3))])
        if k in ('joa', 'roa'): return ('o', [(self.name(), self.any(2, short))]) if self.ch(.5) else ('a', [self.any(2, short)] if self.ch(.8) else [])
        if k == 'jtok': return self.any(2, short)
        if k in ('vec', 'silv', 'set', 'uset'):
            n = self.cnt() if d > 0 else 0
            l = [self.gen(t.t, short, d - 1) for _ in range(n)]
            if k in ('set', 'uset') and not self.ch(.1): l = list(dict.fromkeys(l)) if all(isinstance(x, str) for x in l) else l
            return ('a', l)
        if k == 'avc': return ('a', [self.gen(t.t, short, d - 1) for _ in range(r.choice([t.n, t.n - 1, 0, 1] + ([t.n + 1] if self.ch(.2) else [])))])
        if k in ('arr', 'sarr'): return ('a', [self.gen(t.t, short, d - 1) for _ in range(t.n + (r.choice([-1, 1]) if self.ch(p.wrong * 2) else 0))])
        if k in ('tup', 'stup'):
            l = [self.gen(x, short, d - 1) for x in t.ts]
            if self.ch(p.wrong * 2): l = l[:-1] if self.ch(.5) else l + ['1']
            return ('a', l)
        if k == 'one': return self.gen(t.t, short, d - 1) if self.ch(.5) else ('a', [self.gen(t.t, short, d - 1) for _ in range(self.cnt())])
        if k in ('map', 'umap'):
            n = self.cnt() if d > 0 else 0
            return ('o', [(self.strbody() if self.ch(.3) else r.choice(['a', 'b', 'c', 'key', '']), self.gen(t.t, short, d - 1)) for _ in range(n)])
        if k in ('nul', 'nulc', 'up', 'sp', 'silp'):
            if d <= 0 or self.ch(.3): return 'null'
            return self.gen(t.t, short, d - 1)
        if k in ('opt', 'optc', 'sopt'):
            return self.gen(t.t, short, d - 1)
        if k == 'struct': return self.struct(t, short, d)
        raise Exception(k)
    def fields(self, t):
        return list(t.ms) + [m for s in reversed(t.su) for m in self.fields(s)]
    def struct(self, t, short, d):
        p, r = self.p, self.r
        ms = []
        fs = self.fields(t)
        few = self.ch(.15)
        for m in fs:
            if self.ch(.7 if few else p.absent): continue
            if d <= 0 and m.t.k in ('up', 'vec') and self.ch(.9): v = 'null' if m.t.k == 'up' else ('a', [])
            else: v = self.gen(m.t, short, d - 1)
            ms.append((self.mname(m), v))
            if self.ch(p.dup): ms.append((self.mname(m), self.gen(m.t, short, d - 1)))
        if not self.ch(.3): r.shuffle(ms)
        if self.ch(p.unknown):
            for _ in range(r.choice([1, 1, 2, 4])):
                n = self.name() if self.ch(.5) or not fs else self.near(r.choice(fs))
                ms.insert(r.randint(0, len(ms)), (n, self.any(3, short)))
        return ('o', ms)
    def mname(self, m):
        n = m.j if not m.al or self.ch(.5) else self.r.choice(m.al)
        return n
    def near(self, m):
        n = self.r.choice([m.j, m.c] + m.al)
        x = self.r.randrange(6)
        if x == 0: return n[:-1]
        if x == 1: return n + self.r.choice(['x', ' ', '1'])
        if x == 2: return n.upper()
        if x == 3: return ' ' + n
        if x == 4: return m.c
        return '\\u%04x' % ord(n[0]) + n[1:] if n else '\\u0061'
    # ---- rendering
    def ws(self):
        x = self.r.random()
        if x < self.wsp: return ''
        return self.r.choice([' ', '\n', '\t', '\r\n', '  ', ' ' * 17, '\n\n  '])
    def render(self, t, o=0):
        """o: relaxations in use (bits as for the tokenizer options)"""
        r = self.r
        def val(t):
            if isinstance(t, str):
                if o & 1 and t[0] == '"' and re.fullmatch(r'"[A-Za-z_][A-Za-z0-9_]{0,20}"', t) and t[1:-1] not in ('true', 'false', 'null') and r.random() < .5: return t[1:-1]
                return t
            br = '{}' if t[0] == 'o' else '[]'
            out = br[0] + gap()
            for i, e in enumerate(t[1]):
                if i:
                    out += ('\n' if o & 2 and r.random() < .5 else ',') + gap()
                if t[0] == 'o':
                    n = '"' + e[0] + '"'
                    if o & 1 and re.fullmatch(r'[A-Za-z_][A-Za-z0-9_]{0,30}', e[0]) and r.random() < .5: n = e[0]
                    out += n + self.ws() + ':' + gap() + val(e[1])
                else: out += val(e)
                if not o & 2 or r.random() < .5: out += self.ws()
            if o & 4 and t[1] and r.random() < .4: out += ',' + self.ws()
            return out + br[1]
        def gap():
            w = self.ws()
            if o & 8 and r.random() < .2: w += r.choice(['//c\n', '// x"{}\n ', '//\r\n'])
            return w
        return gap() + val(t) + self.ws()
    def mutate(self, s):
        r = self.r
        if not s: return s
        i = r.randrange(len(s))
        x = r.randrange(5)
        c = r.choice('{}[],:"\\ 0123459-+.eEtfn\ntruefalsnul/a')
        if x == 0: return s[:i] + s[i + 1:]
        if x == 1: return s[:i] + c + s[i:]
        if x == 2: return s[:i] + c + s[i + 1:]
        if x == 3: return s[:i]
        j = r.randrange(len(s)); i, j = min(i, j), max(i, j)
        return s[:i] + s[j:] if self.ch(.5) else s[:j] + s[i:]
    NUM = re.compile(r'[0-9.]+(?:[eE][+-]?[0-9]+)?')
    def floatsafe(self, s):
        """no number longer than what every binary format keeps exactly"""
        for m in self.NUM.findall(s):
            if len(m) > 18: return False
            q = re.split('[eE]', m)
            if sum(c.isdigit() for c in q[0].strip('0')) > 6 or len(q[0]) > 9: return False
            if len(q) > 1 and abs(int(q[1])) > 25: return False
        return True
    def doc(self, t, info):
        p, r = self.p, self.r
        short = info['flt']
        while True:
            self.wsp = r.choice([.5, .9, .97, 1, 1, 1])
            relax = r.randrange(1, 16) if self.ch(p.relax) and not info['raw'] else 0
            s = self.render(self.gen(t, short), relax)
            if self.ch(p.more): s += self.render(self.gen(t, short) if self.ch(.5) else self.any(2, short), relax)
            mut = self.ch(p.mutate) and not info['time']
            if mut: s = self.mutate(s)
            o = r.randrange(16) if self.ch(.1) and not info['raw'] else relax
            b = s.encode('latin1', 'replace')
            if 0 in b or len(b) > 6000: continue
            if short and not self.floatsafe(s): continue
            return b, o
    def case(self, idx, t, info):
        p, r = self.p, self.r
        cfg = r.choice([7, 7, 7, 5, 6, 4, 3, 0])
        docs = []; opt = 0
        for _ in range(r.choice(p.steps)):
            b, o = self.doc(t, info)
            opt |= o
            if o & 2 and not opt & 2: pass
            docs.append(b)
        st = []
        for b in docs:
            cuts = '-'; how = r.randrange(4)
            if info['ref']: how &= 1
            elif self.ch(p.cut) and len(b) > 1:
                x = r.random()
                if x < .25: cs = list(range(1, len(b)))
                elif x < .6: cs = [r.randint(1, len(b) - 1)]
                elif x < .8:
                    n = r.choice([2, 3, 5, 7, 16, 32]); cs = list(range(n, len(b), n))
                else: cs = sorted({r.randint(1, len(b) - 1) for _ in range(r.randint(2, 6))})
                if self.ch(.15): cs = sorted(cs + [r.choice(cs + [0]) for _ in range(3)]) # empty buffers
                cuts = ','.join(map(str, cs)) or '-'
            st.append('%s@%s@%d' % (b.hex(), cuts, how))
        ser = '-'
        if self.ch(p.ser):
            w = ['%s%db%d' % (r.choice('pc'), r.choice([0, 1, 2, 2, 3, 4, 8]), r.choice([0, 0, 1, 2, 3, 7, 16, 31])) for _ in range(r.randint(1, 2))]
            ser = ','.join(w)
        return '%d %d %d 0 %s %s' % (idx, cfg, opt, ser, ' '.join(st))

def info(t):
    ks = {x.k for x in bt.reach(t).values()}
    return dict(flt='flt' in ks, raw=bool(ks & set(bt.RAW) or 'jtok' in ks), ref=bool(ks & {'robj', 'rarr', 'roa', 'jtok'}), time='time' in ks)

def scope_case(g):
    """a line for harness/scope.cpp"""
    r = g.r
    g.wsp = r.choice([.9, 1])
    opt = r.randrange(1, 16) if g.ch(.2) else 0
    s = ''.join(g.render(('a' if g.ch(.5) else 'o', []) if g.ch(.1) else g.scopetree(3), opt) for _ in range(r.choice([1, 1, 2])))
    if g.ch(.12): s = g.mutate(s)
    b = s.encode('latin1', 'replace')
    if 0 in b: b = b'[]'
    how = r.choice([0, 1, 2, 3, 4])
    cuts = '-'
    if how < 4 and g.ch(.5) and len(b) > 2:
        n = r.choice([1, 1, 2, 3, 7, 0])
        cs = range(n, len(b), n) if n else sorted({r.randint(1, len(b) - 1) for _ in range(r.randint(1, 4))})
        if g.ch(.15): cs = sorted(list(cs) + [r.choice(list(cs) + [0]) for _ in range(3)]) # empty buffers
        cuts = ','.join(map(str, cs)) or '-'
    ops = ''.join(r.choices('npgox', r.choice([(2, 3, 2, 2, 6), (2, 4, 1, 0, 4), (3, 2, 1, 1, 10), (3, 3, 3, 3, 3)]), k=r.choice([6, 12, 25, 40])))
    ops = 'n' + ops + r.choice(['', 'gogogogo', 'nnnnnnnnnnnn', 'gonnn'])
    return '%d %d %s %s %s' % (opt, how, b.hex() or '-', cuts, ops)
def _scopetree(self, d):
    x = self.r.randrange(6)
    if self.ch(self.p.deep):
        t = ('a', [self.scalar(False)])
        if self.ch(self.p.huge): return self.huge(t)
        for _ in range(self.r.choice([5, 20, 50])): t = ('a', [t]) if self.ch(.5) else ('o', [(self.name(), t)])
        return t
    n = self.r.randint(0, 3)
    sub = lambda: self.scopetree(d - 1) if d > 0 and self.ch(.6) else self.scalar(False)
    return ('a', [sub() for _ in range(n)]) if x < 3 else ('o', [(self.name(), sub()) for _ in range(n)])
Gen.scopetree = _scopetree

def rel_case(g, again=True):
    """a line for harness/release.cpp"""
    r = g.r
    g.wsp = r.choice([.8, .95, 1])
    opt = r.randrange(1, 16) if g.ch(.25) else 0
    s = ''.join(g.render(g.scopetree(3), opt) for _ in range(r.choice([1, 1, 1, 2])))
    if g.ch(.15): s = g.mutate(s)
    b = s.encode('latin1', 'replace')
    if 0 in b or len(b) < 2: b = b'[]'
    n = r.choice([1, 1, 2, 3, 5, 8, 16, 33, 0, 0, 0])
    cs = range(n, len(b), n) if n else sorted({r.randint(1, len(b) - 1) for _ in range(r.randint(1, 6))})
    line = '%d %d %s %s' % (opt, r.randrange(4), b.hex(), ','.join(map(str, cs)) or '-')
    if not again or g.ch(.6): return line
    # the input is replaced by another one before it was read
    f = rel_case(g, False).split(' '); skip = r.choice([0, 0, 1, 7]); d = bytes.fromhex(f[2])
    if opt != int(f[0]) and g.ch(.8): d = g.render(g.scopetree(3), opt).encode('latin1', 'replace')
    cs = sorted({r.randint(skip + 1, skip + len(d)) for _ in range(r.choice([0, 0, 1, 3, 6]))})
    return line + ' %d %d %s %s' % (r.choice([0, 1, 2, 3, 5, 9, 10000]), skip, d.hex(), ','.join(map(str, cs)) or '-')

def flat(g, t, out, name=None):
    """the tokens of a tree, as nt,hex,vt,hex; words occasionally unquoted"""
    r = g.r
    hx = lambda s: s.encode('latin1', 'replace').hex() or '-'
    nt = 'A,-' if name is None else ('A' if re.fullmatch(r'[a-z]+', name) and name != 'null' and r.random() < .2 else 'S') + ',' + hx(name)
    if isinstance(t, str):
        if t[0] == '.': t = '0' + t
        if t[0] == '"':
            b = t[1:-1]
            ty = 'A' if re.fullmatch(r'[A-Za-z]+', b) and b not in ('true', 'false', 'null') and r.random() < .3 else 'S'
            out.append('%s,%s,%s' % (nt, ty, hx(b)))
        else: out.append('%s,%s,%s' % (nt, 'B' if t in ('true', 'false') else 'Z' if t == 'null' else 'N', hx(t)))
        return
    out.append('%s,%s,-' % (nt, '{' if t[0] == 'o' else '['))
    for e in t[1]:
        if t[0] == 'o': flat(g, e[1], out, e[0])
        else: flat(g, e, out)
    out.append('A,-,%s,-' % ('}' if t[0] == 'o' else ']'))

def sizes(r):
    x = r.randrange(6)
    if x == 0: return '1'
    if x == 1: return str(r.choice([2, 3, 5, 7, 16, 64]))
    if x < 5: return ','.join(str(r.choice([1, 1, 2, 3, 4, 5, 6, 8, 11, 16])) for _ in range(r.randint(2, 7)))
    return '4096'
def ser_case(g):
    """a line for harness/ser.cpp, kind W"""
    r = g.r
    trees = [g.scopetree(r.choice([1, 2, 3, 4, 6])) for _ in range(r.choice([1, 1, 1, 2, 3]))]
    if g.ch(.1): trees = [g.scalar(False)]
    out = []
    for t in trees: flat(g, t, out)
    if len(out) > 300: out = out[:300]
    if g.ch(.01):
        n = r.choice([120, 255, 256, 257, 300]); t = '1'
        for _ in range(n): t = ('a', [t, '2']) if g.ch(.5) else ('o', [('a', t), ('b', '2')])
        out = []; flat(g, t, out)
    base = r.choice([0, 0, 0, 0, 1, 2, 5])
    if base == 0 and g.ch(.05): out.append('A,-,},-'); flat(g, g.scopetree(1), out)
    if g.ch(.1): out = out[:r.randint(0, len(out))]
    how = r.randrange(2)
    sz = sizes(r) if g.ch(.8) else 'f%d' % r.randint(0, 8 * len(out) + 2)
    return 'W %s %d %d %d %d %d %s %s' % (r.choice('pc'), r.choice([0, 1, 2, 2, 2, 3, 4, 8]), r.random() < .7, r.random() < .9, base, how, sz, ';'.join(out) or '-')
def ref_case(g):
    """a line for harness/ser.cpp, kind R"""
    r = g.r
    g.wsp = r.choice([.3, .8, .95, 1])
    s = ''.join(g.render(g.scopetree(r.choice([1, 2, 3, 5])), 0) for _ in range(r.choice([1, 1, 1, 2, 3])))
    if g.ch(.02): s = g.render(('a', [g.scopetree(4) for _ in range(40)]), 0)
    if g.ch(.2): s = g.mutate(s)
    b = s.encode('latin1', 'replace')
    if 0 in b or not b: b = b'[]'
    return 'R %s %d %d %d %s' % (r.choice('pc'), r.choice([0, 1, 2, 2, 2, 3, 4, 8]), r.random() < .7, r.choice([0, 0, 1, 2, 3, 10, 100, 5000]), b.hex())
