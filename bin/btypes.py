"""C++ types for the binding checks: one description, two renderings -- C++ source (structs declared with the
library's macros, dump functions, a registry) and the type table read by spec/Bind.tla."""
import json, random

class Ty:
    def __init__(self, k, **kw): self.k = k; self.__dict__.update(kw)

INTC = {(8, 1): 'int8_t', (8, 0): 'uint8_t', (16, 1): 'int16_t', (16, 0): 'uint16_t', (32, 1): 'int32_t', (32, 0): 'uint32_t',
        (64, 1): 'int64_t', (64, 0): 'uint64_t', (128, 1): 'JS::js_int128_t', (128, 0): 'JS::js_uint128_t'}
def I(w=32, s=1, cpp=None): return Ty('int', w=w, s=s, cpp=cpp or INTC[(w, s)])
def F(cpp='double'): return Ty('flt', cpp=cpp)
B = Ty('bool', cpp='bool')
S = Ty('str', cpp='std::string')
TIME = Ty('time', cpp='std::chrono::high_resolution_clock::time_point')
def V(t): return Ty('vec', t=t, cpp='std::vector<%s>' % t.cpp)
def SET(t): return Ty('set', t=t, cpp='std::set<%s>' % t.cpp)
def USET(t): return Ty('uset', t=t, cpp='std::unordered_set<%s>' % t.cpp)
def MAP(t): return Ty('map', t=t, cpp='std::map<std::string, %s>' % t.cpp)
def UMAP(t): return Ty('umap', t=t, cpp='std::unordered_map<std::string, %s>' % t.cpp)
def ARR(t, n): return Ty('arr', t=t, n=n, cpp='CARR')
def SARR(t, n): return Ty('sarr', t=t, n=n, cpp='std::array<%s, %d>' % (t.cpp, n))
def AVC(t, n): return Ty('avc', t=t, n=n, cpp='JS::ArrayVariableContent<%s, %d>' % (t.cpp, n))
def ONE(t): return Ty('one', t=t, cpp='JS::OneOrMany<%s>' % t.cpp)
def TUP(*ts): return Ty('tup', ts=list(ts), cpp='JS::Tuple<%s>' % ', '.join(t.cpp for t in ts))
def STUP(*ts): return Ty('stup', ts=list(ts), cpp='std::tuple<%s>' % ', '.join(t.cpp for t in ts))
def NUL(t): return Ty('nul', t=t, cpp='JS::Nullable<%s>' % t.cpp)
def NULC(t): return Ty('nulc', t=t, cpp='JS::NullableChecked<%s>' % t.cpp)
def OPT(t): return Ty('opt', t=t, cpp='JS::Optional<%s>' % t.cpp)
def OPTC(t): return Ty('optc', t=t, cpp='JS::OptionalChecked<%s>' % t.cpp)
def SOPT(t): return Ty('sopt', t=t, cpp='std::optional<%s>' % t.cpp)
def UP(t): return Ty('up', t=t, cpp='std::unique_ptr<%s>' % t.cpp)
def SP(t): return Ty('sp', t=t, cpp='std::shared_ptr<%s>' % t.cpp)
SILS = Ty('sils', cpp='JS::SilentString')
def SILV(t): return Ty('silv', t=t, cpp='JS::SilentVector<%s>' % t.cpp)
def SILP(t): return Ty('silp', t=t, cpp='JS::SilentUniquePtr<%s>' % t.cpp)
RAW = {'jobj': 'JS::JsonObject', 'jarr': 'JS::JsonArray', 'joa': 'JS::JsonObjectOrArray', 'robj': 'JS::JsonObjectRef', 'rarr': 'JS::JsonArrayRef', 'roa': 'JS::JsonObjectOrArrayRef'}
def R(k): return Ty(k, cpp=RAW[k])
JTOK = Ty('jtok', cpp='JS::JsonTokens')
def ENUM(cpp, names): return Ty('enum', cpp=cpp, names=names)
def ENUMV(cpp): return Ty('enumv', cpp=cpp, w=32, s=1)
class Mem:
    """a member: C++ name, type, JSON name (None: the C++ name), aliases"""
    def __init__(self, c, t, name=None, al=()): self.c = c; self.t = t; self.name = name; self.al = list(al); self.j = name if name is not None else c
def ST(cpp, ms, su=(), style='full'):
    return Ty('struct', cpp=cpp, ms=[m if isinstance(m, Mem) else Mem(*m) for m in ms], su=list(su), style=style)

def kids(t):
    if t.k == 'struct': return [m.t for m in t.ms] + t.su
    if t.k in ('tup', 'stup'): return t.ts
    return [t.t] if hasattr(t, 't') else []
def reach(t, seen=None):
    seen = {} if seen is None else seen
    if id(t) in seen: return seen
    seen[id(t)] = t
    for c in kids(t): reach(c, seen)
    return seen

DROP = ('optc', 'sopt', 'silp', 'sils', 'silv', 'one')   # may serialize to nothing
class Table:
    def __init__(self, roots):
        self.roots = roots; self.ix = {}; self.list = []
        for r in roots: self.add(r)
    def add(self, t):
        if id(t) in self.ix: return self.ix[id(t)]
        self.list.append(t); self.ix[id(t)] = len(self.list)
        for c in kids(t): self.add(c)
        return self.ix[id(t)]
    def json(self):
        return [self.desc(t) for t in self.list]
    def desc(self, t):
        d = dict(k=t.k)
        rs = list(reach(t).values())
        d['unord'] = any(x.k in ('uset', 'umap') for x in rs)
        d['raw'] = any(x.k in RAW for x in rs)
        rt = not any(x.k in RAW or x.k in ('jtok', 'nulc') for x in rs)
        rs_ = True
        for x in rs:
            if x.k != 'struct' and any(c.k in DROP for c in kids(x)): rt = rs_ = False
        d['rt'] = rt; d['rs'] = rs_
        by = lambda s: list(s.encode('latin1') if isinstance(s, str) else s)
        if t.k in ('int', 'enumv'): d['w'] = t.w; d['s'] = bool(t.s)
        if t.k == 'enum': d['names'] = [by(n) for n in t.names]
        if hasattr(t, 'n'): d['n'] = t.n
        if t.k in ('tup', 'stup'): d['ts'] = [self.ix[id(c)] for c in t.ts]
        elif t.k == 'struct':
            d['ms'] = [dict(n=by(m.j), al=[by(a) for a in m.al], t=self.ix[id(m.t)]) for m in t.ms]
            d['su'] = [dict(n=by(s.cpp), t=self.ix[id(s)]) for s in t.su]
        elif hasattr(t, 't'): d['t'] = self.ix[id(t.t)]
        return d
    # ---------------------------------------------------------------- C++
    def cpp(self, lo=0, hi=None):
        o = []
        done = set()
        def decl(t):
            if id(t) in done: return
            done.add(id(t))
            if t.k == 'struct':
                for s in t.su: decl(s)
                o.append('struct %s;' % t.cpp)
                for m in t.ms:
                    # a struct inside must be complete, except behind a pointer or in a vector of itself
                    decl(m.t)
                o.append(self.struct(t))
            elif t.k == 'enum' or t.k == 'enumv':
                o.append(t.cpp_decl)
            else:
                for c in kids(t): decl(c)
        for r in self.roots: decl(r)
        return '\n'.join(o) + '\n' + self.dumps() + self.registry()
    def cstr(self, s):
        b = s.encode('latin1') if isinstance(s, str) else s
        return '"' + ''.join(chr(c) if 32 <= c < 127 and c not in (34, 92, 63) else '\\%03o' % c for c in b) + '"'
    def struct(self, t):
        su = (' : ' + ', '.join('public ' + s.cpp for s in t.su)) if t.su else ''
        L = ['struct %s%s {' % (t.cpp, su)]
        for m in t.ms:
            if m.t.k == 'arr':
                base, dims = m.t, ''
                while base.k == 'arr': dims += '[%d]' % base.n; base = base.t
                L.append('  %s %s%s = {};' % (base.cpp, m.c, dims))
            else: L.append('  %s %s%s;' % (m.t.cpp, m.c, '' if m.t.k in ('robj', 'rarr', 'roa') else '{}'))
        def minfo(m):
            al = ''.join(', ' + self.cstr(a) for a in m.al)
            if m.name is None: return 'JS_MEMBER_ALIASES(%s%s)' % (m.c, al) if m.al else 'JS_MEMBER(%s)' % m.c
            return 'JS_MEMBER_WITH_NAME_AND_ALIASES(%s, %s%s)' % (m.c, self.cstr(m.name), al) if m.al else 'JS_MEMBER_WITH_NAME(%s, %s)' % (m.c, self.cstr(m.name))
        plain = all(m.name is None and not m.al for m in t.ms)
        names = ', '.join(m.c for m in t.ms); infos = ', '.join(minfo(m) for m in t.ms)
        sup = 'JS_SUPER(%s)' % ', '.join(s.cpp for s in t.su)
        supc = 'JS_SUPER_CLASSES(%s)' % ', '.join('JS_SUPER_CLASS(%s)' % s.cpp for s in t.su)
        ext = ''
        if t.style == 'ext':
            if t.su: ext = ('JS_OBJ_EXT_SUPER(%s, %s, %s)' % (t.cpp, sup, names)) if plain else 'JS_OBJECT_EXTERNAL_WITH_SUPER(%s, %s, %s)' % (t.cpp, supc, infos)
            else: ext = ('JS_OBJ_EXT(%s, %s)' % (t.cpp, names)) if plain else 'JS_OBJECT_EXTERNAL(%s, %s)' % (t.cpp, infos)
        elif t.style == 'short' and plain:
            L.append(('  JS_OBJ_SUPER(%s, %s);' % (sup, names)) if t.su else '  JS_OBJ(%s);' % names)
        else:
            L.append(('  JS_OBJECT_WITH_SUPER(%s, %s);' % (supc, infos)) if t.su else '  JS_OBJECT(%s);' % infos)
        L.append('};')
        if ext: L.append(ext)
        return '\n'.join(L)
    def dumps(self):
        o = []
        st = [t for t in self.list if t.k == 'struct']
        for t in st: o.append('template <> struct D<%s> { static void d(std::string &o, const %s &v); static void m(std::string &o, const %s &v, bool &f); };' % (t.cpp, t.cpp, t.cpp))
        for t in self.list:
            if t.k == 'enum': o.append('template <> struct D<%s> { static void d(std::string &o, const %s &v) { o += "{\\"en\\":" + std::to_string(int(v)) + "}"; } };' % (t.cpp, t.cpp))
            if t.k == 'enumv': o.append('template <> struct D<%s> { static void d(std::string &o, const %s &v) { dint(o, (long long)(v)); } };' % (t.cpp, t.cpp))
        o += ['template <> struct IsStruct<%s> { static const bool value = true; };' % t.cpp for t in st]
        for t in st:
            b = ''.join('  sep(o, f); D<typename std::remove_cv<typename std::remove_reference<decltype(v.%s)>::type>::type>::d(o, v.%s);\n' % (m.c, m.c) for m in t.ms)
            b += ''.join('  D<%s>::m(o, v, f);\n' % s.cpp for s in reversed(t.su))
            o.append('inline void D<%s>::m(std::string &o, const %s &v, bool &f) {\n%s}' % (t.cpp, t.cpp, b))
            o.append('inline void D<%s>::d(std::string &o, const %s &v) { bool f = true; o += "{\\"m\\":["; m(o, v, f); o += "]}"; }' % (t.cpp, t.cpp))
        return '\n'.join(o) + '\n'
    def registry(self):
        return 'inline void register_all(std::vector<Entry> &r) {\n' + ''.join('  r.push_back(entry<%s>());\n' % t.cpp for t in self.roots) + '}\n'

# ------------------------------------------------------------------ the fixed types
def fixed():
    E1 = ENUM('Color', ['red', 'green', 'blue', '_dark', 'Red']); E1.cpp_decl = 'JS_ENUM(Color, red, green, blue, _dark, Red)\nJS_ENUM_DECLARE_STRING_PARSER(Color)'
    E2 = ENUMV('Level'); E2.cpp_decl = 'enum class Level : int { low = -5, mid = 0, high = 7 };\nJS_ENUM_DECLARE_VALUE_PARSER(Level)'
    E3 = ENUM('nsp::Mode', ['on', 'off', 'only']); E3.cpp_decl = 'namespace nsp { JS_ENUM(Mode, on, off, only) }\nJS_ENUM_NAMESPACE_DECLARE_STRING_PARSER(nsp, Mode)'
    scal = ST('Scal', [Mem(n, t) for n, t in [('i8', I(8)), ('u8', I(8, 0)), ('i16', I(16)), ('u16', I(16, 0)), ('i32', I()), ('u32', I(32, 0)), ('i64', I(64)), ('u64', I(64, 0)),
               ('ch', I(8, 1, 'char')), ('li', I(64, 1, 'long')), ('lli', I(64, 1, 'long long')), ('ulli', I(64, 0, 'unsigned long long')), ('d', F()), ('f', F('float')), ('b', B), ('s', S)]], style='short')
    names = ST('Names', [Mem('a', I()), Mem('ab', I()), Mem('abc', S), Mem('Ab', I()), Mem('q', I(), ' q '), Mem('esc', I(), 'tab\\there'), Mem('uni', S, 'n\u00e9'),
                         Mem('lng', I(), 'a_rather_long_member_name_that_is_longer_than_thirty_two_bytes'), Mem('emp', I(), ''), Mem('x', I(), 'renamed', ['x1', 'x2']), Mem('y', S, None, ['yy', 'why', 'a.b']),
                         Mem('z', B, None, ['ab', 'zz'])])
    base1 = ST('Base1', [Mem('b1', I()), Mem('shared', S, 'shared_name', ['sn'])])
    base0 = ST('Base0', [Mem('b0', I()), Mem('b0o', OPT(I()))], style='short')
    base2 = ST('Base2', [Mem('b2', V(I())), Mem('b2s', S)], su=[base0], style='ext')
    base3 = ST('Base3', [Mem('b3', B)])
    der = ST('Der', [Mem('d1', I()), Mem('d2', S, 'dee', ['d-two'])], su=[base1, base2, base3])
    der2 = ST('Der2', [Mem('top', I())], su=[der], style='short')
    point = ST('Point', [Mem('x', I()), Mem('y', I())], style='short')
    opt_in = ST('OptIn', [Mem('p', OPT(I())), Mem('q', I())], style='ext')
    cont = ST('Cont', [Mem('v', V(I())), Mem('vv', V(V(S))), Mem('vb', V(B)), Mem('st', SET(I())), Mem('ss', SET(S)), Mem('m', MAP(I())), Mem('ms', MAP(point)), Mem('ca', ARR(I(), 3)), Mem('ca2', ARR(ARR(I(8), 2), 2)),
                       Mem('sa', SARR(S, 2)), Mem('t', TUP(I(), S, B)), Mem('t2', STUP(S, V(I()), point)), Mem('av', AVC(I(), 3)), Mem('o', ONE(I())), Mem('os', ONE(point)), Mem('vp', V(point))])
    uno = ST('Uno', [Mem('us', USET(I())), Mem('um', UMAP(V(I()))), Mem('uss', USET(S)), Mem('after', I())])
    opts = ST('Opts', [Mem('n', NUL(I())), Mem('nc', NULC(I())), Mem('ncs', NULC(S)), Mem('o', OPT(I())), Mem('oc', OPTC(I())), Mem('ocs', OPTC(S)), Mem('so', SOPT(I())), Mem('sos', SOPT(S)),
                       Mem('u', UP(I())), Mem('us', UP(S)), Mem('s', SP(I())), Mem('ss', SP(point)), Mem('up', UP(point)), Mem('sop', SOPT(point)), Mem('ncp', NULC(point)), Mem('np', NUL(point)),
                       Mem('sil', SILS), Mem('siv', SILV(I())), Mem('sip', SILP(I())), Mem('uv', UP(V(I()))), Mem('req', I())])
    optmix = ST('OptMix', [Mem('a', SOPT(SOPT(I()))), Mem('b', SOPT(UP(I()))), Mem('c', UP(SP(I()))), Mem('d', SOPT(NULC(I()))), Mem('e', SP(V(SP(I())))), Mem('f', MAP(NULC(I()))), Mem('g', OPTC(V(UP(I())))), Mem('h', V(NULC(S)))])
    nest = ST('Nest', [Mem('a', point), Mem('b', cont_small()), Mem('c', V(opt_in)), Mem('d', MAP(MAP(I()))), Mem('e', der), Mem('z', I())])
    raw = ST('Raws', [Mem('o', R('jobj')), Mem('a', R('jarr')), Mem('x', R('joa')), Mem('mid', I()), Mem('vo', V(R('jobj'))), Mem('mo', MAP(R('joa'))), Mem('last', S)])
    refs = ST('Refs', [Mem('o', R('robj')), Mem('a', R('rarr')), Mem('x', R('roa')), Mem('mid', I()), Mem('tk', JTOK), Mem('last', S)])
    enums = ST('Enums', [Mem('c', E1), Mem('l', E2), Mem('m', E3), Mem('v', V(E1)), Mem('o', SOPT(E3)), Mem('mm', MAP(E1))])
    node = ST('Node', [])
    node.ms = [Mem('name', S), Mem('next', UP(node)), Mem('kids', V(node)), Mem('w', I())]
    big = ST('Big', [Mem('m%d' % i, I() if i % 3 else SOPT(I())) for i in range(66)], su=[base1, base3], style='short')
    times = ST('Times', [Mem('t', TIME), Mem('v', V(TIME)), Mem('i', I(128)), Mem('u', I(128, 0))])
    strs = ST('Strs', [Mem('a', S), Mem('v', V(S)), Mem('m', MAP(S)), Mem('k', STUP(S, S))])
    ints = [V(I(w, s)) for w in (8, 16, 32, 64, 128) for s in (0, 1)]
    return [scal, names, der, der2, cont, uno, opts, optmix, nest, raw, refs, enums, node, big, times, strs, point,
            V(point), MAP(V(I())), STUP(I(), S, V(B)), TUP(point, I(8)), SET(S), V(V(V(I()))), V(MAP(point)), MAP(der), V(SOPT(I())), SARR(point, 2), V(S), V(F()), V(F('float'))] + ints
def enum_types():
    big = ['v%d' % i for i in range(70)] + ['value', 'Value', 'VALUE', 'a', 'aa', 'aaa']
    E1 = ENUM('Big1', big); E1.cpp_decl = 'JS_ENUM(Big1, %s)\nJS_ENUM_DECLARE_STRING_PARSER(Big1)' % ', '.join(big)
    E2 = ENUM('ns1::Sp', ['x', '_y', 'Zz', 'x_', 'xx', 'longer_enumerator_name_0123456789']); E2.cpp_decl = 'namespace ns1 { JS_ENUM(Sp,   x ,_y,  Zz,x_ , xx,\n  longer_enumerator_name_0123456789) }\nJS_ENUM_NAMESPACE_DECLARE_STRING_PARSER(ns1, Sp)'
    E3 = ENUM('One1', ['only']); E3.cpp_decl = 'JS_ENUM(One1, only)\nJS_ENUM_DECLARE_STRING_PARSER(One1)'
    E4 = ENUMV('Val1'); E4.cpp_decl = 'enum class Val1 : int { a = 3, b, c = -9 };\nJS_ENUM_DECLARE_VALUE_PARSER(Val1)'
    s = ST('EnumS', [Mem('a', E1), Mem('b', E2, 'bee'), Mem('c', E3), Mem('d', E4), Mem('o', SOPT(E1)), Mem('n', NULC(E2)), Mem('t', STUP(E1, E2)), Mem('k', OPT(E2))])
    return [s, V(E1), V(E2), MAP(E2), SARR(E1, 2), V(E3), V(E4)]
def cont_small():
    return ST('ContSmall', [Mem('v', V(S)), Mem('m', MAP(S)), Mem('t', STUP(I(), I()))], style='short')

def rand_types(seed, n):
    """n random root structs"""
    r = random.Random(seed)
    c = [0]
    def ty(d):
        leaf = [lambda: I(r.choice([8, 16, 32, 64]), r.randrange(2)), lambda: B, lambda: S, lambda: F(), lambda: S]
        if d <= 0: return r.choice(leaf)()
        x = r.randrange(16)
        if x < 4: return r.choice(leaf)()
        if x == 4: return V(ty(d - 1))
        if x == 5: return MAP(ty(d - 1))
        if x == 6: return SARR(ty(d - 1), r.randint(1, 3))
        if x == 7: return STUP(*[ty(d - 1) for _ in range(r.randint(1, 3))])
        if x == 8: return r.choice([NUL, NULC, OPT, OPTC, SOPT, UP, SP])(ty(d - 1))
        if x == 9: return r.choice([SET(I()), SET(S), AVC(I(), r.randint(1, 4)), ONE(S), ONE(I()), SILV(I()), SILS])
        if x == 10: return r.choice([R('jobj'), R('jarr'), R('joa')])
        if x == 11: return TUP(ty(d - 1), ty(0))
        return struct(d - 1)
    def struct(d):
        c[0] += 1; me = c[0]
        nm = 'Rnd%d_%d' % (seed % 1000, me)
        su = [struct(0) for _ in range(r.choice([0, 0, 0, 1, 2]))] if d > 0 else []
        ms = []
        for i in range(r.randint(1, 6)):
            cn = '%s%d_%d' % (r.choice(['a', 'b', 'mem', 'x_']), me, i)
            name = None if r.random() < .7 else r.choice(['N', 'name ', 'k-', 'p.q']) + cn
            al = ['al%d_%d_%d' % (me, i, j) for j in range(r.choice([0, 0, 1, 2]))]
            ms.append(Mem(cn, ty(d), name, al))
        return ST(nm, ms, su, r.choice(['full', 'short', 'ext']))
    return [struct(2) for _ in range(n)]
