"""Voxel type dispatch: complete, and of one type throughout."""
from collections import defaultdict
from ..items import *
from .C12 import retconst
from ..slices import Slice

ASSUME = ['field_dynamic_cast<X> yields a non-null pointer only for objects of class X (C05 covers the counting; className strings are checked in C14)',
          'the compiler already rejects crossed pointer types; this check covers the choices the type system does not see']

R = r'Imath_3_1::Vec3<(?:Imath_3_1::half|float|double)>|Imath_3_1::half|(?<![\w:])float(?![\w])|(?<![\w:])double(?![\w])'
SCAL = ['Imath_3_1::half', 'float', 'double']
VEC = ['Imath_3_1::Vec3<%s>' % t for t in SCAL]
ALL = SCAL + VEC
ENUMT = re.compile(r'DataTypeEnum|OgDataType')

def vts(s): return set(re.findall(R, s))
def argtext(d): return ' '.join(map(str, d.get('ta') or [])) + ' ' + (d.get('cls') or '')
def elem(t): return t[len('Imath_3_1::Vec3<'):-1] if 'Vec3' in t else t
def own(db, f): return vts(argtext(dict(db.decl.get(f.k, {}), cls=f.cls)))

def families(db, f):
    """operation (type erased) -> {voxel type: [call nodes]}"""
    fam = defaultdict(lambda: defaultdict(list))
    for e, n in f.calls():
        d = db.decl.get(n.get('f') or '')
        if not d or not d['q'].startswith('Field3D::') or d['q'].endswith(('field_dynamic_cast', 'dynamicCast', 'dynamic_pointer_cast')): continue
        if d.get('q', '').split('::')[-1].startswith('operator'): continue
        if re.search(r'Attribute', d['q'] + (d.get('cls') or '')): continue      # attributes are not voxels
        a = argtext(d); v = vts(a)
        if len(v) == 1:
            q = re.sub(r'<[^()]*>(?=::)', '<>', d['q']) + '|' + re.sub(R, 'T', a)
            fam[q][v.pop()].append(e)
    return fam

def facts_of(db):
    """voxel type -> enum values / h5 type / bits / dims."""
    out = {t: {} for t in ALL}
    for k, d in db.decl.items():
        m = re.match(r'Field3D::(DataTypeTraits|OgawaTypeTraits|FieldTraits)<(.*)>$', d.get('cls') or '')
        if not m or m.group(2) not in out: continue
        n = d['q'].split('::')[-1]
        if k not in db.raw: continue
        v = retconst(db, db.fn(k))
        out[m.group(2)][m.group(1)[0] + ':' + n] = v
    return out

def num(v):
    try: return int(v)
    except (TypeError, ValueError): return None

def run(ctx):
    db = ctx.db
    ctx.rule('distinct', 'type codes, type names and HDF5 types of the six voxel types are pairwise distinct', 4)
    ctx.rule('complete', 'a function that names several voxel types for one operation names all six (or all three vector types)', 15)
    ctx.rule('enum', 'for a stored/requested type T, exactly the operations on T are reached, and none when the stored type differs from the requested one', 60)
    ctx.rule('cast', 'for an object of class X<T>, exactly the operation on X<T> is reached', 40)
    ctx.rule('same', 'code instantiated for one voxel type only uses traits, readers, writers and tables of that type', 100)
    ctx.rule('loop', 'one loop over per-type tables works on one voxel type', 10)
    ctx.rule('mismatch', 'an attribute or data set whose stored type code differs is rejected, one whose code matches is kept', 20)
    ctx.rule('rtti', 'the library-made dynamic cast succeeds only for objects of the class asked for or below it', 100)
    F = facts_of(db)
    for key in ('D:typeEnum', 'D:name', 'O:typeEnum', 'O:typeName'):
        vals = [F[t].get(key) for t in ALL]
        if None in vals: raise AnalysisBroken('no constant %s for %s' % (key, [t for t in ALL if F[t].get(key) is None]))
        ctx.ob('distinct', key, len(set(vals)) == 6, msg=str(vals))
    v = [(F[t].get('D:h5type'), F[t].get('F:dataDims')) for t in ALL]
    ctx.ob('distinct', 'h5type and dataDims', len(set(v)) == 6, msg=str(v))
    EN = {'DataTypeEnum': {t: num(F[t]['D:typeEnum']) for t in ALL}, 'OgDataType': {t: num(F[t]['O:typeEnum']) for t in ALL}}
    for k, v in EN.items():
        if None in v.values(): raise AnalysisBroken('type codes of %s are not integers' % k)
    for f in db.fns(lambda d: d['q'].startswith('Field3D::') or '(anon' in d['q']):
        o = own(db, f)
        if len(o) == 1:
            T = next(iter(o))
            for e, n in f.calls():
                d = db.decl.get(n.get('f') or '')
                if not d or not d['q'].startswith('Field3D::') or not d.get('cls'): continue
                v = vts(argtext(d))
                if not v: continue
                ok = v <= {T} or {elem(x) for x in v} == {elem(T)}
                if ok and len(v) == 1 and v != {T} and re.search(r'Traits|Og[IO]|SparseFile|FieldIO', d['cls'] + d['q']): ok = 'VectorLayer' in f.q
                ctx.ob('same', '%s -> %s' % (re.sub(R, 'T', f.q), re.sub(r'<.*>', '', d['q'])), ok, f.loc(n), 'code for %s uses %s%s' % (T, d['q'], sorted(v)), f)
            continue
        fam = {q: v for q, v in families(db, f).items() if len(v) >= 2}
        if not fam: continue
        for q, v in fam.items():
            want = VEC if set(v) <= set(VEC) else ALL
            ctx.ob('complete', '%s %s' % (f.q, q.split('|')[0]), set(v) == set(want), f.loc(), 'no case for %s' % sorted(set(want) - set(v)), f)
        dispatch(ctx, f, fam, F, EN)
        loops(ctx, f, fam)
    mismatch(ctx, EN)
    rtti(ctx)

def reachedtypes(cp, fam):
    return {t for q, v in fam.items() for t, es in v.items() if any(e in cp.reached for e in es)}

def outvars(f, name):
    r = set()
    for e, n in f.calls():
        p = primitive(f, n)
        if p and p[1] == 'r' and p[2] == 'A' and strconst_of(f, p[4]) == name:
            for a in n.get('a', ()):
                q = path(f, a)
                if q: r.add(q.lstrip('&'))
    return r

def strconst_of(f, i):
    try: return strconst(f, i)
    except Exception: return None

def dispatch(ctx, f, fam, F, EN):
    db = f.db
    types = sorted({t for v in fam.values() for t in v}, key=ALL.index)
    kinds = set()
    def et(t):
        for k in EN:
            if k in (t or ''): return k
    def selector(i, n):
        """'req' for a requested type code, 'disk' for a stored one."""
        if n['o'] == 'load' and et(n.get('t')):
            p = path(f, n['a'][0])
            if p is None: return None
            r = base_root(p) if not p.startswith('this.') else 'this'
            if p.startswith('v') and '.' not in p and '>' not in p:
                v = f.vars[int(re.match(r'v(\d+)', p).group(1))]
                return 'req' if v['p'] >= 0 else None
            return 'req'
        if n['o'] == 'call' and et(n.get('t')) and 'v' not in n and 'typeEnum' not in (n.get('q') or ''): return 'disk'
    cmps = False
    for b in f.blocks.values():
        tm = b.get('tm') or {}
        if tm.get('k') == 'SwitchStmt' and et(f.nodes[strip(f, tm['c'])].get('t')): cmps = True
    for e in f.nodes:
        if e['o'] == 'bin' and e['op'] in ('==', '!=') and any(et(f.nodes[strip(f, a)].get('t')) or et(f.nodes[a].get('t')) for a in e['a']): cmps = True
    if cmps:
        comp, bits = outvars(f, 'components'), outvars(f, 'bits_per_component')
        for req in types:
            for disk in types:
                def hook(cp, i, n, env):
                    s = selector(i, n)
                    if s:
                        v = EN[et(n['t'])].get(req if s == 'req' else disk)
                        kinds.add(s); return C(v)
                    if n['o'] == 'load':
                        p = path(f, n['a'][0])
                        if p in comp and num(F[disk].get('F:dataDims')) is not None: kinds.add('disk'); return C(num(F[disk]['F:dataDims']))
                        if p in bits and num(F[disk].get('D:h5bits')) is not None: kinds.add('disk'); return C(num(F[disk]['D:h5bits']))
                    if n['o'] == 'call' and (n.get('q') or '').endswith('H5Tequal'):
                        g = [x['q'].split('::')[-1] for a in n['a'] for x in gvars(f, a)]
                        if len(g) == 1: kinds.add('disk'); return C(1 if g[0] == F[disk].get('D:h5type') else 0)
                cp = Const(f, hook=hook); cp.run()
                got = reachedtypes(cp, fam)
                if req == disk:
                    ctx.ob('enum', '%s %s' % (f.k, req), got == {req}, f.loc(), 'for %s the operations on %s are reached' % (req, sorted(got) or 'no type'), f)
                elif 'disk' in kinds:
                    ctx.ob('enum', '%s %s stored as %s' % (f.k, req, disk), not got, f.loc(), 'a stored %s is handled as %s although %s was asked for' % (disk, sorted(got), req), f)
                elif not kinds: raise AnalysisBroken('no selector evaluated in ' + f.q)
        return
    # selection by dynamic type of the object
    X = defaultdict(list)
    def tested(n):
        last = (n.get('q') or '').split('::')[-1]
        if n['o'] == 'call' and last in ('operator bool', 'operator!', 'get') or n.get('op') in ('!', 'bool'):
            m = re.match(r'(?:const )?boost::intrusive_ptr<(.*)>$', db.decl.get(n.get('f') or '', {}).get('cls') or '')
            if m and len(vts(m.group(1))) == 1: return m.group(1)
    for e, n in f.calls():
        t = tested(n)
        if t: X[t].append(e)
    if len(X) < 2: return
    for x in sorted(X):
        def hook(cp, i, n, env):
            t = tested(n)
            if t is None: return None
            neg = (n.get('q') or '').endswith('operator!')
            return C(int((t == x) != neg)) if not (n.get('q') or '').endswith('::get') or t != x else NZ
        cp = Const(f, hook=hook); cp.run()
        got = set()
        for q, v in fam.items():
            for t, es in v.items():
                if any(e in cp.reached for e in es): got.add((q, t))
        T = vts(x).pop()
        fits = {t for q, t in got if fits_class(db, f, fam, q, t, x)}
        ctx.ob('cast', '%s %s' % (f.k, x.replace('Field3D::', '').replace('Imath_3_1::', '')), bool(got) and {t for q, t in got} == {T} and len(fits) == 1, f.loc(),
               'for an object of class %s the operations on %s are reached' % (x, sorted(t for q, t in got) or 'no type'), f)

def fits_class(db, f, fam, q, t, x):
    """the operation is the one for class x (its arguments or its template argument name x)"""
    for e in fam[q][t]:
        d = db.decl[f.nodes[e]['f']]
        if any(x in p for p in d.get('pt', ())) or any(x in str(a) for a in d.get('ta') or ()) or x in (d.get('cls') or ''): return True
        tt = [str(a) for a in d.get('ta') or ()]
        if vts(' '.join(tt)) == vts(x) and not any('Field<' in p for p in d.get('pt', ())): return True
    return False

def gvars(f, i, d=0):
    if i < 0 or d > 6: return
    n = f.nodes[i]
    if n['o'] == 'gvar': yield n
    for a in kids(n): yield from gvars(f, a, d + 1)

def loops(ctx, f, fam):
    """natural loops by back edges; every family operation in one loop is of one type."""
    where = {}
    for bid, b in f.blocks.items():
        for e in b['el']:
            if isinstance(e, int): where[e] = bid
    pred = defaultdict(set)
    for bid, b in f.blocks.items():
        for s in b['su']:
            if s is not None: pred[s].add(bid)
    color, back = {}, []
    st = [(f.entry, iter(f.blocks[f.entry]['su']))]; color[f.entry] = 1
    while st:
        b, it = st[-1]
        for s in it:
            if s is None or s < 0: continue
            if color.get(s) == 1: back.append((b, s))
            elif s not in color: color[s] = 1; st.append((s, iter(f.blocks[s]['su']))); break
        else: color[b] = 2; st.pop()
    bodies = defaultdict(set)
    for b, h in back:
        w = [b]; body = bodies[h]; body.add(h)
        while w:
            x = w.pop()
            if x in body: continue
            body.add(x); w += pred[x]
    for n, (h, body) in enumerate(sorted(bodies.items(), reverse=True)):
        # only innermost loops
        if any(h2 != h and b2 < body for h2, b2 in bodies.items()): continue
        ts = {t for q, v in fam.items() for t, es in v.items() for e in es if where.get(e) in body}
        ts |= {t for bid in body for e in f.blocks[bid]['el'] if isinstance(e, int) and f.nodes[e]['o'] == 'call'
               and re.match(r'std::(deque|vector)<', f.db.decl.get(f.nodes[e].get('f') or '', {}).get('cls') or '')
               for t in vts(f.db.decl[f.nodes[e]['f']]['cls'])}
        if not ts: continue
        sw = any((f.blocks[b].get('tm') or {}).get('k') == 'SwitchStmt' for b in body)
        if sw: continue
        ctx.ob('loop', '%s loop over %s' % (f.q, sorted(ts)[0]), len(ts) == 1, f.loc(), 'one loop mixes the tables of %s' % sorted(ts), f)

def mismatch(ctx, EN):
    db = ctx.db
    en = [c for (q, fl), v in db.enums.items() if q == 'Field3D::OgDataType' for c in v['c']]
    vals = sorted({v for n, v in en})
    if len(vals) < 6: raise AnalysisBroken('OgDataType not found')
    for f in db.fns(lambda d: d.get('ctor') or True):
        d = db.decl.get(f.k, {})
        if not d.get('ctor') or not re.match(r'Field3D::Og(IAttribute|IDataset|ICDataset|SparseDataReader)<', f.cls or ''): continue
        tc = [n for e, n in f.calls() if 'OgDataType' in (n.get('t') or '') and 'typeEnum' not in (n.get('q') or '')]
        if not tc:
            # a constructor that takes a stored group must look at its type
            if any('IGroupPtr' in p or 'IGroup>' in p or 'OgIGroup' in p for p in d.get('pt', ())) and not d.get('copy') and 'OgIGroup' not in ''.join(d['pt']):
                ctx.ob('mismatch', re.sub(R, 'T', f.cls), False, f.loc(), 'the stored type code is never looked at', f)
            continue
        m = re.match(r'Field3D::\w+<(.*)>$', f.cls); T = m.group(1)
        code = None
        for k, dd in db.decl.items():
            if dd['q'].split('::')[-1] == 'typeEnum' and dd.get('cls') == 'Field3D::OgawaTypeTraits<%s>' % T and k in db.raw: code = num(retconst(db, db.fn(k)))
        if code is None: raise AnalysisBroken('no OgawaTypeTraits code for ' + T)
        def go(v):
            def hook(cp, i, n, env):
                if n['o'] == 'call' and 'OgDataType' in (n.get('t') or ''): return C(code if 'typeEnum' in (n.get('q') or '') else v)
            cp = Const(f, hook=hook)
            def oe(bid, i, e, env):
                if isinstance(e, int):
                    n = f.nodes[e]
                    if n['o'] == 'call' and 'obj' in n and (n.get('op') == '=' or (n.get('q') or '').endswith(('::reset', '::swap'))):
                        p = path(f, n['obj'])
                        if p and 'm_group' in p: env['$gone'] = C(1)
                    if n['o'] == 'call' and 'OgDataType' in (n.get('t') or '') and 'typeEnum' not in (n.get('q') or ''): env['$looked'] = C(1)
            cp.on_elem = oe
            cp.run()
            return [x for x in cp.exits if x[0] != 'throw' and x[3].get('$looked')], [x for x in cp.exits if x[0] == 'throw']
        live, thr = go(code)
        ctx.ob('mismatch', f.cls + ' match', any(not x[3].get('$gone') for x in live), f.loc(), 'data stored as %s is rejected' % T, f)
        bad = []
        for v in vals:
            if v == code: continue
            live, thr = go(v)
            if any(not x[3].get('$gone') for x in live): bad.append(dict((b, a) for a, b in en)[v])
        ctx.ob('mismatch', f.cls + ' other', not bad, f.loc(), 'data stored as %s is taken as %s' % (bad[:3], T), f)

def rtti(ctx):
    """the hand-made dynamic cast only succeeds for objects of the class or below it"""
    db = ctx.db
    meth = defaultdict(dict)
    for k, d in db.decl.items():
        n = d['q'].split('::')[-1]
        if n in ('matchRTTI', 'checkRTTI', 'staticClassType') and d.get('cls') and k in db.raw: meth[d['cls']][n] = k
    def cls(n): return db.decl.get(n.get('f') or '', {}).get('cls')
    def last(n): return (n.get('q') or '').split('::')[-1]
    def cmpval(f, i):
        """class whose type string a comparison node compares with"""
        return {c for e, m in ((j, f.nodes[j]) for j in sub(f, i)) if m['o'] == 'call' and last(m) == 'staticClassType' for c in [cls(m)]}
    for X, ms in sorted(meth.items()):
        if 'Field3D::RefBase' not in db.bases(X): continue
        # X carries own data below its base, so its type string must be its own
        if 'checkRTTI' in ms:
            f = db.fn(ms['checkRTTI'])
            tgt = {cls(n) for e, n in f.calls() if last(n) == 'matchRTTI'}
            ctx.ob('rtti', 'checkRTTI ' + X, tgt == {X}, f.loc(), 'starts the comparison at %s' % tgt, f)
        if 'matchRTTI' in ms:
            f = db.fn(ms['matchRTTI'])
            comps = [(e, n) for e, n in f.calls() if last(n) in ('strcmp', 'strncmp', 'compare', 'operator==')]
            own = all(cmpval(f, e) == {X} for e, n in comps) and bool(comps) and all(last(n) != 'strncmp' for e, n in comps)
            res = {}
            for eq in (True, False):
                def hook(cp, i, n, env):
                    if n['o'] == 'call' and last(n) in ('strcmp', 'compare'): return C(0) if eq else NZ
                    if n['o'] == 'call' and last(n) == 'operator==': return C(int(eq))
                    if n['o'] == 'call' and last(n) == 'matchRTTI': return C(7) if cls(n) in db.bases(X) else C(9)
                cp = Const(f, hook=hook); cp.run()
                res[eq] = {x[1] for x in cp.exits}
            ok = own and res[True] <= {C(1), NZ} and res[False] <= {C(7), C(0)}
            ctx.ob('rtti', 'matchRTTI ' + X, ok, f.loc(), 'compares with %s; result when equal %s, otherwise %s' % ([cmpval(f, e) for e, n in comps], res[True], res[False]), f)
    targets = set()
    for f in db.fns(lambda d: d['q'].endswith('::field_dynamic_cast')):
        X = str((db.decl[f.k].get('ta') or ['?'])[0]); targets.add(X)
        own = 'staticClassType' in meth[X] and 'matchRTTI' in meth[X]
        def leaf(g, i, n, o):
            if n['o'] == 'call' and last(n) == 'staticClassType': return cls(n)
        arg = {l for e, n in f.calls() if last(n) in ('checkRTTI', 'matchRTTI') for l, s, t in Slice(db, leaf, callers=False).of(f, n['a'][0])}
        down = [i for i, n in enumerate(f.nodes) if n['o'] == 'cast' and n.get('ck') == 'BaseToDerived']
        def hook(cp, i, n, env):
            if n['o'] == 'call' and last(n) in ('checkRTTI', 'matchRTTI'): return C(0)
        cp = Const(f, hook=hook); cp.run()
        ok = own and arg == {X} and bool(down) and not any(i in cp.reached for i in down)
        ctx.ob('rtti', 'cast to ' + X, ok, f.loc(), 'own type string: %s, asks for %s, casts without asking: %s' % (own, sorted(map(str, arg)), any(i in cp.reached for i in down)), f)
        # the type string is built from X's own names
        if own and '<' in X:
            g = db.fn(meth[X]['staticClassType'])
            gv = [n for n in g.nodes if n['o'] == 'gvar']
            ctx.ob('rtti', 'type string of ' + X, all(n.get('cls') == X and X in n['t'] for n in gv) and bool(gv), g.loc(), 'uses %s' % [n['q'] for n in gv], g)
    for f in db.fns(lambda d: d.get('ctor') or True):
        if not re.match(r'Field3D::(Templated|Nested)FieldType<', f.cls or '') or not db.decl.get(f.k, {}).get('ctor') or db.decl[f.k].get('copy'): continue
        q = {last(n) for e, n in f.calls()}
        X = re.match(r'Field3D::\w+FieldType<(.*)>$', f.cls).group(1)
        names = {cls(n) for e, n in f.calls() if last(n) == 'staticClassName'}
        want = {X}
        if 'Nested' in f.cls:
            m = re.search(r'<(Field3D::.*)>$', X); want = {X, m.group(1)} if m else want
        dt = {t for e, n in f.calls() if last(n) == 'name' for t in vts(cls(n) or '')}
        if names or dt:
            # a class without own name inherits one: compare what the names resolve to
            ctx.ob('rtti', 'name of ' + X, names >= {w for w in want if (w in meth and hasname(db, w))} and dt == vts(X), f.loc(), 'built from %s and %s' % (sorted(map(str, names)), sorted(dt)), f)

def hasname(db, c):
    return any(d.get('cls') == c and d['q'].endswith('::staticClassName') for d in db.decl.values())

def sub(f, i):
    out, w = set(), [i]
    while w:
        x = w.pop()
        if x < 0 or x in out: continue
        out.add(x); w += list(kids(f.nodes[x]))
        if f.nodes[x]['o'] == 'var' and f.nodes[x]['d'] in local_init(f): w.append(local_init(f)[f.nodes[x]['d']])
    return out
