"""Registration of the shipped readers/writers and lookup by stored class name."""
from ..items import *
from ..slices import Slice
from .C12 import retconst
from .C13 import vts

ASSUME = ['initIO has been called (the property is stated for an initialised library)', 'std::map behaves as specified']

def fnargs(f, i, d=0):
    if i is None or i < 0 or d > 5: return
    n = f.nodes[i]
    if n['o'] == 'fn' and n.get('f'): yield n
    if n['o'] == 'var':
        li = local_init(f).get(n['d'])
        if li is not None: yield from fnargs(f, li, d + 1)
    for a in kids(n): yield from fnargs(f, a, d + 1)

def made(db, k):
    """classes newly made by what function k returns"""
    f = db.fn(k); out = set()
    def leaf(g, i, n, o):
        if n['o'] == 'new': return re.sub(r' ?\*$', '', n['t'])
    for _, _, e in f.elems():
        if isinstance(e, dict) and e['e'] == 'ret' and e['n'] >= 0:
            out |= {l for l, s, t in Slice(db, leaf).of(f, e['n'])}
    return out

def concrete(db, base, name):
    """shipped concrete classes below base"""
    r = set()
    for k, d in db.decl.items():
        c = d.get('cls') or ''
        if c != base and d['q'].split('::')[-1] == name and base in allbases(db, c) and not d.get('pure'): r.add(c)
    return r

def allbases(db, c):
    out, w = set(), [c]
    while w:
        x = w.pop()
        for b in db.bases(x):
            if b not in out: out.add(b); w.append(b)
    return out

def names_of(db, c, fn):
    r = set()
    for k, d in db.decl.items():
        if d.get('cls') == c and d['q'].split('::')[-1] == fn and k in db.raw:
            r |= retstr(db, k)
    return r

def retstr(db, k, d=0):
    f = db.fn(k)
    return {x for _, _, e in f.elems() if isinstance(e, dict) and e['e'] == 'ret' for x in strs(db, f, e['n'], d)}

def strs(db, f, i, d=0):
    if i < 0 or d > 6: return {None}
    v = strconst(f, i)
    if v is not None and not v.endswith('*'): return {v}
    n = f.nodes[i]
    if n['o'] == 'call' and n.get('f') in db.raw: return retstr(db, n['f'], d + 1)
    if n['o'] in ('ctor', 'cast', 'load') and n.get('a'): return strs(db, f, n['a'][0], d + 1)
    if n['o'] == 'var' and n['d'] in local_init(f): return strs(db, f, local_init(f)[n['d']], d + 1)
    return {None}

def handled(db, c, base):
    """object classes the reader/writer class c casts to or makes"""
    out = set(); made = set(); seen = set()
    work = [k for k, d in db.decl.items() if d.get('cls') == c and d['q'].split('::')[-1] in ('read', 'write') and k in db.raw]
    pc = re.sub(r'<.*', '', c)
    while work:
        k = work.pop()
        if k in seen: continue
        seen.add(k); f = db.fn(k)
        for i, n in enumerate(f.nodes):
            if n['o'] == 'new':
                t = re.sub(r' ?\*$', '', n['t'])
                if base in allbases(db, t): made.add(t)
                continue
            elif n['o'] == 'call' and (n.get('q') or '').endswith(('field_dynamic_cast', 'dynamic_pointer_cast')):
                t = ' '.join(map(str, db.decl.get(n.get('f') or '', {}).get('ta') or ()))
            elif n['o'] == 'cast' and n.get('ck') == 'Dynamic': t = re.sub(r' ?\*$', '', n['t'])
            else: t = None
            if t and base in allbases(db, t): out.add(t)
        for e, n in f.calls():
            if n.get('f') in db.raw and (db.decl[n['f']].get('cls') or '') == c: work.append(n['f'])
    return out or made

def run(ctx):
    db = ctx.db
    ctx.rule('registered', 'every shipped reader/writer class is registered on every path of initIO', 7)
    ctx.rule('create', 'the registered function makes an object of its own class', 7)
    ctx.rule('name', 'a reader/writer answers to the class name of exactly the objects it reads and writes', 20)
    ctx.rule('unique', 'no two reader/writer classes share a name', 2)
    ctx.rule('store', 'registering stores the given function under the name of what it makes, whenever that name is free', 4)
    ctx.rule('lookup', 'looking up a name calls the function stored under it; an unknown name yields null', 8)
    ctx.rule('keep', 'registrations are never dropped: the factory is made once and its tables are never erased from', 2)
    ctx.rule('key', 'readers/writers are looked up by the class name of the object, or by the stored class name when reading', 6)
    init = db.need('Field3D::initIO')
    # functions initIO always reaches: itself plus helpers called on every path
    for base, reg, obase in (('Field3D::FieldIO', 'registerFieldIO', 'Field3D::FieldBase'), ('Field3D::FieldMappingIO', 'registerFieldMappingIO', 'Field3D::FieldMapping')):
        classes = sorted(concrete(db, base, 'write'))
        if len(classes) < 3: raise AnalysisBroken('only %s derive from %s' % (classes, base))
        names = {}
        for c in classes:
            always = all(registers(db, f, reg, c) for f in init)
            ctx.ob('registered', c, always, init[0].loc(), '%s is not registered on every path of initIO' % c, init[0])
            nm = names_of(db, c, 'className')
            for x in nm: names.setdefault(x, set()).add(c)
            hs = handled(db, c, obase)
            if not hs: raise AnalysisBroken('no object class handled by ' + c)
            for h in sorted(hs):
                on = names_of(db, h, 'className') or names_of(db, h, 'staticClassName')
                ctx.ob('name', '%s handles %s' % (c, h), len(nm) == 1 and None not in nm and on == nm, msg='reader/writer is called %s, the objects %s' % (nm, on))
                sn = names_of(db, h, 'staticClassName')
                if sn: ctx.ob('name', '%s staticClassName' % h, sn == on, msg='staticClassName %s but className %s' % (sn, on))
        ctx.ob('unique', base, all(len(v) == 1 for v in names.values()) and None not in names, msg=str(names))
        for k, d in db.decl.items():
            pass
    for f in db.fns(lambda d: True):
        for e, n in f.calls():
            if not re.search(r'::register(FieldIO|FieldMappingIO)$', n.get('q') or ''): continue
            for a in n.get('a', ()):
                for x in fnargs(f, a):
                    d = db.decl.get(x['f'], {})
                    if not d.get('cls') or x['f'] not in db.raw: continue
                    m = made(db, x['f'])
                    ctx.ob('create', d['cls'], m == {d['cls']}, db.fn(x['f']).loc(), 'makes %s' % sorted(m), db.fn(x['f']))
    maps = {}
    for q in ('Field', 'FieldIO', 'FieldMapping', 'FieldMappingIO'):
        maps[q] = store(ctx, db, q)
        lookup(ctx, db, q, maps[q])
    keep(ctx, db, set(x.split('.')[-1] for v in maps.values() for x in v))
    keys(ctx, db)

def registers(db, f, reg, c, d=0):
    """every path of f registers class c"""
    cp = Const(f)
    def oe(bid, i, e, env):
        if not isinstance(e, int): return
        n = f.nodes[e]
        if n['o'] != 'call': return
        if (n.get('q') or '').endswith('::' + reg):
            if any(db.decl.get(x['f'], {}).get('cls') == c for a in n['a'] for x in fnargs(f, a)): env['$reg'] = C(1)
        elif n.get('f') in db.raw and d < 2 and (n.get('q') or '').startswith('Field3D') and not (n.get('q') or '').startswith('Field3D::ClassFactory'):
            if memo(db, n['f'], reg, c, d): env['$reg'] = C(1)
    cp.on_elem = oe; cp.run()
    ex = [x for x in cp.exits if x[0] != 'throw']
    return bool(ex) and all(x[3].get('$reg') for x in ex)

def memo(db, k, reg, c, d):
    g = db.fn(k)
    return registers(db, g, reg, c, d + 1)

def mapop(db, f, n):
    """(path of map, kind) when n operates on a member std::map / container"""
    if n['o'] != 'call' or 'obj' not in n: return None
    cl = db.decl.get(n.get('f') or '', {}).get('cls') or ''
    if not re.match(r'std::(__\w+::)?(unordered_)?map<', cl): return None
    return path(f, n['obj']), (n.get('q') or '').split('::')[-1]

def endcmp(db, f, n):
    """+1 if n is true when the name is unknown, -1 when it is true for a known name."""
    if n['o'] in ('call', 'bin'):
        op = n.get('op') or ''
        last = (n.get('q') or '').split('::')[-1]
        if op in ('==', '!=') or last in ('operator==', 'operator!='):
            neq = op == '!=' or last == 'operator!='
            args = list(n.get('a', ())) + ([n['obj']] if 'obj' in n else [])
            if any(has_end(db, f, a) for a in args): return -1 if neq else 1
    return 0

def has_end(db, f, i, d=0):
    if i < 0 or d > 5: return False
    n = f.nodes[i]
    m = mapop(db, f, n)
    if m and m[1] in ('end', 'cend'): return True
    if n['o'] == 'var':
        li = local_init(f).get(n['d'])
        if li is not None and has_end(db, f, li, d + 1): return True
    return any(has_end(db, f, a, d + 1) for a in n.get('a', ()) if n['o'] in ('ctor', 'cast', 'load'))

def known_hook(db, f, known, inst=True):
    def hook(cp, i, n, env):
        e = endcmp(db, f, n)
        if e: return C(int((e < 0) == known))
        m = mapop(db, f, n)
        if m and m[1] in ('count', 'contains'): return C(int(known))
        if m and m[1] == 'empty': return C(0) if known else None
        last = (n.get('q') or '').split('::')[-1]
        cl = db.decl.get(n.get('f') or '', {}).get('cls') or ''
        if n['o'] == 'call' and 'intrusive_ptr<' in cl:
            if last == 'operator!': return C(0 if inst else 1)
            if last == 'operator bool': return C(1 if inst else 0)
            if last == 'get': return NZ if inst else C(0)
    return hook

def store(ctx, db, q):
    maps = set()
    fs = db.need('Field3D::ClassFactory::register' + q)
    for f in fs:
        P = f.params.get(0)
        st = []
        for e, n in f.calls():
            m = mapop(db, f, n)
            if m and m[1] in ('operator[]', 'insert', 'emplace', 'insert_or_assign', 'at', 'operator[]') or (m and n.get('op') == '[]'): st.append((e, m[0]))
        if not st: ctx.ob('store', q, False, f.loc(), 'nothing is stored', f); continue
        maps |= {p for e, p in st if p}
        def leaf(g, i, n, o):
            last = (n.get('q') or '').split('::')[-1]
            if n['o'] == 'call' and last in ('className', 'dataTypeString', 'classType', 'staticClassName', 'dataTypeName'):
                src = Slice(db, lambda g2, i2, n2, o2: 'fp' if n2['o'] == 'call' and not n2.get('f') and 'virt' not in n2 else None, callers=False).of(g, n['obj']) if 'obj' in n else set()
                return last + ('()' if {l for l, s, t in src} == {'fp'} else ' of something else')
            if n['o'] == 'call' and not n.get('f'): return 'made'
            if n['o'] == 'str': return 'text %r' % n.get('s')
            if n['o'] == 'var' and n['d'] == P: return 'function'
        keyl, vall = set(), set()
        for e, p in st:
            n = f.nodes[e]
            a = n['a']
            S = Slice(db, leaf, callers=False)
            keyl |= {l for l, s, t in S.of(f, a[0])} & {l for l, s, t in S.of(f, a[0])}
            par = f.parent().get(e)
            for i, m in enumerate(f.nodes):
                if m['o'] == 'asn' and e in deep(f, m['a'][0]): vall |= {l for l, s, t in Slice(db, leaf, callers=False).of(f, m['a'][1])}
            if (n.get('q') or '').split('::')[-1] in ('insert', 'emplace', 'insert_or_assign'): vall |= keyl & {'function'}; keyl -= {'function'}
        want = {'className()'} | ({'dataTypeString()', "text '<'", "text '>'"} if q == 'Field' else set())
        cp = Const(f, hook=known_hook(db, f, False))
        sts = {e for e, p in st}
        def oe(bid, i, e, env):
            if isinstance(e, int) and e in sts: env['$st'] = C(1)
        cp.on_elem = oe; cp.run()
        ex = [x for x in cp.exits if x[0] != 'throw']
        ok = keyl == want and vall == {'function'} and bool(ex) and all(x[3].get('$st') for x in ex)
        ctx.ob('store', q, ok, f.loc(), 'stored under %s, value %s, on every path: %s' % (sorted(keyl), sorted(vall), all(x[3].get('$st') for x in ex)), f)
    return maps

def deep(f, i):
    out, w = set(), [i]
    while w:
        x = w.pop()
        if x < 0 or x in out: continue
        out.add(x); w += list(kids(f.nodes[x]))
    return out

def lookup(ctx, db, q, maps):
    for f in db.need('Field3D::ClassFactory::create' + q):
        for known in (False, True):
            cp = Const(f, hook=known_hook(db, f, known))
            def oe(bid, i, e, env):
                if isinstance(e, int) and f.nodes[e]['o'] == 'call' and not f.nodes[e].get('f') and not f.nodes[e].get('q'): env['$fp'] = C(1)
            cp.on_elem = oe; cp.run()
            thr = [x for x in cp.exits if x[0] == 'throw']; ex = [x for x in cp.exits if x[0] != 'throw']
            if known: ctx.ob('lookup', q + ' known', ex and not thr and all(x[3].get('$fp') for x in ex), f.loc(), 'a known name does not always lead to its function', f)
            else: ctx.ob('lookup', q + ' unknown', ex and not thr and not any(x[3].get('$fp') for x in ex), f.loc(), 'an unknown name leads to a function call or an exception', f)
        ms, ks = set(), set()
        for e, n in f.calls():
            m = mapop(db, f, n)
            if m:
                ms.add(m[0])
                if m[1] in ('find', 'count', 'at', 'operator[]', 'lower_bound', 'upper_bound'):
                    ks.add(path(f, strip(f, n['a'][0])))
                    if m[1] in ('lower_bound', 'upper_bound', 'operator[]'): ks.add('inexact')
        p0 = f.params.get(0)
        loops = not ms
        ctx.ob('lookup', q + ' table', ms == maps and ks == {'v%d' % p0}, f.loc(), 'looks in %s by %s, registered in %s' % (ms, ks, maps), f)

def keep(ctx, db, names):
    bad = []
    n0 = 0
    for f in db.fns(lambda d: (d.get('cls') or '').startswith('Field3D::ClassFactory')):
        for e, n in f.calls():
            m = mapop(db, f, n)
            if m:
                n0 += 1
                if m[1] in ('erase', 'clear', 'swap', 'extract', 'operator='): bad.append(f.loc(n))
    ctx.ob('keep', 'tables', n0 > 4 and not bad, bad[0] if bad else '', 'registrations are erased')
    for f in db.need('Field3D::ClassFactory::singleton'):
        def hook(cp, i, n, env):
            if n['o'] in ('call', 'bin'):
                last = (n.get('q') or '').split('::')[-1]
                cl = db.decl.get(n.get('f') or '', {}).get('cls') or ''
                if 'ClassFactory' in cl and re.match(r'(boost|std)::(__\w+::)?(scoped_ptr|shared_ptr|unique_ptr|intrusive_ptr)', cl):
                    if last == 'get': return NZ
                    if last == 'operator bool': return C(1)
                    if last == 'operator!': return C(0)
            if n['o'] == 'load' and 'ms_instance' in (path(f, n['a'][0]) or ''): return NZ
        cp = Const(f, hook=hook); cp.run()
        bad = [n for e, n in f.calls() if e in cp.reached and (n.get('q') or '').endswith(('::reset', '::swap')) and 'ClassFactory' in (db.decl.get(n.get('f') or '', {}).get('cls') or '')]
        bad += [n for i, n in enumerate(f.nodes) if i in cp.reached and n['o'] == 'asn' and 'ms_instance' in (path(f, n['a'][0]) or '')]
        bad += [n for i, n in enumerate(f.nodes) if i in cp.reached and n['o'] == 'new' and n['t'].startswith('Field3D::ClassFactory')]
        ctx.ob('keep', 'one factory', not bad, f.loc(bad[0]) if bad else f.loc(), 'the factory is made again although it exists', f)

def keys(ctx, db):
    def leaf(g, i, n, o):
        last = (n.get('q') or '').split('::')[-1]
        if n['o'] == 'call':
            if last in ('className', 'staticClassName'): return 'class name'
            p = primitive(g, n)
            if p and p[1] == 'r' and p[2] in 'AC':
                if o is not None or p[0] == 'og':
                    s = strconst(g, p[4])
                    return 'stored ' + str(s)
            if last in ('readString', 'readAttribute') : return 'stored ' + last
    n0 = 0
    for f in db.fns(lambda d: d['q'].startswith('Field3D::') or '(anon' in d['q']):
        for e, n in f.calls():
            last = (n.get('q') or '').split('::')[-1]
            if last not in ('createFieldIO', 'createFieldMappingIO'): continue
            ls = {l for l, s, t in Slice(db, leaf, depth=6).of(f, n['a'][0])}
            ok = bool(ls) and ls <= {'class name', 'stored class_name', 'stored mapping_type', 'stored readString'} and ls != {'stored readString'}
            n0 += 1
            reading = any(x in f.q.split('::')[-1] for x in ('read', 'load'))
            ctx.ob('key', '%s %s' % (f.q, last), ok, f.loc(n), 'looked up by %s' % sorted(ls), f)
