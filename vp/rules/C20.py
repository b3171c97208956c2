"""Copies, clones and comparisons cover the whole object."""
import re
from ..core import *
from ..facts import kids, AnalysisBroken
from ..inline import inline
from .C14 import allbases
from .C15 import natloops
from .C21 import Set
from .C24 import expand as expand0, vdefs
from .C27 import btext, whole, last
ASSUME = ['records of other libraries and of the standard library copy themselves completely',
          'the time samples of the two curves of a mapping are set together (same count and times)',
          'two objects whose copied members were just made equal agree on values derived from them']

ROOTS = ('FieldBase', 'FieldMapping', 'FieldMetadata')
# what a copy legitimately does not take from its original
OWNER = {'FieldMetadata': {'m_owner'}}
SINGLETON = {'m_fileManager'}            # the one SparseFileManager
PRIVATE = {'m_fileId', 'm_dummy', 'm_ioMutex'}   # identity of this object, scratch, lock
SHARED_OK = {'m_loadActions'}            # immutable once made
ELEMS = {'SparseField': {'m_blocks': ('isAllocated', 'emptyValue', '')}}
ELEMNAME = {'isAllocated': 'allocation flag', 'emptyValue': 'empty value', '': 'voxels'}
PARTS = {'MatrixFieldMapping': [('m_lsToWsCurve', 'first'), ('m_lsToWsCurve', 'second'), ('m_vsToWsCurve', 'second'), ('m_lsToWsCurve', 'size')],
         'FrustumFieldMapping': [('m_lpsToWsCurve', 'first'), ('m_lpsToWsCurve', 'second'), ('m_csToWsCurve', 'second'), ('m_lpsToWsCurve', 'size'), ('m_zDistribution', '')]}
TWIN = {'m_vsToWsCurve': 'm_lsToWsCurve', 'm_csToWsCurve': 'm_lpsToWsCurve'}

def short(c): return re.sub(r'<.*>', '', c).split('::')[-1]
def plain(t): return re.sub(r'\b(const|mutable|volatile) ', '', t).strip()
def pointing(t):
    t = plain(t)
    return bool(t.endswith('*') or is_smart(t) or re.match(r'^(std|boost)::vector<.*(\*|_ptr<.*>|Ptr)( ?, .*)?>$', t) or re.match(r'^(std|boost)::.*(intrusive_ptr|shared_ptr|scoped_ptr)<', t))

def closure_of(db):
    r = []
    for c in db.recs:
        if not c.startswith('Field3D'): continue
        if any(short(x) in ROOTS for x in set(allbases(db, c)) | {c}): r.append(c)
    return r

def rhsof(db, f):
    """variables that denote the object copied from"""
    return {f.params[0]} if 0 in f.params else set()

def expand(f, i):
    """closure through locals, also those given their value by operator="""
    if '_od' not in f.__dict__:
        f._od = {}
        for x, n in enumerate(f.nodes):
            if n['o'] == 'call' and last(n) == 'operator=':
                a = ([n['obj']] if n.get('obj', -1) >= 0 else []) + list(n.get('a', ()))
                if len(a) == 2:
                    v = f.nodes[strip(f, a[0])]
                    if v['o'] == 'var': f._od.setdefault(v['d'], []).append(a[1])
    out = []; todo = [i]; seen = set()
    while todo:
        for x in expand0(f, todo.pop()):
            if x in seen: continue
            seen.add(x); out.append(x)
            if f.nodes[x]['o'] == 'var': todo += [y for y in f._od.get(f.nodes[x]['d'], ()) if y not in seen]
    return out

class Copy:
    def __init__(self, db, f, cls):
        self.db, self.f, self.cls = db, f, cls
        self.own = [x['n'] for x in db.recs[cls]['f']]
        self.rhs = {'v%d' % v for v in rhsof(db, f)}
        self.pat = re.compile(r'(?<![\w.])(%s)\.(\w+)' % '|'.join(self.rhs or {'~'}))
        self.marks = {}; self.bases = set(); self.values = {}
        self.scan()
    def mention(self, i):
        """members of the original that a value is made from"""
        f, r = self.f, set()
        for x in expand(f, i):
            n = f.nodes[x]
            if n['o'] in ('mem', 'idx', 'call', 'var'):
                for m in self.pat.finditer(btext(f, x)): r.add(m.group(2))
            if n['o'] == 'call' and 'obj' in n and btext(f, n['obj']) in self.rhs:
                g = getter(self.db, n.get('f'))
                if g: r.add(re.sub(r'^this\.', '', g).lstrip('&*').split('.')[0] if isinstance(g, str) else g)
        return r
    def member(self, i):
        t = btext(self.f, i).lstrip('*')
        m = re.match(r'^(\w+)', t)
        return (m.group(1), t) if m and m.group(1) in self.own and '?' not in t else (None, t)
    def put(self, m, t, b, i, e, val):
        self.marks.setdefault(m, []).append((b, i, e, t, val))
    def scan(self):
        f, db = self.f, self.db
        for b, i, e in f.elems():
            if isinstance(e, dict):
                if e['e'] == 'init':
                    j = e.get('n', -1)
                    if j is None or j < 0: continue
                    if e.get('m'):
                        self.put(e['m'].split('::')[-1], e['m'].split('::')[-1], b, i, j, j)
                    else:
                        n = f.nodes[j]
                        c = db.decl.get(n.get('f') or '', {}).get('cls')
                        if c and c != self.cls and any(btext(f, a) in self.rhs for a in n.get('a', ())): self.bases.add(c)
                continue
            n = f.nodes[e]
            if n['o'] == 'asn':
                m, t = self.member(n['a'][0])
                if m: self.put(m, t, b, i, e, n['a'][1])
            elif n['o'] == 'call':
                d = db.decl.get(n.get('f') or '', {})
                ob = n.get('obj')
                if ob is None and last(n) == 'operator=' and len(n.get('a', ())) == 2: ob, args = n['a'][0], n['a'][1:]
                else: args = n.get('a', ())
                if ob is None or ob < 0: continue
                if last(n) == 'operator=' and btext(f, ob) == '' and args and btext(f, args[0]) in self.rhs:
                    c = d.get('cls') or (n.get('q') or '').rsplit('::', 1)[0]
                    if c != self.cls: self.bases.add(c)
                    continue
                m, t = self.member(ob)
                if m and not d.get('const') and last(n) not in ('operator[]', 'at', 'begin', 'end', 'get', 'operator->', 'operator*'):
                    for a in args or [-1]: self.put(m, t, b, i, e, a)

    def equalcond(self, i):
        """a condition comparing this object's value with the original's: 1 true when equal, 0 false, else None"""
        f = self.f; n = f.nodes[strip(f, i)]
        if n['o'] != 'bin' or n['op'] not in ('==', '!='): return None
        a, b = (btext(f, x) for x in n['a'])
        same = {a, b} == {'', next(iter(self.rhs), '~')}
        for r in self.rhs:
            for x, y in ((a, b), (b, a)):
                if x == r and y == '': return 'self' + n['op']
                if x.startswith(r + '.') and x[len(r) + 1:] == y and y: return 'eq' + n['op']
        return None

    def succ(self, b):
        bl = self.f.blocks[b]; su = bl['su']; tm = bl.get('tm') or {}
        if tm.get('c') is not None and len(su) == 2:
            q = self.equalcond(tm['c'])
            if q in ('self==', 'eq!='): return [su[1]]
            if q in ('self!=', 'eq=='): return [su[0]]
        return [x for x in su if x is not None and x >= 0]

    def avoids(self, stops, start=None, target=None, inside=None):
        """a path from start to a normal end without passing a stopping block; returns the last block"""
        f = self.f
        start = f.entry if start is None else start
        seen = set(); w = [start]
        while w:
            b = w.pop()
            if b in seen or b in stops: continue
            seen.add(b)
            if b == f.exit: return True
            if any(isinstance(e, int) and f.nodes[e]['o'] == 'throw' for e in f.blocks[b]['el']): continue
            if any(isinstance(e, dict) and e['e'] == 'ret' for e in f.blocks[b]['el']): return True
            w += self.succ(b)
        return False

def cyclefree(f, cp, h, body, marks, source):
    """every turn of the loop passes a mark; branches deciding on the copied element may skip it"""
    byb = {b for b, i, e, t, v in marks}
    reach = set(byb)
    ch = True
    while ch:
        ch = False
        for b in body:
            if b not in reach and b != h and any(s in reach for s in f.blocks[b]['su'] if s in body): reach.add(b); ch = True
    seen = set(); w = [s for s in f.blocks[h]['su'] if s in body]
    if h in byb: return True
    while w:
        b = w.pop()
        if b in seen or b in byb: continue
        if b == h: return False
        seen.add(b)
        su = [s for s in f.blocks[b]['su'] if s is not None and s >= 0 and s in body]
        tm = f.blocks[b].get('tm') or {}
        if tm.get('c') is not None and len(su) == 2:
            txt = ' '.join(btext(f, x) for x in expand(f, tm['c']))
            if source in txt:
                good = [s for s in su if s in reach]
                if good: su = good
        w += su
    return True

def elements(ctx, cp, m, fields, key):
    f = cp.f
    loops = natloops(f)
    for fl in fields:
        stops = set(); why = 'no statement copies the %s of element after element' % ELEMNAME.get(fl, fl)
        for h, body in loops.items():
            ms = []
            src = None
            for b, i, e, t, v in cp.marks.get(m, ()):
                if b not in body: continue
                mm = re.match(r'^%s(\[.*\])(\.(\w+))?$' % m, t)
                if not mm or (mm.group(3) or '') != fl: continue
                want = [r + '.' + m + mm.group(1) for r in cp.rhs]
                txt = [btext(f, x) for x in expand(f, v)] if v is not None and v >= 0 else []
                for wnt in want:
                    if (fl and wnt + '.' + fl in txt) or (not fl and any(x == wnt or wnt in x for x in txt)):
                        ms.append((b, i, e, t, v)); src = wnt
            if not ms: continue
            n0 = m + '[' in ms[0][3]
            tot = {'m_numBlocks', 'size(%s)' % m} | {'%s.m_numBlocks' % r for r in cp.rhs} | {'size(%s.%s)' % (r, m) for r in cp.rhs}
            if not whole(f, h, body, tot, None): why = 'the loop copying the %s does not cover all elements' % ELEMNAME.get(fl, fl); continue
            if not cyclefree(f, cp, h, body, ms, src or '~'): why = 'the loop copying the %s skips elements' % ELEMNAME.get(fl, fl); continue
            stops.add(h)
        if fl == '' and m == 'm_blocks':
            # voxels of a dynamically loaded field come from the file again
            for b, i, e in f.elems():
                if isinstance(e, int) and f.nodes[e]['o'] == 'call' and last(f.nodes[e]) == 'setReferenceBlocks': stops.add(b)
                n = f.nodes[e] if isinstance(e, int) else None
                if n and n['o'] == 'call' and last(n) in ('addReference', 'setupReferenceBlocks'): stops.add(b)
        ok = bool(stops) and not cp.avoids(stops)
        if stops and not ok: why = 'a path through the copy leaves out the %s of the elements' % ELEMNAME.get(fl, fl)
        ctx.ob('elements', '%s.%s' % (key, fl or 'data'), ok, f.loc(), why, f)

def ops(db, cls):
    """user-visible copy operations: (kind, key or None, decl)"""
    r = {'ctor': None, 'asn': None}
    for k in db.recs[cls]['m']:
        d = db.decl.get(k)
        if not d: continue
        pt = [plain(x).rstrip('& ') for x in d.get('pt') or []]
        if d.get('ctor') and d.get('copy'): r['ctor'] = (k, d)
        if d['q'].endswith('::operator=') and len(pt) == 1 and not d['pt'][0].endswith('&&') and short(pt[0]) == short(cls): r['asn'] = (k, d)
    return r

def run(ctx):
    db = ctx.db
    R = ctx.rule
    R('base', 'a copy operation written by hand copies its base class', 3)
    R('whole', 'a copy operation written by hand takes every member from the original on every path', 15)
    R('owned', 'a class with pointer members does not let the compiler share what they point at, and no hand-written copy does', 8)
    R('elements', 'element by element copies cover every element and every part of it', 6)
    R('clone', 'clone() makes a copy of this object, of its own class', 10)
    R('parts', 'comparing mappings takes every defining part into account', 9)
    R('decide', 'a comparison that finds a difference does not report equality', 12)
    classes = closure_of(db)
    S = Set(db)
    seen = set()
    for cls in sorted(classes):
        rec = db.recs[cls]; sc = short(cls)
        o = ops(db, cls)
        for kind in ('ctor', 'asn'):
            x = o[kind]
            hand = x is not None and not x[1].get('implicit') and not x[1].get('defaulted')
            label = '%s %s' % (sc, 'copy constructor' if kind == 'ctor' else 'operator=')
            if not hand:
                bad = [m['n'] for m in rec['f'] if (m['k'] == 'ptr' or pointing(m['t'])) and m['n'] not in SINGLETON | SHARED_OK | OWNER.get(sc, set())]
                if not bad and not any(m['k'] == 'ptr' or pointing(m['t']) for m in rec['f']): continue
                # a class that cannot be copied this way is fine
                ctx.ob('owned', label, not bad, db.decl[x[0]].get('file', cls) if x else cls, 'the compiler generated %s of %s shares what %s points at' % ('copy' if kind == 'ctor' else 'assignment', sc, ', '.join(bad)), None)
                continue
            k, d = x
            if not db.fn(k):
                continue
            handmade(ctx, db, S, cls, sc, kind, k, label)
    clones(ctx, db, classes)
    compare(ctx, db)

def handmade(ctx, db, S, cls, sc, kind, k, label):
    def pick(f, n, t):
        d = db.decl.get(t, {})
        return d.get('cls') == cls and not n.get('virt') and last({'q': d['q']}) not in ('addReference', 'setupReferenceBlocks', 'setupBlocks', 'releaseReference', 'clone') and not d.get('ctor') and not d.get('dtor')
    f = inline(db, k, pick)
    cp = Copy(db, f, cls)
    ctx.fns.add(k)
    for b in db.recs[cls]['b']:
        if not (db.recs.get(b) or {}).get('f') and not any((db.recs.get(x) or {}).get('f') for x in db.bases(b)) or short(b) in ('RefBase', 'noncopyable'): continue
        ctx.ob('base', label + ' ' + short(b), any(short(x) == short(b) for x in cp.bases), f.loc(), '%s of %s does not copy its base %s' % (label, sc, short(b)), f)
    must, _ = S.solve(f)
    for m in db.recs[cls]['f']:
        n = m['n']
        if n in PRIVATE or n in OWNER.get(sc, ()) or n in SINGLETON: continue
        got = [x for x in cp.marks.get(n, ()) if x[4] is not None and x[4] >= 0 and n in cp.mention(x[4])]
        ok = bool(got)
        msg = '%s leaves %s at whatever it was' % (label, n)
        if ok and not (m['k'] == 'ptr' or pointing(m['t'])):
            stops = {x[0] for x in cp.marks.get(n, ())}
            # a helper that lays the object out anew from what was copied
            for b, i, e in f.elems():
                if isinstance(e, int) and f.nodes[e]['o'] == 'call' and not f.nodes[e].get('virt'):
                    t = f.nodes[e].get('f')
                    if t and db.decl.get(t, {}).get('cls') == cls and n in S.summary(t): stops.add(b)
            ok = not cp.avoids(stops)
            msg = 'a path through the %s leaves %s out' % (label, n)
        ctx.ob('whole', '%s %s' % (label, n), ok, f.loc(), msg, f)
        if m['k'] == 'ptr' or pointing(m['t']):
            bad = None
            for b, i, e, t, v in cp.marks.get(n, ()):
                if f.nodes[e]['o'] != 'asn' and last(f.nodes[e]) != 'operator=' and f.nodes[e]['o'] == 'call': continue
                if v is None or v < 0 or '[' in t and m['k'] == 'ptr' and '.' in t: continue
                if t != n and not re.match(r'^%s\[[^\]]*\]$' % n, t): continue
                tx = btext(f, v)
                if any(re.match(r'^%s\.%s(\[[^\]]*\])?$' % (r, n), tx) for r in cp.rhs): bad = e
            ctx.ob('owned', '%s %s' % (label, n), n in SHARED_OK or bad is None, f.loc(bad), '%s points its %s at the original\'s' % (label, n), f)
            if sc in ELEMS and n in ELEMS[sc]: elements(ctx, cp, n, ELEMS[sc][n], label + ' ' + n)
            elif re.match(r'^(std|boost)::vector', plain(m['t'])) and n not in SHARED_OK and n != 'm_rawFields': elements(ctx, cp, n, ('',), label + ' ' + n)
    # the backlink stays with this object
    for mm in OWNER.get(sc, ()):
        bad = any(x[4] is not None and x[4] >= 0 and mm in cp.mention(x[4]) for x in cp.marks.get(mm, ()))
        ctx.ob('owned', label + ' ' + mm, not bad, f.loc(), '%s takes over the original\'s %s' % (label, mm), f)

def clones(ctx, db, classes):
    made = set()
    for f in db.fns():
        for n in f.nodes:
            if n['o'] == 'new' and n.get('t'): made.add(plain(n['t']).rstrip('* '))
    for cls in sorted(classes):
        ks = [k for k in db.recs[cls]['m'] if db.decl.get(k, {}).get('q', '').endswith('::clone') and not db.decl[k].get('pt')]
        inh = any(db.decl.get(k, {}).get('q', '').endswith('::clone') and db.fn(k) for b in allbases(db, cls) if b != cls and b in db.recs for k in db.recs[b]['m'])
        if not ks:
            if cls in made and inh: ctx.ob('clone', short(cls), False, cls, '%s inherits the clone() of its base: its clones are of another class' % short(cls), None)
            continue
        for k in ks:
            f = inline(db, k, lambda g, n, t: db.decl.get(t, {}).get('cls') == cls and not n.get('virt') and not db.decl[t].get('ctor')) if db.fn(k) else None
            if f is None: continue
            ctx.fns.add(k)
            ok = False
            for b, i, e in f.elems():
                if not (isinstance(e, dict) and e['e'] == 'ret') or e['n'] < 0: continue
                ok = False
                for x in expand(f, e['n']):
                    n = f.nodes[x]
                    if n['o'] == 'new' and plain(n['t']).rstrip('* ') == cls:
                        for y in expand(f, x):
                            z = f.nodes[y]
                            if z['o'] == 'ctor' and db.decl.get(z.get('f') or '', {}).get('copy') and db.decl[z['f']].get('cls') == cls and btext(f, z['a'][0]) == '': ok = True
                            # (copying an object without own members may be folded away)
                if not ok: break
            ctx.ob('clone', short(cls) + re.sub(r'^[^<]*', '', cls), ok, f.loc(), 'clone() of %s does not return a new %s copied from this object' % (short(cls), short(cls)), f)

# ------------------------------------------------------------------ comparison
def matrixy(d): return any(re.search(r'Matrix44', t) and 'vector' not in t and 'Curve' not in t for t in d.get('pt') or [])

def sides(f, n):
    """operands of a comparison"""
    o = n['o']
    if o == 'bin' and n['op'] in ('==', '!=', '<', '>', '<=', '>='): return list(n['a'])
    if o == 'bin' and n['op'] == '-': return list(n['a'])
    if o == 'call':
        a = list(n.get('a', ()))
        if 'obj' in n and (last(n).startswith('operator') or last(n).startswith('equal') or last(n) == 'isIdentical'): return [n['obj']] + a[:1]
        return a[:2]
    return []

def failval(f, i):
    n = f.nodes[i]
    if n['o'] == 'bin': return C(1) if n['op'] == '!=' else C(0)
    if last(n) == 'operator!=': return C(1)
    return C(0)

def predicate(f, n): return n['o'] == 'bin' and n['op'] in ('==', '!=') or n['o'] == 'call' and plain(n.get('t') or '') == 'bool' and len(sides(f, n)) == 2

def flags(f):
    return tuple('v%d' % j for j, v in enumerate(f.vars) if plain(v['t']) == 'bool' and not v.get('ref'))[:8] + tuple('n%d' % j for j, n in enumerate(f.nodes) if n['o'] == 'bin' and n['op'] in ('&&', '||'))[:8]

def verdict(f, start, assume, stop=()):
    """may the function return something other than false?"""
    ip = Const(f)
    def on(b, i, e, env): return 'stop' if e in stop else None
    ip.on_elem = on
    ip.split = flags(f)
    if assume and start is None:
        ip.hook = lambda ip, i, n, env: assume.get(i)
        ip.run()
    else: ip.run(start=start, assume=assume)
    return any(k == 'ret' and truth(v) is not False for k, v, l, env in ip.exits)

def where(f):
    return {e: (b, i) for b, i, e in f.elems() if isinstance(e, int)}

def passing(f, cmp, W, allow=None):
    """true answers cannot be reached around the comparison (a loop it sits in counts when it runs over everything)"""
    stop = set(cmp)
    for c in cmp:
        for h, body in natloops(f).items():
            if W[c][0] in body:
                for e in f.blocks[h]['el']:
                    if isinstance(e, int): stop.add(e); break
    return not verdict(f, None, allow or {}, stop)

def compare(ctx, db):
    for k, d in sorted(db.decl.items()):
        cls = d.get('cls')
        if not cls or not d['q'].endswith('::isIdentical') or not db.fn(k): continue
        if not any(short(x) == 'FieldMapping' for x in allbases(db, cls)): continue
        sc = short(cls)
        def pick(f, n, t):
            dd = db.decl.get(t, {})
            return dd.get('q', '').startswith('Field3D') or '(anonymous' in dd.get('q', '') if not n.get('virt') and not matrixy(dd) and db.fn(t) and not dd.get('ctor') and not dd.get('dtor') and not getter(db, t) else False
        f = inline(db, k, lambda f, n, t: bool(pick(f, n, t)) and bool(re.search(r'SampleVec|vector<std::pair|Curve|Mapping', ' '.join(db.decl[t].get('pt') or []))))
        ctx.fns.add(k)
        W = where(f)
        comps = []
        for e in W:
            n = f.nodes[e]
            if not predicate(f, n): continue
            a, b = (btext(f, x) for x in sides(f, n)[:2])
            comps.append((e, a, b))
        kind = [e for e, a, b in comps if 'className' in a + b] + [e for e in W if f.nodes[e]['o'] == 'call' and re.search(r'dynamic_cast', last(f.nodes[e])) and short(re.sub(r'^.*<(.*)>$', r'\1', f.nodes[e].get('t') or '')) == sc]
        kf = [e for e, a, b in comps if 'className' in a + b]
        ctx.ob('parts', sc + ' class', bool(kind) and not verdict(f, None, {}, set(kind)), f.loc(), 'isIdentical of %s can report equality without looking at the class of the other mapping' % sc, f)
        for e in kf:
            ctx.ob('decide', sc + ' class', not verdict(f, W[e], {e: failval(f, e)}), f.loc(e), 'isIdentical of %s reports equality with a mapping of another class' % sc, f)
        for mem, part in PARTS.get(sc, ()):
            mine = []
            for e, a, b in comps:
                for x, y in ((a, b), (b, a)):
                    if not re.search(r'(?<![\w.])%s\b' % mem, x): continue
                    y2 = re.sub(r'(?<![\w.])(v\d+|[\w]+\(.*?\))\.(?=m_)', '', y)
                    if y2 == y: continue
                    x1, y1 = x, y2
                    if x1 != y1: continue
                    if part == '' or x1.endswith('.' + part) or (part == 'size' and re.match(r'^(size|numSamples)\(', x1)) or x1 == mem or re.match(r'^samples\(%s\)$' % mem, x1): mine.append(e)
            if part == 'size' and not mine:
                for e, a, b in comps:
                    for x, y in ((a, b), (b, a)):
                        for tw in [t for t, u in TWIN.items() if u == mem]:
                            if re.match(r'^(size|numSamples)\(.*%s' % tw, x) and re.search(r'v\d+\.%s' % tw, y): mine.append(e)
            key = '%s %s %s' % (sc, mem, part)
            name = {'first': 'the times of', 'second': 'the matrices of', 'size': 'the number of samples of', '': ''}[part]
            if not mine:
                ctx.ob('parts', key, False, f.loc(), 'isIdentical of %s does not compare %s %s' % (sc, name, mem), f); continue
            ok = passing(f, mine, W)
            msg = 'isIdentical of %s can report equality without comparing %s %s' % (sc, name, mem)
            if ok and part in ('first', 'second'):
                cov = False
                for e in mine:
                    t = btext(f, sides(f, f.nodes[e])[0])
                    if not t.endswith('.' + part): cov = True; continue
                    lo = [(len(b), h, b) for h, b in natloops(f).items() if W[e][0] in b]
                    if not lo: continue
                    _, h, body = min(lo)
                    tot = set()
                    for mm in (mem, TWIN.get(mem, mem)):
                        for r in [''] + ['v%d.' % j for j in range(len(f.vars))]:
                            tot |= {'size(samples(%s%s))' % (r, mm), 'numSamples(%s%s)' % (r, mm)}
                    st = coverage(f, h, body, tot)
                    if st and turns(f, st, set(mine)): cov = True
                if not cov: ok = False; msg = 'the loop of isIdentical of %s does not compare %s every sample of %s' % (sc, name, mem)
            ctx.ob('parts', key, ok, f.loc(mine[0]), msg, f)
            for e in mine:
                ctx.ob('decide', '%s %s' % (key, ''), not verdict(f, W[e], {e: failval(f, e)}), f.loc(e), 'isIdentical of %s finds %s %s to differ and can still report equality' % (sc, name, mem), f)
            for e in mine:
                n = f.nodes[e]
                t = n.get('f') if n['o'] == 'call' else None
                if t and db.fn(t) and matrixy(db.decl[t]): matrices(ctx, db, t)

def coverage(f, h, body, tot):
    """leaving the loop other than by returning false means all were visited"""
    outs = {}
    b2 = set(body)
    for b in body:
        tm = f.blocks[b].get('tm') or {}
        for s in f.blocks[b]['su']:
            if s is None or s < 0 or s in body: continue
            ip = Const(f); env = {}
            if tm.get('c') is not None and len(f.blocks[b]['su']) == 2: ip.refine(env, tm['c'], f.blocks[b]['su'][0] == s)
            ip.run(start=(s, 0), env0=env)
            if not any(k == 'ret' and truth(v) is not False for k, v, l, env in ip.exits): continue
            c = tm.get('c')
            if c is None: return []
            cn = f.nodes[strip(f, c)]
            if cn['o'] != 'bin' or cn['op'] not in ('<', '!=', '>', '>=', '<=', '=='): return []
            a0, a1 = cn['a'] if cn['op'] not in ('>', '<=') else cn['a'][::-1]
            # v < total keeps going
            v = f.nodes[strip(f, a0)]
            if v['o'] != 'var': return []
            stay = f.blocks[b]['su'][0] in body
            if cn['op'] in ('<', '>', '!=') and not stay: return []
            if cn['op'] in ('>=', '<=', '==') and stay: return []
            ini = [e['n'] for _, _, e in f.elems() if isinstance(e, dict) and e['e'] == 'decl' and e['d'] == v['d']]
            for _, _, e in f.elems():
                if isinstance(e, int) and f.nodes[e]['o'] == 'asn' and f.nodes[e]['op'] == '=' and f.nodes[strip(f, f.nodes[e]['a'][0])].get('d') == v['d'] and f.nodes[strip(f, f.nodes[e]['a'][0])]['o'] == 'var': ini.append(f.nodes[e]['a'][1])
            if not ini or not all(f.nodes[strip(f, j)].get('v') == 0 for j in ini if j >= 0): return []
            if btext(f, a1) not in tot: return []
            outs[b] = f.blocks[b]['su'][0 if stay else 1]
    return list(outs.values())

def turns(f, starts, marks, allow=None):
    """an iteration that does not make the comparison cannot lead to a true answer"""
    for s in starts:
        ip = Const(f)
        ip.on_elem = lambda b, i, e, env: 'stop' if e in marks else None
        ip.split = flags(f)
        ip.run(start=(s, 0))
        if any(k == 'ret' and truth(v) is not False for k, v, l, env in ip.exits): return False
    return True

def matrices(ctx, db, k):
    """two matrices are equal only if every component of their decomposition is, and the projective column"""
    memo = ctx.__dict__.setdefault('c20m', set())
    if k in memo: return
    memo.add(k)
    f = inline(db, k, lambda f, n, t: db.decl.get(t, {}).get('q', '').startswith('Field3D') and not n.get('virt'))
    ctx.fns.add(k)
    W = where(f)
    nm = short(db.decl[k]['q'])
    ps = ['v%d' % p for p in (f.params[0], f.params[1])]
    full = []; comps = []
    for e in W:
        n = f.nodes[e]
        if not predicate(f, n): continue
        a, b = (btext(f, x) for x in sides(f, n)[:2])
        if {a, b} == set(ps): full.append(e)
        else: comps.append((e, a, b))
    ex = {}
    for e in W:
        n = f.nodes[e]
        if n['o'] == 'call' and re.search(r'extract', last(n)):
            a = [btext(f, x) for x in n.get('a', ())]
            if a and a[0] in ps: ex[a[0]] = a[1:]
    for e in full:
        if not ex: ctx.ob('decide', nm + ' whole', not verdict(f, W[e], {e: failval(f, e)}), f.loc(e), '%s finds the matrices to differ and can still report equality' % nm, f)
    if not ex and full: return
    nofull = {e: failval(f, e) for e in full}
    if set(ex) != set(ps):
        ctx.ob('parts', nm, False, f.loc(), '%s compares neither the matrices nor their decompositions' % nm, f); return
    for j, (x, y) in enumerate(zip(ex[ps[0]], ex[ps[1]])):
        if not re.match(r'^v\d+$', x): continue
        mine = [e for e, a, b in comps if {a, b} == {x, y}]
        vn = f.vars[int(x[1:])]['n']
        ctx.ob('parts', '%s output %d' % (nm, j), bool(mine) and passing(f, mine, W, nofull), f.loc(mine[0] if mine else None), '%s does not compare the %s of both matrices' % (nm, ['scaling', 'shear', 'rotation', 'translation'][j] if j < 4 else vn), f)
        for e in mine:
            ctx.ob('decide', '%s output %d' % (nm, j), not verdict(f, W[e], {e: failval(f, e)}), f.loc(e), '%s finds a component to differ and can still report equality' % nm, f)
    # projective part: the last column of both
    col = []
    for e in W:
        n = f.nodes[e]
        s = sides(f, n)
        if len(s) < 2: continue
        a, b = btext(f, s[0]), btext(f, s[1])
        for p, q in (ps, ps[::-1]):
            if re.search(r'^%s(\.x)?\[.*\]\[3\]$' % p, a) and a.replace(p, q, 1) == b: col.append(e)
    ok = bool(col)
    msg = '%s does not compare the projective part of the matrices' % nm
    if ok:
        ok = passing(f, col, W, nofull)
        lo = [(len(b), h, b) for h, b in natloops(f).items() if W[col[0]][0] in b]
        if lo:
            st = coverage(f, min(lo)[1], min(lo)[2], {'4', '3'})
            ok = ok and bool(st) and turns(f, st, set(col))
        else: ok = ok and len(col) >= 3
        if not ok: msg = '%s compares only some of the projective part' % nm
    ctx.ob('parts', nm + ' projective', ok, f.loc(col[0] if col else None), msg, f)
    for e in col:
        p = e; 
        # the test the difference ends up in
        for t in W:
            n = f.nodes[t]
            if n['o'] == 'bin' and n['op'] in ('<', '>', '<=', '>=', '!=', '==') and e in set(expand(f, t)) and t != e:
                v = C(1) if n['op'] in ('>', '>=', '!=') else C(0)
                if e not in set(expand(f, n['a'][0])): v = C(1) if n['op'] in ('<', '<=', '!=') else C(0)
                ctx.ob('decide', nm + ' projective', not verdict(f, W[t], {t: v}), f.loc(t), '%s finds the projective parts to differ and can still report equality' % nm, f)
