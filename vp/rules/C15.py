"""All five kinds of metadata survive copying, writing and reading."""
import re
from ..core import *
from .. import fail
from ..items import primitive, short
from ..slices import Slice, defs
ASSUME = ['std::map keeps what is stored in it; the storage layers keep attribute names, types and values as given',
          'the metadata group of a layer can be opened (a failed open is C09)']

KINDS = {'Str': 'string', 'Int': 'int', 'Float': 'float', 'VecInt': 'Vec3<int>', 'VecFloat': 'Vec3<float>'}
FM = 'Field3D::FieldMetadata::'
MEM = {'m_%sMetadata' % (k[0].lower() + k[1:]): k for k in KINDS}
ACC = {FM + '%sMetadata' % (k[0].lower() + k[1:]): k for k in KINDS}
SET = {FM + 'set%sMetadata' % k: k for k in KINDS}
H5CLASS = {'Str': 3, 'Int': 0, 'Float': 1, 'VecInt': 0, 'VecFloat': 1}
OWNERS = ('layer', 'file')

def ptypes(d): return [short(x) for x in d.get('pt') or []]

def memkind(f, i):
    """FieldMetadata map the node denotes (a member or its own accessor)."""
    n = f.nodes[i]
    while n['o'] in ('load', 'cast'): i = n['a'][0]; n = f.nodes[i]
    if n['o'] == 'mem' and n['n'] in MEM: return MEM[n['n']]
    if n['o'] == 'call' and (n.get('q') or '') in ACC and not n.get('a'): return ACC[n['q']]
    return None

def owner_leaf(f, i, n, out):
    if n['o'] == 'call' and out is None:
        q = n.get('q') or ''
        if q == 'Field3D::FieldBase::metadata': return 'layer'
        if q.startswith('Field3D::Field3D') and q.endswith('::metadata'): return 'file'
    if n['o'] == 'mem' and n['n'] == 'm_metadata':
        return 'layer' if 'FieldBase' in (n.get('q') or '') and 'Field3D' not in (n.get('q') or '').split('::', 1)[-1] else 'file'
    return None

def alias(f, n):
    """initializer of a local reference"""
    if n['o'] == 'var' and f.vars[n['d']].get('ref') and f.vars[n['d']]['p'] < 0:
        k = refinit(f).get(n['d'])
        return k if k is not None and k >= 0 else None
    return None

class Look:
    def __init__(self, db):
        self.db = db
        self.own = Slice(db, owner_leaf, 5)
        self.memo = {}
    def owners(self, f, i):
        r = set()
        def leaf(g, j, n, out):
            lb = owner_leaf(g, j, n, out)
            if lb: return lb
            a = alias(g, n)
            if a is not None: r.update(self.owners(g, a)); return 'x'
            return None
        r |= {x[0] for x in Slice(self.db, leaf, 5).of(f, i)}
        return frozenset(r - {'x'})
    def kindof(self, f, i):
        """{(kind, owner)} of a map expression"""
        key = (f.k, i)
        if key in self.memo: return self.memo[key]
        self.memo[key] = frozenset()
        r = set()
        def leaf(g, j, n, out):
            if out is not None: return None
            a = alias(g, n)
            if a is not None: r.update(self.kindof(g, a)); return 'x'
            k = memkind(g, j) if n['o'] in ('call', 'mem') else None
            if k:
                for o in self.owners(g, n.get('obj', n['a'][0] if n['o'] == 'mem' and n.get('a') else -1)): r.add((k, o))
                return 'x'
            return None
        Slice(self.db, leaf, 5).of(f, i)
        self.memo[key] = frozenset(r)
        return self.memo[key]
    def edge(self, f, i, which):
        """{(kind, owner, suffix)} of values reached through iterators from map.begin()/end()"""
        def leaf(g, j, n, out):
            if n['o'] == 'call' and 'obj' in n and not n.get('op') and (n.get('q') or '').split('::')[-1] in which:
                k = self.kindof(g, n['obj'])
                if k: return tuple(sorted(k))
            return None
        return {(k, o, s) for lb, s, into in Slice(self.db, leaf, 5).of(f, i) for k, o in lb}

def natloops(f):
    pred = {}
    for bid, b in f.blocks.items():
        for s in b['su']:
            if s is not None and s >= 0: pred.setdefault(s, set()).add(bid)
    color, back = {f.entry: 1}, []
    st = [(f.entry, iter(f.blocks[f.entry]['su']))]
    while st:
        b, it = st[-1]
        for s in it:
            if s is None or s < 0: continue
            if color.get(s) == 1: back.append((b, s))
            elif s not in color: color[s] = 1; st.append((s, iter(f.blocks[s]['su']))); break
        else: color[b] = 2; st.pop()
    bodies = {}
    for b, h in back:
        w = [b]; body = bodies.setdefault(h, set()); body.add(h)
        while w:
            x = w.pop()
            if x in body: continue
            body.add(x); w += pred.get(x, ())
    return bodies

def innermost(f, bid):
    c = [(len(b), h, b) for h, b in natloops(f).items() if bid in b]
    return min(c)[1:] if c else None

def where(f):
    r = {}
    for bid, j, e in f.elems():
        if isinstance(e, int): r[e] = (bid, j)
    return r

def failing(f, kind, val):
    if kind == 'throw': return True
    fv = fail.failing_value(f)
    return fv is not None and kind == 'ret' and val is not None and bool(fv(kind, val))

# ------------------------------------------------------------------ write loops
def write_loops(db, L):
    """fn -> [(fmt, kinds{(kind,owner)}, prim node, header, body)]"""
    r = {}; bad = []
    for f in db.fns():
        if re.match(r'Field3D::(Hdf5Util::|OgO|Og)', f.q): continue
        for i, n in f.calls():
            p = primitive(f, n)
            if not p or p[1] != 'w' or p[2] != 'A': continue
            nm = L.edge(f, p[4], ('begin', 'cbegin'))
            if not nm: continue
            fmt, t = p[0], p[3]
            r.setdefault(f.k, (f, []))[1].append((fmt, t, i, n, p, nm))
    return r

def check_write(ctx, L):
    db = ctx.db
    found = {}
    for f, ps in write_loops(db, L).values():
        wh = where(f)
        for fmt, t, i, n, p, nm in ps:
            names = {(k, o) for k, o, s in nm}
            vals = set(); sfx = set()
            for a in n['a']:
                if a == p[4]: continue
                for k, o, s in L.edge(f, a, ('begin', 'cbegin')): vals.add((k, o)); sfx.add(s.split('.')[0])
            ks = sorted({k for k, o in names | vals})
            key = '%s %s %s' % (fmt, '/'.join(ks), fail.fkey(f))
            ok, msg = True, ''
            if {s for k, o, s in nm} != {'first'}: ok, msg = False, 'the attribute is not named by the metadata name'
            elif sfx != {'second'}: ok, msg = False, 'the attribute does not hold the metadata value'
            elif names != vals or len(ks) != 1: ok, msg = False, 'name and value come from different metadata (%s, %s)' % (sorted(names), sorted(vals))
            elif fmt == 'og' and t != KINDS[ks[0]]: ok, msg = False, '%s metadata stored as %s' % (ks[0], t)
            elif fmt == 'h5':
                want = {'Str': 'string', 'Int': 'int', 'VecInt': 'int', 'Float': 'float', 'VecFloat': 'float'}[ks[0]]
                cnt = 3 if ks[0].startswith('Vec') else 1
                if t != want: ok, msg = False, '%s metadata stored as %s' % (ks[0], t)
                elif want != 'string' and f.nodes[n['a'][2]].get('v') != cnt: ok, msg = False, '%s metadata stored with %s values' % (ks[0], f.nodes[n['a'][2]].get('v'))
            ctx.ob('write', key, ok, f.loc(i), msg, f)
            lp = innermost(f, wh[i][0]) if i in wh else None
            if lp is None:
                ctx.ob('every', key, False, f.loc(i), 'the attribute is not written in a loop over all of the metadata', f); continue
            h, body = lp
            ok, msg = True, ''
            ends = set()
            # exits of the loop
            for b in body:
                for s in f.blocks[b]['su']:
                    if s is None or s < 0 or s in body: continue
                    tm = f.blocks[b].get('tm') or {}
                    e = {(k, o) for k, o, s2 in L.edge(f, tm.get('c', -1), ('end', 'cend'))} if 'c' in tm else set()
                    if e and e <= names: ends |= e; continue
                    ip = Const(f); ip.run((s, 0), {})
                    if s == f.exit or any(not failing(f, x[0], x[1]) for x in ip.exits):
                        ok, msg = False, 'the loop can be left before all metadata is stored'
            if ok and ends != names: ok, msg = False, 'the loop does not run to the end of the metadata it stores (%s, %s)' % (sorted(ends), sorted(names))
            if ok:
                # every round stores
                ip = Const(f); ip.single_fault = True
                ip.on_elem = lambda bid, j, e, env: 'stop' if e == i else None
                for s in f.blocks[h]['su']:
                    if s in body: ip.instate = {}; ip.run((s, 0), {})
                if any((b, h) in ip.edges for b in body): ok, msg = False, 'a round of the loop can skip the attribute'
            if ok:
                incs = [e for bid, j, e in f.elems() if isinstance(e, int) and f.nodes[e]['o'] in ('call', 'un') and f.nodes[e].get('op') in ('++', '--', '+=', '-=')
                        and bid in body and L.edge(f, f.nodes[e].get('obj', (f.nodes[e].get('a') or [-1])[0]), ('begin', 'cbegin')) & nm_any(names)]
                pre = [e for bid, j, e in f.elems() if isinstance(e, int) and f.nodes[e]['o'] == 'call' and f.nodes[e].get('op') in ('++', '--', '+=', '-=')
                       and bid not in body and path(f, f.nodes[e].get('obj', -1)) in {path(f, f.nodes[x].get('obj', -1)) for x in incs} - {None}]
                if len(incs) != 1: ok, msg = False, 'the loop moves %d times per round' % len(incs)
                elif pre: ok, msg = False, 'the iterator is moved outside the loop'
            ctx.ob('every', key, ok, f.loc(i), msg, f)
            if ok: found.setdefault(f.k, []).append((fmt, names, h))
    return found

def nm_any(names): return {(k, o, s) for k, o in names for s in ('', 'first', 'second')}

class Must:
    """What a function has done on every path it reports success from."""
    def __init__(self, db, marks, hook=None, single=False):
        """marks: fn key -> {block or node: set of labels}"""
        self.db, self.marks, self.hook, self.single = db, marks, hook, single
        self.memo = {}; self.rel = {}
    def relevant(self, k, d=0):
        r = self.rel.get(k)
        if r is not None: return r
        self.rel[k] = False
        f = self.db.fn(k)
        if f is None or d > 6: return False
        r = k in self.marks or any(self.relevant(n['f'], d + 1) for i, n in f.calls() if n['o'] == 'call' and n.get('f')
                                   and re.match(r'Field3D::(?!Og|Hdf5Util|Sparse|Dense|MIP|MAC)', n.get('q') or ''))
        self.rel[k] = r
        return r
    def of(self, k):
        if k in self.memo: return self.memo[k]
        self.memo[k] = frozenset()
        f = self.db.fn(k)
        if f is None or not self.relevant(k): return self.memo[k]
        mk = self.marks.get(k, {})
        def on(bid, j, e, env):
            if True:
                for lb in mk.get(('b', bid), ()): env['$%s/%s/%s' % lb] = C(1)
            for lb in mk.get(e, ()): env['$%s/%s/%s' % lb] = C(1)
            n = f.nodes[e]
            if n['o'] == 'throw' and self.single: return 'stop'
            if n['o'] == 'call' and n.get('f') and n['f'] != k:
                for lb in self.of(n['f']): env['$%s/%s/%s' % lb] = C(1)
        ip = Const(f, hook=self.hook); ip.on_elem = on; ip.single_fault = self.single
        ip.run()
        r = None
        for kd, v, l, env in ip.exits:
            if failing(f, kd, v): continue
            if kd == 'ret' and v == C(0) : continue
            s = {tuple(x[1:].split('/')) for x in env if x.startswith('$') and env[x] == C(1)}
            r = s if r is None else r & s
        self.memo[k] = frozenset(r or ())
        return self.memo[k]

# ------------------------------------------------------------------ read side
def name_of(f, i):
    """canonical text of an attribute-name expression"""
    j = i
    for _ in range(10):
        n = f.nodes[j]
        if n['o'] in ('load', 'cast') or n['o'] == 'ctor' and n['a'] and 'basic_string' in n['t']: j = n['a'][0]
        elif n['o'] == 'call' and (n.get('q') or '').split('::')[-1] in ('c_str', 'data') and 'obj' in n: j = n['obj']
        elif n['o'] == 'call' and n.get('op') == '[]':
            base = n.get('obj', n['a'][0]); return name_of(f, base) + '[' + name_of(f, n['a'][-1]) + ']'
        elif n['o'] == 'var':
            k = local_init(f).get(n['d'])
            if k is None or k < 0 or f.nodes[k]['o'] == 'call' and f.nodes[k].get('op') != '[]' and not (f.nodes[k].get('q') or '').endswith(('c_str', 'data')): break
            j = k
        elif n['o'] == 'un' and n['op'] == '&': j = n['a'][0]
        elif n['o'] == 'idx': return name_of(f, n['a'][0]) + '[' + name_of(f, n['a'][1]) + ']'
        else: break
    n = f.nodes[j]
    if 'v' in n: return str(n['v'])
    return path(f, j) or ('s:' + strconst(f, j) if strconst(f, j) else 'n%d' % j)

def check_read(ctx, L):
    db = ctx.db
    found = {}; groups = {}
    for f in db.fns():
        for i, n in f.calls():
            k = SET.get(n.get('q') or '')
            if not k or f.q.startswith(FM) or strconst(f, n['a'][0]) is not None: continue
            def leaf(g, j, m, out):
                if m['o'] in ('call', 'ctor'):
                    p = primitive(g, m)
                    if p and p[1] == 'r' and p[2] == 'A' and (p[0] == 'og' or out is not None):
                        return (p[0], p[3], g.k, name_of(g, p[4]))
                return None
            src = {(lb, into) for lb, s, into in Slice(db, leaf, 3, callers=False).of(f, n['a'][1])}
            if not src: continue
            groups.setdefault(f.k, (f, []))[1].append((i, n, k, src))
    for f, sets in groups.values():
        fmts = {lb[0] for i, n, k, src in sets for lb, into in src}
        wh = where(f)
        for i, n, k, src in sets:
            key = '%s %s %s' % ('/'.join(sorted(fmts)), k, fail.fkey(f))
            own = L.owners(f, n['obj'])
            want = KINDS[k]
            ok, msg = True, ''
            tys = {lb[1] for lb, into in src}
            if len(fmts) != 1: ok, msg = False, 'value comes from more than one place'
            fmt = sorted(fmts)[0]
            if fmt == 'og' and tys != {want}: ok, msg = False, '%s metadata is read as %s' % (k, '/'.join(sorted(tys)))
            if fmt == 'h5':
                want = {'Str': 'string', 'Int': 'int', 'VecInt': 'int', 'Float': 'float', 'VecFloat': 'float'}[k]
                if tys != {want}: ok, msg = False, '%s metadata is read as %s' % (k, '/'.join(sorted(tys)))
            nms = {lb[3] for lb, into in src if lb[2] == f.k}
            if ok and nms and name_of(f, n['a'][0]) not in nms:
                ok, msg = False, 'the value is put under another name than it was read from'
            if ok and not own: ok, msg = False, 'the value does not go to the metadata of a field or a file'
            ctx.ob('read', key, ok, f.loc(i), msg, f)
            lp = innermost(f, wh[i][0]) if i in wh else None
            if lp is None:
                ctx.ob('each', key, False, f.loc(i), 'not in a loop over the stored attributes', f); continue
            h, body = lp
            asm = Assume(db, assume_kind(fmt, k))
            ip = Const(f, hook=asm); ip.single_fault = True
            hit = set()
            def on(bid, j, e, env):
                m = f.nodes[e]
                q = SET.get(m.get('q') or '') if m['o'] == 'call' else None
                if q: hit.add(e)
                if e == i: return 'stop'
            ip.on_elem = on
            for s in f.blocks[h]['su']:
                if s in body: ip.instate = {}; ip.run((s, 0), {})
            other = sorted({SET[f.nodes[e]['q']] for e in hit if e != i})
            ok, msg = True, ''
            if i not in hit: ok, msg = False, 'an attribute of %s metadata never gets here' % k
            elif other: ok, msg = False, 'an attribute of %s metadata is taken for %s' % (k, other)
            elif any((b, h) in ip.edges for b in body): ok, msg = False, 'an attribute of %s metadata can be passed over' % k
            elif any(x[0] != 'throw' for x in ip.exits): ok, msg = False, 'the loop can be left before all attributes are read'
            # the loop covers all indices
            if ok:
                m2 = covers(f, h, body)
                if m2: ok, msg = False, m2
            ctx.ob('each', key, ok, f.loc(i), msg, f)
            if ok:
                for o in own: found.setdefault(f.k, []).append((fmt, {(k, o)}, h))
    return found

def covers(f, h, body):
    """An index loop over attributes starts at 0 and goes up by one to the number of attributes."""
    tests = []
    for b in body:
        tm = f.blocks[b].get('tm') or {}
        if 'c' in tm and any(s is not None and s not in body for s in f.blocks[b]['su']): tests.append(tm['c'])
    for c in tests:
        n = f.nodes[c]
        while n['o'] in ('cast', 'load'): n = f.nodes[n['a'][0]]
        if n['o'] != 'bin' or n['op'] not in ('<', '!=', '>'): continue
        a, b = n['a'] if n['op'] != '>' else n['a'][::-1]
        p = path(f, a)
        if p is None: continue
        for dp, kind, i, j in defs(f).get(base_root(p), ()):
            if kind == 'val' and dp == p and f.nodes[i].get('v') not in (0, None): return 'the loop does not start at the first attribute'
        # limit
        limbad = []
        def leaf(g, j, m, out):
            if m['o'] == 'bin' and m['op'] in ('-', '/', '>>'): limbad.append(j)
            return None
        S = Slice(f.db, leaf, 0, callers=False); S.of(f, b)
        if limbad: return 'the loop stops before the last attribute'
    return None

def assume_kind(fmt, k):
    def node(f, i, n):
        if n['o'] != 'call' and n['o'] != 'idx' and n['o'] != 'load': return None
        q = n.get('q') or ''
        if fmt == 'og':
            if q.startswith('Field3D::OgI') and q.endswith('::isValid') and 'obj' in n:
                b = n['obj']
                while f.nodes[b]['o'] in ('cast', 'load'): b = f.nodes[b]['a'][0]
                m = re.search(r'OgIAttribute<(.*)>', f.nodes[b]['t'])
                if not m: return C(1)
                t = short(m.group(1)) if m else ''
                return C(1 if t == KINDS[k] else 0)
            return None
        if n['o'] == 'call':
            if q == 'H5Tget_class': return C(H5CLASS[k])
            if q == 'H5Sget_simple_extent_ndims': return C(1)
            if q == 'H5Aget_name': return C(7)
            if q == 'H5Aget_num_attrs': return C(3)
            if q == 'Field3D::Hdf5Util::readAttribute': return C(1)
            return None
        # dims[0]
        j = n['a'][0] if n['o'] == 'load' else i
        m = f.nodes[j]
        if m['o'] == 'idx' and n['o'] == 'load':
            b = strip(f, m['a'][0])
            if f.nodes[b]['o'] == 'var' and f.nodes[b]['d'] in dimvars(f): return C(3 if k.startswith('Vec') else 1)
        return None
    return node

def dimvars(f):
    r = f.__dict__.get('_dimvars')
    if r is None:
        r = set()
        for i, n in f.calls():
            if (n.get('q') or '') == 'H5Sget_simple_extent_dims':
                p = path(f, n['a'][1]) or ''
                m = re.match(r'&?v(\d+)', p)
                if m: r.add(int(m.group(1)))
        f._dimvars = r
    return r

# ------------------------------------------------------------------ in memory
def memory(ctx):
    db = ctx.db
    for q, k in sorted(SET.items()):
        f = db.need(q)[0]
        own = []
        for i, n in f.calls():
            if n['o'] == 'call' and n.get('op') == '[]' and memkind(f, n.get('obj', n['a'][0])): own.append((i, memkind(f, n.get('obj', n['a'][0])), n))
        stores = []
        bad = ''
        for bid, j, e in f.elems():
            if not isinstance(e, int): continue
            n = f.nodes[e]
            t = v = None
            if n['o'] == 'asn' and n['op'] == '=': t, v = n['a']
            elif n['o'] == 'call' and n.get('op') == '=' and 'obj' in n: t, v = n['obj'], n['a'][0]
            if t is None: continue
            tn = f.nodes[strip(f, t)]
            if tn['o'] == 'call' and tn.get('op') == '[]':
                mk = memkind(f, tn.get('obj', tn['a'][0]))
                if mk is None: continue
                if mk != k: bad = 'stores into the %s metadata' % mk
                elif (path(f, tn['a'][-1]), path(f, strip(f, v))) != ('v%d' % f.params[0], 'v%d' % f.params[1]): bad = 'does not store the given value under the given name'
                else: stores.append(e)
        ip = Const(f)
        ip.on_elem = lambda bid, j, e, env: env.__setitem__('$st', C(1)) if e in stores else None
        ip.run()
        if not bad and (not stores or any(kd != 'throw' and env.get('$st') != C(1) for kd, v, l, env in ip.exits)): bad = 'can return without storing the value'
        ctx.ob('access', 'set ' + k, not bad, f.loc(stores[0]) if stores else '%s:%d' % (f.file, f.line), bad, f)
    for q, k in sorted(ACC.items()):
        for f in db.find(q) if hasattr(db, 'find') else []:
            ks = set(); fn_ = []
            for i, n in enumerate(f.nodes):
                if n['o'] == 'mem' and n['n'] in MEM: ks.add(MEM[n['n']])
            ok = ks == {k}
            msg = '' if ok else 'looks at the %s metadata' % '/'.join(sorted(ks))
            if ok and len(f.params) == 2:
                fnd = [n for i, n in f.calls() if (n.get('q') or '').split('::')[-1] in ('find', 'count', 'at', 'lower_bound')]
                if not fnd or any(path(f, n['a'][0]) != 'v%d' % f.params[0] for n in fnd): ok, msg = False, 'does not look up the given name'
                # values returned
                def leaf(g, j, m, out):
                    if m['o'] == 'call' and (m.get('q') or '').split('::')[-1] in ('find', 'at', 'lower_bound'): return 'found'
                    if m['o'] == 'var' and g.vars[m['d']]['p'] == 1: return 'default'
                    return None
                got = set()
                for _, _, e in f.elems():
                    if isinstance(e, dict) and e['e'] == 'ret' and e['n'] >= 0:
                        for lb, s, into in Slice(db, leaf, 0, callers=False).of(f, e['n']): got.add((lb, s.split('.')[0]))
                if ok and not ({x for x in got if x[0] == 'found'} <= {('found', 'second'), ('found', '')} and {x[0] for x in got} == {'found', 'default'}):
                    ok, msg = False, 'does not return the stored value, or else the default (%s)' % sorted(got)
                if ok:
                    # found: the default must not be returned
                    cmp_ = [(i, n) for i, n in enumerate(f.nodes) if n['o'] in ('call', 'bin') and n.get('op') in ('!=', '==')]
                    for want in (1, 0):
                        nodes = {i: C(want if n['op'] == '!=' else 1 - want) for i, n in cmp_}
                        ip = Const(f, hook=lambda ip, i, n, env: nodes.get(i))
                        seen = set()
                        def on(bid, j, e, env):
                            m = f.nodes[e]
                            if m['o'] == 'mem' and m['n'] == 'second': seen.add(1)
                        ip.on_elem = on; ip.run()
                        sec = any(f.nodes[e]['o'] == 'mem' and f.nodes[e]['n'] == 'second' or f.nodes[e]['o'] in ('load', 'call', 'asn', 'ctor') and any('second' == f.nodes[x].get('n') for x in sub(f, e)) for e in ip.reached)
                        if cmp_ and sec != bool(want): ok, msg = False, ('ignores the stored value' if want else 'uses a value that was not found')
            ctx.ob('access', 'get ' + k + ('' if len(f.params) == 2 else ' map'), ok, '%s:%d' % (f.file, f.line), msg, f)

def sub(f, i, d=0):
    yield i
    if d < 8:
        for a in kids(f.nodes[i]): yield from sub(f, a, d + 1)

def copying(ctx):
    db = ctx.db
    # FieldMetadata copies
    fs = [f for f in db.find(FM + 'operator=')]
    for d_ in ('operator=', 'FieldMetadata'):
        for k, d in db.decl.items():
            if d.get('clsq', d.get('cls')) == 'Field3D::FieldMetadata' and d['q'] == FM + d_ and d.get('copy') and (d.get('defaulted') or d.get('implicit')):
                ctx.ob('copy', 'FieldMetadata %s (compiler generated)' % d_, True, d.get('file', '?'), '')
    for f in fs:
        if not f.params: continue
        pv = 'v%d' % f.params[0]
        d = db.decl.get(f.k, {})
        if d.get('defaulted') or d.get('implicit'):
            for m in MEM: ctx.ob('copy', 'assign ' + m, True, f.file, '', f)
            continue
        for m, k in sorted(MEM.items()):
            st = []
            for bid, j, e in f.elems():
                if not isinstance(e, int): continue
                n = f.nodes[e]
                t = v = None
                if n['o'] == 'call' and n.get('op') == '=' and 'obj' in n: t, v = n['obj'], n['a'][0]
                if t is not None and path(f, t) == 'this.' + m: st.append((e, path(f, strip(f, v))))
            ok = bool(st) and all(p in (pv + '.' + m, pv + '*.' + m) for e, p in st)
            msg = 'the %s map is %s' % (k, 'assigned from %s' % st[0][1] if st else 'not assigned')
            if ok:
                es = {e for e, p in st}
                ip = Const(f); ip.on_elem = lambda bid, j, e, env: env.__setitem__('$st', C(1)) if e in es else None
                ip.run()
                for kd, v, l, env in ip.exits:
                    if env.get('$st') != C(1) and not selfcheck(f): ok, msg = False, 'some path does not assign the %s map' % k
            ctx.ob('copy', 'assign ' + m, ok, f.loc(st[0][0]) if st else '%s:%d' % (f.file, f.line), msg, f)
    # FieldBase
    for f in db.find('Field3D::FieldBase::copyMetadata') + [g for g in db.find('Field3D::FieldBase::FieldBase') if db.decl[g.k].get('copy')] + \
             [g for g in db.find('Field3D::FieldBase::operator=')]:
        if not f.params: continue
        pv = 'v%d' % f.params[0]
        d = db.decl.get(f.k, {})
        if d.get('implicit') or d.get('defaulted'): ctx.ob('copy', fail.fkey(f), True, f.file, '', f); continue
        def mark(bid, j, e, env):
            n = f.nodes[e]
            t = v = None
            if n['o'] == 'call' and n.get('op') == '=' and 'obj' in n: t, v = n['obj'], n['a'][0]
            if t is not None and path(f, t) == 'this.m_metadata' and path(f, strip(f, v)) in (pv + '.m_metadata', pv + '*.m_metadata'): env['$md'] = C(1)
            if n['o'] == 'call' and (n.get('q') or '') == 'Field3D::FieldBase::copyMetadata' and path(f, n['obj']) in ('this', None) and path(f, strip(f, n['a'][0])) in (pv, pv + '*'): env['$md'] = C(1)
        ip = Const(f); ip.on_elem = mark
        ip.run()
        ok = all(env.get('$md') == C(1) for kd, v, l, env in ip.exits if kd != 'throw')
        for _, _, e in f.elems():
            if isinstance(e, dict) and e['e'] == 'init' and e.get('m', '').endswith('m_metadata') and e['n'] >= 0 and path(f, strip(f, e['n'])) in (pv + '.m_metadata',): ok = True
        ctx.ob('copy', fail.fkey(f), ok, '%s:%d' % (f.file, f.line), 'the metadata is not copied on every path', f)
    # derived copies reach FieldBase with their source
    for k, d in sorted(db.decl.items()):
        if not (d.get('copy') and (d.get('ctor') or d['q'].endswith('operator='))): continue
        if not any(b == 'Field3D::FieldBase' for b in qbases(db, d.get('cls'))): continue
        if not d.get('ctor') and not d['q'].endswith('operator='): continue
        if d.get('implicit') or d.get('defaulted'): continue
        f = db.fn(k)
        if f is None or not f.params: continue
        pv = 'v%d' % f.params[0]
        ok = False; msg = 'a base class is not copied from the source, so its metadata is lost'
        dest = set()
        cls_bases = [b for b in direct(db, d['cls']) if 'Field3D::FieldBase' in [b.split('<')[0]] + qbases(db, b)]
        if d.get('ctor'):
            for _, _, e in f.elems():
                if isinstance(e, dict) and e['e'] == 'init' and not e.get('m') and e['n'] >= 0:
                    n = f.nodes[strip(f, e['n'])]
                    n = f.nodes[e['n']]
                    if n['o'] == 'ctor' and n['a'] and path(f, strip(f, n['a'][0])) in (pv, pv + '*'): ok = True
        for i, n in f.calls():
            if n['o'] != 'call': continue
            q = n.get('q') or ''
            dd = db.decl.get(n.get('f') or '', {})
            if n.get('op') == '=' and 'obj' in n or q.endswith('::operator='):
                a = n['a'][0] if n.get('a') else -1
                if dd.get('cls') != d['cls'] and path(f, n.get('obj', -1)) == 'this' and path(f, strip(f, a)) in (pv, pv + '*'): ok = True
                if d.get('ctor') and dd.get('cls') == d['cls'] and path(f, n.get('obj', -1)) == 'this': ok = True
            if q.endswith('::copyMetadata') or n.get('f') and dd.get('cls') == d['cls'] and n.get('a') and path(f, strip(f, n['a'][0])) in (pv, pv + '*') and path(f, n.get('obj', -1)) in ('this', None): ok = ok or copies(db, n['f'])
        ctx.ob('chain', fail.fkey(f), ok, '%s:%d' % (f.file, f.line), msg, f)

def copies(db, k):
    f = db.fn(k)
    return f is not None and (f.q.endswith('copyMetadata') or any((n.get('q') or '').endswith(('copyMetadata', 'operator=')) for i, n in f.calls()))

def selfcheck(f):
    return any(n['o'] == 'bin' and n['op'] in ('==', '!=') and any(f.nodes[strip(f, a)]['o'] == 'this' for a in n['a']) for n in f.nodes)

def qbases(db, cls):
    try: return [re.sub(r'<.*', '', b) for b in db.bases(cls)]
    except Exception: return []

def direct(db, cls):
    r = db.recs.get(cls) or {}
    return r.get('b') or []

def convert(ctx):
    """readers that convert a layer to another class carry the metadata over"""
    db = ctx.db
    for f in db.fns(lambda r: True):
        if '3DFile' not in f.q and '3DInputFile' not in f.q: continue
        cf = [(i, n) for i, n in f.calls() if n['o'] == 'call' and (n.get('q') or '').split('::')[-1] == 'copyFrom']
        for i, n in cf:
            tgt = path(f, n['obj'])
            md = [(j, m) for j, m in f.calls() if m['o'] == 'call' and ((m.get('q') or '').endswith('::copyMetadata') and path(f, m['obj']) == tgt)]
            wh = where(f)
            ok = False
            if md:
                es = {j for j, m in md}
                lp = innermost(f, wh[i][0])
                ip = Const(f); seen = []
                def on(bid, j, e, env):
                    if e in es: env['$md'] = C(1)
                    if e == i: env['$cf'] = C(1)
                ip.on_elem = on
                if lp:
                    h, body = lp
                    for s in f.blocks[h]['su']:
                        if s in body: ip.run((s, 0), {})
                    st = ip.instate.get(h, {})
                    # at the loop head: either neither or both
                    ok = md_both(f, i, es, h, body)
                else:
                    ip.run(); ok = all(env.get('$md') == C(1) or '$cf' not in env for kd, v, l, env in ip.exits if kd != 'throw')
                srcs = {src_of(f, m['a'][0]) for j, m in md}; cs = src_of(f, n['a'][0])
                if ok and cs not in srcs: ok = False
            ctx.ob('convert', fail.fkey(f), ok, f.loc(i), 'a converted layer does not get the metadata of the layer it is made from', f)

def src_of(f, i):
    p = path(f, strip(f, i)) or '?'
    return p.replace('*', '').replace('&', '')

def md_both(f, i, es, h, body):
    """within one round, every path through the copy also passes copyMetadata"""
    # paths from round start to copy avoiding es, and from copy to header avoiding es
    def reach(start, j0, stop):
        seen = set(); w = [(start, j0)]; r = set()
        while w:
            b, j = w.pop()
            el = f.blocks[b]['el']; cut = False
            for x in range(j, len(el)):
                if isinstance(el[x], int):
                    r.add(el[x])
                    if el[x] in stop: cut = True; break
            if cut: continue
            for s in f.blocks[b]['su']:
                if s is None or s < 0 or s not in body: continue
                if s == h: r.add('head'); continue
                if s not in seen: seen.add(s); w.append((s, 0))
        return r
    w = where(f)
    pre = any(i in reach(s, 0, es) for s in f.blocks[h]['su'] if s in body)
    post = 'head' in reach(w[i][0], w[i][1] + 1, es)
    return not (pre and post)

# ------------------------------------------------------------------ run
def group_ok(f, i, n):
    """the metadata group is there and can be opened; Ogawa archives are Ogawa archives"""
    q = n.get('q') or ''
    if n['o'] != 'call': return None
    if q.startswith('Field3D::Og') and q.endswith('::isValid') or q.endswith('::IArchive::isValid'): return C(1)
    if re.match(r'Field3D::.*H5Scoped\w+::(id|operator )', q) or q.startswith('Field3D::Hdf5Util::H5Base::'): return C(7)
    if q in ('H5Lexists', 'H5Aget_num_attrs'): return C(1)
    if q.endswith('::getCachedField'): return C(0)
    return None

def run(ctx):
    db = ctx.db
    ctx.rule('access', 'each setter stores the given value under the given name in its own map on every path; each getter returns what its own map holds for the name, or else the default', 10)
    ctx.rule('copy', 'assigning FieldMetadata assigns all five maps from the same maps of the source, and copying a FieldBase assigns its metadata', 5)
    ctx.rule('chain', 'every field class copy goes through its base class copy, up to FieldBase, with the same source', 3)
    ctx.rule('convert', 'readers that convert a layer to another field class copy its metadata', 2)
    ctx.rule('write', 'each metadata attribute is stored under its own name, with its own value, as the type of its kind', 10)
    ctx.rule('every', 'the loops that store metadata cover the whole map of their kind; every round stores or fails', 10)
    ctx.rule('read', 'each value read is put into the map of the type it was read as, under the name it was read from', 10)
    ctx.rule('each', 'an attribute stored as one kind is always taken for that kind, and none is passed over', 10)
    ctx.rule('all', 'all five kinds are stored and read, for layers and for files, in both formats, on every path that reports success', 20)
    L = Look(db)
    memory(ctx); copying(ctx); convert(ctx)
    w = check_write(ctx, L); r = check_read(ctx, L)
    for dirn, found in (('w', w), ('r', r)):
        marks = {}
        for k, ls in found.items():
            for fmt, names, h in ls:
                for kd, o in names: marks.setdefault(k, {}).setdefault(('b', h), set()).add((fmt, o, kd))
        roots = {}
        def addroot(what, pred):
            for f in db.fns(): 
                if pred(f): roots.setdefault(what, []).append(f)
        for fmt, suf in (('og', ''), ('h5', 'HDF5')):
            ci, co = 'Field3D::Field3DInputFile' + suf + '::', 'Field3D::Field3DOutputFile' + suf + '::'
            if dirn == 'w':
                addroot((fmt, 'file'), lambda f: f.q == co + 'writeGlobalMetadata')
                addroot((fmt, 'layer'), lambda f: f.q.startswith(co) and has_field_write(db, f))
            else:
                addroot((fmt, 'file'), lambda f: f.q == ci + 'open')
                addroot((fmt, 'layer'), lambda f: f.q.startswith(ci) and has_field_read(db, f))
        def node(f, i, n):
            v = group_ok(f, i, n)
            if v is not None: return v
            if n['o'] in ('mem', 'call') and is_smart(n['t']) and re.search('Field3D(In|Out)putFileHDF5', n['t']) and (n['o'] == 'mem' or getter(db, n.get('f') or '')): return C(0)
            return None
        M = Must(db, marks, Assume(db, node), dirn == 'r')
        for fmt in ('og', 'h5'):
            for o in OWNERS:
                for k in sorted(KINDS):
                    fs = roots.get((fmt, o), [])
                    miss = [f for f in fs if (fmt, o, k) not in M.of(f.k)]
                    f = miss[0] if miss else (fs[0] if fs else None)
                    ctx.ob('all', '%s %s %s %s' % ('store' if dirn == 'w' else 'read', fmt, o, k), bool(fs) and not miss, '%s:%d' % (f.file, f.line) if f else '?',
                           '%s can report success without having %s the %s metadata of the %s' % (fail.fkey(f) if f else '?', 'stored' if dirn == 'w' else 'read', k, o), f)

def has_field_write(db, f):
    return any(n['o'] == 'call' and re.search(r'(^|::)writeField$', n.get('q') or '') for i, n in f.calls())
def has_field_read(db, f):
    return any(n['o'] == 'call' and re.search(r'(^|::)readField$', n.get('q') or '') for i, n in f.calls())
