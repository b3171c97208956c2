"""Readers and writers agree on stored items."""
from .itemspec import *
from ..slices import Slice, defs
ASSUME = ['the storage layers keep a name and type as given (their vocabulary is C12)',
          'items named at run time (metadata, layer and partition names) are the same string on both sides (metadata: C15)']

# items older or foreign files carry; this library no longer writes them
LEGACY = {('MatrixFieldMappingIO/h5', 'A', 'MatrixFieldMapping data'): 'layout written before time-varying mappings',
          ('SparseFieldIO/og', 'D', 'data'): 'uncompressed block data; the writer always compresses'}
# items that are stored only when there is something to store
COND = {('SparseFieldIO/h5', 'D', 'data'): 'present when a block is occupied; read when num_occupied_blocks > 0',
        ('File/og', 'A', 'version_number'): 'stored by create()', ('File/h5', 'A', 'version_number'): 'stored by create()',
        ('File/og', 'G', 'field3d_global_metadata'): 'stored by writeGlobalMetadata()', ('File/h5', 'G', 'field3d_global_metadata'): 'stored by writeGlobalMetadata()',
        ('File/h5', 'G', 'field3d_group_membership'): 'stored by writeGroupMembership()'}
# stored for other tools; the reader gets the same fact elsewhere
REDUNDANT = {('components',): 'implied by the element type of the data', ('bits_per_component',): 'implied by the element type of the data',
             ('is_field3d_partition',): 'marker', ('dummy_data',): 'carries only the element type, read as datasetType',
             ('NullFieldMapping data',): 'marker', ('is_field3d_group_membership',): 'marker'}

def run(ctx):
    db = ctx.db
    ctx.rule('match', 'every named item the reader asks for is created by the writer of the same object, in the same format, with the same element type', 90)
    ctx.rule('always', 'the writer stores every item its reader asks for on every path that reports success', 60)
    ctx.rule('stored', 'every item the writer stores is asked for by the reader (markers for other tools excepted)', 60)
    ctx.rule('used', 'the value of every item the reader fetches reaches a decision, a call or an object', 50)
    ctx.rule('sink', 'the value handed to the object by the reader comes from the item that stores that property, and from nothing else', 20)
    ctx.rule('applied', 'every object a reader builds has received its size (both boxes), block order or depth distribution from the file before it is returned', 8)
    ctx.rule('component', 'each MAC component is stored under, and read from, the dataset of that component', 6)
    ctx.rule('source', 'the value the writer stores under a name is the property of the object with that meaning', 30)
    ctx.rule('version', 'the reader compares the stored version with the constant its writer stores', 5)
    g = groups(db)
    for name in sorted(g):
        cls, fmt = name.split('/')
        w, must = g[name]['w']; r, _ = g[name]['r']
        wt = {}
        for it in w: wt.setdefault((it[2], it[4]), set()).add(it[3])
        anyw = {}
        for n2 in g:
            if n2.endswith('/' + fmt):
                for it in g[n2]['w'][0]: anyw.setdefault((it[2], it[4]), set()).add(it[3])
        rk = set()
        for it, at in sorted(r.items(), key=str):
            _, _, k, t, nm = it
            f, e = at[0]
            rk.add((k, nm))
            if nm is None or nm.startswith('/'): continue
            key = '%s %s %s<%s>' % (name, k, nm, t)
            if (name, k, nm) in LEGACY:
                ctx.ob('match', key, True, f.loc(e), 'legacy: ' + LEGACY[(name, k, nm)], f); continue
            have = wt.get((k, nm))
            if have is None and cls == 'File': have = anyw.get((k, nm))
            ok = have is not None and (not t or t in have or '' in have)
            ctx.ob('match', key, ok, f.loc(e), 'the reader asks for %s "%s" of type %s; the writer %s' %
                   ({'A': 'attribute', 'D': 'dataset', 'C': 'compressed dataset', 'G': 'group'}[k], nm, t or '(any)',
                    'stores it as ' + '/'.join(sorted(have)) if have else 'stores no such item'), f)
            if have is None or cls == 'File' and (k, nm) not in wt: continue
            if (name, k, nm) in COND or nm.endswith('*') or nm.endswith(('u_data', 'v_data', 'w_data')) and cls == 'MACFieldIO': continue
            ctx.ob('always', '%s %s %s' % (name, k, nm), (fmt, 'w', k, nm) in must, f.loc(e),
                   'some successful path of the writer does not store "%s", which the reader asks for' % nm, f)
        # all element types of a typed dataset
        for (k, nm), ts in wt.items():
            rt = {it[3] for it in r if it[2] == k and it[4] == nm}
            if k in 'DC' and len(ts) > 1 and (k, nm) in rk and rt - {''}:
                f, e = next(at[0] for it, at in w.items() if it[2] == k and it[4] == nm)
                ctx.ob('match', '%s %s %s all types' % (name, k, nm), ts <= rt, f.loc(e), 'stored as %s but read only as %s' % (sorted(ts), sorted(rt)), f)
        for it, at in sorted(w.items(), key=str):
            _, _, k, t, nm = it
            if nm is None: continue
            f, e = at[0]
            got = (k, nm) in rk or cls == 'File' and False
            if not got and (nm,) in REDUNDANT: got = True
            if not got and cls == 'File' and nm in ('default', 'class_type', 'metadata', 'mapping'): got = True   # found by path or listed by iteration
            ctx.ob('stored', '%s %s %s' % (name, k, nm), got, f.loc(e), 'stored as "%s" but never asked for by the reader' % nm, f)
    labels(ctx, g)

def leaf_r(f, i, n, out):
    if n['o'] == 'call' and (n.get('q') or '').split('::')[-1] in ('isValid', 'valid', 'what', 'operator bool'): return ''
    if n['o'] in ('call', 'ctor'):
        p = primitive(f, n)
        if p and p[1] == 'r':
            if out is None and p[0] == 'h5' and p[2] != 'G' and n['o'] == 'call': return ''     # its status, not its value
            nm = names(f, p[4])
            return '%s:%s' % (p[2], '|'.join(str(x) for x in nm))
        if out is not None and (n.get('q') or '').endswith('::getData') and 'obj' in n:
            c = []
            S = Slice(f.db, leaf_r)
            for lb, s, into in S.of(f, n['obj']):
                if lb[:2] in ('D:', 'C:'): c.append(lb)
            if c: return '|'.join(sorted(set(c)))
    return None

SINKS = {'setSize': {0: r'A:extents', 1: r'A:data_window'}, 'setBlockOrder': {0: r'A:block_order$'},
         'setZDistribution': {0: r'A:z_distribution$'}, 'setTransforms': {0: r'A:time_', 1: r'A:screen_to_world_', 2: r'A:camera_to_world_'},
         'setLocalToWorld': {-2: r'A:time_', -1: r'A:matrix_|A:MatrixFieldMapping data'},
         'createFieldMapping': {0: r'A:mapping_type'}, 'createFieldMappingIO': {0: r'A:mapping_type'}}
STORES = {'isAllocated': r'D:block_is_allocated_data', 'emptyValue': r'D:block_empty_value_data'}

def io_fn(d):
    return d['q'].startswith('Field3D::') and ('IO::' in d['q'] or 'File' in d['q'] or 'SparseDataReader' in d['q']) or '(anon' in d['q']

def minmax(lb): 
    m = re.search(r'_(min|max)$', lb); return m.group(1) if m else None

def labels(ctx, g):
    db = ctx.db
    S = Slice(db, leaf_r)
    used = set()
    fns = [f for f in db.fns(io_fn)]
    seen_sink = {}
    for f in fns:
        isrd = not re.search(r'write', f.q.split('::')[-1], re.I)
        for e, n in f.calls():
            last = (n.get('q') or '').split('::')[-1]
            if last in SINKS and 'obj' in n or last in SINKS and last.startswith('create'):
                na = len(n['a'])
                for j, want in SINKS[last].items():
                    jj = j if j >= 0 else na + j
                    if jj < 0 or jj >= na: continue
                    ls = {x for x in S.of(f, n['a'][jj]) if x[0]}
                    key = '%s %s arg %d' % (f.q.replace('Field3D::', ''), last, jj)
                    if not ls:
                        continue
                    wrong = sorted({x[0] for x in ls if not any(re.match(want, y) for y in x[0].split('|'))})
                    mm = sorted({'%s into %s' % (x[0], x[2]) for x in ls if minmax(x[0]) and re.search(r'\b(min|max)\b', x[2]) and minmax(x[0]) not in x[2]})
                    lost = []
                    for a in {re.sub(r'_(min|max)$', '', x[0]) for x in ls if minmax(x[0])}:
                        for b in ('min', 'max'):
                            if not any(x[0] == a + '_' + b for x in ls): lost.append(a + '_' + b)
                    seen_sink[(last, j)] = 1
                    ctx.ob('sink', key, not wrong and not mm and not lost, f.loc(e),
                           'the value given to %s (argument %d) comes from %s' % (last, jj, ', '.join(wrong + mm) or 'only part of the stored box, without ' + ', '.join(lost)), f)
        for _, _, e in f.elems():
            if not isinstance(e, int): continue
            n = f.nodes[e]
            if n['o'] == 'asn' or n['o'] == 'call' and n.get('op') == '=' and 'obj' in n:
                l = n['a'][0] if n['o'] == 'asn' else n['obj']
                m = f.nodes[l]
                if m['o'] == 'mem' and m['n'] in STORES:
                    ls = {x[0] for x in S.of(f, n['a'][1] if n['o'] == 'asn' else n['a'][0]) if x[0]}
                    if ls:
                        wrong = sorted(x for x in ls if x[0] in 'DC' and not re.match(STORES[m['n']], x))
                        ctx.ob('sink', '%s %s' % (f.q.replace('Field3D::', ''), m['n']), not wrong, f.loc(e), '%s of a block is taken from %s' % (m['n'], ', '.join(wrong)), f)
                        used |= {(f.q.split('::')[-2], y) for x in ls for y in x.split('|')}
        # uses
        if not isrd: continue
        for bid, b in f.blocks.items():
            tgt = []
            for e in b['el']:
                if isinstance(e, dict):
                    if e['e'] == 'ret' and e['n'] >= 0: tgt.append(e['n'])
                    continue
                n = f.nodes[e]
                if n['o'] in ('call', 'ctor') and not primitive(f, n):
                    q = n.get('q') or ''
                    if 'Exc' in q or q.endswith('print') or 'basic_string' in n['t'] and n['o'] == 'ctor' or 'basic_string' in q: continue
                    if 'lexical_cast' in q or q.startswith('H5') or is_smart(n['t']): continue
                    tgt += list(n['a'])
                elif n['o'] == 'bin': tgt += n['a']
                elif n['o'] == 'asn':
                    p = path(f, n['a'][0])
                    if p and not re.match(r'v\d+(\.|$)', p) or p is None: tgt.append(n['a'][1])
            tm = b.get('tm')
            if tm and 'c' in tm: tgt.append(tm['c'])
            for t in tgt:
                for lb, _, _ in S.of(f, t):
                    for y in (lb or '').split('|'):
                        if y: used.add(y)
    for s in (('setSize', 0), ('setSize', 1), ('setBlockOrder', 0), ('setTransforms', 1), ('setLocalToWorld', -1)):
        if s not in seen_sink: raise AnalysisBroken('no reader hands a stored value to %s' % (s,))
    anyuse = {u if isinstance(u, str) else u[1] for u in used}
    for name in sorted(g):
        r, _ = g[name]['r']
        for it, at in sorted(r.items(), key=str):
            _, _, k, t, nm = it
            if k not in 'ADC' or nm is None or (nm,) in REDUNDANT or not t and k == 'A' or (name, k, nm) in LEGACY: continue
            f, e = at[0]
            ok = '%s:%s' % (k, nm) in anyuse_of(db, f, S)
            if not ok:   # fetched through a helper: used anywhere
                ok = primitive_name_dynamic(f, e) and '%s:%s' % (k, nm) in anyuse
            if k != 'A' and not t: continue
            ctx.ob('used', '%s %s %s in %s' % (name, k, nm, f.q.replace('Field3D::', '')), ok, f.loc(e), 'the stored value "%s" is fetched but nothing depends on it' % nm, f)
    applied(ctx, fns)
    components(ctx, fns)
    sources(ctx, fns)
    versions(ctx, fns)

def primitive_name_dynamic(f, e):
    p = primitive(f, f.nodes[e])
    return p and isinstance(nameof(f, p[4]), tuple)

def anyuse_of(db, f, S):
    """Item labels that some decision, call or store in f (or in what it calls, through
    parameters) depends on."""
    c = db.__dict__.setdefault('_useof', {})
    if f.k in c: return c[f.k]
    c[f.k] = out = set()
    S = Slice(db, leaf_r, callers=False)
    for bid, b in f.blocks.items():
        tgt = []
        for e in b['el']:
            if isinstance(e, dict):
                if e['e'] == 'ret' and e['n'] >= 0: tgt.append(e['n'])
                continue
            n = f.nodes[e]
            if n['o'] in ('call', 'ctor'):
                q = n.get('q') or ''
                if primitive(f, n) or 'Exc' in q or q.endswith('print') or 'lexical_cast' in q: continue
                if 'basic_string' in q and n.get('op') not in ('==', '!='): continue
                pr = n['a']
                if n['o'] == 'ctor' and len(pr) == 1 and (q.split('::')[-1] in ('Vec3', 'OgIAttribute', 'OgIDataset', 'OgICDataset', 'Matrix44')): continue
                if n.get('op') == '=' : continue
                tgt += list(pr)
                if 'obj' in n and (n.get('op') in ('==', '!=')): tgt.append(n['obj'])
            elif n['o'] == 'bin': tgt += n['a']
            elif n['o'] == 'asn':
                p = path(f, n['a'][0])
                if not p or not re.match(r'v\d+(\.|$)', p): tgt.append(n['a'][1])
        tm = b.get('tm')
        if tm and 'c' in tm: tgt.append(tm['c'])
        for t in tgt:
            # a printed or thrown text is not a use
            for lb, _, _ in S.of(f, t):
                for y in (lb or '').split('|'):
                    if y: out.add(y)
    return out

# ------------------------------------------------------------------ writers
SOURCE = {'extents': ('extents',), 'extents_min': ('extents',), 'extents_max': ('extents',), 'data_window': ('dataWindow',),
          'data_window_min': ('dataWindow',), 'data_window_max': ('dataWindow',), 'block_order': ('blockOrder',),
          'levels': ('numLevels',), 'mapping_type': ('className',), 'z_distribution': ('zDistribution',),
          'camera_to_world_*': ('cameraToWorldSamples',), 'screen_to_world_*': ('screenToWorldSamples',),
          'time_*': ('screenToWorldSamples', 'cameraToWorldSamples', 'localToWorldSamples'), 'matrix_*': ('localToWorldSamples',),
          'num_time_samples': ('screenToWorldSamples', 'cameraToWorldSamples', 'localToWorldSamples')}

def leaf_w(f, i, n, out):
    if n['o'] == 'call':
        q = n.get('q') or ''
        if q.startswith('Field3D::') and 'obj' in n and 'Field' in q: return q.split('::')[-1]
    if n['o'] == 'mem' and n['n'].startswith('m_') and f.nodes[n['a'][0]]['o'] != 'this': return n['n'][2:]
    return None

def sources(ctx, fns):
    db = ctx.db
    W = Slice(db, leaf_w, callers=True)
    for f in fns:
        for e, n in f.calls():
            p = primitive(f, n)
            if not p or p[1] != 'w' or p[2] != 'A': continue
            for nm in names(f, p[4]):
                if nm not in SOURCE: continue
                v = n['a'][2] if p[0] == 'og' and len(n['a']) > 2 else n['a'][-1]
                ls = {(re.sub(r'^m_', '', a), b, c) for a, b, c in W.of(f, v)}
                key = '%s/%s %s' % (f.q.replace('Field3D::', ''), p[0], nm)
                rel = {x for x in ls if x[0] in {y for v2 in SOURCE.values() for y in v2}}
                bad = sorted({x[0] for x in rel if x[0] not in SOURCE[nm]})
                msg = ''
                if not rel: continue
                if bad: msg = 'holds %s' % ', '.join(bad)
                mm = minmax(nm)
                if mm:
                    w = sorted({b for a, b, c in rel if re.match(r'(min|max)', b) and not b.startswith(mm)})
                    if w: msg = 'holds the %s corner' % w[0]
                sf = {b for a, b, c in rel if re.match(r'(min|max)\.[xyz]$', b)}
                if nm in ('extents', 'data_window') and sf and len(sf) != 6: msg = 'holds only %s of the box' % ', '.join(sorted(sf))
                if nm.startswith('time') and any('second' in b for a, b, c in rel) or nm.endswith('*') and not nm.startswith('time') and any('first' in b for a, b, c in rel): msg = 'holds the other half of the sample'
                ctx.ob('source', key, not msg, f.loc(e), 'the item stored as "%s" %s' % (nm, msg), f)
                # the six numbers of a box are stored in min.xyz max.xyz order
                if nm in ('extents', 'data_window') and len(sf) == 6:
                    o = boxorder(f, v)
                    if o is not None:
                        ctx.ob('source', key + ' order', o == ['min.x', 'min.y', 'min.z', 'max.x', 'max.y', 'max.z'], f.loc(e), 'the box is stored in the order %s' % o, f)

def boxorder(f, v):
    p = path(f, v)
    if not p: return None
    for dp, kind, i, j in defs(f).get(base_root(p), ()):
        n = f.nodes[i]
        if n['o'] == 'ilist' and len(n['a']) == 6:
            out = []
            for a in n['a']:
                q = path(f, a)
                m = re.search(r'(min|max)\.([xyz])$', q or '')
                if not m: return None
                out.append(m.group(0))
            return out
    return None

def versions(ctx, fns):
    db = ctx.db
    S = Slice(db, leaf_v, callers=False)
    wr, rd = {}, {}
    for f in fns:
        c = (f.cls or '').split('::')[-1]
        for e, n in f.calls():
            p = primitive(f, n)
            if p and p[2] == 'A' and p[1] == 'w' and nameof(f, p[4]) == 'version':
                v = n['a'][2] if p[0] == 'og' else n['a'][-1]
                for lb, _, _ in S.of(f, v): wr.setdefault((c, p[0]), set()).add(lb)
                wr.setdefault((c, p[0]), set())
        for _, _, e in f.elems():
            if not isinstance(e, int): continue
            n = f.nodes[e]
            if n['o'] == 'bin' and n['op'] in ('==', '!='):
                a = {x[0] for x in S.of(f, n['a'][0])}; b = {x[0] for x in S.of(f, n['a'][1])}
                for x, y in ((a, b), (b, a)):
                    for fm in ('og', 'h5'):
                        if fm + ' version' in x: rd.setdefault((c, fm), set()).update(y)
    for (c, fm), consts in sorted(wr.items()):
        r = rd.get((c, fm))
        f = next(x for x in fns if (x.cls or '').endswith(c))
        ctx.ob('version', '%s/%s' % (c, fm), r is not None and bool(r & consts), f.loc(), 'the stored version is %s by the reader' %
               ('not checked' if r is None else 'compared with %s, the writer stores %s' % (sorted(r), sorted(consts))), f)

def leaf_v(f, i, n, out):
    if n['o'] in ('call', 'ctor'):
        p = primitive(f, n)
        if p and p[1] == 'r' and p[2] == 'A' and nameof(f, p[4]) == 'version': return p[0] + ' version'
    if n['o'] == 'gvar' and 'v' in n: return 'const %s' % n['v']
    if n['o'] == 'gvar': 
        g = f.db.globals.get((n.get('cls', ''), n['q']))
        if g and 'v' in g: return 'const %s' % g['v']
        return 'const ' + n['q'].split('::')[-1]
    if n['o'] == 'lit' and 'v' in n: return 'const %s' % n['v']
    if n['o'] == 'load' and 'v' in n: return 'const %s' % n['v']
    return None

# ------------------------------------------------------------------ objects built by readers
NEEDS = (('SparseField', {'setSize': 2, 'setBlockOrder': 1}), ('DenseField', {'setSize': 2}), ('MACField', {'setSize': 2}),
         ('EmptyField', {'setSize': 2}), ('FrustumFieldMapping', {'setZDistribution': 1}))

def does(db, k, name, na, d=0):
    c = db.__dict__.setdefault('_does', {})
    if (k, name) in c: return c[(k, name)]
    c[(k, name)] = False
    f = db.fn(k)
    r = False
    if f and d < 3:
        for e, n in f.calls():
            q = n.get('q') or ''
            if q.split('::')[-1] == name and len(n['a']) >= na: r = True
            elif q.startswith('Field3D') and n.get('f') in db.raw and does(db, n['f'], name, na, d + 1): r = True
            if r: break
    c[(k, name)] = r
    return r

def applied(ctx, fns):
    from ..fail import plain
    db = ctx.db
    for f in fns:
        d = f.decl
        if not derives(db, f.cls, 'Field3D::FieldIO') and not derives(db, f.cls, 'Field3D::FieldMappingIO') and 'readProxyLayer' not in f.q: continue
        if re.search('write', f.q.split('::')[-1], re.I): continue
        news = {}
        for bid, i, e in f.elems():
            if isinstance(e, int) and f.nodes[e]['o'] == 'new':
                t = f.nodes[e]['t']
                for cls, need in NEEDS:
                    if re.match(r'(const )?Field3D::%s\b' % cls, t): news[e] = (cls, need)
        if not news: continue
        ins = {f.entry: frozenset()}; work = [f.entry]; bad = {}
        edges = {}
        for x, s in plain(f).edges: edges.setdefault(x, []).append(s)
        def step(b, cur):
            cur = set(cur)
            for e in f.blocks[b]['el']:
                if isinstance(e, int):
                    n = f.nodes[e]
                    if e in news: cur |= {(e, x) for x in news[e][1]}
                    elif n['o'] == 'call':
                        last = (n.get('q') or '').split('::')[-1]
                        for c in list(cur):
                            na = news[c[0]][1][c[1]]
                            if last == c[1] and len(n['a']) >= na or n.get('f') in db.raw and (n.get('q') or '').startswith('Field3D') and last != c[1] and does(db, n['f'], c[1], na): cur.discard(c)
                    elif n['o'] == 'throw' or n.get('q') in NORETURN: return None
                elif e['e'] == 'ret':
                    v = plainval(f, e['n'])
                    if v != C(0):
                        for c in cur: bad.setdefault(c, e.get('l'))
                    return None
            return frozenset(cur)
        while work:
            b = work.pop(); o = step(b, ins[b])
            if o is None: continue
            for s in edges.get(b, ()):
                if s is None or s < 0: continue
                new = o if s not in ins else ins[s] | o
                if s not in ins or new != ins[s]: ins[s] = new; work.append(s)
        for e, (cls, need) in sorted(news.items()):
            for x in need:
                ctx.ob('applied', '%s new %s at n%d %s' % (f.q.replace('Field3D::', ''), cls, sum(1 for y in news if y < e), x), (e, x) not in bad, f.loc(e),
                       'a %s built here is returned (line %s) without %s having been given the stored value' % (cls, bad.get((e, x)), x), f)

# ------------------------------------------------------------------ MAC components
def comps(db):
    r = {}
    for (q, fl), d in db.enums.items():
        if q == 'Field3D::MACComponent':
            for x in d.get('vals', d.get('c', ())):
                nm, v = (x['n'], x['v']) if isinstance(x, dict) else (x[0], x[1])
                r[nm.split('::')[-1][-1].lower()] = v
    return r

def components(ctx, fns):
    db = ctx.db
    cs = comps(db)
    if sorted(cs) != ['u', 'v', 'w']: raise AnalysisBroken('MACComponent enumerators: %s' % cs)
    inv = {v: k for k, v in cs.items()}
    def leaf(f, i, n, out):
        if n['o'] == 'enum' and 'MACComp' in (n.get('q') or ''): return n['q'].split('::')[-1][-1].lower()
        if out is None and n['o'] in ('call', 'ctor'):
            p = primitive(f, n)
            if p and p[2] == 'D': return '|'.join('D:%s' % x for x in names(f, p[4]))
            for a in n.get('a', ()):
                s = strconst(f, a)
                if s and re.match('[uvw]_data$', s): return 'D:' + s
        return None
    S = Slice(db, leaf, callers=False)
    for f in fns:
        if not (f.cls or '').endswith('MACFieldIO'): continue
        for e, n in f.calls('H5Dread'):
            ds = {x[0][2] for x in S.of(f, n['a'][0]) if x[0].startswith('D:') and x[0].endswith('_data')}
            cp = {x[0] for x in S.of(f, n['a'][-1]) if len(x[0]) == 1}
            if not ds or not cp: continue
            ctx.ob('component', '%s read %s' % (f.q.replace('Field3D::', ''), '/'.join(sorted(cp))), ds == cp and len(cp) == 1, f.loc(e),
                   'data of component %s are read from dataset %s_data' % ('/'.join(sorted(cp)), '/'.join(sorted(ds))), f)
        for pi, vi in f.params.items():
            if 'MACComponent' not in f.vars[vi]['t']: continue
            for e, n in f.calls():
                if n.get('q') != 'H5Dwrite': continue
                for v, l in sorted(inv.items()):
                    ip = Const(f); got = set()
                    def on(bid, i, e2, env):
                        if isinstance(e2, int):
                            m = f.nodes[e2]
                            if m['o'] == 'call' and m.get('op') == '=' and 'obj' in m:
                                s = strconst(f, m['a'][0])
                                if s and s.endswith('_data'): got.add(s[0])
                    ip.on_elem = on
                    ip.run(None, {'v%d' % vi: C(v)})
                    if not got: continue
                    ctx.ob('component', '%s write %s' % (f.q.replace('Field3D::', ''), l), got == {l}, f.loc(e), 'component %s is stored as %s_data' % (l, '/'.join(sorted(got))), f)
