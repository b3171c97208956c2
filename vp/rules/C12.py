"""The vocabulary of the file formats is the one earlier releases wrote.

vocab.json is the written-down format (made once from the released sources with
`python3 -m vp.rules.C12`); the check derives the same facts from the current source
and compares."""
import json, os
from .itemspec import *
from ..slices import Slice

ASSUME = ['vocab.json states the released format (taken from the pinned release and reviewed)',
          'the Ogawa layout is compared through the constants and the order of the pieces written, not by executing the writer']
VOC = os.path.join(os.path.dirname(__file__), 'vocab.json')

DISK_ENUMS = ('Field3D::OgGroupType', 'Field3D::OgDataType', 'Field3D::FrustumFieldMapping::ZDistribution')
CONSTFN = re.compile(r'::(staticClassName|staticClassType|className|classType|typeEnum|typeName|name|h5type|h5bits|dataDims|dataTypeName)$')

def retconst(db, f):
    """The constant a function returns, as text, or None."""
    rets = [e for _, _, e in f.elems() if isinstance(e, dict) and e['e'] == 'ret']
    vals = set()
    for r in rets: vals.add(constof(db, f, r['n']))
    return vals.pop() if len(vals) == 1 else None

def constof(db, f, i, d=0):
    if i is None or i < 0 or d > 4: return None
    s = strconst(f, i)
    if s is not None and not s.endswith('*'): return repr(s)
    n = f.nodes[i]
    if 'v' in n: return str(n['v'])
    j = strip(f, i); n = f.nodes[j]
    if 'v' in n: return str(n['v'])
    if n['o'] == 'gvar': return n['q'].split('::')[-1]
    if n['o'] == 'bin' and n['op'] == ',': return constof(db, f, n['a'][1], d + 1)
    if n['o'] == 'call' and n.get('f') in db.raw and len(db.targets(n)) == 1: return retconst(db, db.fn(n['f']))
    if n['o'] == 'ctor' and len(n['a']) == 1: return constof(db, f, n['a'][0], d + 1)
    if n['o'] == 'var':
        li = local_init(f).get(n['d'])
        if li is not None: return constof(db, f, li, d + 1)
    return None

OGCLS = re.compile(r'(::|^)(OStream|OGroup|OData|OArchive|IStreams|IGroup|IData|IArchive|OgOGroup|OgIGroup|OgOAttribute|OgIAttribute|OgODataset|OgOCDataset|OgIDataset|OgICDataset|OgIBase)(<.*>)?(::PrivateData)?$')
PIECES = ('writeString', 'writeData', 'writeDataType', 'readString', 'readData', 'readDataType')

POS = {('write', 1), ('read', 1), ('read', 2), ('seek', 0), ('push_back', 0), ('readString', 1), ('readData', 1), ('readDataType', 1)}
def signed(v, t=''):
    return v & 0xffffffffffffffff if v < 0 else v

def og_consts(db):
    """class -> set of 'op const' facts about positions, sizes, masks and tags."""
    r = {}
    for f in db.fns(lambda d: OGCLS.search(d.get('cls') or '') or d['q'].startswith('Field3D::') and d.get('file', '').endswith(('OgUtil.h', 'OgUtil.cpp')) and not d.get('cls')):
        c = re.sub(r'<.*', '', f.cls or '').split('Ogawa::')[-1].replace('Field3D::', '').replace('::PrivateData', '').split('::')[-1] or 'OgUtil'
        s = r.setdefault(c, set())
        for _, _, e in f.elems():
            if not isinstance(e, int): continue
            n = f.nodes[e]
            if n['o'] == 'bin' and n['op'] in ('|', '&', '<<', '>>', '+', '*', '==', '!='):
                for a in n['a']:
                    v = f.nodes[a].get('v')
                    if v is not None and not -2 < v < 2 and (n['op'] not in ('==', '!=') or v < -2 or v > 1 << 32):
                        k = '==' if n['op'] == '!=' else n['op']
                        s.add('%s %d' % (k, signed(v)))
            elif n['o'] == 'asn' and n['op'] in ('|=', '&=', '+=', '*='):
                v = f.nodes[n['a'][1]].get('v')
                if v is not None and not -2 < v < 2: s.add('%s %d' % (n['op'][:-1], signed(v)))
            elif n['o'] == 'call' and (n.get('q') or '').split('::')[-1] in ('write', 'read', 'seek', 'seekp', 'seekg', 'getData', 'getGroup', 'readString', 'readData', 'readDataType', 'readDataLength', 'push_back'):
                last = n['q'].split('::')[-1]
                for j, a in enumerate(n['a']):
                    if (last, j) not in POS or c.startswith('Og') != (last in PIECES): continue
                    v = f.nodes[a].get('v')
                    if v is not None: s.add('%s(%d)=%d' % (last, j, signed(v)))
            elif n['o'] == 'ilist' and len(n['a']) >= 8 and f.q.startswith('Alembic'):
                vs = [f.nodes[a].get('v') for a in n['a']]
                if any(vs): s.add('bytes %s' % vs)
            elif n['o'] == 'str' and f.q.startswith('Alembic') and n.get('s') and len(n['s']) < 8: s.add('text %r' % n['s'])
        for _, _, e in f.elems():
            if isinstance(e, dict) and e['e'] == 'decl' and e['n'] >= 0:
                n = f.nodes[e['n']]
                if f.q.startswith('Alembic') and 'v' in n and f.vars[e['d']]['t'] == 'char': s.add('char %d' % (n['v'] & 255))
    return r

def pieces(db):
    """Writer constructors of Ogawa items -> pieces in the order they are written."""
    r = {}
    for f in db.fns(lambda d: re.search(r'(OgOAttribute|OgODataset|OgOCDataset|OgOGroup)(<.*>)?$', d.get('cls') or '') and d.get('ctor')):
        seq = flat(db, f, {}, 0)
        if seq: r.setdefault(f.q.split('::')[-1], set()).add(' '.join(seq))
    return r

def flat(db, f, env, d):
    seq = []
    for bid in sorted(f.blocks, reverse=True):
        for e in f.blocks[bid]['el']:
            if not isinstance(e, int): continue
            n = f.nodes[e]
            if n['o'] not in ('call',): continue
            last = (n.get('q') or '').split('::')[-1]
            if last in PIECES:
                t = [c for c in (constof(db, f, a) for a in n['a'][1:]) if c is not None and not c.startswith("'")]
                seq.append(last + ''.join('=' + x for x in t))
            elif (n.get('q') or '').startswith('Field3D') and n.get('f') in db.raw and d < 2 and last not in ('addSubGroup',):
                seq += flat(db, db.fn(n['f']), env, d + 1)
    return seq

def snapshot(db):
    v = {'items': {}, 'enum': {}, 'const': {}, 'ogawa': {}, 'pieces': {}, 'h5types': {}, 'value': {}}
    for name, g in groups(db).items():
        for d in 'wr':
            for it in g[d][0]:
                if it[4] is None: continue
                v['items'].setdefault(name + ' ' + d, []).append('%s %s %s' % (it[2], it[4], it[3]))
    for k in v['items']: v['items'][k] = sorted(v['items'][k])
    for (q, fl), d in db.enums.items():
        if q in DISK_ENUMS: v['enum'][q] = {n: x for n, x in d['c'] if not re.search('Invalid|NumDataTypes', n)}
    for f in db.fns(lambda d: CONSTFN.search(d['q']) and d['q'].startswith('Field3D::')):
        c = retconst(db, f)
        if c is not None:
            k = (f.cls + '::' if f.cls else '') + f.q.split('::')[-1]
            if (f.cls or '').startswith(('Field3D::Exc', 'Field3D::Log')) or 'Interp' in k or re.search(r'DataTypeTraits<.*typeEnum$', k) and 'Ogawa' not in k: continue
            v['const'][k] = c
    for (cls, q), g in db.globals.items():
        if 'k_versionNumber' in q and 'v' in g: v['const'][(cls + '::' if cls and not q.startswith(cls) else '') + q] = str(g['v'])
    for c, s in og_consts(db).items():
        if s: v['ogawa'][c] = sorted(s)
    for c, s in pieces(db).items(): v['pieces'][c] = sorted(s)
    # HDF5 element types each accessor uses
    for f in db.fns(lambda d: d['q'].startswith('Field3D::Hdf5Util::') and re.search(r'(read|write)(Attribute|SimpleData)$', d['q'])):
        ts = sorted({n['q'] for n in f.nodes if n['o'] == 'gvar' and n['q'].startswith('H5T_')})
        key = f.q.split('::')[-1] + '(' + short((f.decl.get('pt') or [''])[-1]) + ', %d)' % len(f.decl.get('pt') or [])
        if f.decl.get('ta'): continue
        v['h5types'][key] = ts
    # constant values stored under fixed names
    S = Slice(db, leafc, callers=False)
    for f in db.fns(lambda d: d['q'].startswith('Field3D::') and ('IO::' in d['q'] or 'File' in d['q'])):
        for e, n in f.calls():
            p = primitive(f, n)
            if p and p[1] == 'w' and p[2] == 'A':
                for nm in names(f, p[4]):
                    if nm in ('class_type', 'is_field3d_partition', 'is_field3d_group_membership', 'data_is_compressed', 'NullFieldMapping data', 'version'):
                        a = n['a'][2] if p[0] == 'og' else n['a'][-1]
                        vs = sorted({x[0] for x in S.of(f, a)})
                        v['value']['%s/%s %s' % (re.sub(r'.*::', '', f.cls or f.q), p[0], nm)] = vs
    return v

def leafc(f, i, n, out):
    s = strconst(f, i)
    if s is not None: return repr(s)
    if n['o'] in ('lit', 'gvar', 'load', 'cast', 'enum') and 'v' in n: return str(n['v'])
    if n['o'] == 'gvar':
        g = f.db.globals.get((n.get('cls', ''), n['q']))
        if g and 'v' in g: return str(g['v'])
        if n['q'].startswith(('Field3D', '(anon')): return 'g:' + n['q'].split('::')[-1]
    return None

TEXT = {'items': 'a stored item keeps its name, kind and element type on both sides', 'enum': 'a tag stored in files keeps its number',
        'const': 'class names, type names, type tags, element types and format versions keep their values',
        'ogawa': 'magic bytes, positions, sizes, masks and child indices of the Ogawa layout are unchanged',
        'pieces': 'the pieces of an Ogawa item are written in the released order', 'h5types': 'HDF5 attributes keep their element types',
        'value': 'marker values stored under fixed names are unchanged'}
FLOOR = {'items': 200, 'enum': 20, 'const': 60, 'ogawa': 20, 'pieces': 4, 'h5types': 6, 'value': 12}

def run(ctx):
    db = ctx.db
    want = json.load(open(VOC))
    got = snapshot(db)
    for k in TEXT: ctx.rule(k, TEXT[k], FLOOR[k])
    for name, its in sorted(want['items'].items()):
        have = set(got['items'].get(name, ()))
        for it in its:
            ctx.ob('items', name + ' ' + it, it in have, '', '%s no longer %s (%s)' % (it, 'written' if name.endswith('w') else 'read', name))
    for q, vals in sorted(want['enum'].items()):
        cur = got['enum'].get(q)
        if cur is None: raise AnalysisBroken('enumeration %s not found' % q)
        for n, v in sorted(vals.items()):
            # a renamed enumerator that keeps the number is only a source change
            ok = cur.get(n) == v or n not in cur and v in cur.values()
            ctx.ob('enum', q + '::' + n, ok, '', 'number of %s is now %s, files hold %s' % (n, cur.get(n), v))
    for k, v in sorted(want['const'].items()):
        c = got['const'].get(k)
        if c is None: continue        # function gone or no longer a plain constant: covered through its users
        ctx.ob('const', k, c == v, '', '%s is now %s, files hold %s' % (k, c, v))
    lost = [k for k in want['const'] if k not in got['const']]
    if len(lost) > len(want['const']) // 4: raise AnalysisBroken('%d of %d constants can no longer be derived, e.g. %s' % (len(lost), len(want['const']), lost[:3]))
    for c, s in sorted(want['ogawa'].items()):
        have = set(got['ogawa'].get(c, ()))
        for x in s: ctx.ob('ogawa', c + ' ' + x, x in have, '', '%s: %s has disappeared (now: %s)' % (c, x, ', '.join(sorted(have - set(s))) or 'nothing new'))
        for x in sorted(have - set(s)):
            op = re.match(r'\w+\(\d\)=|\S+ ', x).group(0)
            if op[0] in '+*=<>' : continue
            # a new constant in a place the format fixes
            if any(y.startswith(op) for y in s): ctx.ob('ogawa', c + ' new ' + x, False, '', '%s: %s is not part of the released layout (%s)' % (c, x, ', '.join(y for y in s if y.startswith(op))))
    for c, s in sorted(want['pieces'].items()):
        ctx.ob('pieces', c, got['pieces'].get(c, []) == s, '', '%s writes %s; released order %s' % (c, got['pieces'].get(c), s))
    for k, s in sorted(want['h5types'].items()):
        if k in got['h5types']: ctx.ob('h5types', k, got['h5types'][k] == s, '', '%s uses %s; files hold %s' % (k, got['h5types'][k], s))
    for k, s in sorted(want['value'].items()):
        if k in got['value']: ctx.ob('value', k, got['value'][k] == s, '', '%s stores %s; files hold %s' % (k, got['value'][k], s))
    for g in groups(db).values():
        for d in 'wr':
            for at in g[d][0].values(): ctx.fns |= {f.k for f, e in at}
    ctx.fns |= {f.k for f in db.fns(lambda d: OGCLS.search(d.get('cls') or '') or CONSTFN.search(d['q']))}
    ctx.notes.append('compared with the written-down vocabulary: %s' % {k: len(v) for k, v in want.items()})

if __name__ == '__main__':
    json.dump(snapshot(DB()), open(VOC, 'w'), indent=1, sort_keys=True)
