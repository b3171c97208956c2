"""Stored items: which named attributes, datasets and groups each function asks the
two storage layers for (read side) or creates (write side), composed over the call
graph; names passed through parameters are resolved at the callers."""
import re
from .core import *

SHORT = [('std::basic_string<char, std::char_traits<char>, std::allocator<char>>', 'string'),
         ('Imath_3_1::', ''), ('unsigned ', 'u')]
def short(t):
    for a, b in SHORT: t = (t or '').replace(a, b)
    return re.sub(r'^const |[ &*]+$', '', t)

OG_OUT = {'Field3D::OgOAttribute': 'A', 'Field3D::OgODataset': 'D', 'Field3D::OgOCDataset': 'C', 'Field3D::OgOGroup': 'G'}
OG_TYPE = {'Field3D::OgIGroup::datasetType': 'D', 'Field3D::OgIGroup::compressedDatasetType': 'C', 'Field3D::OgIGroup::attributeType': 'A'}
OG_IN = {'Field3D::OgIGroup::findAttribute': 'A', 'Field3D::OgIGroup::findDataset': 'D',
         'Field3D::OgIGroup::findCompressedDataset': 'C', 'Field3D::OgIGroup::findGroup': 'G'}
H5 = {'Field3D::Hdf5Util::writeAttribute': ('w', 'A'), 'Field3D::Hdf5Util::readAttribute': ('r', 'A'),
      'Field3D::Hdf5Util::writeSimpleData': ('w', 'D'), 'Field3D::Hdf5Util::readSimpleData': ('r', 'D'),
      'H5Dcreate2': ('w', 'D'), 'H5Dopen2': ('r', 'D'), 'H5Gcreate2': ('w', 'G'), 'H5Gopen2': ('r', 'G'),
      'H5Acreate2': ('w', 'A'), 'H5Aopen': ('r', 'A')}

def primitive(f, n):
    """(fmt, dir, kind, type, name node) of an item access, or None."""
    if not n.get('f') or not n.get('a'): return None
    q = n.get('q') or ''
    if n['o'] == 'ctor':
        cls = q.rsplit('::', 1)[0]
        if cls in OG_OUT and len(n['a']) >= 2 and 'OgOGroup' in f.nodes[n['a'][0]]['t']:
            m = re.search(r'<(.*)>$', re.sub(r'^const ', '', f.db.decl[n['f']].get('cls') or ''))
            return 'og', 'w', OG_OUT[cls], short(m.group(1)) if m else '', n['a'][1]
        return None
    if q in OG_IN:
        ta = f.db.decl[n['f']].get('ta') or ['']
        return 'og', 'r', OG_IN[q], short(ta[0]), n['a'][0]
    if q in OG_TYPE: return 'og', 'r', OG_TYPE[q], '', n['a'][0]
    if q in H5:
        d = f.db.decl.get(n['f'], {})
        dr, k = H5[q]
        t = ''
        if q.startswith('Field3D'):
            t = short(d['ta'][0]) if d.get('ta') else short((d.get('pt') or [''])[-1])
            if 'string' in ' '.join(short(x) for x in (d.get('pt') or [])[2:]): t = 'string'
            if 'vector<uint' in ' '.join(short(x) for x in (d.get('pt') or [])[2:]): t = 'vector<uint>'
        return 'h5', dr, k, t, n['a'][1]
    return None

def nameof(f, i):
    s = strconst(f, i)
    if s is not None: return re.sub(r'\*.*$', '*', s)
    j = i
    for _ in range(12):
        if j is None or j < 0: return None
        n = f.nodes[j]
        if n['o'] in ('load', 'cast'): j = n['a'][0]
        elif n['o'] == 'ctor' and n['a'] and 'basic_string' in n['t']: j = n['a'][0]
        elif n['o'] == 'call' and (n.get('q') or '').split('::')[-1] in ('c_str', 'data', 'str') and 'obj' in n: j = n['obj']
        elif n['o'] == 'var':
            v = f.vars[n['d']]
            if v['p'] >= 0: return ('p', v['p'])
            k = local_init(f).get(n['d'])
            if k is None or k == j: return None
            j = k
        else: return None
    return None

def names(f, i):
    """nameof, with every alternative of a local string that is assigned constants."""
    nm = nameof(f, i)
    if nm is not None: return [nm]
    j = i
    for _ in range(12):
        n = f.nodes[j]
        if n['o'] in ('load', 'cast'): j = n['a'][0]
        elif n['o'] == 'ctor' and n['a'] and 'basic_string' in n['t']: j = n['a'][0]
        elif n['o'] == 'call' and (n.get('q') or '').split('::')[-1] in ('c_str', 'data', 'str') and 'obj' in n: j = n['obj']
        else: break
    n = f.nodes[j]
    if n['o'] == 'cond':
        r = names(f, n['a'][1]) + names(f, n['a'][2])
        return r if None not in r else [None]
    if n['o'] == 'var':
        from .slices import defs
        r = []
        for p, kind, x, k in defs(f).get('v%d' % n['d'], ()):
            if kind == 'out' or x == i: return [None]
            m = f.nodes[x]
            if m['o'] == 'ctor' and not m['a']: continue
            s = strconst(f, x)
            if s == '': continue
            if s is None: return [None]
            r.append(re.sub(r'\*.*$', '*', s))
        return r or [None]
    return [None]

class Items:
    """stop(f, n, target) tells which calls are not followed."""
    def __init__(self, db, stop=None, hook=None):
        self.db, self.stop, self.hook = db, stop or (lambda f, n, t: False), hook
        self.sum = {}; self.busy = set()
    def subst(self, f, n, it):
        fmt, dr, k, t, nm = it
        if isinstance(nm, tuple):
            nms = names(f, n['a'][nm[1]]) if nm[1] < len(n.get('a', ())) else [None]
            return [(fmt, dr, k, t, x) for x in nms]
        return [(fmt, dr, k, t, nm)]
    def of(self, k):
        """{item: [(function, node)]} for everything reachable from k."""
        if k in self.sum: return self.sum[k]
        if k in self.busy: return {}
        f = self.db.fn(k)
        if f is None: return {}
        self.busy.add(k)
        r = {}
        for _, _, e in f.elems():
            if not isinstance(e, int): continue
            n = f.nodes[e]
            if n['o'] not in ('call', 'ctor') or not n.get('f'): continue
            p = primitive(f, n)
            if p:
                for nm in names(f, p[4]): r.setdefault(p[:4] + (nm,), []).append((f, e))
                continue
            for t in self.db.targets(n):
                d = self.db.decl.get(t)
                if not d or not d['q'].startswith('Field3D::') and '(anon' not in d['q'] and self.db.raw.get(t) is None: continue
                if t not in self.db.raw or self.stop(f, n, t): continue
                for it, at in self.of(t).items():
                    for i2 in self.subst(f, n, it): r.setdefault(i2, []).extend(at[:2])
        self.busy.discard(k)
        self.sum[k] = r
        return r

    # -- items written on every successful way through
    def must(self, k, fails):
        c = self.__dict__.setdefault('_must', {})
        if k in c: return c[k]
        c[k] = set()
        f = self.db.fn(k)
        if f is None: return set()
        ip = plain(f)
        if self.hook:
            ip = Const(f, hook=self.hook); ip.run()
        ins = {f.entry: frozenset()}
        work = [f.entry]; outs = []
        bad = fails(f)
        while work:
            b = work.pop(); cur = set(ins[b])
            for e in f.blocks[b]['el']:
                if isinstance(e, int): cur |= self.gen(f, e, fails)
                elif e['e'] == 'ret' : pass
            for (x, s) in ip.edges:
                if x != b or s is None or s < 0 or s == f.exit: continue
                new = frozenset(cur) if s not in ins else ins[s] & cur
                if s not in ins or new != ins[s]: ins[s] = new; work.append(s)
        for b in ins:
            blk = f.blocks[b]
            cur = set(ins[b])
            for e in blk['el']:
                if isinstance(e, int):
                    cur |= self.gen(f, e, fails)
                    if f.nodes[e]['o'] == 'throw': cur = None; break
                    if f.nodes[e].get('q') in NORETURN: cur = None; break
                elif e['e'] == 'ret':
                    v = plainval(f, e['n'])
                    if bad('ret', v): cur = None
                    break
            if cur is not None and (f.exit in blk['su']): outs.append(cur)
        r = set.intersection(*outs) if outs else set()
        c[k] = r
        return r
    def gen(self, f, e, fails):
        n = f.nodes[e]
        if n['o'] not in ('call', 'ctor') or not n.get('f'): return set()
        p = primitive(f, n)
        if p:
            nm = nameof(f, p[4])
            return {(p[0], p[1], p[2], nm)} if nm is not None else set()
        rs = []
        for t in self.db.targets(n):
            if t not in self.db.raw or self.stop(f, n, t): continue
            s = set()
            for fmt, dr, k, nm in self.must(t, fails):
                its = self.subst(f, n, (fmt, dr, k, '', nm))
                if len(its) == 1 and its[0][4] is not None: s.add((fmt, dr, k, its[0][4]))
            rs.append(s)
        return set.intersection(*rs) if rs else set()

def plainval(f, i):
    return Const(f).val(i, {}) if i is not None and i >= 0 else None

from .fail import plain
