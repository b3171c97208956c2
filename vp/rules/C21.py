"""No object starts life with undefined state."""
import re
from ..core import *
from ..facts import kids, AnalysisBroken
ASSUME = ['reads of a method called by a constructor count when they happen on every path through the method',
          'a member passed to a function by non-const reference or pointer is given a value by it',
          'local variables of built-in type and objects of other libraries are outside this property']

NUM = re.compile(r'^(const |volatile )*(unsigned |signed )?(bool|char|short|int|long|long long|float|double|size_t|wchar_t|unsigned)( (int|long))*$')
VEC = re.compile(r'^(const )?Imath_3_1::(Vec[234]<.*>|half)$')

def clean(t): return re.sub(r'\b(mutable|volatile) ', '', t).strip()

def is_plain(db, t):
    t = clean(t)
    if t.endswith('*') or t.endswith('* const') or NUM.match(t) or t in db.enums or VEC.match(t): return True
    m = re.match(r'^(.*?) ?\[\d+\]$', t)
    return bool(m) and is_plain(db, m.group(1))

def ctors_of(db, cls):
    return [(k, db.decl[k]) for k in db.recs[cls]['m'] if db.decl.get(k, {}).get('ctor')]

def pod_like(db, cls, seen=()):
    """record whose default construction leaves plain members as they were"""
    r = db.recs.get(cls)
    if not r or cls in seen or not cls.startswith('Field3D'): return []
    if any(not d.get('implicit') and not d.get('defaulted') for _, d in ctors_of(db, cls)): return []
    bad = [x['n'] for x in r['f'] if x['k'] in ('scalar', 'ptr') or is_plain(db, x['t'])]
    return bad

class Set:
    """members of *this that a function has given a value on every path to its returns"""
    def __init__(self, db):
        self.db = db; self.memo = {}; self.busy = set(); self.ex = {}; self.exb = set()

    def exposed(self, k):
        """plain members a method of the class may read before giving them a value"""
        if k in self.ex: return self.ex[k]
        if k in self.exb: return frozenset()
        f = self.db.fn(k)
        if f is None: return frozenset()
        self.exb.add(k)
        r = []
        self.solve(f, r)
        # a read behind a condition may depend on members that do have a value (a null manager, a size of 0)
        where = {e: b for b, i, e in f.elems() if isinstance(e, int)}
        r = [(p, e) for p, e in r if e in where and self.always(f, where[e])]
        self.exb.discard(k)
        self.ex[k] = frozenset(p for p, e in r)
        return self.ex[k]

    def summary(self, k):
        if k in self.memo: return self.memo[k]
        if k in self.busy: return frozenset()
        f = self.db.fn(k)
        if f is None or not f.decl.get('cls'): return frozenset()
        self.busy.add(k)
        ex, _ = self.solve(f)
        self.busy.discard(k)
        self.memo[k] = ex
        return ex

    def own(self, f, i):
        """member path below this: ('m_x',) or ('m_x', 'y')"""
        p = path(f, i)
        if p is None: return None
        p = p.lstrip('&')
        m = re.match(r'^\*?this(?:\*)?\.(.*)$', p)
        if not m: return None
        return m.group(1)

    def add(self, st, p):
        if p is None: return st
        p = re.sub(r'\[.*', '', p)
        st = st | {p}
        h, _, l = p.rpartition('.')
        if h and l in ('x', 'y', 'z') and all(h + '.' + c in st for c in 'xyz'): st = st | {h}
        return st

    def solve(self, f, reads=None):
        loops = {}
        IN = {f.entry: frozenset()}
        todo = [f.entry]; n = 0
        res = None
        while todo:
            b = todo.pop(0); n += 1
            if n > 20000: break
            st = self.block(f, b, IN[b], None)
            if st is None: continue
            for x in self.succ(f, b):
                if x is None or x < 0: continue
                o = IN.get(x)
                s2 = st if o is None else o & st
                if s2 != o: IN[x] = s2; todo.append(x)
        if reads is not None:
            for b in IN: self.block(f, b, IN[b], reads)
        return IN.get(f.exit, frozenset(['*'])), IN

    def always(self, f, b):
        if b in (f.entry, f.exit): return True
        seen = {f.entry}; todo = [f.entry]
        while todo:
            x = todo.pop()
            for y in self.succ(f, x):
                if y is None or y < 0 or y == b or y in seen: continue
                if y == f.exit: return False
                seen.add(y); todo.append(y)
        return True

    def succ(self, f, b):
        bl = f.blocks[b]; tm = bl.get('tm')
        if tm and tm.get('c') is not None and len(bl['su']) == 2:
            n = f.nodes[strip(f, tm['c'])]
            if n['o'] == 'bin' and n['op'] in ('==', '!='):
                k = [f.nodes[strip(f, a)] for a in n['a']]
                if any(x['o'] == 'this' for x in k) and any(x['o'] == 'un' and x['op'] == '&' for x in k):
                    # a constructor's argument is another object
                    return [bl['su'][1 if n['op'] == '==' else 0]]
        return bl['su']

    def block(self, f, b, st, reads):
        db = self.db
        for e in f.blocks[b]['el']:
            if isinstance(e, dict):
                if e['e'] == 'init' and e.get('m'):
                    i = e.get('n', -1)
                    if i is not None and i >= 0 and not self.undefined(f, i): st = self.add(st, e['m'].split('::')[-1])
                elif e['e'] == 'init' and e.get('n', -1) is not None and e.get('n', -1) >= 0 and f.nodes[e['n']].get('f'):
                    # delegating or base constructor
                    t = f.nodes[e['n']]['f']
                    if db.decl.get(t, {}).get('cls') == f.decl.get('cls'): st = st | self.summary(t)
                continue
            n = f.nodes[e]; o = n['o']
            if o == 'throw': return None
            if o == 'call' and (n.get('q') or '') in ('__assert_fail', 'abort', 'exit'): return None
            if o == 'load' and reads is not None:
                p = self.own(f, n['a'][0])
                if p is not None and '.' not in p and '*' not in p and '[' not in p and p not in st: reads.append((p, e))
            if o == 'asn' and n['op'] == '=': st = self.add(st, self.own(f, n['a'][0]))
            elif o == 'call':
                d = db.decl.get(n.get('f') or '', {})
                if 'obj' in n:
                    p = self.own(f, n['obj'])
                    if p is not None and not d.get('const'): st = self.add(st, p)
                    ob = f.nodes[strip(f, n['obj'])]
                    if ob['o'] == 'this' or (ob['o'] == 'un' and ob['op'] == '*' and f.nodes[strip(f, ob['a'][0])]['o'] == 'this'):
                        t = n.get('f')
                        if reads is not None and t and self.db.decl.get(t, {}).get('cls') == f.decl.get('cls') and not n.get('virt') and not self.db.decl[t].get('defaulted'):
                            for p in self.exposed(t):
                                if p not in st: reads.append((p, e))
                        own = db.decl.get(t, {}).get('cls') == f.decl.get('cls')
                        if own and (d.get('implicit') or d.get('defaulted')) and (n.get('q') or '').endswith('operator='):
                            st = st | {x['n'] for x in db.recs.get(f.decl['cls'], {}).get('f', ())}
                        elif own: st = st | self.summary(t)
                pts = d.get('pt', [])
                for j, a in enumerate(n.get('a', ())):
                    pt = pts[j] if j < len(pts) else ''
                    if (pt.endswith('&') and not pt.startswith('const ')) or pt.endswith('*') or pt.endswith('* const'):
                        if pt.startswith('const ') and pt.endswith('*'): continue
                        st = self.add(st, self.own(f, a))
        return st

    def undefined(self, f, i):
        """a default constructor that leaves a vector or half as it was"""
        n = f.nodes[i]
        while n['o'] == 'cast': i = n['a'][0]; n = f.nodes[i]
        if n['o'] == 'ctor' and not n.get('a') and (VEC.match(clean(n['t'])) or pod_like(self.db, n['t'])): return True
        if n['o'] == 'unk' : return False
        return False

def short(q): return re.sub(r'^Field3D::', '', re.sub(r'\(anon\)::', '', q))

def run(ctx):
    db = ctx.db
    R = 'value'; ctx.rule(R, 'every constructor of a class gives each plain member a value on every path', 150)
    ctx.rule('early', 'no constructor reads a plain member before it has a value, itself or through a method it calls', 60)
    ctx.rule('made', 'an object of a type without a constructor is created with all its plain members given values', 0)
    S = Set(db)
    for k, d in sorted(db.decl.items()):
        if not d.get('ctor') or not d['q'].startswith('Field3D'): continue
        r = db.recs.get(d.get('cls'))
        f = db.fn(k)
        if not r or not f or 'union' in d['cls'].split('::')[-1]: continue
        need = [x['n'] for x in r['f'] if x['n'] and (x['k'] in ('scalar', 'ptr') or is_plain(db, x['t']) or pod_like(db, clean(x['t'])))]
        if not need: continue
        reads = []
        ex, _ = S.solve(f, reads)
        kind = 'copy constructor' if d.get('copy') else 'constructor(%s)' % ', '.join(x.replace('const ', '').split('<')[0].split('::')[-1].strip('& *') for x in d.get('pt', []))
        nm = short(d['q'].rsplit('::', 1)[0])
        for m in need:
            ctx.ob(R, '%s %s: %s' % (nm, kind, m), m in ex or '*' in ex, f.loc(), 'the constructor leaves %s without a value' % m, f)
        ys = {p for p, e in reads if p in need}
        ctx.ob('early', '%s %s' % (nm, kind), not ys, f.loc([e for p, e in reads if p in need][0]) if ys else f.loc(), 'reads %s before giving it a value' % ', '.join(sorted(ys)), f)
    # types without a constructor of their own
    for f in db.fns():
        if not f.q.startswith('Field3D'): continue
        sites = {}
        for b, ix, e in f.elems():
            if isinstance(e, dict) and e['e'] == 'decl' and (e.get('n') or -1) >= 0: sites[e['n']] = e['d']
        for i, n in enumerate(f.nodes):
            if n['o'] != 'ctor' or n.get('a') or n.get('zero'): continue
            bad = pod_like(db, clean(n['t']))
            d = db.decl.get(n.get('f') or '', {})
            if not bad or not d.get('ctor') or d.get('cls') != clean(n['t']): continue
            par = f.nodes[f.parent()[i]] if i in f.parent() else None
            if i in {e['n'] for b in f.blocks.values() for e in b['el'] if isinstance(e, dict) and e['e'] == 'init' and e.get('n') is not None}: continue   # judged as a member
            v = sites.get(i)
            given = set()
            if v is not None:
                for m in f.nodes:
                    if m['o'] == 'asn' and m['op'] == '=':
                        t = f.nodes[strip(f, m['a'][0])]
                        if t['o'] == 'mem' and f.nodes[strip(f, t['a'][0])]['o'] == 'var' and f.nodes[strip(f, t['a'][0])]['d'] == v: given.add(t['n'])
            miss = [x for x in bad if x not in given]
            ctx.ob('made', '%s in %s' % (short(n['t']), short(f.q)), not miss, f.loc(i), '%s created without values for %s' % (short(n['t']), ', '.join(miss)), f)
