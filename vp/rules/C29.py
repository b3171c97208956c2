"""Internal errors do not escape the public file operations as exceptions."""
import re
from ..core import *
from ..fail import plain
ASSUME = ['memory allocation does not fail and library containers are used within their bounds, so only the library\'s own throw statements and the output stream of an Ogawa archive raise',
          'I/O classes a user registers with the class factory do not throw out of their own read() and write()']

STD = {'std::ios_base::failure': ('std::system_error', 'std::runtime_error', 'std::exception'),
       'std::runtime_error': ('std::exception',), 'std::logic_error': ('std::exception',), 'std::bad_alloc': ('std::exception',),
       'std::out_of_range': ('std::logic_error', 'std::exception'), 'std::bad_cast': ('std::exception',)}
STREAM = re.compile(r'^std::basic_ostream(<.*>)?::(write|seekp|flush|put|operator<<|tellp)$')
STREAMCLOSE = re.compile(r'^std::basic_ofstream(<.*>)?::(close|open)$')

def leaves(f, y, t):
    """may an exception of type t raised in try y leave the function?"""
    while y is not None and y >= 0:
        tr = f.tries[y]
        names = {t} | set(STD.get(t, ())) | exc_bases(f.db, t) | {x for b in exc_bases(f.db, t) for x in STD.get(b, ())}
        for h in tr['h']:
            h0 = h.replace('const ', '').rstrip(' &')
            if h == '...' or h0 in names: return False
        y = tr['parent']
    return True

class Escape:
    def __init__(self, db):
        self.db = db; self.memo = {}; self.prev = {}; self.calls = 0; self.throws = 0
        self.loud = set()      # functions whose stream has its exceptions switched on
        for k in db.raw:
            q = db.decl[k]['q']
            if q.startswith('Alembic::Ogawa') and 'OStream' in q: self.loud.add(k)
    def sources(self, f, e, stack):
        """{type: origin} an element may raise"""
        n = f.nodes[e] if isinstance(e, int) else None
        out = {}
        if n is None:
            if e.get('f') in self.db.raw and e['e'] in ('dtor', 'tdtor', 'mdtor', 'bdtor'):
                out.update(self.of(e['f'], stack))
            return out, e.get('y', -1)
        if n['o'] == 'throw':
            t = n.get('tt')
            if t: self.throws += 1; out[t] = '%s:%s' % (f.file, n['l'])
            else: out.update({'rethrow': '%s:%s' % (f.file, n['l'])})
        elif n['o'] in ('call', 'ctor', 'delete') and n.get('f'):
            self.calls += 1
            q = n.get('q') or ''
            if f.k in self.loud and (STREAM.match(q) or STREAMCLOSE.match(q)) and not self.quiet(f, e):
                out['std::ios_base::failure'] = '%s:%s' % (f.file, n['l'])
            for t in self.db.targets(n):
                if t in self.db.raw:
                    for a, o in self.of(t, stack).items(): out.setdefault(a, o)
        return out, n.get('y', -1)
    def quiet(self, f, e):
        """the stream's exceptions were switched off before, or never switched on"""
        n = f.nodes[e]; p = path(f, n['obj']) if 'obj' in n else None
        if p is None: return False
        hit = []
        ip = Const(f)
        def key(q): return '$x'
        def on(bid, j, x, env):
            m = f.nodes[x]
            if m['o'] == 'call' and (m.get('q') or '').endswith('basic_ios::exceptions') and m.get('a'):
                names_ = {f.nodes[y].get('q', '').split('::')[-1] for y in closure(f, m['a'][0])}
                env['$x'] = C(0 if not names_ & {'failbit', 'badbit', 'eofbit'} else 1)
            if x == e: hit.append(env.get('$x'))
        ip.on_elem = on; ip.run()
        if hit and all(h == C(0) for h in hit): return True
        # a local stream that nothing has switched on yet
        if all(h is None for h in hit) and p.startswith('v') and '.' not in p:
            for b, j, x in f.elems():
                if isinstance(x, dict) and x['e'] == 'decl' and 'v%d' % x['d'] == p:
                    i = x.get('n', -1)
                    if f.vars[x['d']]['t'].rstrip('> ').endswith('stream') or i >= 0 and any(f.nodes[y]['o'] == 'new' for y in closure(f, i)): return True
        return False
    def solve(self, ks):
        """least fixed point over recursive functions"""
        while True:
            self.memo = {}; self.calls = self.throws = 0
            for k in ks: self.of(k)
            if {k: set(v) for k, v in self.memo.items()} == {k: set(v) for k, v in self.prev.items()}: return
            self.prev = self.memo
    def of(self, k, stack=()):
        if k in self.memo: return self.memo[k]
        if k in stack: return self.prev.get(k, {})
        f = self.db.fn(k)
        if f is None: return {}
        out = {}
        ip = plain(f)
        st = stack + (k,)
        for b, j, e in f.elems():
            if isinstance(e, int) and e not in ip.reached: continue
            src, y = self.sources(f, e, st)
            for t, o in src.items():
                if t == 'rethrow':
                    out.setdefault('an exception passed on', o) if leaves(f, y, 'rethrow') else None
                elif leaves(f, y, t): out.setdefault(t, o)
        self.memo[k] = out
        return out

def closure(f, i):
    todo = [i]; out = []
    while todo:
        j = todo.pop()
        if j is None or j < 0: continue
        out.append(j); todo += kids(f.nodes[j])
    return out

def filecls(db, c):
    c = re.sub(r'<.*', '', c or '')
    todo = [c] + list(db.bases(c))
    return any(re.match(r'^Field3D::Field3D(Input|Output)?File(HDF5)?(Base)?$', x) for x in todo)

def run(ctx):
    db = ctx.db
    ctx.rule('operation', 'no exception of the library leaves open(), create() or close() of a public file object', 6)
    ctx.rule('destructor', 'no exception of the library leaves a destructor', 40)
    E = Escape(db)
    E.solve(sorted(k for k in db.raw if db.decl[k].get('dtor') or filecls(db, db.decl[k].get('cls'))))
    for k, d in sorted(db.decl.items(), key=lambda x: (x[1].get('q', ''), x[0])):
        if k not in db.raw: continue
        f = db.fn(k); q = d['q']
        if d.get('dtor'):
            if not q.startswith(('Field3D::', 'Alembic::Ogawa')): continue
            if d.get('implicit') or d.get('defaulted'):
                if not any(isinstance(e, dict) and e.get('f') for _, _, e in f.elems()): continue
            rule = 'destructor'
        elif filecls(db, d.get('cls')) and not d.get('acc', 0) and q.split('::')[-1] in ('open', 'create', 'close') and not d.get('implicit'): rule = 'operation'
        else: continue
        x = E.of(k)
        ctx.ob(rule, q, not x, f.loc(), '' if not x else '; '.join('%s raised at %s can leave %s' % (t, o, q.split('::', 1)[1]) for t, o in sorted(x.items())[:3]), f)
    ctx.notes.append('functions followed %d, calls %d, throw statements %d' % (len(E.memo), E.calls, E.throws))
    for k in E.memo: ctx.fns.add(k)
