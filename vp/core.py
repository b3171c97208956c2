"""Shared analyses over the IR: access paths, exceptions, constant propagation."""
from .facts import *

SMART = ('boost::shared_ptr', 'std::__shared_ptr', 'boost::intrusive_ptr', 'boost::scoped_ptr', 'std::shared_ptr', 'std::unique_ptr',
         'Alembic::Util::shared_ptr', 'boost::scoped_array', 'boost::weak_ptr', 'Field3D::FieldRes::Ptr')

def is_smart(t):
    t = (t or '').replace('const ', '')
    return any(t.startswith(s) for s in SMART)

# ---------------------------------------------------------------- trivial getters
def getter(db, k):
    """If function k is `return <member path of this>` (locks allowed), the member
    path relative to this ('m_x' or 'm_x.y'); else None."""
    c = db.__dict__.setdefault('_getter', {})
    if k in c: return c[k]
    c[k] = None
    f = db.fn(k)
    if f is None: return None
    rets = [e for _, _, e in f.elems() if isinstance(e, dict) and e['e'] == 'ret']
    if len(rets) != 1 or rets[0]['n'] < 0: return None
    # no other side effects: only loads/members/casts/this, lock ctors
    for _, _, e in f.elems():
        if isinstance(e, int):
            n = f.nodes[e]
            if n['o'] in ('asn', 'throw', 'new', 'delete', 'call') : 
                return None
            if n['o'] == 'ctor' and not (is_smart(n['t']) or 'string' in n['t'] or is_lock_type(n['t']) or 'Vec3' in n['t'] or 'Box' in n['t']):
                return None
            if n['o'] == 'un' and n['op'] in ('++', '--'): return None
    p = path(f, rets[0]['n'])
    if p and p.startswith('this.') and '(' not in p:
        c[k] = p[5:]
    return c[k]

LOCKS = ('boost::unique_lock<', 'boost::lock_guard<', 'std::unique_lock<', 'std::lock_guard<', 'std::scoped_lock<',
         'boost::shared_lock<', 'std::shared_lock<', 'boost::interprocess::scoped_lock<',
         'boost::detail::try_lock_wrapper<', 'boost::strict_lock<')
def is_lock_type(t):
    t = (t or '').replace('const ', '')
    return t.startswith(LOCKS)

MUTEX_T = ('boost::mutex', 'boost::recursive_mutex', 'std::mutex', 'std::recursive_mutex', 'boost::shared_mutex',
           'Alembic::Util::mutex', 'boost::timed_mutex')
def is_mutex_type(t):
    t = (t or '').replace('const ', '').rstrip(' &*')
    return t in MUTEX_T

# ---------------------------------------------------------------- access paths
def path(f, i, depth=0, subst=None):
    """Canonical access path of expression i (an lvalue, or the object/pointer it
    denotes).  Flow-insensitive; reference locals are replaced by what they bind.
    '*' is appended for a dereference.  None when there is no such path."""
    if i is None or i < 0 or depth > 40: return None
    n = f.nodes[i]; o = n['o']
    P = lambda j: path(f, j, depth + 1, subst)
    if o == 'this':
        return (subst or {}).get('this', 'this')
    if o == 'var':
        d = n['d']
        v = f.vars[d]
        if subst and d in subst: return subst[d]
        if v.get('ref') and v['p'] == -1:
            ini = refinit(f).get(d)
            if ini is not None:
                p = P(ini)
                if p: return p
        return 'v%d' % d
    if o == 'gvar':
        return 'g:' + n['q']
    if o == 'load':
        return P(n['a'][0])
    if o == 'cast':
        return P(n['a'][0])
    if o == 'mem':
        b = P(n['a'][0])
        if b is None: return None
        # pointer paths denote the pointer; member through pointer: deref
        base = f.nodes[n['a'][0]]
        if n.get('arrow'):
            if b == 'this' or b.endswith('.this'): return b + '.' + n['n']
            if b.startswith('&'): return b[1:] + '.' + n['n']
            return b + '*.' + n['n']
        return b + '.' + n['n']
    if o == 'un':
        if n['op'] == '*':
            b = P(n['a'][0])
            if b is None: return None
            if b == 'this': return 'this'
            if b.startswith('&'): return b[1:]
            return b + '*'
        if n['op'] == '&':
            b = P(n['a'][0])
            return None if b is None else '&' + b
        if n['op'] in ('++', '--') and not n.get('post'): return P(n['a'][0])
        return None
    if o == 'idx':
        b = P(n['a'][0])
        if b is None: return None
        ix = f.nodes[n['a'][1]]
        return b + '[%s]' % (ix['v'] if 'v' in ix else '')
    if o == 'ctor':
        # copy construction / conversion between smart pointers keeps identity
        if len(n['a']) == 1 and is_smart(n['t']):
            return P(n['a'][0])
        return None
    if o == 'cond':
        return None
    if o == 'asn' and n['op'] == '=':
        return P(n['a'][0])
    if o == 'call':
        q = n.get('q', '')
        last = q.split('::')[-1]
        if 'obj' in n:
            ot = f.nodes[n['obj']]['t']
            if last in ('operator->', 'get', 'operator*', 'operator.') and (is_smart(ot) or last != 'get'):
                b = P(n['obj'])
                if b is None: return None
                if last == 'operator*': return b + '*'
                return b
            if last in ('operator[]', 'at'):
                b = P(n['obj'])
                if b is None: return None
                ix = f.nodes[n['a'][0]] if n.get('a') else {}
                return b + '[%s]' % (ix['v'] if 'v' in ix else '')
            if last in ('back', 'front') and 'std::' in q:
                b = P(n['obj'])
                return None if b is None else b + '[]'
            if not n.get('virt') or len(f.db.targets(n)) == 1:
                g = getter(f.db, n.get('f'))
                if g:
                    b = P(n['obj'])
                    if b is None: return None
                    if n.get('arrow') and b != 'this': b = b[1:] if b.startswith('&') else b + '*'
                    elif b.startswith('&'): b = b[1:]
                    return b + '.' + g
        if last == 'operator*' and n.get('a') and 'obj' not in n:
            b = P(n['a'][0]); return None if b is None else b + '*'
        if q.endswith('::singleton') or last == 'singleton':
            return 'g:' + q
        if last in ('static_pointer_cast', 'dynamic_pointer_cast', 'const_pointer_cast', 'field_dynamic_cast'):
            return None
        if last in ('forward', 'move', 'addressof') and n.get('a'):
            return P(n['a'][0])
        return None
    return None

def refinit(f):
    r = f.__dict__.get('_refinit')
    if r is None:
        r = {}
        for _, _, e in f.elems():
            if isinstance(e, dict) and e['e'] == 'decl' and f.vars[e['d']].get('ref'):
                r[e['d']] = e['n']
        f._refinit = r
    return r

def local_init(f):
    """var -> init node for locals declared exactly once and never reassigned."""
    r = f.__dict__.get('_linit')
    if r is None:
        r = {}
        bad = set()
        for _, _, e in f.elems():
            if isinstance(e, dict) and e['e'] == 'decl':
                if e['d'] in r: bad.add(e['d'])
                r[e['d']] = e['n']
            elif isinstance(e, int):
                n = f.nodes[e]
                if n['o'] == 'asn' or (n['o'] == 'un' and n['op'] in ('++', '--')):
                    a = f.nodes[n['a'][0]]
                    if a['o'] == 'var': bad.add(a['d'])
        for b in bad: r.pop(b, None)
        f._linit = r
    return r

def strip(f, i):
    """Skip loads and casts."""
    while i is not None and i >= 0 and f.nodes[i]['o'] in ('load', 'cast'):
        i = f.nodes[i]['a'][0]
    return i

def base_root(p):
    for j, c in enumerate(p):
        if c in '.*[' and j > 0: return p[:j]
    return p

# ---------------------------------------------------------------- string constants
def strconst(f, i, depth=0):
    """Constant string value of expression i, or None."""
    if i is None or i < 0 or depth > 8: return None
    n = f.nodes[i]
    if 's' in n and n['o'] in ('str', 'ctor', 'gvar'): return n['s']
    if n['o'] == 'gvar':
        g = f.db.globals.get((n.get('cls', ''), n['q'])) or f.db.globals.get(('', n['q']))
        if g and 's' in g: return g['s']
        return None
    if n['o'] in ('load', 'cast'): return strconst(f, n['a'][0], depth + 1)
    if n['o'] == 'ctor' and len(n['a']) >= 1 and 'basic_string' in n['t']: return strconst(f, n['a'][0], depth + 1)
    if n['o'] == 'call' and n.get('q', '').split('::')[-1] in ('c_str', 'data', 'str'):
        return strconst(f, n.get('obj'), depth + 1)
    if n['o'] == 'call' and n.get('op') == '+' :
        parts = ([n['obj']] if 'obj' in n else []) + list(n['a'])
        s = [strconst(f, a, depth + 1) for a in parts]
        if all(x is not None for x in s): return ''.join(s)
        if s and s[0] is not None: return s[0] + '*'
        return None
    if n['o'] == 'var':
        li = local_init(f).get(n['d'])
        if li is not None and li >= 0: return strconst(f, li, depth + 1)
        return None
    if n['o'] == 'mem':
        # const string member initialised in every constructor to one literal
        return member_string(f.db, n['m'])
    return None

def member_string(db, m):
    c = db.__dict__.setdefault('_mstr', {})
    if m in c: return c[m]
    c[m] = None
    vals = set(); cls = m.rsplit('::', 1)[0]
    ctorq = cls + '::' + cls.split('::')[-1]
    for f in db.find(ctorq):
        for _, _, e in f.elems():
            if isinstance(e, dict) and e['e'] == 'init' and e.get('m') == m:
                vals.add(strconst(f, e['n']))
    if len(vals) == 1: c[m] = vals.pop()
    return c[m]

# ---------------------------------------------------------------- exceptions
def exc_bases(db, t):
    t = t.replace('const ', '').rstrip(' &')
    r = {t, '...'}
    for b in db.bases(t): r.add(b)
    r.add('std::exception') if any(x.startswith('std::') for x in r) else None
    return r

def handlers_for(f, tryid, t):
    """Handler blocks reached by an exception of type t (None: unknown) raised in
    try tryid; second result: may the exception leave the function."""
    out = []
    while tryid is not None and tryid >= 0:
        tr = f.tries[tryid]
        stop = False
        bs = exc_bases(f.db, t) if t else None
        for h, ht in enumerate(tr['h']):
            ht0 = ht.replace('const ', '').rstrip(' &')
            if ht == '...' :
                out.append(f.catch_blocks.get((tryid, h))); stop = True; break
            if t is None:
                out.append(f.catch_blocks.get((tryid, h)))
            elif ht0 in bs:
                out.append(f.catch_blocks.get((tryid, h))); stop = True; break
        if stop: return [x for x in out if x is not None], False
        tryid = tr['parent']
    return [x for x in out if x is not None], True

# ---------------------------------------------------------------- constant propagation
def C(v): return ('c', v)
NZ = ('nz',)
THROW = ('throw',)

class Const:
    """Forward conditional constant propagation over one function.

    hook(interp, node id, node, env) may return a value for a call (or None)."""
    def __init__(self, f, hook=None, kill_calls=True):
        self.f = f; self.hook = hook; self.db = f.db
        self.exits = []      # (kind, value, loc line, env)
        self.reached = set() # element node ids reached
        self.kill_calls = kill_calls
        self.single_fault = False
        self.split = ()
        self.on_elem = None
        self.on_decl = None
        self.on_ret = None
        self.after_decl = None

    # --- values
    def val(self, i, env):
        if i is None or i < 0: return None
        k = 'n%d' % i
        if k in env: return env[k]
        return self.ev(i, env)

    def ev(self, i, env):
        f = self.f; n = f.nodes[i]; o = n['o']
        if self.hook:
            r = self.hook(self, i, n, env)
            if r is not None: return r
        if 'v' in n and o not in ('load',): return C(n['v'])
        if o == 'zero': return C(0)
        if o == 'load':
            if 'v' in n: return C(n['v'])
            p = path(f, n['a'][0])
            if p is not None and p in env: return env[p]
            return None
        if o in ('var', 'mem', 'idx', 'gvar'):
            p = path(f, i)
            if p is not None and p in env: return env[p]
            return None
        if o == 'cast':
            v = self.val(n['a'][0], env)
            if v is None: return None
            if n['ck'] in ('IntegralToBoolean', 'PointerToBoolean', 'FloatingToBoolean', 'MemberPointerToBoolean'):
                if v[0] == 'c': return C(1 if v[1] else 0)
                if v == NZ: return C(1)
                return None
            return v
        if o == 'un':
            v = self.val(n['a'][0], env)
            if n['op'] == '!':
                if v is None: return None
                if v[0] == 'c': return C(0 if v[1] else 1)
                if v == NZ: return C(0)
                return None
            if n['op'] == '-' and v and v[0] == 'c': return C(-v[1])
            if n['op'] == '&': return NZ
            return None
        if o == 'bin':
            a, b = self.val(n['a'][0], env), self.val(n['a'][1], env)
            return self.binop(n['op'], a, b)
        if o == 'asn':
            if n['op'] == '=':
                return self.val(n['a'][1], env)
            return None
        if o == 'cond':
            c = self.val(n['a'][0], env)
            t = truth(c)
            if t is True: return self.val(n['a'][1], env)
            if t is False: return self.val(n['a'][2], env)
            a, b = self.val(n['a'][1], env), self.val(n['a'][2], env)
            return a if a == b else None
        if o == 'new': return NZ
        if o == 'ctor':
            if is_smart(n['t']):
                a = [x for x in n['a']]
                if not a: return C(0)
                return self.val(a[0], env)
            return None
        if o == 'call':
            q = n.get('q') or ''
            last = q.split('::')[-1]
            if 'obj' in n and is_smart(f.nodes[n['obj']]['t']):
                if last in ('get', 'operator->', 'operator bool', 'operator!') or last.startswith('operator '):
                    v = self.objval(n['obj'], env)
                    if last == 'operator!':
                        t = truth(v); return None if t is None else C(0 if t else 1)
                    if last == 'get' or last == 'operator->': return v
                    t = truth(v); return None if t is None else C(1 if t else 0)
                if last == 'operator=':
                    return self.val(n['a'][0], env)
            if n.get('op') in ('==', '!=') and 'obj' not in n and len(n['a']) == 2 and \
                    (is_smart(f.nodes[n['a'][0]]['t']) or is_smart(f.nodes[n['a'][1]]['t'])):
                return self.binop(n['op'], self.val(n['a'][0], env), self.val(n['a'][1], env))
            if n.get('f'):
                g = None
                if 'obj' in n and (not n.get('virt') or len(self.db.targets(n)) == 1):
                    g = getter(self.db, n['f'])
                if g:
                    p = path(f, i)
                    if p is not None and p in env: return env[p]
                    return None
            if last.endswith('pointer_cast') or last == 'field_dynamic_cast':
                v = self.val(n['a'][0], env) if n.get('a') else None
                return v if v == C(0) else None
            return None
        return None

    def objval(self, i, env):
        p = path(self.f, i)
        if p is not None and p in env: return env[p]
        return self.val(i, env)

    def binop(self, op, a, b):
        if a and b and a[0] == 'c' and b[0] == 'c':
            x, y = a[1], b[1]
            try:
                r = {'+': lambda: x + y, '-': lambda: x - y, '*': lambda: x * y, '/': lambda: int(x / y) if y else None,
                     '%': lambda: x % y if y and x >= 0 and y > 0 else None, '<': lambda: int(x < y), '>': lambda: int(x > y), '<=': lambda: int(x <= y),
                     '>=': lambda: int(x >= y), '==': lambda: int(x == y), '!=': lambda: int(x != y),
                     '&&': lambda: int(bool(x) and bool(y)), '||': lambda: int(bool(x) or bool(y)),
                     '&': lambda: x & y, '|': lambda: x | y, '^': lambda: x ^ y, '<<': lambda: x << y if 0 <= y < 64 else None, '>>': lambda: x >> y if 0 <= y < 64 else None,
                     ',': lambda: y}.get(op, lambda: None)()
            except OverflowError:
                r = None
            return None if r is None else C(r)
        if op == '&&':
            if truth(a) is False or truth(b) is False: return C(0)
        if op == '||':
            if truth(a) is True or truth(b) is True: return C(1)
        if op in ('==', '!='):
            if (a == NZ and b == C(0)) or (b == NZ and a == C(0)): return C(0 if op == '==' else 1)
        if op in ('&', '*') and (a == C(0) or b == C(0)): return C(0)
        if op == ',': return b
        return None

    # --- state updates
    def kill(self, env, p, deep=True):
        for k in [k for k in env if k == p or (k.startswith(p) and len(k) > len(p) and k[len(p)] in '.*[')]:
            del env[k]

    def assign(self, env, p, v):
        self.kill(env, p)
        if v is not None and not p.endswith(']'): env[p] = v
        # weak: indexed element invalidates other indices
        if '[' in p:
            b = p[:p.index('[') + 1]
            for k in [k for k in env if k.startswith(b) and k != p]: del env[k]

    def effects(self, i, env):
        """Apply side effects of element node i."""
        f = self.f; n = f.nodes[i]; o = n['o']
        if o == 'asn':
            p = path(f, n['a'][0])
            if n['op'] == '=':
                v = self.val(n['a'][1], env)
            else:
                v = self.binop(n['op'][:-1], self.val(n['a'][0], env) if p is None else env.get(p), self.val(n['a'][1], env))
            if p is not None: self.assign(env, p, v)
            return
        if o == 'un' and n['op'] in ('++', '--'):
            p = path(f, n['a'][0])
            if p is not None:
                v = env.get(p)
                self.assign(env, p, C(v[1] + (1 if n['op'] == '++' else -1)) if v and v[0] == 'c' else None)
            return
        if o == 'call':
            q = n.get('q') or ''; last = q.split('::')[-1]
            d = self.db.decl.get(n.get('f') or '', {})
            if 'obj' in n and is_smart(f.nodes[n['obj']]['t']) and last in ('operator=', 'reset'):
                p = path(f, n['obj'])
                if p is not None:
                    v = self.val(n['a'][0], env) if n['a'] else C(0)
                    self.assign(env, p, v)
                return
            if n.get('op') == '=' and 'obj' in n:
                p = path(f, n['obj'])
                if p is not None:
                    self.assign(env, p, self.val(n['a'][0], env))
                return
            if 'obj' in n and is_smart(f.nodes[n['obj']]['t']) and last == 'swap':
                p = path(f, n['obj']); 
                if p: self.kill(env, p)
            # arguments by non-const reference / pointer
            pts = d.get('pt', [])
            for j, a in enumerate(n.get('a', ())):
                pt = pts[j] if j < len(pts) else ''
                if (pt.endswith('&') and not pt.startswith('const ')) or pt.endswith('*'):
                    p = path(f, a)
                    if p is not None:
                        if p.startswith('&'): self.kill(env, p[1:])
                        elif pt.endswith('*'): self.kill(env, p + '*')
                        else: self.kill(env, p)
            if 'obj' in n and not d.get('const') and not d.get('static'):
                p = path(f, n['obj'])
                if p is not None and not (is_smart(f.nodes[n['obj']]['t']) and last in ('operator->', 'operator*', 'get')):
                    ot = f.nodes[n['obj']]['t']
                    if p == 'this':
                        self.kill(env, 'this')
                    elif n.get('arrow') or f.nodes[n['obj']]['o'] == 'load' or last == 'operator->':
                        for k in [k for k in env if k.startswith(p + '*')]: del env[k]
                    elif not is_smart(ot):
                        self.kill(env, p)
            return

    def refine(self, env, i, taken):
        """Refine env knowing that condition i is `taken`."""
        f = self.f
        if i is None or i < 0: return
        n = f.nodes[i]; o = n['o']
        env['n%d' % i] = C(1 if taken else 0) if n['t'] == 'bool' else (NZ if taken else C(0))
        if o == 'un' and n['op'] == '!':
            return self.refine(env, n['a'][0], not taken)
        if o == 'cast':
            return self.refine_nz(env, n['a'][0], taken)
        if o == 'load':
            return self.refine_nz(env, i, taken)
        if o == 'bin':
            op = n['op']
            if op == '&&' and taken or op == '||' and not taken:
                self.refine(env, n['a'][0], taken); self.refine(env, n['a'][1], taken); return
            a, b = n['a']
            for x, y in ((a, b), (b, a)):
                vy = self.val(y, env)
                if op in ('==', '!=') and vy and vy[0] == 'c':
                    eq = (op == '==') == taken
                    self.setval(env, x, vy if eq else (NZ if vy[1] == 0 else None), not eq)
            return
        if o == 'call':
            q = n.get('q') or ''; last = q.split('::')[-1]
            if 'obj' in n and is_smart(f.nodes[n['obj']]['t']):
                if last == 'operator!': return self.refine_nz(env, n['obj'], not taken)
                if last.startswith('operator bool') or last.startswith('operator '): return self.refine_nz(env, n['obj'], taken)
            if n.get('op') in ('==', '!=') and 'obj' not in n and len(n['a']) == 2:
                a, b = n['a']
                for x, y in ((a, b), (b, a)):
                    vy = self.val(y, env)
                    if vy == C(0) and is_smart(f.nodes[x]['t']):
                        self.refine_nz(env, x, (n['op'] == '!=') == taken)
            if last == 'get' or getter(self.db, n.get('f') or ''):
                return self.refine_nz(env, i, taken)

    def refine_nz(self, env, i, nz):
        f = self.f; n = f.nodes[i]
        if n['o'] == 'un' and n['op'] == '!': return self.refine(env, i, nz)
        if n['o'] in ('bin', 'call') and n['t'] == 'bool': self.refine(env, i, nz)
        if n['o'] == 'cast': return self.refine_nz(env, n['a'][0], nz)
        self.setval(env, i, NZ if nz else C(0), nz)

    def setval(self, env, i, v, weak=False):
        f = self.f
        n = f.nodes[i]
        if v is None: return
        isb = n['t'] == 'bool'
        if v == NZ and isb: v = C(1)
        while n['o'] == 'cast':
            i = n['a'][0]; n = f.nodes[i]
        if n['o'] == 'load' or n['o'] in ('var', 'mem') or (n['o'] == 'call' and path(f, i)) or (n['o'] == 'ctor' and is_smart(n['t'])):
            p = path(f, i)
            if p is not None:
                cur = env.get(p)
                if cur is None or not (weak and cur[0] == 'c'): env[p] = v
        env['n%d' % i] = v

    # --- run
    def run(self, start=None, env0=None, assume=None):
        """start: None (entry) or (block, elem index). assume: {node id: value} that
        holds for the first evaluation only when start is given."""
        f = self.f
        self.instate = {}
        work = []
        def push(b, env):
            if b is None or b < 0: return
            if b == f.exit:
                self.exits.append(('fall', None, f.line, env)); return
            key = (b,) + tuple(env.get(k) for k in self.split) if self.split else b
            cur = self.instate.get(key)
            if cur is None:
                self.instate[key] = dict(env); work.append(key)
            else:
                new = {k: v for k, v in cur.items() if env.get(k) == v}
                if len(new) != len(cur):
                    self.instate[key] = new; work.append(key)
        if start is None:
            push(f.entry, dict(env0 or {}))
        else:
            self.block(start[0], start[1], dict(env0 or {}), push, assume)
        it = 0
        while work:
            b = work.pop(); it += 1
            if it > 20000: raise AnalysisBroken('constant propagation does not converge in ' + f.name)
            self.block(b[0] if self.split else b, 0, dict(self.instate[b]), push, None)
        return self

    def block(self, bid, i0, env, push, assume):
        f = self.f; b = f.blocks[bid]
        push0 = push; edges = self.__dict__.setdefault('edges', set())
        def push(s, env): edges.add((bid, s)); push0(s, env)
        self.entered = self.__dict__.setdefault('entered', set()); self.entered.add(bid)
        for i in range(i0, len(b['el'])):
            e = b['el'][i]
            if isinstance(e, int):
                n = f.nodes[e]
                self.reached.add(e)
                if self.on_elem and self.on_elem(bid, i, e, env) == 'stop': return
                if n['o'] == 'throw':
                    t = n.get('tt')
                    hs, esc = handlers_for(f, n.get('y', -1), t) if t else self._rethrow(bid, n)
                    for h in hs: push(h, dict(env))
                    if esc: self.exits.append(('throw', None, n.get('l'), env))
                    return
                if n['o'] in ('call', 'ctor', 'new'):
                    if n.get('q') in NORETURN: return
                    # (functions of the HDF5 library do not throw)
                    if 'y' in n and not self.single_fault and not (n.get('q') or '').startswith('H5'):
                        hs, esc = handlers_for(f, n['y'], None)
                        for h in hs: push(h, dict(env))
                if n['o'] in ('bin', 'un', 'asn', 'load', 'cast', 'call', 'ctor', 'cond', 'new'):
                    env.pop('n%d' % e, None)
                    if assume and e in assume:
                        v = assume[e]
                    else:
                        v = self.ev(e, env)
                    if v == THROW:
                        hs, esc = handlers_for(f, n.get('y', -1), None)
                        for h in hs: push(h, dict(env))
                        if esc: self.exits.append(('throw', None, n.get('l'), env))
                        return
                    self.effects(e, env)
                    if v is not None: env['n%d' % e] = v
            else:
                k = e['e']
                if self.on_decl and k == 'decl': self.on_decl(bid, i, e, env)
                if k == 'decl':
                    self.kill(env, 'v%d' % e['d'])
                    v = self.f.vars[e['d']]
                    if e['n'] >= 0:
                        x = self.val(e['n'], env)
                        if x is not None and not v.get('ref'): env['v%d' % e['d']] = x
                        if self.after_decl: self.after_decl(self, e, env)
                elif k == 'ret':
                    if self.on_ret: self.on_ret(bid, i, e, env)
                    v = self.val(e['n'], env) if e['n'] >= 0 else None
                    self.exits.append(('ret', v, e['l'], env)); return
                elif k == 'init' and 'm' in e:
                    x = self.val(e['n'], env)
                    self.assign(env, 'this.' + e['m'].split('::')[-1], x)
        tm = b.get('tm'); su = b['su']
        if tm and tm.get('k') == 'CXXTryStmt': return
        if tm and 'c' in tm and len(su) == 2 and tm['k'] != 'SwitchStmt' and not tm.get('tdb'):
            c = self.val(tm['c'], env)
            t = truth(c)
            for taken, s in ((True, su[0]), (False, su[1])):
                if t is not None and t != taken: continue
                e2 = dict(env)
                self.refine(e2, tm['c'], taken)
                if tm.get('op') in ('&&', '||') and 'n' in tm:
                    if tm['op'] == '&&' and not taken: e2['n%d' % tm['n']] = C(0)
                    if tm['op'] == '||' and taken: e2['n%d' % tm['n']] = C(1)
                push(s, e2)
        elif tm and tm['k'] == 'SwitchStmt':
            c = self.val(tm.get('c', -1), env)
            succ = [s for s in su if s >= 0]
            if c and c[0] == 'c':
                hit = [s for s in succ if (f.blocks[s].get('lb') or {}).get('v') == c[1] and f.blocks[s]['lb']['k'] == 'case']
                # several case labels share one block chain; fall back to all non-matching labels excluded
                if not hit: hit = [s for s in succ if (f.blocks[s].get('lb') or {}).get('k') != 'case']
                succ = hit
            for s in succ:
                e2 = dict(env)
                lb = f.blocks[s].get('lb') or {}
                if lb.get('k') == 'case' and 'v' in lb and 'c' in tm: self.setval(e2, tm['c'], C(lb['v']))
                push(s, e2)
        else:
            for s in su: push(s, dict(env))

    def _rethrow(self, bid, n):
        hs, esc = handlers_for(self.f, n.get('y', -1), None)
        return hs, True

def truth(v):
    if v is None: return None
    if v == NZ: return True
    if v[0] == 'c': return bool(v[1])
    return None

# ---------------------------------------------------------------- assumptions through helpers
class Assume:
    """A hook that gives interesting nodes assumed values, and library helpers that
    contain such nodes the one value they return under the assumption.
    node(f, i, n) -> assumed value or None."""
    def __init__(self, db, node, depth=3, scope='Field3D::'):
        self.db, self.node, self.depth, self.scope = db, node, depth, scope
        self.memo = {}; self.rel = {}
    def relevant(self, k, d=0):
        r = self.rel.get(k)
        if r is not None: return r
        f = self.db.fn(k)
        self.rel[k] = False
        if f is None or d > self.depth: return False
        r = False
        for i, n in enumerate(f.nodes):
            if self.node(f, i, n) is not None: r = True; break
            if n['o'] == 'call' and n.get('f') and n['f'] != k and (n.get('q') or '').startswith(self.scope) and self.relevant(n['f'], d + 1): r = True; break
        self.rel[k] = r
        return r
    def __call__(self, ip, i, n, env):
        v = self.node(ip.f, i, n)
        if v is not None: return v
        if n['o'] == 'call' and n.get('f') and (n.get('q') or '').startswith(self.scope):
            k = n['f']
            if k in self.memo: return self.memo[k]
            self.memo[k] = None
            if self.relevant(k):
                r = {v for kd, v, l, en in Const(self.db.fn(k), hook=self).run().exits if kd != 'throw'}
                if len(r) == 1: self.memo[k] = next(iter(r))
            return self.memo[k]
        return None
    def run(self, f, **kw): return Const(f, hook=self).run(**kw)
