"""Parallel block writing and loading always finishes."""
import re
from ..core import *
from ..locks import held
from ..inline import inline
from .iofail import functors
from .C15 import natloops
from .C29 import Escape, leaves
ASSUME = ['threads are scheduled fairly', 'a single block operation returns (compression, reading and appending of one block are calls that finish)',
          'the lists of allocated blocks do not change while the threads run']

INT = re.compile(r'^(const )?(unsigned |signed )?(int|long|short|char|long long|size_t)\b')

def shared(p): return p is not None and not re.match(r'^v\d+$', p) and not p.startswith('g:')

class Text:
    """expression text in terms of member names; the counter is '@'"""
    def __init__(self, f, cnt, xs=()):
        self.f, self.cnt, self.xs = f, cnt, xs
    def of(self, i, d=0):
        f = self.f
        i = strip(f, i)
        if i is None or i < 0 or d > 20: return '?'
        n = f.nodes[i]
        p = path(f, i)
        if p is not None and p == self.cnt: return '@'
        if 'v' in n: return str(n['v'])
        if n['o'] == 'var':
            if n['d'] in self.xs: return '@'
            ini = local_init(f).get(n['d'])
            if ini is None: ini = refinit(f).get(n['d'])
            if ini is not None and ini >= 0 and d < 10: return self.of(ini, d + 1)
            return f.vars[n['d']].get('n', '?')
        if n['o'] == 'mem':
            b = self.of(n['a'][0], d + 1) if f.nodes[strip(f, n['a'][0])]['o'] in ('idx', 'call', 'un', 'bin') else ''
            return b + '.' + n['n'] if '[' in b else n['n']
        if n['o'] == 'idx': return '%s[%s]' % (self.of(n['a'][0], d + 1), self.of(n['a'][1], d + 1))
        if n['o'] == 'bin': return '(%s%s%s)' % (self.of(n['a'][0], d + 1), n['op'], self.of(n['a'][1], d + 1))
        if n['o'] == 'un' and n['op'] in ('*', '&'): return self.of(n['a'][0], d + 1)
        if n['o'] == 'un': return n['op'] + self.of(n['a'][0], d + 1)
        if n['o'] == 'call':
            last = (n.get('q') or '').split('::')[-1]
            if last in ('operator[]', 'at') and 'obj' in n: return '%s[%s]' % (self.of(n['obj'], d + 1), self.of(n['a'][0], d + 1))
            return '%s(%s)' % (last, ','.join(([self.of(n['obj'], d + 1)] if 'obj' in n else []) + [self.of(a, d + 1) for a in n.get('a', ())]))
        return '?'

def atom(f, c, t):
    """normalised (text, truth) of a branch condition"""
    pos = True
    c = strip(f, c)
    while f.nodes[c]['o'] == 'un' and f.nodes[c]['op'] == '!':
        pos = not pos; c = strip(f, f.nodes[c]['a'][0])
    n = f.nodes[c]
    if n['o'] == 'bin' and n['op'] in ('<', '>', '<=', '>=', '==', '!='):
        a, b, op = t.of(n['a'][0]), t.of(n['a'][1]), n['op']
        if b == '@' or ('@' in b and '@' not in a): a, b = b, a; op = {'<': '>', '>': '<', '<=': '>=', '>=': '<='}.get(op, op)
        if op == '>=': op = '<'; pos = not pos
        elif op == '>': op = '<='; pos = not pos
        elif op == '!=': op = '=='; pos = not pos
        if op == '==' and b == '0' : return a, not pos
        if op == '==' and b == '1' and '[' in a: return a, pos
        return a + op + b, pos
    return t.of(c), pos

class Worker:
    def __init__(self, db, k):
        self.db = db; self.k = k
        base = db.fn(k)
        fl = base.file
        self.f = f = inline(db, k, lambda g, n, t: db.fn(t).file == fl and not db.decl[t].get('ctor'), depth=4)
        self.ip = Const(f); self.ip.run()
        self.inc = {}        # counter path -> {(block, index, node)}
        self.flags = set()
        for b, i, e in f.elems():
            if not isinstance(e, int): continue
            n = f.nodes[e]
            if n['o'] == 'un' and n['op'] == '++' or n['o'] == 'asn' and n['op'] == '+=' : self.cnt(b, i, e, n['a'][0])
            elif n['o'] == 'asn' and n['op'] == '=':
                p = path(f, n['a'][0])
                if not shared(p): continue
                r = strip(f, n['a'][1]); m = f.nodes[r]
                if m['o'] == 'bin' and m['op'] == '+' and any(path(f, strip(f, x)) == p for x in m['a']): self.cnt(b, i, e, n['a'][0])
                if m.get('v') in (1, True) and 'bool' in f.nodes[n['a'][0]]['t']: self.flags.add(p)
        # variables that carry a counter's value
        self.turn = set(); self.claim = {}
        self.cars = {}
        for c in self.inc: self.cars[c] = self.carriers(c)
        for b, i, e in f.elems():
            if not isinstance(e, int): continue
            n = f.nodes[e]
            if n['o'] == 'bin' and n['op'] in ('==', '!='):
                s = [path(f, strip(f, a)) for a in n['a']]
                for x, y in ((s[0], s[1]), (s[1], s[0])):
                    if x in self.inc and y is not None and any(self.isvar(y, self.cars[c]) for c in self.inc if c != x): self.turn.add(x)
        self.claims = {c for c in self.inc if self.cars[c][0] and c not in self.turn}
        self.X = set().union(*[self.cars[c][0] for c in self.claims]) if self.claims else set()
    def isvar(self, p, cars): return p.startswith('v') and p[1:].isdigit() and int(p[1:]) in cars[0]
    def cnt(self, b, i, e, a):
        p = path(self.f, a)
        if shared(p) and INT.match(self.f.nodes[a]['t']): self.inc.setdefault(p, set()).add((b, i, e))
    def reads(self, i, c, xs, d=0):
        """does the value of expression i come from counter c or a variable of xs, unchanged?"""
        f = self.f
        i = strip(f, i)
        if i is None or i < 0 or d > 10: return None
        n = f.nodes[i]
        if n['o'] == 'un' and n['op'] == '++' and path(f, n['a'][0]) == c: return 'counter'
        p = path(f, i)
        if p == c: return 'counter'
        if n['o'] == 'var' and n['d'] in xs: return 'var'
        return None
    def carriers(self, c):
        f = self.f; xs = set(); ev = {}
        while True:
            k = len(xs)
            for b, i, e in f.elems():
                if isinstance(e, dict):
                    if e['e'] != 'decl' or e.get('n', -1) is None or e.get('n', -1) < 0 or (f.vars[e['d']].get('ref') and path(f, e['n']) == c): continue
                    d, r = e['d'], e['n']
                else:
                    n = f.nodes[e]
                    if n['o'] != 'asn' or n['op'] != '=': continue
                    l = f.nodes[strip(f, n['a'][0])]
                    if l['o'] != 'var': continue
                    p = path(f, n['a'][0])
                    if not re.match(r'^v\d+$', p or ''): continue
                    d, r = int(p[1:]), n['a'][1]
                w = self.reads(r, c, xs)
                if w: xs.add(d)
                if w == 'counter': ev[(b, i)] = d
            if len(xs) == k: return xs, ev
    # ---- the walk
    def cond(self, b):
        tm = self.f.blocks[b].get('tm')
        if not tm or 'c' not in tm or len(self.f.blocks[b]['su']) != 2 or tm['k'] == 'SwitchStmt': return None
        c = tm['c']
        # the block that decides 'a && b' last only evaluates b
        while True:
            n = self.f.nodes[strip(self.f, c)]
            if n['o'] == 'bin' and n['op'] in ('&&', '||'): c = n['a'][1]
            else: return c
    def run(self, esc):
        f = self.f; self.bad = {}; self.seen = {}
        ev = {}
        for c in self.claims: ev.update(self.cars[c][1])
        incT = {(b, i) for t in self.turn for b, i, e in self.inc[t]}
        waits = any((n.get('q') or '').split('::')[-1] in ('wait', 'timed_wait', 'wait_for') and 'condition' in (n.get('q') or '') for e, n in f.calls())
        def sink(rule, where, msg):
            self.bad.setdefault((rule, where), msg)
        # state: owe, won, silent, checks
        st0 = (0, 0, 0, frozenset())
        ins = {f.entry: {st0}}; work = [f.entry]
        def push(s, states):
            if s is None or s < 0 or s == f.exit: return
            cur = ins.setdefault(s, set())
            if states - cur: cur |= states; work.append(s)
        def leaving(states, l):
            for owe, won, sil, ch in states:
                if owe and self.turn: sink('turn', l, 'can finish while its block is still due: it neither passes the turn on nor makes the write fail')
                if sil and waits: sink('wake', l, 'can finish without waking the waiting threads')
        sets = {path(f, f.nodes[e]['a'][0]) for e in ()}
        while work:
            b = work.pop()
            S = set(ins[b]); blk = f.blocks[b]; dead = False
            for i, e in enumerate(blk['el']):
                if isinstance(e, int) and e not in self.ip.reached: dead = True; break
                if (b, i) in ev:
                    for owe, won, sil, ch in S:
                        if owe and self.turn: sink('turn', f.loc(e), 'takes the next block while the previous one is still due')
                    S = {(1, 0, sil, frozenset()) for owe, won, sil, ch in S}
                if isinstance(e, dict):
                    if e['e'] == 'ret':
                        leaving(S, '%s:%s' % (f.file, e['l'])); dead = True; break
                    continue
                n = f.nodes[e]
                if n['o'] == 'asn':
                    p = path(f, n['a'][0])
                    if p in self.flags and f.nodes[strip(f, n['a'][1])].get('v') in (1, True):
                        S = {(0, 0, 1, ch) for owe, won, sil, ch in S}
                if (b, i) in incT:
                    for owe, won, sil, ch in S:
                        if not won: sink('order', f.loc(e), 'passes the turn on without having waited for it')
                    S = {(0, 2, 1, ch) if won else (owe, won, sil, ch) for owe, won, sil, ch in S}
                if n['o'] in ('call', 'ctor', 'throw'):
                    last = (n.get('q') or '').split('::')[-1]
                    if last == 'notify_all': S = {(o, w, 0, ch) for o, w, s, ch in S}
                    if last in ('wait', 'timed_wait') and 'condition' in (n.get('q') or ''):
                        if any(s[2] for s in S): sink('wake', f.loc(e), 'waits without having woken the threads that wait for it')
                    if self.turn and self.append(n):
                        for owe, won, sil, ch in S:
                            if won != 1: sink('order', f.loc(e), 'appends its block without having waited for its turn')
                    if n.get('y', -1) is not None and n.get('y', -1) >= 0:
                        hs, may = handlers_for(f, n['y'], n.get('tt') if n['o'] == 'throw' else None)
                        for h in hs: push(h, S)
                    src, y = esc.sources(self.f, e, ())
                    for t, o in sorted(src.items()):
                        if leaves(f, y, t):
                            sink('escape', f.loc(e), '%s raised at %s leaves the thread\'s function, which ends the program or leaves the other threads waiting' % (t, o))
                    if n['o'] == 'throw': dead = True; break
            if dead: continue
            c = self.cond(b)
            for j, s in enumerate(blk['su']):
                if (b, s) not in self.ip.edges: continue
                out = set()
                for x in S:
                    y = self.branch(b, c, j == 0, x, sink) if c is not None else x
                    if y is not None: out.add(y)
                if s == f.exit: leaving(out, '%s:%s' % (f.file, f.line))
                push(s, out)
        self.seen = ins
    def append(self, n):
        if n['o'] != 'call' or 'obj' not in n: return False
        d = self.db.decl.get(n.get('f'), {})
        p = path(self.f, n['obj'])
        return shared(p) and not d.get('const') and n.get('f') in self.db.raw and 'Og' in (d.get('cls') or '')
    def branch(self, b, c, taken, st, sink):
        owe, won, sil, ch = st
        f = self.f
        t = Text(f, None, self.X)
        i = strip(f, c); pos = taken
        while f.nodes[i]['o'] == 'un' and f.nodes[i]['op'] == '!': pos = not pos; i = strip(f, f.nodes[i]['a'][0])
        n = f.nodes[i]
        p = path(f, i)
        if p in self.flags:
            return (0, 0, sil, ch) if pos else st
        if n['o'] == 'bin' and n['op'] in ('==', '!='):
            s = [path(f, strip(f, a)) for a in n['a']]
            for x, y in ((s[0], s[1]), (s[1], s[0])):
                if x in self.turn and y and re.match(r'^v\d+$', y) and int(y[1:]) in self.X:
                    self.tests.add(b)
                    return (owe, 1, sil, ch) if pos == (n['op'] == '==') else st
        if any(path(f, strip(f, a)) in self.inc for a in n.get('a', ())): return st
        tx, tp = atom(f, i, t)
        if '@' not in tx: return st
        if re.match(r'^@(<|<=|==)', tx):
            inr = (tp == pos) if not tx.startswith('@==') else (tp != pos)
            if not inr: return (0, won, sil, ch)
            if b in ch: sink('progress', f.loc(c), 'can go round again with the same block')
            return (owe, won, sil, ch | {b})
        if (tx, tp == pos) in self.members: return (0, won, sil, ch)       # a block the counters step over
        return st
    tests = None
    # ---- waiting loops
    def spins(self):
        """(block, what) for waiting cycles that don't look at the failure flag or keep the lock"""
        f = self.f; out = []
        h = held(f)
        ev = {b for c in self.claims for (b, i) in self.cars[c][1]}
        incb = {b for c in self.turn for b, i, e in self.inc[c]}
        for tb in sorted(self.tests):
            def cyc(drop):
                seen = set(); w = [s for s in f.blocks[tb]['su'] if s in f.blocks and (tb, s) in self.ip.edges]
                while w:
                    x = w.pop()
                    if x == tb: return True
                    if x in seen or x in drop or x in ev or x in incb or x == f.exit: continue
                    seen.add(x); w += [s for s in f.blocks[x]['su'] if s in f.blocks and (x, s) in self.ip.edges]
                return False
            if not cyc(set()): continue
            fb = set()
            for b in f.blocks:
                c = self.cond(b)
                if c is None: continue
                i = strip(f, c)
                while f.nodes[i]['o'] == 'un' and f.nodes[i]['op'] == '!': i = strip(f, f.nodes[i]['a'][0])
                if path(f, i) in self.flags: fb.add(b)
            if cyc(fb - {tb}) : out.append((tb, 'deaf', 'waits for its turn without looking at the failure flag'))
            free = set()
            for b in f.blocks:
                for i in range(len(f.blocks[b]['el']) + 1):
                    if i < len(f.blocks[b]['el']):
                        if not h.before(b, i): free.add(b)
                        e = f.blocks[b]['el'][i]
                        if isinstance(e, int) and f.nodes[e]['o'] == 'call' and 'condition' in (f.nodes[e].get('q') or '') and 'wait' in f.nodes[e]['q']: free.add(b)
            if tb not in free and cyc(free): out.append((tb, 'hog', 'keeps the lock while it waits for its turn'))
            else: out.append((tb, '', ''))
        return out
    # ---- stepping
    def steps(self):
        """{counter: [(location, signature)]} of the loops that move a counter on"""
        f = self.f; out = {}
        loops = natloops(f)
        ev = {b for c in self.claims for (b, i) in self.cars[c][1]}
        for c in sorted(self.turn | self.claims):
            t = Text(f, c)
            lp = {}
            for b, i, e in self.inc[c]:
                cand = [(len(body), hd, body) for hd, body in loops.items() if b in body and not (ev & body) and not (self.tests & body)]
                if cand:
                    _, hd, body = min(cand); lp.setdefault(hd, (body, f.loc(e)))
            for hd, (body, loc) in lp.items():
                sig = set()
                for b in body:
                    cd = self.cond(b)
                    if cd is None: continue
                    stay = [s in body for s in f.blocks[b]['su']]
                    if stay[0] == stay[1]: continue
                    tx, tp = atom(f, cd, t)
                    sig.add((tx, tp == stay[0]))
                out.setdefault(c, []).append((loc, frozenset(sig), hd, body))
            # increments outside of such a loop are followed by one
            for b, i, e in self.inc[c]:
                if any(b in body for _, (body, _) in lp.items()): continue
                seen = set(); w = [b]; first = True
                while w:
                    x = w.pop()
                    if x in lp: continue
                    if x in seen: continue
                    seen.add(x)
                    nx = [s for s in f.blocks[x]['su'] if s in f.blocks and (x, s) in self.ip.edges]
                    if f.exit in nx or any(s in ev or s in self.tests for s in nx if s != b):
                        out.setdefault(c, []).append((f.loc(e), frozenset(), None, set())); break
                    w += nx
        return out

def start(db, cls, T, C_):
    """the first values of both counters agree: [(constructor, ok)]"""
    out = []
    for k in db.raw:
        d = db.decl[k]
        if d.get('cls') != cls or not d.get('ctor') or d.get('copy'): continue
        f = inline(db, k, lambda g, n, t: db.fn(t).file == db.fn(k).file, depth=3)
        got = {T: set(), C_: set()}
        t = Text(f, None)
        for b, i, e in f.elems():
            if isinstance(e, dict) and e['e'] == 'init' and 'm' in e:
                m = e['m'].split('::')[-1]
                if m in got: got[m].add((b, t.of(e['n'])))
            elif isinstance(e, int) and f.nodes[e]['o'] == 'asn':
                p = path(f, f.nodes[e]['a'][0]) or ''
                m = p.split('.')[-1]
                if m in got:
                    r = f.nodes[e]['a'][1]
                    x = t.of(r)
                    if x in (T, C_): got[m] = set(got[C_ if m == T else T]) if path(f, strip(f, r)).split('.')[-1] in got else {(b, x)}; continue
                    got[m].add((b, x))
        out.append((f, got[T] == got[C_] and got[T]))
    return out

def run(ctx):
    db = ctx.db
    ctx.rule('turn', 'a thread that has taken a block ends, or takes the next one, only after it has passed the turn on or seen or made the whole operation fail', 1)
    ctx.rule('order', 'a thread appends, and passes the turn on, only after waiting for its turn', 1)
    ctx.rule('wait', 'a thread that waits for its turn looks at the failure flag every time round and does not keep the lock', 1)
    ctx.rule('wake', 'where threads sleep until they are woken, every change they wait for wakes them all', 1)
    ctx.rule('progress', 'a thread does not go round again with a block it has handled', 2)
    ctx.rule('escape', 'no exception leaves a thread\'s function', 2)
    ctx.rule('step', 'the counters of blocks taken and of blocks due step over the same blocks, and start at the same one', 2)
    ctx.rule('join', 'whoever starts the threads waits for all of them', 2)
    esc = Escape(db)
    fs = functors(db)
    roots = dict(fs)
    esc.solve(sorted(roots))
    for k in sorted(roots):
        d = db.decl[k]
        W = Worker(db, k); W.tests = set()
        f = W.f; key = re.sub(r'^Field3D::(\(anon\)::)?', '', db.fn(k).name)
        if not W.claims: continue
        W.members = set()
        if W.turn:
            W.run(esc)          # finds the tests of the turn
            W.members = {a for L in W.steps().values() for loc, sig, hd, body in L for a in sig}
        W.run(esc)
        def ob(rule, extra=''):
            hits = [(w, m) for (r, w), m in sorted(W.bad.items()) if r == rule]
            ctx.ob(rule, key, not hits, hits[0][0] if hits else f.loc(), hits[0][1] if hits else '', f)
        ob('progress'); ob('escape')
        if W.turn:
            ob('turn'); ob('order'); ob('wake')
            sp = W.spins()
            bad = [x for x in sp if x[1]]
            ctx.ob('wait', key, bool(sp) and not bad, f.loc(W.cond(bad[0][0])) if bad else f.loc(),
                   bad[0][2] if bad else ('no loop waits for the turn' if not sp else ''), f)
            st = W.steps()
            allsig = {}
            for c, L in st.items():
                for loc, sig, hd, body in L: allsig.setdefault(sig, []).append((loc, c))
            for c in W.turn | W.claims:
                if c not in st: allsig.setdefault(frozenset(), []).append((f.loc(), c))
            if len(allsig) > 1:
                few = min(allsig.items(), key=lambda x: (len(x[1]), str(x[0])))
                ctx.ob('step', key, False, few[1][0][0], '%s is moved on by another rule here than elsewhere, so a thread can wait for a turn that never comes' % few[1][0][1].split('.')[-1], f)
            else: ctx.ob('step', key, True, f.loc(), '', f)
            for T in sorted(W.turn):
                for C_ in sorted(W.claims):
                    b, i, e = sorted(W.inc[T])[0]
                    tn = f.nodes[strip(f, f.nodes[e]['a'][0])]
                    m = tn.get('m', '')
                    for g, ok in start(db, owner(db, tn, f), T.split('.')[-1], C_.split('.')[-1]):
                        ctx.ob('step', 'start %s' % key, bool(ok), g.loc(), '' if ok else 'the first block due and the first block taken can differ', g)
    for k in sorted({s for b in roots for s in roots[b]}):
        f = db.fn(k)
        ip = Const(f); bad = []
        def on(bid, j, e, env):
            n = f.nodes[e]; q = n.get('q') or ''
            if n['o'] == 'call' and q.endswith('create_thread'): env['$t'] = C(1)
            if n['o'] == 'call' and q.endswith('join_all'): env['$t'] = C(0)
        # may-analysis: a path on which a thread was started and not waited for
        starts = [(b, j, e) for b, j, e in f.elems() if isinstance(e, int) and f.nodes[e]['o'] == 'call' and (f.nodes[e].get('q') or '').endswith('create_thread')]
        for b, j, e in starts:
            ip = Const(f); ip.on_elem = on
            ip.single_fault = True
            ip.run((b, j + 1), {'$t': C(1)}, None)
            bad += [l for kd, v, l, env in ip.exits if kd != 'throw' and env.get('$t') != C(0)]
        ctx.ob('join', re.sub(r'^Field3D::(\(anon\)::)?', '', f.name), not bad, f.loc(), 'can return while the threads it started still run' if bad else '', f)

def owner(db, n, f):
    """record that holds the member node n refers to, as instantiated"""
    base = f.nodes[strip(f, n['a'][0])]
    t = base['t'].replace('const ', '').rstrip(' &*')
    return t
