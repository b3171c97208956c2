"""Extraction driver and fact database (resolved IR of every function in /repo)."""
import time
import glob, hashlib, json, os, subprocess, sys, tempfile, shutil
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get('VP_REPO', '/repo')

class AnalysisBroken(Exception):
    """The analysis itself cannot be trusted (anchor vanished, unit did not parse)."""

DEFS = ['-std=gnu++14', '-DREQUIRE_IOSTREAM', '-DBOOST_TIMER_ENABLE_DEPRECATED', '-DField3D_EXPORTS',
        '-w', '-ferror-limit=0', '-resource-dir', '/usr/lib/llvm-18/lib/clang/18']

def incs(tmp):
    return ['-I' + tmp, '-I' + REPO, '-I' + REPO + '/src', '-I' + REPO + '/export', '-I' + REPO + '/include',
            '-I/opt/vp/compat/include', '-I/opt/vp/compat/include/OpenEXR', '-I/usr/include/hdf5/serial']

def units():
    u = sorted(glob.glob(REPO + '/src/*.cpp'))
    if len(u) < 30:
        raise AnalysisBroken('only %d library units found under %s/src' % (len(u), REPO))
    return u + [VERIF + '/tools/inst.cpp']

def _digest(paths):
    h = hashlib.sha256()
    for p in sorted(paths):
        h.update(p.encode()); h.update(b'\0')
        with open(p, 'rb') as f: h.update(f.read())
        h.update(b'\0')
    return h.hexdigest()

def extract(verbose=False):
    """Run the extractor on every unit (8 at a time); returns list of fact files.

    Results are cached per unit, keyed by the content of the unit, of every
    header in the repository and of the extractor."""
    subprocess.check_call(['bash', VERIF + '/tools/build.sh'])
    exe = VERIF + '/.build/extract'
    cache = VERIF + '/.cache'
    os.makedirs(cache, exist_ok=True)
    hdr = []
    for d in ('export', 'include', 'src', 'apps'):
        for root, _, fs in os.walk(REPO + '/' + d):
            hdr += [os.path.join(root, f) for f in fs if f.endswith(('.h', '.hpp', '.inl', '.hh'))]
    hdr.append(VERIF + '/tools/extract.cpp')
    hd = _digest(hdr)
    tmp = tempfile.mkdtemp(prefix='vpinc')
    os.symlink(REPO + '/export', tmp + '/Field3D')
    outs, jobs = [], []
    us = units()
    for u in us:
        k = hashlib.sha256((hd + _digest([u]) + ' '.join(DEFS) + REPO).encode()).hexdigest()[:24]
        o = '%s/%s.%s.jl' % (cache, os.path.basename(u), k)
        outs.append(o)
        if not os.path.exists(o):
            jobs.append((u, o))
    def run(j):
        u, o = j
        t = o + '.tmp%d' % os.getpid()
        p = subprocess.run([exe, t, REPO + '/', u, '--'] + incs(tmp) + DEFS,
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=600)
        return u, o, t, p.returncode, p.stdout.decode('utf8', 'replace')
    try:
        with ThreadPoolExecutor(8) as ex:
            for u, o, t, rc, txt in ex.map(run, jobs):
                ok = os.path.exists(t) and _ended(t)
                isinst = u.endswith('/inst.cpp')
                if not ok or (rc != 0 and not isinst):
                    raise AnalysisBroken('extraction of %s failed (%s): %s' % (u, rc, txt[-800:]))
                os.replace(t, o)
    finally:
        os.unlink(tmp + '/Field3D'); os.rmdir(tmp)
    # drop the oldest cache entries; those in use by a run that started lately stay
    now = time.time()
    for o in outs:
        try: os.utime(o)
        except OSError: pass
    old = []
    for f in glob.glob(cache + '/*.jl'):
        try: old.append((os.path.getmtime(f), f))
        except OSError: pass
    old.sort()
    for t, f in old[:max(0, len(old) - 600)]:
        if now - t > 900:
            try: os.unlink(f)
            except OSError: pass
    return list(zip(us, outs))

def _ended(t):
    with open(t, 'rb') as f:
        f.seek(0, 2); n = f.tell(); f.seek(max(0, n - 200))
        return b'"K":"end"' in f.read()

class Rec: pass

class DB:
    def __init__(self):
        self.files = extract()
        self.raw = {}       # key -> (json text)
        self.fn_unit = {}
        self.decl = {}
        self.recs = {}
        self.enums = {}
        self.globals = {}
        self._fn = {}
        self.units = []
        for u, o in self.files:
            self.units.append(os.path.relpath(u, REPO) if u.startswith(REPO) else os.path.basename(u))
            with open(o, encoding='utf8', errors='replace') as f:
                for line in f:
                    if line.startswith('F\t'):
                        i = line.index('\t', 2)
                        k = line[2:i]
                        if k not in self.raw:
                            self.raw[k] = line[i+1:]
                            self.fn_unit[k] = self.units[-1]
                    else:
                        d = json.loads(line)
                        K = d['K']
                        if K == 'decl':
                            d0 = self.decl.get(d['k'])
                            if d0 is None or (d.get('file') or '').startswith('export/') and not (d0.get('file') or '').startswith('export/'): self.decl[d['k']] = d
                        elif K == 'rec':
                            if d['n'] not in self.recs: self.recs[d['n']] = d
                        elif K == 'enum':
                            self.enums.setdefault((d['q'], d['file']), d)
                        elif K == 'global':
                            g = self.globals.setdefault((d.get('cls', ''), d['q']), d)
                            for x in ('s', 'v', 'ctor', 'ilist'):
                                if x in d and x not in g: g[x] = d[x]
        if len(self.raw) < 1000:
            raise AnalysisBroken('only %d function bodies extracted' % len(self.raw))
        self.byq = {}
        for k in self.raw:
            d = self.decl.get(k)
            if d is None: raise AnalysisBroken('no decl for ' + k)
            self.byq.setdefault(d['q'], []).append(k)
        self._over = None
        self._callers = None

    def fn(self, k):
        f = self._fn.get(k)
        if f is None:
            r = self.raw.get(k)
            if r is None: return None
            f = self._fn[k] = Fn(self, k, json.loads(r))
        return f

    def fns(self, pred=None):
        for k in sorted(self.raw):
            if pred is None or pred(self.decl[k]):
                yield self.fn(k)

    def find(self, q, **kw):
        """All bodies with the given qualified name (all instantiations/overloads)."""
        ks = self.byq.get(q, [])
        return [self.fn(k) for k in sorted(ks)]

    def need(self, q, n=1):
        r = self.find(q)
        if len(r) < n:
            raise AnalysisBroken('anchor %s: expected at least %d bodies, found %d' % (q, n, len(r)))
        return r

    # -- class hierarchy --
    def bases(self, n):
        out, todo = [], [n]
        while todo:
            x = todo.pop()
            r = self.recs.get(x)
            if not r: continue
            for b in r['b']:
                if b not in out: out.append(b); todo.append(b)
        return out

    def overriders(self, k):
        """All methods that (transitively) override k."""
        if self._over is None:
            self._over = {}
            for kk, d in self.decl.items():
                for o in d.get('ov', ()):
                    self._over.setdefault(o, []).append(kk)
        out, todo = [], [k]
        while todo:
            x = todo.pop()
            for y in self._over.get(x, ()):
                if y not in out: out.append(y); todo.append(y)
        return out

    def targets(self, n):
        """Possible callee keys of a call node."""
        f = n.get('f')
        if not f: return []
        if n.get('virt'):
            r = [f] + self.overriders(f)
            return [x for x in r if not self.decl.get(x, {}).get('pure')]
        return [f]

    def callers(self):
        if self._callers is None:
            c = {}
            for f in self.fns():
                for i, n in enumerate(f.nodes):
                    if n.get('f') and n['o'] in ('call', 'ctor'):
                        for t in self.targets(n):
                            c.setdefault(t, []).append((f, i))
                for b in f.blocks.values():
                    for e in b['el']:
                        if isinstance(e, dict) and e.get('f'):
                            c.setdefault(e['f'], []).append((f, -1))
            self._callers = c
        return self._callers

NORETURN = {'__assert_fail', 'abort', 'exit', 'std::terminate', 'boost::throw_exception', 'std::abort', 'std::exit'}

class Fn:
    def __init__(self, db, k, d):
        self.db, self.k, self.d = db, k, d
        self.decl = db.decl[k]
        self.q = self.decl['q']
        self.cls = self.decl.get('cls')
        self.file, self.line = d['file'], d['line']
        self.nodes = d['no']
        self.vars = d['va']
        self.tries = d['tr']
        self.blocks = {b['id']: b for b in d['bl']}
        self.entry, self.exit = d['en'], d['ex']
        self.params = {}
        for i, v in enumerate(self.vars):
            if v['p'] >= 0: self.params[v['p']] = i
        self._parent = None
        self.catch_blocks = {}
        for b in self.blocks.values():
            lb = b.get('lb')
            if lb and lb['k'] == 'catch' and 'try' in lb:
                self.catch_blocks[(lb['try'], lb['h'])] = b['id']

    @property
    def name(self):
        d = self.decl
        n = d['q']
        if d.get('cls'):
            n = d['cls'] + '::' + d['q'].split('::')[-1]
        if d.get('ta'): n += '<' + ', '.join(d['ta']) + '>'
        return n

    def loc(self, n=None):
        l = self.line
        if n is not None:
            if isinstance(n, int) and n >= 0: l = self.nodes[n].get('l', l)
            elif isinstance(n, dict): l = n.get('l', l)
        return '%s:%s' % (self.file, l)

    def elems(self):
        for bid, b in self.blocks.items():
            for i, e in enumerate(b['el']):
                yield bid, i, e

    def calls(self, q=None):
        """(node id, node) of call/ctor nodes that occur as CFG elements."""
        for bid, i, e in self.elems():
            if isinstance(e, int):
                n = self.nodes[e]
                if n['o'] in ('call', 'ctor') and (q is None or n.get('q') == q):
                    yield e, n

    def parent(self):
        if self._parent is None:
            p = {}
            for i, n in enumerate(self.nodes):
                for a in kids(n): p.setdefault(a, i)
            self._parent = p
        return self._parent

def kids(n):
    out = []
    for key in ('a', 'pl', ):
        out += [x for x in n.get(key, ()) if x is not None and x >= 0]
    for key in ('obj', 'fp', 'sz'):
        if n.get(key, -1) is not None and n.get(key, -1) >= 0: out.append(n[key])
    return out
