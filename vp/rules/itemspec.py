"""Groups of reader/writer functions whose stored items must match."""
from ..items import *
from ..core import Const, Assume, C, is_smart
from ..fail import failing_value, derives

IOB = ('Field3D::FieldIO', 'Field3D::FieldMappingIO')

def io_classes(db):
    out = {}
    for n, r in db.recs.items():
        if n in IOB: continue
        for b in IOB:
            if derives(db, n, b): out[n] = b
    return out

def groups(db):
    """{group: {'w': (items, must), 'r': (items, must)}}; a group is an I/O class or
    the file layer, split by storage format."""
    c = db.__dict__.get('_groups')
    if c: return c
    io = io_classes(db)
    if len(io) < 7: raise AnalysisBroken('only %d I/O classes found' % len(io))
    g = {}
    def add(name, roots, stop, hook=None):
        its = Items(db, stop, hook)
        for d, ks in roots.items():
            for fmt in ('og', 'h5'):
                allit = {}; must = set()
                for k in ks:
                    for it, at in its.of(k).items():
                        if it[0] == fmt and it[1] == d and not isinstance(it[4], tuple): allit.setdefault(it, []).extend(at)
                    if d == 'w':
                        must |= {m for m in its.must(k, failing_value) if m[0] == fmt and not isinstance(m[3], tuple)}
                g.setdefault(name + '/' + fmt, {})[d] = (allit, must)
    for cls, base in io.items():
        def stop(f, n, t, cls=cls):
            c2 = db.decl[t].get('cls')
            if c2 in io and c2 != cls: return True
            # another object's reader or writer
            if n.get('virt') and c2 in io: return True
            return file_level(db, t)
        roots = {'w': [], 'r': []}
        for k in db.raw:
            d = db.decl[k]
            if d.get('cls') == cls and d['q'].split('::')[-1] in ('read', 'write'):
                roots['r' if d['q'].endswith('read') else 'w'].append(k)
        if cls.endswith('SparseFieldIO'):
            # blocks of dynamically loaded fields are read through these helpers later
            roots['r'] += [k for k in db.raw if 'SparseDataReader' in (db.decl[k].get('cls') or '') or (db.decl[k].get('cls') or '').startswith('Field3D::SparseFile::Reference')]
        add(cls.split('::')[-1], roots, stop)
    def fstop(f, n, t):
        c2 = db.decl[t].get('cls')
        return c2 in io
    roots = {'w': [], 'r': []}
    for k in db.raw:
        d = db.decl[k]; c2 = d.get('cls') or ''
        if c2.startswith('Field3D::Field3DOutputFile'): roots['w'].append(k)
        if c2.startswith('Field3D::Field3DInputFile') or d['q'].startswith('Field3D::InputFile') : roots['r'].append(k)
    # a file object that has a handler for the other format leaves everything to it (C16)
    def alone(f, i, n):
        return C(0) if n['o'] == 'mem' and is_smart(n['t']) and 'HDF5' in n['t'] and 'File' in n['t'] else None
    add('File', roots, fstop, Assume(db, alone))
    db._groups = g
    return g

def file_level(db, t):
    c2 = db.decl[t].get('cls') or ''
    return c2.startswith(('Field3D::Field3DInputFile', 'Field3D::Field3DOutputFile', 'Field3D::Field3DFileBase'))
