"""Debug: print the lowered form of functions."""
import sys
from .facts import *
def ex(f, i, depth=0):
    if i is None or i < 0: return '?'
    n = f.nodes[i]; o = n['o']
    A = lambda: ', '.join(ex(f, a, depth+1) for a in n.get('a', ()))
    if o == 'var': return f.vars[n['d']]['n']
    if o in ('gvar', 'enum', 'fn'): return n['q'].split('::')[-1]
    if o == 'mem': return ex(f, n['a'][0]) + ('->' if n.get('arrow') else '.') + n['n']
    if o == 'load': return '$' + ex(f, n['a'][0])
    if o == 'cast': return '(' + n['ck'] + ')' + ex(f, n['a'][0])
    if o == 'call':
        b = (ex(f, n['obj']) + '.') if 'obj' in n else ''
        return b + (n.get('q') or '*fp').split('::')[-1] + '(' + A() + ')'
    if o == 'ctor': return n['q'].split('::')[-1] + '{' + A() + '}'
    if o in ('bin', 'asn'): return '(' + ex(f, n['a'][0]) + ' ' + n['op'] + ' ' + ex(f, n['a'][1]) + ')'
    if o == 'un': return n['op'] + ex(f, n['a'][0])
    if o == 'str': return repr(n['s'])
    if o in ('lit', 'sizeof'): return str(n.get('v'))
    if o == 'idx': return ex(f, n['a'][0]) + '[' + ex(f, n['a'][1]) + ']'
    if o == 'this': return 'this'
    return o + '(' + A() + ')'
def show(f):
    print('==', f.name, f.loc(), f.k)
    for bid in sorted(f.blocks, reverse=True):
        b = f.blocks[bid]
        print(' B%d%s%s%s' % (bid, ' entry' if bid == f.entry else '', ' exit' if bid == f.exit else '', ' ' + str(b['lb']) if 'lb' in b else ''))
        for e in b['el']:
            if isinstance(e, int):
                n = f.nodes[e]
                print('    n%d L%s %s : %s%s' % (e, n.get('l'), ex(f, e), n.get('t'), ' try%d' % n['y'] if 'y' in n else ''))
            else:
                x = {k: v for k, v in e.items() if k not in ('e',)}
                print('    <%s> %s %s' % (e['e'], f.vars[e['d']]['n'] if 'd' in e else '', x))
        if 'tm' in b: print('    T', b['tm'], ex(f, b['tm']['c']) if 'c' in b['tm'] else '')
        print('    ->', b['su'])
if __name__ == '__main__':
    db = DB()
    for f in db.find(sys.argv[1])[:int(sys.argv[2]) if len(sys.argv) > 2 else 1]: show(f)
