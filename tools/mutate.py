#!/usr/bin/env python3
"""Systematic small mutations of /repo/angler (scratch copies only), to find behaviour that no check watches.

usage: mutate.py --list                         number of mutants per file
       mutate.py --run N --seed S --out F.jsonl [--par 2] [--jobs 4] [--files a,b] [--lines 10-50]
A mutant is run against the checks most related to its file first and stops at the first one that raises an alarm.
"""
import argparse, ast, concurrent.futures as cf, json, os, random, shutil, subprocess, sys, tempfile
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
FILES = ['simulation.py', 'linalg.py', 'pml.py', 'derivatives.py', 'filter.py', 'gradients.py', 'adjoint.py', 'nonlinear_solvers.py',
         'nonlinearity.py', 'objective.py', 'optimization.py', 'source/mode.py', 'structures.py', 'utils.py', 'plot.py', 'constants.py']
ALL = ['C%02d' % i for i in range(1, 38)]
ORDER = {
 'simulation.py': 'C06 C01 C12 C13 C14 C09 C30 C32 C08 C07 C10 C05 C33',
 'linalg.py': 'C01 C27 C35 C10 C16 C08', 'pml.py': 'C02 C05 C08 C03 C04', 'derivatives.py': 'C01 C04 C10 C16',
 'filter.py': 'C18 C19 C20 C15', 'gradients.py': 'C15 C16 C17', 'adjoint.py': 'C15 C16 C17 C27', 'nonlinear_solvers.py': 'C12 C13 C06 C08 C14 C07',
 'nonlinearity.py': 'C14 C17 C08 C12', 'objective.py': 'C28 C08 C23', 'optimization.py': 'C21 C22 C20 C24 C23 C25 C26 C33 C32 C15 C08 C07',
 'source/mode.py': 'C10 C11 C34 C26 C08 C07', 'structures.py': 'C29 C08', 'utils.py': 'C19 C31', 'plot.py': 'C32 C33', 'constants.py': 'C01 C34 C02'}

def skip_lines(src):
    """string-only statements and __main__ demos are not part of the behaviour"""
    t = ast.parse(src); bad = set()
    for n in ast.walk(t):
        if isinstance(n, ast.If) and '__name__' in ast.unparse(n.test): bad |= set(range(n.lineno, n.end_lineno+1))
        if isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant): bad |= set(range(n.lineno, n.end_lineno+1))
    return bad

def mutants(rel):
    p = os.path.join('/repo/angler', rel); src = open(p).read(); t = ast.parse(src)
    lines = src.splitlines(True); off = [0]
    for l in lines: off.append(off[-1]+len(l.encode()))
    b = src.encode(); bad = skip_lines(src)
    pos = lambda n: (off[n.lineno-1]+n.col_offset, off[n.end_lineno-1]+n.end_col_offset)
    seg = lambda n: b[slice(*pos(n))].decode()
    out = []
    def add(n, new, why):
        if n.lineno in bad: return
        s, e = pos(n)
        out.append((rel, n.lineno, s, e, new, why))
    OPS = {ast.Add: ('+', ['-']), ast.Sub: ('-', ['+']), ast.Mult: ('*', ['/']), ast.Div: ('/', ['*']), ast.Pow: ('**', ['*']), ast.FloorDiv: ('//', ['/']), ast.Mod: ('%', ['*'])}
    CMP = {ast.Lt: ['<='], ast.LtE: ['<'], ast.Gt: ['>='], ast.GtE: ['>'], ast.Eq: ['!='], ast.NotEq: ['=='], ast.Is: ['is not'], ast.IsNot: ['is'], ast.In: ['not in'], ast.NotIn: ['in']}
    skipfn = {'print', 'add_argument'}
    for n in ast.walk(t):
        if isinstance(n, (ast.BinOp, ast.AugAssign)) and isinstance(n, ast.BinOp) and type(n.op) in OPS:
            for o in OPS[type(n.op)][1]: add(n, '(%s) %s (%s)' % (seg(n.left), o, seg(n.right)), 'op')
        elif isinstance(n, ast.Compare) and len(n.ops) == 1:
            for o in CMP.get(type(n.ops[0]), []): add(n, '(%s %s %s)' % (seg(n.left), o, seg(n.comparators[0])), 'cmp')
        elif isinstance(n, ast.BoolOp):
            add(n, '(' + (' or ' if isinstance(n.op, ast.And) else ' and ').join(seg(v) for v in n.values) + ')', 'bool')
            for i in range(len(n.values)): add(n, '(' + (' and ' if isinstance(n.op, ast.And) else ' or ').join(seg(v) for j, v in enumerate(n.values) if j != i) + ')', 'bool-drop')
        elif isinstance(n, ast.UnaryOp):
            add(n, '(%s)' % seg(n.operand), 'unary')
        elif isinstance(n, ast.Constant):
            v = n.value
            if isinstance(v, bool): add(n, repr(not v), 'const')
            elif v is None: pass
            elif isinstance(v, int): add(n, repr(v+1), 'const'); add(n, repr(v-1 if v > 0 else 2), 'const')
            elif isinstance(v, float): add(n, repr(v*1.5), 'const')
            elif isinstance(v, complex): add(n, '(-%r)' % v, 'const')
            elif isinstance(v, str):
                sw = {'x': 'y', 'y': 'x', 'f': 'b', 'b': 'f', 'Ez': 'Hz', 'Hz': 'Ez', 'Ex': 'Ey', 'Ey': 'Ex', 'Hx': 'Hy', 'Hy': 'Hx', 'Dxb': 'Dxf', 'Dxf': 'Dxb', 'Dyb': 'Dyf', 'Dyf': 'Dyb', 'lin': 'nl', 'nl': 'lin', 'LM': 'SM', 'born': 'newton', 'newton': 'born'}.get(v)
                if sw: add(n, repr(sw), 'str')
        elif isinstance(n, ast.Call):
            f = ast.unparse(n.func)
            if len(n.args) == 1 and not n.keywords and f.split('.')[-1] in ('conj', 'deepcopy', 'abs', 'real', 'imag', 'square', 'sqrt', 'float', 'int', 'list', 'array', 'sign', 'transpose', 'ravel'): add(n, '(%s)' % seg(n.args[0]), 'unwrap '+f)
            for k in n.keywords:
                if k.arg: 
                    a = [seg(x) for x in n.args] + ['%s%s' % (q.arg+'=' if q.arg else '**', seg(q.value)) for q in n.keywords if q is not k]
                    if f not in skipfn: add(n, '%s(%s)' % (seg(n.func), ', '.join(a)), 'drop kw '+k.arg)
            if len(n.args) == 2 and not any(isinstance(x, ast.Starred) for x in n.args): add(n, '%s(%s)' % (seg(n.func), ', '.join([seg(n.args[1]), seg(n.args[0])]+['%s=%s' % (q.arg, seg(q.value)) for q in n.keywords])), 'swap args')
            if isinstance(n.func, ast.Attribute) and n.func.attr in ('transpose', 'copy', 'astype', 'conj') : add(n, seg(n.func.value), 'unwrap .'+n.func.attr)
        elif isinstance(n, ast.Attribute) and n.attr == 'T': add(n, seg(n.value), 'drop .T')
        elif isinstance(n, ast.If): add(n.test, 'True', 'if true'); add(n.test, 'False', 'if false')
        elif isinstance(n, ast.Slice) : pass
        if isinstance(n, (ast.Assign, ast.AugAssign, ast.Expr, ast.Raise, ast.Break, ast.Assert)) and not (isinstance(n, ast.Expr) and (isinstance(n.value, ast.Constant) or ast.unparse(n.value).startswith('print'))):
            add(n, 'pass', 'delete')
        if isinstance(n, ast.AugAssign): add(n, '%s = %s' % (seg(n.target), seg(n.value)), 'aug')
    seen = set(); r = []
    for m in out:
        k = m[2:5]
        s = b[:m[2]]+m[4].encode()+b[m[3]:]
        try: tt = ast.dump(ast.parse(s))
        except SyntaxError: continue
        if k in seen or tt == ast.dump(t): continue
        seen.add(k); r.append(m)
    return r

def run_one(m, jobs, orders):
    rel, line, s, e, new, why = m
    copy = tempfile.mkdtemp(prefix='mut.', dir='/tmp')
    res = dict(file=rel, line=line, why=why, span=[s, e], new=new)
    try:
        subprocess.run(['cp', '-a', '/repo/angler', copy], check=True)
        os.mkdir(os.path.join(copy, 'data')); shutil.copy('/repo/data/device_saver.py', os.path.join(copy, 'data'))
        p = os.path.join(copy, 'angler', rel); b = open(p, 'rb').read()
        res['old'] = b[s:e].decode()
        open(p, 'wb').write(b[:s]+new.encode()+b[e:])
        env = dict(os.environ, VT_REPO=copy, VERIF_SEED='1', VERIF_TIER='quick', VT_STOP='1')
        res['rc2'] = []
        for c in orders[rel]:
            try: q = subprocess.run(['nice', '-n', '19', os.path.join(VERIF, 'check'), c, '--noev', '--jobs', str(jobs)], env=env, capture_output=True, text=True, timeout=900)
            except subprocess.TimeoutExpired: res['rc2'].append(c+'-timeout'); continue
            if q.returncode == 1:
                res['by'] = c; res['msg'] = [l for l in q.stdout.splitlines() if '#' in l][:1]; break
            if q.returncode: res['rc2'].append(c+':'+q.stdout[-300:])
        else: res['by'] = None
    finally:
        shutil.rmtree(copy, ignore_errors=True)
    return res

def main():
    a = argparse.ArgumentParser(); a.add_argument('--list', action='store_true'); a.add_argument('--run', type=int); a.add_argument('--seed', type=int, default=0)
    a.add_argument('--out'); a.add_argument('--par', type=int, default=2); a.add_argument('--jobs', type=int, default=4); a.add_argument('--files'); a.add_argument('--why'); a.add_argument('--fast', action='store_true', help='only the related checks'); a = a.parse_args()
    files = a.files.split(',') if a.files else FILES
    ms = []
    for f in files:
        r = mutants(f); ms += r
        if a.list: print(f, len(r))
    if a.list: print(len(ms)); return
    orders = {f: (lambda o: o + ([] if a.fast else [c for c in ALL if c not in o]))(ORDER[f].split()) for f in FILES}
    if a.why: ms = [m for m in ms if m[5].startswith(a.why)]
    done = set()
    if os.path.exists(a.out):
        for l in open(a.out): d = json.loads(l); done.add((d['file'], tuple(d['span']), d['new']))
    random.Random(a.seed).shuffle(ms)
    ms = [m for m in ms if (m[0], (m[2], m[3]), m[4]) not in done][:a.run]
    with cf.ThreadPoolExecutor(a.par) as ex:
        for q in cf.as_completed([ex.submit(run_one, m, a.jobs, orders) for m in ms]):
            r = q.result()
            with open(a.out, 'a') as f: f.write(json.dumps(r)+'\n')
            if r['by'] is None or r['rc2']: print('SURVIVED' if r['by'] is None else 'caught '+r['by'], r['file'], r['line'], r['why'], repr(r['old'][:80]), '->', repr(r['new'][:80]), r['rc2'], flush=True)
if __name__ == '__main__': main()
