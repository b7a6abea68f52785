"""Mutation sampling: how many small changes of the source do the checks notice?

usage: mutate.py OUT.jsonl N SEED [file.py[:function] ...]

Each sampled mutant is written into a scratch copy of /repo; the checks mapped to
its function run in turn until one reports a violation.  Mutants no check notices
are run through the test suite; those that also pass it are printed as SURVIVED and
are to be looked at by hand (equivalent, outside the properties, or a gap).
"""
import ast, json, os, random, shutil, subprocess, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import plant

MAP = [  # (file, function prefix) -> checks, first match wins
    ('water_tools.py', 'flooding_correction', 'C14 C06'), ('water_tools.py', 'get_wet', 'C14'),
    ('water_tools.py', 'build_weight', 'C14'),
    ('water_tools.py', 'compute_free', 'C14'), ('water_tools.py', 'finalize_free', 'C14'),
    ('water_tools.py', '_accumulate', 'C14'), ('water_tools.py', '_smooth', 'C14'),
    ('water_tools.py', 'finalize_water', 'C06 C07 C14'), ('water_tools.py', 'update_flow', 'C07 C06'),
    ('water_tools.py', 'update_velocity', 'C06'),
    ('water_tools.py', '_get_w', 'C08 C07'), ('water_tools.py', 'get_w', 'C08 C07'),
    ('water_tools.py', '_choose', 'C08 C07'), ('water_tools.py', '', 'C07 C14 C18 C08'),
    ('sed_tools.py', 'topo', 'C12'), ('sed_tools.py', '_get_weight', 'C08 C11'),
    ('sed_tools.py', '_choose', 'C08 C11'), ('sed_tools.py', 'route_sed', 'C19 C12'),
    ('sed_tools.py', '', 'C10 C11 C09 C08 C13'),
    ('shared_tools.py', '', 'C24 C08 C16'),
    ('init_tools.py', 'load_checkpoint', 'C02 C03 C19'), ('init_tools.py', 'import_files', 'C15'),
    ('init_tools.py', 'process', 'C15'), ('init_tools.py', 'determine', 'C01'),
    ('init_tools.py', 'create_other', 'C15 C23 C04'), ('init_tools.py', 'set_const', 'C23 C08 C07'),
    ('init_tools.py', 'create_b', 'C15 C22 C23'), ('init_tools.py', 'create_domain', 'C23'),
    ('init_tools.py', 'init_sediment', 'C10 C22 C08'), ('init_tools.py', 'init_output_file', 'C04 C20'),
    ('init_tools.py', 'init_output_inf', 'C20 C04'), ('init_tools.py', 'init_logger', 'C15 C20 C17'),
    ('init_tools.py', 'init_sub', 'C05'), ('init_tools.py', 'init_meta', 'C04'),
    ('iteration_tools.py', 'solve', 'C19 C13'), ('iteration_tools.py', 'apply', 'C05'),
    ('iteration_tools.py', 'finalize', 'C06 C05 C14'), ('iteration_tools.py', 'compute_sand', 'C13'),
    ('iteration_tools.py', 'output_check', 'C02 C03 C19'), ('iteration_tools.py', 'save_the', 'C02 C03'),
    ('iteration_tools.py', 'log', 'C15 C01 C21'), ('iteration_tools.py', '', 'C04 C22'),
    ('model.py', 'update', 'C05 C19 C20'), ('model.py', 'finalize', 'C20'),
    ('model.py', '__init__', 'C19 C15 C02'), ('model.py', '', 'C15 C22 C04'),
    ('preprocessor.py', '_has_time', 'C17'), ('preprocessor.py', 'run', 'C17 C19'),
    ('preprocessor.py', '__init__', 'C17 C16'), ('preprocessor.py', 'process_arg', 'C17 C16'),
    ('preprocessor.py', 'scale', 'C24'), ('preprocessor.py', '', 'C16 C17'),
    ('hook_tools.py', '', 'C19'), ('debug_tools.py', '', 'C21'),
]
SWAP = {'qx': 'qy', 'qy': 'qx', 'ux': 'uy', 'uy': 'ux', 'qxn': 'qyn', 'qyn': 'qxn', 'L': 'W', 'W': 'L',
        'Vp_dep_sand': 'Vp_dep_mud', 'Vp_dep_mud': 'Vp_dep_sand', 'px': 'py', 'py': 'px',
        'istep': 'jstep', 'jstep': 'istep', 'eta': 'stage', 'stage': 'eta', 'u0': 'h0', 'h0': 'u0',
        '_time': '_time_iter', '_save_dt': '_checkpoint_dt', 'sand_frac': 'active_layer'}


def sites(path):
    src = open(path).read()
    tree = ast.parse(src)
    lines = src.split('\n')
    off = [0]
    for l in lines:
        off.append(off[-1] + len(l.encode()) + 1)
    b = src.encode()
    pos = lambda n: (off[n.lineno - 1] + n.col_offset, off[n.end_lineno - 1] + n.end_col_offset)
    out = []

    def skip(n):
        if isinstance(n, ast.Raise):
            return True
        if isinstance(n, (ast.Expr, ast.Assign)):
            t = ast.unparse(n)
            return ('_msg' in t or 'log_info' in t or 'warnings.warn' in t or 'logger' in t
                    or 'print(' in t or isinstance(getattr(n, 'value', None), ast.Constant)
                    and isinstance(n.value.value, str) and isinstance(n, ast.Expr))
        return isinstance(n, (ast.arguments,))

    def add(fn, n, new, kind):
        s, e = pos(n)
        out.append((fn, kind, s, e, new, n.lineno))

    def visit(n, fn):
        if skip(n):
            return
        if isinstance(n, ast.FunctionDef):
            fn = n.name
            for c in n.body:
                visit(c, fn)
            return
        if fn:
            seg = lambda m: b[slice(*pos(m))].decode()
            if isinstance(n, ast.Compare) and len(n.ops) == 1:
                tab = {ast.Lt: ['<=', '>'], ast.LtE: ['<'], ast.Gt: ['>=', '<'], ast.GtE: ['>'],
                       ast.Eq: ['!='], ast.NotEq: ['=='], ast.Is: ['is not'], ast.IsNot: ['is'],
                       ast.In: ['not in'], ast.NotIn: ['in']}
                for o in tab.get(type(n.ops[0]), []):
                    add(fn, n, '%s %s %s' % (seg(n.left), o, seg(n.comparators[0])), 'cmp')
            if isinstance(n, ast.BinOp):
                tab = {ast.Add: '-', ast.Sub: '+', ast.Mult: '/', ast.Div: '*', ast.Pow: '*', ast.FloorDiv: '*'}
                if type(n.op) in tab and not isinstance(n.left, ast.Constant) or isinstance(getattr(n.left, 'value', 0), (int, float)):
                    if type(n.op) in tab:
                        add(fn, n, '(%s) %s (%s)' % (seg(n.left), tab[type(n.op)], seg(n.right)), 'bin')
            if isinstance(n, ast.BoolOp) and len(n.values) == 2:
                o = 'or' if isinstance(n.op, ast.And) else 'and'
                add(fn, n, '(%s) %s (%s)' % (seg(n.values[0]), o, seg(n.values[1])), 'bool')
                add(fn, n, seg(n.values[0]), 'bool1')
                add(fn, n, seg(n.values[1]), 'bool2')
            if isinstance(n, ast.UnaryOp) and isinstance(n.op, (ast.Not, ast.Invert, ast.USub)):
                add(fn, n, '(%s)' % seg(n.operand), 'unary')
            if isinstance(n, ast.Constant) and type(n.value) in (int, float):
                add(fn, n, repr(n.value + 1) if type(n.value) is int else repr(n.value * 1.1 or 0.1), 'const')
            if isinstance(n, ast.Constant) and type(n.value) is bool:
                add(fn, n, repr(not n.value), 'const')
            if isinstance(n, ast.Attribute) and n.attr in SWAP and isinstance(n.ctx, ast.Load):
                add(fn, n, seg(n.value) + '.' + SWAP[n.attr], 'swap')
            if isinstance(n, (ast.AugAssign, ast.Expr)) or isinstance(n, ast.Assign) and isinstance(
                    n.targets[0], (ast.Attribute, ast.Subscript)):
                add(fn, n, 'pass', 'del')
            if isinstance(n, ast.If):
                add(fn, n.test, 'True', 'iftrue')
                add(fn, n.test, 'False', 'iffalse')
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in (
                    'copy', 'round', 'maximum', 'minimum', 'abs', 'floor', 'flatten'):
                t = {'maximum': 'minimum', 'minimum': 'maximum'}.get(n.func.attr)
                if t:
                    add(fn, n.func, seg(n.func.value) + '.' + t, 'fn')
                elif n.args:
                    add(fn, n, seg(n.args[0]), 'fn')
                else:
                    add(fn, n, seg(n.func.value), 'fn')
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in ('int', 'round', 'float', 'max', 'min', 'list'):
                t = {'max': 'min', 'min': 'max'}.get(n.func.id)
                if t:
                    add(fn, n.func, t, 'fn')
                elif n.args:
                    add(fn, n, '(%s)' % seg(n.args[0]), 'fn')
        for c in ast.iter_child_nodes(n):
            visit(c, fn)

    visit(tree, None)
    return b, out


def main():
    outp, N, seed = sys.argv[1], int(sys.argv[2]), int(sys.argv[3])
    sel = sys.argv[4:]
    allm = []
    for f in sorted(os.listdir('/repo/pyDeltaRCM')):
        if not f.endswith('.py') or f.startswith('_'):
            continue
        b, ss = sites('/repo/pyDeltaRCM/' + f)
        for s in ss:
            if sel and not any(x == f or x == f + ':' + s[0] for x in sel):
                continue
            allm.append((f, b) + s)
    print('sites', len(allm), flush=True)
    random.Random(seed).shuffle(allm)
    d = '/tmp/plant/mut%d' % seed
    shutil.rmtree(d, True)
    os.makedirs(d)
    subprocess.run(['cp', '-a', '/repo', d + '/repo'], check=True)
    out = open(outp, 'a')
    for f, b, fn, kind, s, e, new, line in allm[:N]:
        p = f'{d}/repo/pyDeltaRCM/{f}'
        nb = b[:s] + new.encode() + b[e:]
        try:
            compile(nb, f, 'exec')
        except SyntaxError:
            continue
        open(p, 'wb').write(nb)
        checks = next(c for ff, pre, c in MAP if ff == f and fn.startswith(pre)).split()
        rec = dict(file=f, fn=fn, kind=kind, line=line, old=b[s:e].decode()[:80], new=new[:80], rc={})
        for c in checks:
            if not os.path.exists('/verif/checks/%s.py' % c.lower()):
                continue
            rc, o = plant.sh(f'bash run.sh {c} quick', '/verif', 600, VERIF_REPO=d + '/repo', VERIF_EVIDENCE=d + '/ev',
                             VERIF_SEED='1', VERIF_TIER='quick', VERIF_FAILFAST='1')
            rec['rc'][c] = rc
            if rc == 1:
                rec['caught'] = c
                break
        if 'caught' not in rec:
            n, failed = plant.tests({'id': 'mut%d' % seed})
            rec['tests'] = n
            rec['failed'] = failed[:2]
            rec['survived'] = n >= 366
        out.write(json.dumps(rec) + '\n')
        out.flush()
        print(f, fn, line, kind, repr(rec['old'][:40]), '->', repr(rec['new'][:40]), rec['rc'],
              rec.get('caught') or ('SURVIVED' if rec['survived'] else 'tests'), flush=True)
        open(p, 'wb').write(b)
    shutil.rmtree(d, True)


if __name__ == '__main__':
    main()
