"""Mutation campaign: random small changes of the code in scope, each given to the checks of its file in a scratch copy.

mutate.py N SEED [file …]  prints one line per change: killed by which check, or SURVIVED (to be read by hand:
either the change is equivalent or dead code, or a check is too weak).  NOT used by any check."""
import ast, json, os, random, shutil, signal, subprocess, sys, time

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('BASE', '/repo')
PKG = 'moving_mesh_transport/'
C, F, L = PKG + 'solver_classes/', PKG + 'solver_functions/', PKG + 'loading_and_saving/'
PLAN = {
    C + 'mesh.py': (['P01', 'P02', 'P03'], {'smooth_wave_loc_array', 'time_to_wall', 'thick_wave_loc_and_deriv_finder', 'recalculate_wavespeed', 'simple_thick_square_init_func', 'simple_thick_square_init_func_2', 'thick_square_moving_func_2', 'thick_square_moving_init_func', 'thick_square_init_func', 'thick_square_moving_func', 'even_edges'}),
    C + 'mesh_functions.py': (['P01', 'P19'], {'positivize', 'set_func', 'mesh_cluster_blast_wave', 'thick_square_moving_func', 'thick_square_moving_func_rmt', 'thick_square_moving_func_2'}),
    C + 'numerical_flux.py': (['P04'], set()),
    C + 'matrices.py': (['P08'], {'matrix_test'}),
    C + 'GMAT_sphere.py': (['P08'], set()),
    C + 'opacity.py': (['P09'], set()),
    C + 'phi_class.py': (['P09', 'P05'], set()),
    C + 'sources.py': (['P10'], set()),
    C + 'uncollided_solutions.py': (['P11'], set()),
    C + 'functions.py': (['P20', 'P18', 'P11', 'P06', 'P13', 'P08', 'P23'], {'integrate_quad', 'make_phi', 'surf_func', 'LU_surf_func', 'test_s2_sol', 'test_square_sol', 'shaper', 'finite_diff_uneven_2', 'Pn', 'Pn_scalar', 'uncollided_s2_gaussian_thick', 'sqrt_two_mass_func', 'uncollided_su_olson_s2_2'}),
    C + 'mutables.py': (['P13'], set()),
    C + 'build_problem.py': (['P13'], set()),
    C + 'make_phi.py': (['P12'], set()),
    C + 'radiative_transfer.py': (['P21'], set()),
    C + 'rhs_class_1.py': (['P07', 'P05', 'P06'], {'time_step_counter', 'derivative_saver'}),
    C + 'cubic_spline.py': (['P19'], {'test_spline', 'mcclarren_spline', 'mcclarren_spline_2'}),
    F + 'main_functions.py': (['P15', 'P23', 'P17'], {'plot_p1_su_olson_mathematica', 'time_step_function', 'problem_identifier', 'plot_edges'}),
    F + 'run_functions.py': (['P15', 'P22'], {'RMSE', 'olson_henderson_bench', 'moving_gaussian_shock_benchmark'}),
    F + 'Chebyshev_matrix_reader.py': (['P08'], set()),
    PKG + 'solver.py': (['P15', 'P23', 'P17'], set()),
    L + 'save_output.py': (['P14', 'P23'], set()),
    L + 'load_bench.py': (['P23'], set()),
    L + 'load_solution.py': (['P14'], set()),
    L + 'load_parameters.py': (['P15'], set()),
}
OPS = {ast.Add: '-', ast.Sub: '+', ast.Mult: '/', ast.Div: '*'}
CMP = {ast.Lt: '<=', ast.LtE: '<', ast.Gt: '>=', ast.GtE: '>', ast.Eq: '!=', ast.NotEq: '=='}


def changes(path, skip):
    """(start, end, replacement, description) of every small change of the file."""
    text = open(path, newline='').read()
    lines = text.splitlines(keepends=True)
    starts = [0]
    for l in lines:
        starts.append(starts[-1] + len(l.encode()))
    raw = text.encode()
    at = lambda line, col: starts[line - 1] + col
    pos = lambda n: (at(n.lineno, n.col_offset), at(n.end_lineno, n.end_col_offset))
    seg = lambda a, b: raw[a:b].decode()
    out = []

    def visit(node, inside):
        if isinstance(node, ast.FunctionDef):
            if node.name in skip:
                return
            inside = True
        if isinstance(node, ast.Expr) and isinstance(node.value, ast.Call) and getattr(node.value.func, 'id', '') == 'print':
            return
        if isinstance(node, ast.Expr) and isinstance(node.value, ast.Constant):
            return
        if isinstance(node, ast.Expr) and 'plt.' in seg(*pos(node)):
            return
        if inside:
            if isinstance(node, ast.BinOp) and type(node.op) in OPS:
                a, b = pos(node.left)[1], pos(node.right)[0]
                mid = seg(a, b)
                s = {'Add': '+', 'Sub': '-', 'Mult': '*', 'Div': '/'}[type(node.op).__name__]
                if mid.count(s) == 1 and '\\' not in mid and '\n' not in mid:
                    out.append((a, b, mid.replace(s, OPS[type(node.op)]), node.lineno))
            if isinstance(node, ast.Compare) and len(node.ops) == 1 and type(node.ops[0]) in CMP:
                a, b = pos(node.left)[1], pos(node.comparators[0])[0]
                mid = seg(a, b)
                out.append((a, b, ' ' + CMP[type(node.ops[0])] + ' ', node.lineno))
            if isinstance(node, ast.Constant) and type(node.value) in (int, float):
                a, b = pos(node)
                out.append((a, b, repr(node.value + 1), node.lineno))
            if isinstance(node, ast.Constant) and node.value in (True, False) and type(node.value) is bool:
                a, b = pos(node)
                out.append((a, b, repr(not node.value), node.lineno))
            if isinstance(node, ast.Constant) and type(node.value) is str and len(node.value) and 'print' not in seg(at(node.lineno, 0), pos(node)[0]):
                a, b = pos(node)
                out.append((a, b, repr(node.value + 'x'), node.lineno))
            if isinstance(node, ast.BoolOp):
                a, b = pos(node.values[0])[1], pos(node.values[1])[0]
                s, t = ('and', 'or') if isinstance(node.op, ast.And) else ('or', 'and')
                mid = seg(a, b)
                if mid.count(s) == 1 and '\n' not in mid:
                    out.append((a, b, mid.replace(s, t), node.lineno))
            if isinstance(node, (ast.Assign, ast.AugAssign)) and node.lineno == node.end_lineno:
                a, b = pos(node)
                out.append((a, b, 'pass', node.lineno))
                if isinstance(node, ast.AugAssign):
                    ta, tb = pos(node.target)[1], pos(node.value)[0]
                    out.append((ta, tb, ' = ', node.lineno))
            if isinstance(node, ast.Expr) and isinstance(node.value, ast.Call) and node.lineno == node.end_lineno:
                out.append((*pos(node), 'pass', node.lineno))
            if isinstance(node, ast.Subscript) and isinstance(node.slice, ast.Name):
                a, b = pos(node.slice)
                out.append((a, b, node.slice.id + '-1', node.lineno))
            if isinstance(node, ast.Call) and len(node.args) >= 2 and all(isinstance(x, ast.Name) for x in node.args[:2]) and node.args[0].lineno == node.args[1].lineno:
                a, b = pos(node.args[0])[0], pos(node.args[1])[1]
                out.append((a, b, node.args[1].id + ', ' + node.args[0].id, node.lineno))
            if isinstance(node, ast.UnaryOp) and isinstance(node.op, ast.USub):
                a, b = pos(node)
                out.append((a, b, '(' + seg(*pos(node.operand)) + ')', node.lineno))
        for child in ast.iter_child_nodes(node):
            visit(child, inside)
    visit(ast.parse(text), False)
    return raw, out


def run(repo, ver, pid):
    p = subprocess.Popen(['nice', '-n', '5', '/opt/venv/bin/python', os.path.join(ver, 'check.py'), pid, 'quick'], cwd=ver, stdin=subprocess.DEVNULL, start_new_session=True,
                         env=dict(os.environ, VERIF_REPO=repo, VERIF_SEED='1', VERIF_TIER='quick'), stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    try:
        out = p.communicate(timeout=600)[0].decode()
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, signal.SIGKILL)
        p.communicate()
        return 'timeout'
    if p.returncode == 0:
        return ''
    return 'killed' if p.returncode == 1 and 'VIOLATION' in out else 'rc=%d' % p.returncode


def main():
    n, seed, files = int(sys.argv[1]), int(sys.argv[2]), sys.argv[3:]
    plan = {f: v for f, v in PLAN.items() if not files or any(x in f for x in files)}
    rng = random.Random(seed)
    tag = 'mut_%s_%d' % ('_'.join(files).replace('/', '-') or 'all', seed)
    repo, ver = '/tmp/%s_repo' % tag, '/tmp/%s_verif' % tag
    for d, s in ((repo, REPO), (ver, ROOT)):
        shutil.rmtree(d, ignore_errors=True)
        subprocess.check_call(['cp', '-a', s, d])
    pool = {}
    for f, (pids, skip) in plan.items():
        raw, out = changes(os.path.join(REPO, f), skip)
        rng.shuffle(out)
        pool[f] = (raw, out)
    done = 0
    names = sorted(pool)
    weights = [len(pool[f][1]) ** 0.5 for f in names]
    while done < n and any(pool[f][1] for f in names):
        f = rng.choices(names, weights)[0]
        raw, out = pool[f]
        if not out:
            continue
        a, b, new, line = out.pop()
        mut = raw[:a] + new.encode() + raw[b:]
        try:
            compile(mut, f, 'exec')
        except SyntaxError:
            continue
        with open(os.path.join(repo, f), 'wb') as h:
            h.write(mut)
        t = time.time()
        for pid in plan[f][0]:
            r = run(repo, ver, pid)
            if r:
                break
        full = raw.decode().splitlines()[line - 1].strip()
        k0 = raw.rfind(b'\n', 0, a) + 1
        k1 = mut.find(b'\n', a)
        print('%-8s %-4s %4.0f s  %s:%d  %s   ==>   %s' % (r or 'SURVIVED', pid if r else '', time.time() - t, f.split('/')[-1], line, full[:150], mut[k0:k1].decode().strip()[:150]))
        sys.stdout.flush()
        with open(os.path.join(repo, f), 'wb') as h:
            h.write(raw)
        done += 1
    shutil.rmtree(repo, ignore_errors=True)
    shutil.rmtree(ver, ignore_errors=True)


main()
