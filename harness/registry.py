"""Which harness module decides which property."""
CHECKS = {}


def add(pid, module, rule, **kw):
    CHECKS[pid] = dict(module=module, rule=rule, **kw)


MESH = ('a trace is a problem (layout, cell count, geometry, speeds, wall, source time) and a history of requested '
        'times drawn by quint run from spec/mesh.qnt; distinct = different problems, all have at least one move')
add('P01', 'p_mesh', MESH)
add('P02', 'p_mesh', MESH)
add('P03', 'p_mesh', MESH)
add('P04', 'p_flux', 'each state is one evaluation for every cell: grid, face speeds, direction, state and end settings drawn from '
    'spec/flux.qnt; distinct by (cells, order, geometry, ends, direction)')
add('P05', 'p_slab', 'each state is one evaluation of the slab derivative for a problem (grid, order, directions, cross sections, opacity, '
    'source, ends), time and state drawn from spec/slab.qnt; distinct by problem and time')
add('P06', 'p_sphere', 'each state is one evaluation of the spherical derivative for a problem (grid, order, directions, cross sections), '
    'time and state drawn from spec/sphere.qnt; distinct by problem and time')
add('P07', 'p_history', 'a trace is a problem (geometry, layout, motion, order, directions, opacity, source treatment) and a history of '
    'requests (times forward, backward, repeated; combinations of two states) drawn from spec/history.qnt; every answer is compared '
    'with the one of untouched objects; distinct by problem')
add('P11', 'p_uncollided', 'each state is a source (kind, width, switch-off time, strength, geometry, directions), a time and positions drawn from '
    'spec/uncollided.qnt; values, mirror images and the total number are compared; distinct by kind, size and time')
add('P10', 'p_sources', 'each state is a source (kind, treatment, order, rule, directions, geometry), a grid and a time drawn from spec/sources.qnt; '
    'distinct by problem and time')
add('P09', 'p_collide', 'a trace is a medium (opacity, orders, rule, directions, cross sections) and a history of grids, times and states '
    'drawn from spec/collide.qnt; distinct by medium, grid and time')
add('P12', 'p_outputs', 'each state is a grid with coefficients (order, directions, geometry, energy row), a list of points (inside, outside, on edges, '
    'repeated, unsorted) and a treatment of the uncollided part drawn from spec/outputs.qnt; distinct by setting, grid and points')
add('P13', 'p_start', 'each state is a problem (layout, geometry, order, rule, directions, treatment) drawn from spec/start.qnt; distinct by problem')
add('P08', 'p_matrices', 'a trace is one matrix object (geometry, order) asked for a history of cells (ends and end velocities) drawn from spec/matrices.qnt, '
    'and coefficient files with drawn contents; distinct by geometry, order and cell')
add('P21', 'p_closure', 'a trace is one temperature law (kind, order, rule, heat capacity) asked for a history of cells and energies drawn from '
    'spec/closure.qnt; distinct by law and cell')
add('P19', 'p_spline', 'each state is a set of knots with data and points, a table with points, a linear system or a sequence of row swaps drawn '
    'from spec/spline.qnt; distinct by those', optimised=True)
add('P20', 'p_basis', 'each state is a cell, an order and points inside, at the ends and outside of it drawn from spec/basis.qnt; distinct by cell and order')
add('P18', 'p_rules', 'each state is a rule (name, size) with a polynomial and a grid with an order drawn from spec/rules.qnt; distinct by rule, '
    'degree, cells and order')
add('P14', 'p_store', 'a trace is a history of saves and loads of solutions and waves drawn from spec/store.qnt, replayed in a fresh data folder; every record '
    'is read back at the end; distinct by history')
add('P17', 'p_run', 'each state is a complete run: problems drawn from spec/runs.qnt and carried to two times by the specification, and problems with '
    'drawn treatments from spec/tally.qnt whose number, mean and spread are known; distinct by problem and treatment')
add('P15', 'p_config', 'a trace is a sequence of configurations and of studies (commands by name, one way or all four) drawn from spec/config.qnt, every '
    'parameter of every run compared, the results kept and the records of the store read back; distinct by configuration')
add('P22', 'p_references', 'each state is a medium (travelling density jump, travelling bell, standing bell), a time, directions and positions drawn from '
    'spec/references.qnt; distinct by medium and time')
add('P23', 'p_bench', 'each state is a file of benchmark tables and a study with the comparison switched on (source, time, ratio, coupling, lists, positions '
    'and values returned by its runs) drawn from spec/bench.qnt; distinct by study')
