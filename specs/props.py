"""Which proof jobs and which executable contracts decide each property."""
import itertools
import mapping as mp
import geometry as ge
import grid as gr

ENGINE_TRUST = [
    'clang 18 / opt 18 (sroa, simplifycfg) translate /repo\'s headers to LLVM IR faithfully',
    'engine/ (IR parser, symbolic executor, VC generator; written for this task)',
    'z3 5.x and its linear real arithmetic; fastlin product lemmas (p>=0, m>=0 => p*m>=0)',
    'std::cerr / std::string output is modelled as having no effect on the grid',
]
ARITH = ['64- and 32-bit integers are modelled exactly (wrap-around, signed-overflow and shift obligations)']
LIBS = ('-ltrilinos_zoltan', '-lboost_program_options')


def levels():
    return range(mp.MAXLEVEL + 1)


def jobs_c01(tier):
    j = []
    for M in reversed(levels()):
        j.append(('level M=%d' % M, mp.job_level, (M,)))
        for l in range(M + 1):
            j.append(('cell M=%d l=%d' % (M, l), mp.job_cell, (M, l)))
            j.append(('indices M=%d l=%d' % (M, l), mp.job_indices, (M, l)))
        j.append(('badlevel M=%d' % M, mp.job_cell_badlevel, (M,)))
        j.append(('lemmas M=%d' % M, mp.job_c01_lemmas, (M,)))
    return j


def jobs_c02(tier):
    j = []
    for M in levels():
        j.append(('invalid M=%d' % M, mp.job_tree_bad, (M,)))
        for l in range(M + 1):
            j.append(('tree M=%d l=%d' % (M, l), mp.job_tree, (M, l)))
    return j


def jobs_c03(tier):
    j = [('max_possible', mp.job_maxposs, ())]
    for M in levels():
        j.append(('set_max M=%d' % M, mp.job_set_max, (M,)))
        j.append(('set_length M=%d' % M, mp.job_set_length, (M,)))
        j.append(('ctor M=%d' % M, mp.job_ctor, (M,)))
    return j


def hints_mapping(model, name):
    import re
    mm = re.search(r'M=(\d+)', name)
    M = int(mm.group(1)) if mm else 0
    ll = re.search(r'l=(\d+)', name)
    l = model.get('lvl', int(ll.group(1)) if ll else 0)
    L = [max(1, model.get('L%d' % i, 1)) for i in range(3)]
    c = model.get('cell')
    if c is None and ll:
        l0 = int(ll.group(1))
        v = []
        for n in 'abc':
            if n in model:
                v.append(model[n])
            else:
                v.append(model.get(n + 'q', 0) * 2 + model.get(n + 'r', 0))
        X, Y = L[0] << l0, L[1] << l0
        c = 1 + L[0] * L[1] * L[2] * mp.S(l0) + v[0] + v[1] * X + v[2] * X * Y
    c = (c or 1) & mp.U64
    ix = [model.get('i%d' % i, 0) & mp.U64 for i in range(3)]
    n = [model.get('n%d' % i, 1) & mp.U64 for i in range(3)]
    if not -2**31 <= l < 2**31:
        l = 0
    yield ' '.join(map(str, L + [M, c] + ix + [l] + n))


def runs_mapping(cx, trouble):
    t = 2 if cx.tier == 'quick' else 60
    if trouble:
        t = 20
    return [dict(args=['@P', cx.seed, t], timeout=t + 45)]


MAPPING_NATIVE = [dict(src='mapping_check.cpp', runs=runs_mapping, takes_hints=True)]
MAPPING_RULE = 'boundary-biased random grids (lengths, levels near the 64-bit limit), ids and indices plus all ids of grids up to 3x3x3 level 2; non-trivial: valid cell'

REALS = ARITH + ['doubles are modelled as real numbers: floating point rounding, infinities and (except where stated) NaN inputs are'
                 ' covered only by the bounded executable contracts in native/geometry_check.cpp',
                 'geometry proofs enumerate maximum level M = 0..%d and cell level l = 0..M and are symbolic in everything else' % mp.MAXLEVEL]
GTRUST = ENGINE_TRUST + ['std::vector<double> of the stretched geometry is modelled as (begin, size, immutable contents); its copy assignment has an assumed contract',
                         'get_refinement_level, get_indices and get_cell_from_indices are used through the contracts proved in C01']
PER = list(itertools.product((0, 1), repeat=3))


def jobs_c04(tier):
    j = []
    for k in 'cn':
        j.append(('tiling %s' % k, ge.job_tiling, (k,)))
        for M in levels():
            j.append(('invalid %s M=%d' % (k, M), ge.job_box_bad, (k, M)))
            for l in range(M + 1):
                j.append(('box %s M=%d l=%d' % (k, M, l), ge.job_box, (k, M, l)))
    for M in levels():
        j.append(('invalid s M=%d' % M, ge.job_sbad, (M,)))
        for l in range(M + 1):
            j.append(('box s M=%d l=%d' % (M, l), ge.job_sbox, (M, l)))
    return j


def jobs_c05(tier):
    j = []
    for M in levels():
        j.append(('index s M=%d' % M, ge.job_sindex, (M,)))
    for p in PER:
        j.append(('real s %s' % (p,), ge.job_sreal, (p,)))
        for k in 'cn':
            j.append(('real %s %s' % (k, p), ge.job_real, (k, p)))
    for k in 'cn':
        for M in levels():
            j.append(('index %s M=%d' % (k, M), ge.job_index, (k, M)))
    for M in levels():
        for l in range(M + 1):
            for k in 'cn':
                j.append(('lookup %s M=%d l=%d' % (k, M, l), ge.job_lookup, (k, M, l)))
            j.append(('lookup s M=%d l=%d' % (M, l), ge.job_slookup, (M, l)))
    return j


def jobs_c06(tier):
    return [('cartesian set', ge.job_params, ()), ('stretched set', ge.job_sset, ()), ('tiling c', ge.job_tiling, ('c',)), ('tiling n', ge.job_tiling, ('n',))]


def runs_geometry(cx, trouble):
    t = (8 if cx.prop == 'C06' else 3) if cx.tier == 'quick' else 60
    if trouble:
        t = max(t, 15)
    return [dict(args=['@P', cx.seed, t], timeout=t + 60, ranks=1)]


GEO_NATIVE = [dict(src='geometry_check.cpp', runs=runs_geometry)]
GEO_RULE = ('random grids (1..12 cells per dimension, levels 0..12), exactly representable and rounded parameters, '
            'coordinates at and next to cell and grid boundaries and many periods away; non-trivial: valid cell / coordinate inside / accepted set')

PROPS = {
    'C01': dict(level='proof', proof=[('mapping.cpp', jobs_c01)], native=MAPPING_NATIVE, hints=hints_mapping,
                trusted=ENGINE_TRUST, assumptions=ARITH, native_rule=MAPPING_RULE,
                contracts=['Mapping::get_cell_from_indices', 'Mapping::get_indices', 'Mapping::get_refinement_level',
                           'Mapping::get_cell_length_in_indices', 'Mapping::get_last_cell',
                           'Mapping::get_maximum_refinement_level']),
    'C02': dict(level='proof', proof=[('mapping.cpp', jobs_c02)], native=MAPPING_NATIVE, hints=hints_mapping,
                trusted=ENGINE_TRUST, assumptions=ARITH, native_rule=MAPPING_RULE,
                contracts=['Mapping::get_child', 'Mapping::get_all_children', 'Mapping::get_parent',
                           'Mapping::get_siblings', 'Mapping::get_level_0_parent']),
    'C03': dict(level='proof', proof=[('mapping.cpp', jobs_c03)], native=MAPPING_NATIVE, hints=hints_mapping,
                trusted=ENGINE_TRUST, assumptions=ARITH, native_rule=MAPPING_RULE,
                contracts=['Mapping::Mapping (default, from length, copy)', 'Mapping::set_length',
                           'Mapping::set_maximum_refinement_level', 'Mapping::get_maximum_possible_refinement_level',
                           'Grid_Length::set', 'Mapping::update_last_cell']),
    'C04': dict(level='proof', proof=[('geometry.cpp', jobs_c04)], native=GEO_NATIVE, trusted=GTRUST, assumptions=REALS, native_rule=GEO_RULE,
                contracts=['%s::%s' % (c, f) for c in ('Cartesian_Geometry', 'No_Geometry', 'Stretched_Cartesian_Geometry')
                           for f in ('get_start', 'get_end', 'get_length', 'get_center', 'get_min', 'get_max')]
                + ['Cartesian_Geometry::get_center(level, indices)', 'No_Geometry::get_center(level, indices)',
                   'Stretched_Cartesian_Geometry::get_level_0_cell_coord_start_index']),
    'C05': dict(level='proof', proof=[('geometry.cpp', jobs_c05)], native=GEO_NATIVE, trusted=GTRUST, assumptions=REALS, native_rule=GEO_RULE,
                contracts=['%s::%s' % (c, f) for c in ('Cartesian_Geometry', 'No_Geometry', 'Stretched_Cartesian_Geometry')
                           for f in ('get_real_coordinate', 'get_indices', 'get_cell')]),
    'C06': dict(level='proof', proof=[('geometry.cpp', jobs_c06)], native=GEO_NATIVE, trusted=GTRUST, assumptions=REALS, native_rule=GEO_RULE,
                contracts=['Cartesian_Geometry::set', 'Cartesian_Geometry::set(other)', 'Cartesian_Geometry::get',
                           'Cartesian_Geometry_Parameters(start, length)', 'Stretched_Cartesian_Geometry::set'],
                bounded_note='reading and writing geometry files, Stretched set(Cartesian) and the default coordinates are bounded executable contracts'),
}


def runs_grid(cx, trouble):
    if cx.tier == 'quick':
        plan = [(3, 20), (2, 12), (1, 5), (4, 14)]
        if cx.prop in ('C07', 'C08'):
            plan = [(2, 12), (1, 12), (3, 8)]
        if trouble:
            plan = [(r, t * 2) for r, t in plan]
    else:
        plan = [(1, 60), (2, 90), (3, 120), (4, 90), (5, 90), (7, 60)]
    return [dict(args=['@P', cx.seed + k, t], timeout=t + 90, ranks=r) for k, (r, t) in enumerate(plan)]


def runs_mpi(cx, trouble):
    plan = [(3, 6), (2, 4), (1, 2), (5, 6)] if cx.tier == 'quick' else [(n, 60) for n in (1, 2, 3, 4, 5, 7)]
    return [dict(args=['@P', cx.seed + k, t], timeout=t + 60, ranks=r) for k, (r, t) in enumerate(plan)]


GRID_NATIVE = [dict(src='grid_check.cpp', parts=(('-DPART=0',), ('-DPART=1',), ('-DPART=2',)), libs=LIBS, runs=runs_grid)]
MPI_NATIVE = [dict(src='mpi_check.cpp', runs=runs_mpi)]
GRID_BOUND = ('bounded stand-in, never counted as proved: the postconditions are evaluated on the compiled code of /repo against an independent '
              'brute force model, for random grids of up to 60 level-0 cells (1..6 per dimension; 3 % up to 13 per dimension), maximum level 0..3 (8 % of the grids up to 20), neighbourhood length 0..2, '
              'all periodicities, three geometries, histories of 4..12 operations, 1..4 processes (1..7 thorough), until the stated time is used')
GRID_RULE = ('one case = one random history (refine/unrefine/dont_* requests and commits, pins, weights, load balancing by 8 Zoltan methods, user '
             'neighbourhoods, copy updates) with every postcondition of the property evaluated on every process after every step; ')
GRID_TRUST = ['the brute force model in native/grid_check.cpp states the contract', 'MPI and Zoltan behave as documented',
              'g++ 13 compiles /repo faithfully']
GRID_ASSUME = ['cell ids fit ZOLTAN_ID_TYPE (32 bits in this installation) when load balancing with Zoltan',
               'collective functions are called by all processes with identical arguments, as documented']
TECH_B = 'executable contracts (postconditions and invariants of the real functions) evaluated on the compiled code; bounded stand-in for the parts outside the verifier\'s reach'


def bounded(nontrivial, contracts, native=GRID_NATIVE, **kw):
    d = dict(level='exploration', native=native, trusted=GRID_TRUST, assumptions=GRID_ASSUME, technique=TECH_B, contracts=contracts,
             native_rule=GRID_RULE + 'non-trivial: ' + nontrivial, bounded_note=GRID_BOUND)
    d.update(kw)
    return d


PROPS['C07'] = bounded('window inside the grid', ['Dccrg::indices_from_neighborhood', 'Grid_Topology::set_periodicity', 'Grid_Topology::is_periodic', 'Dccrg::get_neighborhood_of/to'])
PROPS['C08'] = bounded('location with an existing cell in the level range', ['Dccrg::get_existing_cell (indices)', 'Dccrg::get_existing_cell (coordinate)', 'Dccrg::indices_overlap', 'Dccrg::find_cells'])
PROPS['C09'] = bounded('cell with at least one neighbour', ['Dccrg::get_neighbors_of', 'Dccrg::get_neighbors_to', 'Dccrg::get_face_neighbors_of'])
PROPS['C10'] = bounded('state in which the partition was checked', ['Dccrg::initialize', 'Dccrg::stop_refining', 'Dccrg::get_all_cells'])
PROPS['C11'] = bounded('commit that refines or unrefines', ['Dccrg::refine_completely(_at)', 'Dccrg::unrefine_completely(_at)', 'Dccrg::dont_refine', 'Dccrg::dont_unrefine(_at)', 'Dccrg::stop_refining', 'Dccrg::get_removed_cells'])
PROPS['C12'] = bounded('cell whose data was compared', ['Dccrg::balance_load', 'Dccrg::initialize/continue/finish_balance_load', 'Dccrg::stop_refining', 'Dccrg::operator[]', 'Dccrg::clear_refined_unrefined_data'])
PROPS['C13'] = bounded('state or load balance in which owners were checked', ['Dccrg::get_process', 'Dccrg::is_local', 'Dccrg::get_cells', 'Dccrg::pin', 'Dccrg::unpin', 'Dccrg::unpin_local_cells', 'Dccrg::unpin_all_cells', 'Dccrg::set_cell_weight', 'Dccrg::get_cell_weight', 'Dccrg::balance_load'])
PROPS['C14'] = bounded('copy compared with the data of its owner', ['Dccrg::update_copies_of_remote_neighbors', 'Dccrg::start_remote_neighbor_copy_*', 'Dccrg::wait_remote_neighbor_copy_*', 'Dccrg::get_number_of_update_send/receive_cells'])
PROPS['C15'] = bounded('cell whose saved or loaded data was compared', ['Dccrg::save_grid_data', 'Dccrg::load_grid_data', 'Dccrg::start/continue/finish_loading_grid_data'])
PROPS['C16'] = bounded('non-empty contribution', ['All_Gather', 'All_Reduce', 'Some_Reduce', 'Is_Named_Datatype'], native=MPI_NATIVE,
                       native_rule='random sizes (0..60000), values, neighbour graphs, communicators and delays of single processes; non-trivial: non-empty contribution',
                       bounded_note='bounded stand-in, never counted as proved: 1..5 processes (1..7 thorough), sizes up to 60000',
                       assumptions=[], trusted=['MPI behaves as documented', 'g++ 13 compiles /repo faithfully'])
PROPS['C17'] = bounded('state with cells on a process boundary', ['Dccrg::get_cells', 'Dccrg::is_neighbor_type_match', 'Dccrg::get_(local|remote)_cells_(not_)on_process_boundary', 'Dccrg::inner_cells/outer_cells/local_cells/remote_cells/all_cells'])
PROPS['C18'] = bounded('refused operation', ['every public function of Dccrg that takes a cell, process, neighbourhood id, coordinate or partitioning level'])


# ---- deductive parts of C02, C07, C08, C13, C18 on Dccrg itself
def jobs_family(tier):
    return [('family M=%d l=%d' % (M, l), gr.job_family, (M, l)) for M in reversed(levels()) for l in range(M + 1)]


def jobs_c07(tier):
    return [('topology', ge.job_topology, ())]


def jobs_window(tier):
    if tier == 'quick':
        w = [(2, 1, p) for p in PER] + [(0, 0, (1, 1, 1)), (21, 21, (1, 0, 1)), (21, 0, (0, 1, 0)), (12, 7, (0, 0, 0))]
    else:
        w = [(M, l, p) for M in levels() for l in sorted({0, M // 2, M}) for p in PER]
    return [('window M=%d l=%d %s' % x, gr.job_window, x) for x in sorted(w, key=lambda x: -sum(x[2]))]


def jobs_c08(tier):
    j = [('overlap', gr.job_overlap, ())]
    for M in reversed(levels()):
        his = None if tier != 'quick' or M <= 8 else sorted({0, 1, M // 2, M - 1, M})
        j.append(('existing M=%d' % M, gr.job_existing, (M, his)))
        j.append(('overlapping M=%d' % M, gr.job_overlapping, (M,)))
    for M in (levels() if tier != 'quick' else (2,)):
        for p in (PER if tier != 'quick' else [(0, 1, 0)]):
            j.append(('is_neighbor M=%d %s' % (M, p), gr.job_is_neighbor, (M, p)))
    return j


def jobs_owner(tier):
    return [('owner', gr.job_owner, ())]


def jobs_requests(tier):
    return [('refine', gr.job_refine, ()), ('unrefine', gr.job_unrefine, ()), ('donts', gr.job_donts, ())]


STL_TRUST = ['libstdc++: count, at, operator[], insert(key) and erase(key) of std::unordered_map/set behave as on a finite map (assumed contracts); std::min, std::max']
INV = ['grid invariant on entry, checked for whole histories by the bounded contracts: cell_process maps exactly the existing cells to a process < comm_size, '
       'existing cells have no existing children']
PROPS['C02']['proof'].append(('grid.cpp', jobs_family))
PROPS['C02']['contracts'] += ['Dccrg::get_child', 'Dccrg::get_parent']
PROPS['C02']['trusted'] = PROPS['C02']['trusted'] + STL_TRUST
TECH_M = ('contracts on the real functions discharged deductively (VCs from clang IR, z3) for the functions listed as proved; '
          'bounded executable contracts on the compiled code for the rest')


def partly(i, proof, proved):
    p = PROPS[i]
    p['proof'] = proof
    p['trusted'] = ENGINE_TRUST + STL_TRUST + p['trusted']
    p['assumptions'] = ARITH + INV + p['assumptions']
    p['technique'] = TECH_M
    p['note'] = 'proved for all inputs: ' + ', '.join(proved) + '; the rest of the property is bounded exploration of the compiled code, not counted as proved'
    p['contracts'] = [x + ' (proved)' for x in proved] + p['contracts']


partly('C07', [('geometry.cpp', jobs_c07), ('grid.cpp', jobs_window)], ['Dccrg::indices_from_neighborhood', 'Grid_Topology::set_periodicity', 'Grid_Topology::is_periodic', 'Grid_Topology()'])
partly('C08', [('grid.cpp', jobs_c08)], ['Dccrg::get_existing_cell (indices)', 'Dccrg::indices_overlap (ranges and boxes)', 'Dccrg::overlapping_indices', 'Dccrg::is_neighbor'])
partly('C13', [('grid.cpp', jobs_owner)], ['Dccrg::get_process', 'Dccrg::is_local', 'Dccrg::pin', 'Dccrg::unpin', 'Dccrg::set_cell_weight', 'Dccrg::get_cell_weight'])
REQ = ['Dccrg::refine_completely', 'Dccrg::unrefine_completely', 'Dccrg::dont_refine', 'Dccrg::dont_unrefine']
partly('C11', [('grid.cpp', jobs_requests)], [x + ' (the id overload)' for x in REQ])
partly('C18', [('grid.cpp', lambda tier: jobs_owner(tier) + jobs_requests(tier))], REQ + ['Dccrg::get_process', 'Dccrg::is_local', 'Dccrg::pin', 'Dccrg::unpin', 'Dccrg::set_cell_weight', 'Dccrg::get_cell_weight'])

NA = {}
