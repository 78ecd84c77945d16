#!/usr/bin/env python3
"""writes properties.jsonl"""
import json
P=[]
def p(id,title,statement,over,text,why,files,mech,state=(),obs=()):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],
                   state=[dict(name=n,meaning=m,where=w) for n,m,w in state],observe_at=list(obs),hook_needed=None)))
M='dccrg_mapping.hpp';D='dccrg.hpp'
p('C01','Cell ids and grid locations are in exact one-to-one correspondence',
 'For every grid length and maximum refinement level, converting a location and refinement level to a cell id and converting an id back to its level and location are exact inverses: every id from 1 to the largest id denotes exactly one cell, different cells have different ids, and the location returned for an id is the corner of that cell. Locations or levels outside the grid give the error cell, and ids outside 1..largest give the error level and error indices. No conversion overflows, reads out of bounds or aborts.',
 ['inputs','configurations'],'all grid lengths and maximum refinement levels whose ids fit 64 bits, all 64-bit ids, all indices, all levels',
 'The tests convert a few ids on a few small grids; the id space has up to 2^64-1 ids and formulas that go wrong only at large lengths, unequal dimensions or high levels.',
 [M],[('Mapping::get_cell_from_indices',M),('Mapping::get_indices',M),('Mapping::get_refinement_level',M),('Mapping::get_last_cell',M)],
 [('length, max_refinement_level, last_cell','grid shape that defines the id layout',M)],['Mapping public API','Dccrg::mapping'])
p('C02','The refinement tree is consistent: parent, children, siblings and level-0 ancestor',
 'Each cell below the maximum refinement level has exactly eight distinct children one level finer which together tile exactly the volume of the cell, in a fixed x-fastest order; the parent of each child is that cell, and a level 0 cell is its own parent and its own level-0 ancestor. The siblings of a refined cell are exactly the children of its parent (a level 0 cell is its own only sibling), and the level-0 ancestor is the cell reached by repeatedly taking the parent. Invalid cells give the error cell.',
 ['inputs','configurations'],'all valid grids, all cells, all 64-bit ids',
 'Tests look at children and parents of a handful of cells of small grids; the relation must hold for each of up to 2^64 cells.',
 [M,D],[('Mapping::get_all_children',M),('Mapping::get_parent',M),('Mapping::get_siblings',M),('Mapping::get_level_0_parent',M),('Mapping::get_child',M),('Dccrg::get_child/get_parent',D)],(),['Mapping public API'])
p('C03','Only representable grid configurations are accepted; rejection changes nothing',
 'A grid length or maximum refinement level is accepted exactly when every length is positive, the level is not negative, and all resulting cell ids fit into 64 bits; then the reported length, level and largest id are the requested ones. A rejected request reports failure and leaves the previous configuration entirely unchanged. The reported largest possible refinement level is exactly the largest level that would be accepted.',
 ['inputs','configurations','histories'],'all lengths (3x64 bits), all levels, all sequences of accepted and rejected requests',
 'Tests never approach the 64-bit limit, where wrapped products or rounded floating-point logarithms accept a grid whose ids collide.',
 [M,'dccrg_length.hpp'],[('Mapping::set_length',M),('Mapping::set_maximum_refinement_level',M),('Mapping::get_maximum_possible_refinement_level',M),('Grid_Length::set','dccrg_length.hpp'),('Mapping::update_last_cell',M)],(),['Mapping::length.get()','get_maximum_refinement_level','get_last_cell'])
G='dccrg_cartesian_geometry.hpp';S='dccrg_stretched_cartesian_geometry.hpp';N='dccrg_no_geometry.hpp'
p('C04','Cell geometry tiles the grid volume',
 'In every geometry the box reported for a cell (minimum, maximum, center, length) is the box of its id: length is maximum minus minimum and positive, center is the midpoint, cells of one level adjacent in id space share a face coordinate, and the first and last cells touch the start and end of the grid. The eight children of a cell tile exactly its box. For invalid cells each of these returns not-a-number.',
 ['inputs','configurations'],'all valid grids and geometry parameters, all cells, for the three provided geometries',
 'Tests compare a few centers and lengths on small regular grids; a wrong scaling at some level, a swapped dimension or a boundary slip elsewhere goes unseen.',
 [G,S,N],[('get_length/get_center/get_min/get_max/get_start/get_end',G),('same',S),('same',N)],(),['Dccrg::geometry'])
p('C05','Coordinate lookup returns the cell that contains the coordinate',
 'For any coordinate inside the grid and any refinement level, the cell returned by the geometry at that level contains the coordinate in its box, including coordinates on the boundary of the grid. Along a periodic dimension a coordinate outside the grid is first shifted by a whole number of grid lengths into the grid; along a non-periodic dimension it gives not-a-number, the error index and the error cell.',
 ['inputs','configurations'],'all coordinates, levels, geometry parameters and periodicities for the three provided geometries',
 'Tests look up a few interior coordinates; boundary coordinates, periodic images and stretched cell boundaries are not sampled.',
 [G,S,N],[('get_cell/get_indices/get_real_coordinate',G),('get_cell/get_indices/get_real_coordinate',S),('same',N)],(),['Dccrg::geometry.get_cell','get_indices','get_real_coordinate'])
p('C06','Geometry parameters are validated and applied atomically',
 'Setting geometry parameters succeeds exactly when they describe a non-degenerate grid (positive cell lengths; for the stretched geometry, strictly increasing boundaries numbering one more than the grid length in each dimension); on success the geometry reports exactly those parameters and on failure it is entirely unchanged. Copying or re-reading the parameters reproduces the same geometry.',
 ['inputs','histories'],'all parameter values, all orders of accepted and rejected settings',
 'Tests only set valid parameters.',
 [G,S,N],[('Cartesian_Geometry::set',G),('Stretched_Cartesian_Geometry::set',S),('No_Geometry::set',N)],(),['geometry.get()','geometry.get_start/get_end'])
p('C07','Topology and neighbourhood windows respect periodicity and grid edges',
 'The cells in the neighbourhood window of a cell are those of its own size displaced by each neighbourhood offset times the cell size: along periodic dimensions the displacement wraps around any number of times and along others a displacement leaving the grid yields no cell. Periodicity set for a dimension is reported for that dimension only, and invalid dimensions are refused.',
 ['inputs','configurations'],'all grids, cells, neighbourhood offsets (also longer than the grid) and periodicities',
 'Tests use small offsets on a few grids; wrapping more than once, large cells and mixed periodicity are not reached.',
 [D,'dccrg_topology.hpp'],[('Dccrg::indices_from_neighborhood',D),('Grid_Topology::set_periodicity/is_periodic','dccrg_topology.hpp')],(),['get_neighbors_of','indices_from_neighborhood'])
p('C08','Existing-cell lookup and overlap tests are exact',
 'Looking up the smallest existing cell at a location within a range of refinement levels returns the existing cell of that range which contains the location, and the error cell when there is none. Overlap tests between two cells report exactly whether the boxes of the cells intersect, and the neighbour test reports exactly whether one box touches the neighbourhood of the other.',
 ['inputs','configurations','histories'],'all grids, all sets of existing cells, all locations and level ranges',
 'Tests only reach these through whole-grid runs on small grids.',
 [D],[('Dccrg::get_existing_cell',D),('Dccrg::indices_overlap/overlapping_indices',D),('Dccrg::is_neighbor',D)],(),['get_existing_cell'])
p('C09','Neighbour lists are complete, exact and mutually inverse',
 'After every operation that changes the grid, the neighbours of each local cell are exactly the existing cells that overlap its neighbourhood window, with correct offsets and in the documented order of the neighbourhood offsets, for the default and for every user-defined neighbourhood; the cells that list it as a neighbour are exactly the inverse relation. Face neighbours are exactly the existing cells that share a face, with the correct direction.',
 ['inputs','configurations','histories','schedules'],'all grids, neighbourhoods, periodicities, refinement histories, partitions and process counts',
 'Tests check neighbours on some uniform or hand-refined grids; the relation must hold after every history on any number of processes.',
 [D],[('find_neighbors_of',D),('find_neighbors_to',D),('update_neighbors',D),('update_neighbors_',D),('get_face_neighbors_of',D),('initialize_neighbors',D)],(),['get_neighbors_of','get_neighbors_to','get_face_neighbors_of'])
p('C10','The existing cells always partition the grid and stay 2:1 balanced',
 'After initialisation and after every committed refinement, every point of the grid volume lies in exactly one existing cell, every process agrees on the set of existing cells, and cells in each other\'s neighbourhood differ by at most one refinement level. No cell exceeds the maximum refinement level or is coarser than level 0.',
 ['histories','inputs','schedules','configurations'],'all sequences of refinement, unrefinement, commit and load balance requests from any process, all process counts',
 'Tests run a few refinement sequences; induced refinement has to propagate over arbitrary distance and across processes.',
 [D],[('stop_refining',D),('induce_refines',D),('override_unrefines',D),('execute_refines',D)],(),['get_cells','get_cell_process'])
p('C11','Refinement requests are honoured with their documented priorities',
 'A cell requested to be refined is refined at commit if it exists, is local, is below the maximum level and is not vetoed by a do-not-refine request reaching it; cells are unrefined only if requested for one of the siblings, all siblings exist, no refine or do-not-unrefine request vetoes it and the result stays balanced. Requests on invalid, nonexistent or non-local cells are refused without effect, as are requests that the other requests already made forbid. The lists of new and removed cells reported after a commit are exactly the cells created and removed, and requests do not survive the commit, except do-not-refine requests which hold until the next load balancing.',
 ['histories','inputs','schedules'],'all combinations of refine, unrefine, dont_refine, dont_unrefine requests for all cells on all processes',
 'Tests issue one kind of request at a time on fixed grids.',
 [D],[('refine_completely',D),('unrefine_completely',D),('dont_refine',D),('dont_unrefine',D),('override_refines',D),('override_unrefines',D),('stop_refining',D)],(),['stop_refining','get_removed_cells','get_cells'])
p('C12','Cell data survives load balancing and adaptation unchanged',
 'Load balancing moves every cell with its data to its new owner and loses, duplicates or alters none; data of cells not touched by a refinement commit is unchanged, refined parents\' data remain readable until cleared and data of removed cells is available on the process that owns the parent. ',
 ['histories','schedules','configurations','inputs'],'all sequences of load balancing, refinement and commits, all partitions, process counts and cell data sizes',
 'Tests sum or spot check data in a few balancing runs.',
 [D],[('balance_load',D),('initialize_balance_load',D),('continue_balance_load',D),('finish_balance_load',D),('execute_refines',D),('move_cells',D)],(),['operator[]','get_cells'])
p('C13','Every cell has exactly one owner, known to all processes; pins are honoured',
 'At every quiescent point each existing cell is owned by exactly one process, all processes agree which, and the local cells of a process are exactly those it owns. The initial partition gives each process a share of the cells differing by at most one cell from any other, and after load balancing every pinned cell is on the process it was pinned to until unpinned. Pin requests for nonexistent or non-local cells or invalid processes are refused without effect. Weights set for cells are reported unchanged, inherited by their children and used by the next load balancing.',
 ['histories','schedules','configurations','inputs'],'all grid sizes, process counts, pin and unpin histories, refinement histories',
 'Tests use divisible grids and few pins.',
 [D],[('create_level_0_cells',D),('make_new_partition',D),('update_pin_requests',D),('pin/unpin',D)],(),['get_process','is_local','get_cells'])
p('C14','Ghost updates deliver the owner\'s current data',
 'After an update of copies of remote neighbours, each process holds for every remote neighbour of its cells, in the default or the given user neighbourhood, exactly the data its owner held when the update started. What one process sends to another is exactly, and in the same order, what the other expects to receive, whether updates are blocking or split.',
 ['histories','schedules','configurations','inputs'],'all grids, neighbourhoods, partitions, refinement histories, process counts and data layouts',
 'Tests run stencils whose result hides missing or misordered transfers on symmetric data.',
 [D],[('recalculate_neighbor_update_send_receive_lists',D),('start_remote_neighbor_copy_updates',D),('start_user_data_sends/receives',D),('update_remote_neighbor_info',D)],(),['operator[] of remote neighbours','get_cells_to_send','get_cells_to_receive'])
p('C15','Saving and loading a grid is lossless',
 'Loading a saved file, on any number of processes, reproduces the same grid length, maximum level, periodicity, geometry, existing cells and cell data as saved, and the file content does not depend on how the grid was distributed beyond cell order. Saved header data is returned unchanged.',
 ['histories','configurations','schedules','inputs'],'all grids, refinement states, geometries, data sizes and process counts on the saving and the loading side',
 'Tests restart a few runs with the same geometry and process count.',
 [D,M,'dccrg_topology.hpp',G,S,N],[('save_grid_data',D),('load_grid_data / start_loading_grid_data / continue_loading_grid_data',D),('load_cells',D),('write/read',M),('write/read','dccrg_topology.hpp'),('write/read',G)],(),['file bytes','get_cells','operator[]'])
p('C16','Collective helper operations equal their mathematical definition',
 'The all-gather helpers return on every process, indexed by process, exactly the values contributed by each process, for any sizes including empty contributions; the partial reduction returns on each process the sum over the processes that named each other. The result is the same on every process regardless of timing.',
 ['inputs','schedules','configurations'],'all contribution sizes and values, all process counts',
 'Tests check a few sizes.',
 ['dccrg_mpi_support.hpp'],[('All_Gather','dccrg_mpi_support.hpp'),('All_Reduce','dccrg_mpi_support.hpp'),('Some_Reduce','dccrg_mpi_support.hpp')],(),['All_Gather','Some_Reduce'])
p('C17','Cell listings and classifications are exact',
 'The lists and iterators over cells return exactly the cells that match the requested criteria: inner cells have no remote neighbours in either direction, outer cells have at least one, inner and outer partition the local cells, and remote cells are exactly the cells of other processes that are neighbours of or have as neighbours local cells. Neighbour-type filters and exact or inclusive matching agree with the neighbour lists.',
 ['histories','configurations','inputs'],'all criteria combinations, neighbourhoods, partitions, refinement histories and process counts',
 'Tests iterate fixed grids with one criterion at a time.',
 [D,'dccrg_iterator_support.hpp'],[('get_cells',D),('is_neighbor_type_match',D),('inner_cells/outer_cells/local_cells/remote_cells',D),('update_cell_pointers',D)],(),['get_cells','inner_cells()','outer_cells()','local_cells()','remote_cells()','all_cells()'])
p('C18','Misuse is refused without side effects',
 'Operations given a cell that does not exist, is not local or is the error cell, an unknown neighbourhood id, an invalid process, partitioning level or option, report failure (false, null, error value or empty result, or a documented exception) and leave the grid unchanged. Two valid settings do not interfere with each other.',
 ['inputs','histories'],'all arguments and all states of the grid',
 'Tests call the API with valid arguments almost everywhere.',
 [D],[('add_partitioning_level/remove_partitioning_level/add_partitioning_option',D),('add_neighborhood/remove_neighborhood',D),('pin/unpin',D),('set_cell_weight/get_cell_weight',D),('operator[]',D)],(),['public API return values'])
with open('/verif/properties.jsonl','w') as f:
    for x in P: f.write(json.dumps(x)+'\n')
