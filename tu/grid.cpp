// Instantiates members of the real Dccrg of /repo for the verifier (compiled with -fno-access-control);
// the wrappers only forward. The m_* wrappers give the addresses of data members.
#include "mapping.cpp"
#include <cmath>
#include <tuple>
#include "dccrg.hpp"
#include "dccrg_cartesian_geometry.hpp"
typedef std::array<double,3> D3;
struct Cell { int data; std::tuple<void*,int,MPI_Datatype> get_mpi_datatype() { return std::make_tuple((void*)&data,1,MPI_INT); } };
typedef Dccrg<Cell, Cartesian_Geometry> G;
typedef std::vector<Types<3>::neighborhood_item_t> Hood;
typedef Types<3>::indices_t Ix;
extern "C" {
#define MEMBER(n) void* m_##n(G* g){ return (void*)&g->n; }
MEMBER(mapping_rw) MEMBER(topology_rw) MEMBER(geometry_rw) MEMBER(rank) MEMBER(comm_size) MEMBER(neighborhood_length) MEMBER(grid_initialized)
MEMBER(cell_data) MEMBER(neighbors_of) MEMBER(neighbors_to) MEMBER(user_neigh_of) MEMBER(user_neigh_to) MEMBER(user_hood_of) MEMBER(user_hood_to)
MEMBER(cell_process) MEMBER(local_cells_on_process_boundary) MEMBER(remote_cells_on_process_boundary) MEMBER(user_local_cells_on_process_boundary)
MEMBER(user_remote_cells_on_process_boundary) MEMBER(remote_neighbors) MEMBER(cells_to_send) MEMBER(cells_to_receive) MEMBER(added_cells) MEMBER(removed_cells)
MEMBER(cells_to_refine) MEMBER(cells_to_unrefine) MEMBER(cells_not_to_refine) MEMBER(cells_not_to_unrefine) MEMBER(refined_cell_data) MEMBER(unrefined_cell_data)
MEMBER(pin_requests) MEMBER(new_pin_requests) MEMBER(cell_weights) MEMBER(balancing_load) MEMBER(max_ref_lvl_diff) MEMBER(neighborhood_of) MEMBER(neighborhood_to)
uint64_t m_size(){ return sizeof(G); }
void g_ctor(G* g){ new (g) G(); }
void t_ctor(Grid_Topology* t){ new (t) Grid_Topology(); }
int t_set(Grid_Topology* t, uint64_t d, int v){ return t->set_periodicity(d, v != 0) ? 1 : 0; }

int g_overlap1(const G* g, uint64_t a, uint64_t n, uint64_t b, uint64_t k){ return g->indices_overlap(a, n, b, k) ? 1 : 0; }
int g_overlap3(const G* g, const Ix* a, uint64_t n, const Ix* b, uint64_t k){ return g->indices_overlap(*a, n, *b, k) ? 1 : 0; }
int g_overlapping(const G* g, uint64_t a, uint64_t b){ return g->overlapping_indices(a, b); }
uint64_t g_existing(const G* g, const Ix* i, int lo, int hi){ return g->get_existing_cell(*i, lo, hi); }
int g_is_neighbor(const G* g, uint64_t a, uint64_t b){ return g->is_neighbor(a, b) ? 1 : 0; }
uint64_t g_child(const G* g, uint64_t c){ return g->get_child(c); }
uint64_t g_parent(const G* g, uint64_t c){ return g->get_parent(c); }
int g_is_local(const G* g, uint64_t c){ return g->is_local(c) ? 1 : 0; }
int g_process(const G* g, uint64_t c){ return g->get_process(c); }
int g_pin(G* g, uint64_t c, int p){ return g->pin(c, p) ? 1 : 0; }
int g_pin1(G* g, uint64_t c){ return g->pin(c) ? 1 : 0; }
int g_unpin(G* g, uint64_t c){ return g->unpin(c) ? 1 : 0; }
int g_set_weight(G* g, uint64_t c, double w){ return g->set_cell_weight(c, w) ? 1 : 0; }
double g_get_weight(const G* g, uint64_t c){ return g->get_cell_weight(c); }
const Cell* g_data(const G* g, uint64_t c){ return (*g)[c]; }
Cell* g_data_m(G* g, uint64_t c){ return (*g)[c]; }
int g_refine(G* g, uint64_t c){ return g->refine_completely(c) ? 1 : 0; }
int g_unrefine(G* g, uint64_t c){ return g->unrefine_completely(c) ? 1 : 0; }
int g_dont_refine(G* g, uint64_t c){ return g->dont_refine(c) ? 1 : 0; }
int g_dont_unrefine(G* g, uint64_t c){ return g->dont_unrefine(c) ? 1 : 0; }
const void* g_neighbors_of(const G* g, uint64_t c, int id){ return g->get_neighbors_of(c, id); }
const void* g_neighbors_to(const G* g, uint64_t c, int id){ return g->get_neighbors_to(c, id); }
void g_window(const G* g, const Ix* i, uint64_t n, const Hood* h, std::vector<Ix>* o){ new (o) std::vector<Ix>(g->indices_from_neighborhood(*i, n, *h)); }
}
