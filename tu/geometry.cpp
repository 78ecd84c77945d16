// Instantiates the real geometries of /repo for the verifier; wrappers only forward.
#include "mapping.cpp"
#include <cmath>
#include "dccrg_topology.hpp"
#include "dccrg_no_geometry.hpp"
#include "dccrg_cartesian_geometry.hpp"
#include "dccrg_stretched_cartesian_geometry.hpp"
typedef std::array<double,3> D3;
typedef Cartesian_Geometry CG;
typedef No_Geometry NG;
typedef Grid_Topology GT;
typedef Stretched_Cartesian_Geometry SG;
extern "C" {
void t_ctor(GT* t){ new (t) GT(); }
void t_ctor3(GT* t, const std::array<bool,3>* p){ new (t) GT(*p); }
int t_set(GT* t, uint64_t d, int v){ return t->set_periodicity(d, v != 0) ? 1 : 0; }
int t_get(const GT* t, uint64_t d){ return t->is_periodic(d) ? 1 : 0; }

void p_ctor(CG::Parameters* p){ new (p) CG::Parameters(); }
void p_ctor2(CG::Parameters* p, const D3* s, const D3* l){ new (p) CG::Parameters(*s, *l); }
void c_ctor(CG* g, const Mapping* m, const GT* t){ new (g) CG(m->length, *m, *t); }
int c_set(CG* g, const CG::Parameters* p){ return g->set(*p) ? 1 : 0; }
int c_set_other(CG* g, const CG* o){ return g->set(*o) ? 1 : 0; }
void c_get(const CG* g, D3* s, D3* l){ *s = g->get().start; *l = g->get().level_0_cell_length; }
void c_get_start(const CG* g, D3* o){ *o = g->get_start(); }
void c_get_end(const CG* g, D3* o){ *o = g->get_end(); }
void c_get_len0(const CG* g, D3* o){ *o = g->get_level_0_cell_length(); }
void c_length(const CG* g, uint64_t c, D3* o){ *o = g->get_length(c); }
void c_center(const CG* g, uint64_t c, D3* o){ *o = g->get_center(c); }
void c_min(const CG* g, uint64_t c, D3* o){ *o = g->get_min(c); }
void c_max(const CG* g, uint64_t c, D3* o){ *o = g->get_max(c); }
void c_center_i(const CG* g, int l, const A3* i, D3* o){ *o = g->get_center(l, *i); }
uint64_t c_cell(const CG* g, int l, const D3* x){ return g->get_cell(l, *x); }
void c_real(const CG* g, const D3* x, D3* o){ *o = g->get_real_coordinate(*x); }
void c_indices(const CG* g, const D3* x, A3* o){ *o = g->get_indices(*x); }
uint64_t c_size(const CG* g){ return g->data_size(); }

void n_ctor(NG* g, const Mapping* m, const GT* t){ new (g) NG(m->length, *m, *t); }
int n_set(NG* g, const NG::Parameters* p){ return g->set(*p) ? 1 : 0; }
void n_get_start(const NG* g, D3* o){ *o = g->get_start(); }
void n_get_end(const NG* g, D3* o){ *o = g->get_end(); }
void n_get_len0(const NG* g, D3* o){ *o = g->get_level_0_cell_length(); }
void n_length(const NG* g, uint64_t c, D3* o){ *o = g->get_length(c); }
void n_center(const NG* g, uint64_t c, D3* o){ *o = g->get_center(c); }
void n_min(const NG* g, uint64_t c, D3* o){ *o = g->get_min(c); }
void n_max(const NG* g, uint64_t c, D3* o){ *o = g->get_max(c); }
void n_center_i(const NG* g, int l, const A3* i, D3* o){ *o = g->get_center(l, *i); }
uint64_t n_cell(const NG* g, int l, const D3* x){ return g->get_cell(l, *x); }
void n_real(const NG* g, const D3* x, D3* o){ *o = g->get_real_coordinate(*x); }
void n_indices(const NG* g, const D3* x, A3* o){ *o = g->get_indices(*x); }

void s_ctor(SG* g, const Mapping* m, const GT* t){ new (g) SG(m->length, *m, *t); }
const SG::Parameters* s_params(const SG* g){ return &g->get(); }
int s_set(SG* g, const SG::Parameters* p){ return g->set(*p) ? 1 : 0; }
int s_set_other(SG* g, const SG* o){ return g->set(*o) ? 1 : 0; }
void s_get_start(const SG* g, D3* o){ *o = g->get_start(); }
void s_get_end(const SG* g, D3* o){ *o = g->get_end(); }
void s_length(const SG* g, uint64_t c, D3* o){ *o = g->get_length(c); }
void s_center(const SG* g, uint64_t c, D3* o){ *o = g->get_center(c); }
void s_min(const SG* g, uint64_t c, D3* o){ *o = g->get_min(c); }
void s_max(const SG* g, uint64_t c, D3* o){ *o = g->get_max(c); }
void s_center_i(const SG* g, int l, const A3* i, D3* o){ *o = g->get_center(*i, l); }
uint64_t s_cell(const SG* g, int l, const D3* x){ return g->get_cell(l, *x); }
void s_real(const SG* g, const D3* x, D3* o){ *o = g->get_real_coordinate(*x); }
void s_indices(const SG* g, const D3* x, A3* o){ *o = g->get_indices(*x); }
}
