// Instantiates the real Mapping / Grid_Length of /repo for the verifier; wrappers only forward.
#include <new>
#include <array>
#include <cstdint>
#include <fstream>
#include <iostream>
#include "dccrg_mapping.hpp"
using namespace dccrg;
typedef std::array<uint64_t,3> A3;
typedef std::array<uint64_t,8> A8;
extern "C" {
void w_ctor(Mapping* m){ new (m) Mapping(); }
void w_ctor_len(Mapping* m, const A3* l){ new (m) Mapping(*l); }
void w_copy(Mapping* m, const Mapping* o){ new (m) Mapping(*o); }
int w_set_length(Mapping* m, const A3* l){ return m->set_length(*l) ? 1 : 0; }
int w_set_max(Mapping* m, int M){ return m->set_maximum_refinement_level(M) ? 1 : 0; }
int w_max_possible(const Mapping* m){ return m->get_maximum_possible_refinement_level(); }
int w_get_max(const Mapping* m){ return m->get_maximum_refinement_level(); }
uint64_t w_last(const Mapping* m){ return m->get_last_cell(); }
void w_get_length(const Mapping* m, A3* o){ *o = m->length.get(); }
uint64_t w_cell(const Mapping* m, const A3* i, int l){ return m->get_cell_from_indices(*i,l);}
void w_indices(const Mapping* m, uint64_t c, A3* o){ *o = m->get_indices(c);}
int w_level(const Mapping* m, uint64_t c){ return m->get_refinement_level(c);}
uint64_t w_clen(const Mapping* m, uint64_t c){ return m->get_cell_length_in_indices(c);}
uint64_t w_child(const Mapping* m, uint64_t c){ return m->get_child(c);}
uint64_t w_parent(const Mapping* m, uint64_t c){ return m->get_parent(c);}
uint64_t w_parent0(const Mapping* m, uint64_t c){ return m->get_level_0_parent(c);}
void w_children(const Mapping* m, uint64_t c, A8* o){ *o = m->get_all_children(c);}
void w_siblings(const Mapping* m, uint64_t c, A8* o){ *o = m->get_siblings(c);}
}
