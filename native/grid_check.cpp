// Executable contracts of the distributed grid: random histories of collective operations on the real
// code, every postcondition compared with an independent brute force model on every process.
// usage: mpiexec -n N grid_check PROPERTY SEED SECONDS
// bounded: grids of at most a few hundred cells, N processes, the histories generated from SEED.
#include <algorithm>
#include <array>
#include <chrono>
#include <cstdint>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <functional>
#include <iostream>
#include <map>
#include <random>
#include <set>
#include <sstream>
#include <string>
#include <unistd.h>
#include <vector>
#include "mpi.h"
#include "zoltan.h"
#include "dccrg.hpp"
#include "dccrg_cartesian_geometry.hpp"
#include "dccrg_stretched_cartesian_geometry.hpp"
#include "dccrg_no_geometry.hpp"
using namespace std;
typedef uint64_t U;
typedef array<U,3> A3;
typedef array<int,3> I3;
typedef array<U,4> D4;
typedef vector<pair<U,I3>> NL;

inline int rnk, nproc;
inline long evals=0, nontriv=0;
inline string context, P; inline U casenr=0;
inline mt19937_64 rng;            // identical stream on every process
static U R(U n){ return n ? rng()%n : 0; }
static bool chance(int pct){ return (int)R(100)<pct; }
[[noreturn]] static void fail(const string& what){
  cout<<"\nFAIL "<<P<<" case "<<casenr<<" rank "<<rnk<<" of "<<nproc<<" "<<context<<": "<<what<<endl; cout.flush(); usleep(300000); _Exit(1); }
template<class T> static string S(const T& x){ ostringstream o; o<<x; return o.str(); }
template<class T> static string LS(const T& v){ ostringstream o; o<<"["; int n=0; for(auto&x:v){ if(n++>40){o<<"...";break;} o<<x<<" "; } o<<"]"; return o.str(); }
static string NS(const NL& v){ ostringstream o; o<<"["; int n=0; for(auto&x:v){ if(n++>40){o<<"...";break;} o<<x.first<<"@"<<x.second[0]<<","<<x.second[1]<<","<<x.second[2]<<" "; } o<<"]"; return o.str(); }
#define CHECK(c,msg) do{ evals++; if(!(c)) fail(msg); }while(0)

struct Data {
  U a[4]={0,0,0,0};
  inline static int mode=0, phase=2, watch=0, want_id=0;  // watch: arguments are checked, 2: also the neighbourhood id
  tuple<void*,int,MPI_Datatype> get_mpi_datatype(const uint64_t cell, const int sender, const int receiver, const bool receiving, const int id) const {
    MPI_Datatype t;
    if(watch){ if((receiving?receiver:sender)!=rnk||(receiving?sender:receiver)<0||(receiving?sender:receiver)>=nproc||sender==receiver) fail("get_mpi_datatype of cell "+S(cell)+" called with sender "+S(sender)+" receiver "+S(receiver)+" receiving "+S(receiving));
      if(!receiving&&a[0]!=cell) fail("get_mpi_datatype called with cell "+S(cell)+" on the data of cell "+S(a[0]));
      if(watch==2&&id!=want_id) fail("get_mpi_datatype of cell "+S(cell)+" called with neighbourhood "+S(id)+" during an update of "+S(want_id)); }
    switch(mode){
    case 1: MPI_Type_contiguous(4,MPI_UINT64_T,&t); return make_tuple((void*)a,1,t);
    case 2: MPI_Type_contiguous(2,MPI_UINT64_T,&t); return make_tuple((void*)a,2,t);
    case 3: { int l[2]={2,1}; int d[2]={0,3}; MPI_Type_indexed(2,l,d,MPI_UINT64_T,&t); return make_tuple((void*)a,1,t); }
    case 6: if(watch==2&&id>0) return make_tuple((void*)a,2,MPI_UINT64_T); return make_tuple((void*)a,4,MPI_UINT64_T);
    case 5: if(phase==0) return make_tuple((void*)a,2,MPI_UINT64_T); if(phase==1) return make_tuple((void*)(a+2),2,MPI_UINT64_T);
            return make_tuple((void*)a,4,MPI_UINT64_T);
    default: return make_tuple((void*)a,4,MPI_UINT64_T);
    }
  }
  D4 get() const { return D4{a[0],a[1],a[2],a[3]}; }
};

static bool same(D4 x, D4 y){ for(int i=0;i<4;i++) if(!(Data::mode==3 && i==2) && x[i]!=y[i]) return false; return true; }
static string DS(D4 d){ return S(d[0])+","+S(d[1])+","+S(d[2])+","+S(d[3]); }
static D4 mkdata(U c, U stamp){ return D4{c, stamp, c*2654435761u+stamp, ~c-stamp}; }

// ---- independent model of the grid
struct Model {
  A3 L; int M; array<bool,3> per; unsigned hood;
  map<U,int> owner;               // existing cells
  U base(int l) const { U n=L[0]*L[1]*L[2], s=1; for(int i=0;i<l;i++){ s+=n; n*=8; } return s; }
  int lev(U c) const { int l=0; while(l<M && c>=base(l+1)) l++; return l; }
  U len(U c) const { return U(1)<<(M-lev(c)); }
  U lenl(int l) const { return U(1)<<(M-l); }
  U G(int d) const { return L[d]<<M; }
  A3 idx(U c) const { int l=lev(c); U k=c-base(l), X=L[0]<<l, Y=L[1]<<l; A3 r{k%X,(k/X)%Y,k/X/Y}; for(auto&x:r) x<<=(M-l); return r; }
  U id(A3 i, int l) const { U X=L[0]<<l, Y=L[1]<<l; return base(l)+(i[0]>>(M-l))+(i[1]>>(M-l))*X+(i[2]>>(M-l))*X*Y; }
  U last() const { return base(M+1)-1; }
  U leaf(A3 i) const { for(int l=0;l<=M;l++){ U c=id(i,l); if(owner.count(c)) return c; } return 0; }
  U parent(U c) const { int l=lev(c); return l? id(idx(c),l-1):c; }
  vector<U> kids(U c) const { vector<U> r; int l=lev(c); if(l>=M) return r; A3 i=idx(c); U h=len(c)/2;
    for(U z=0;z<2;z++)for(U y=0;y<2;y++)for(U x=0;x<2;x++) r.push_back(id(A3{i[0]+x*h,i[1]+y*h,i[2]+z*h},l+1)); return r; }
  // existing cells inside the box of (possibly not existing) cell c at depth first z order
  void inside(U c, vector<U>& r) const { if(owner.count(c)){ r.push_back(c); return; } for(U k:kids(c)) inside(k,r); }
  // neighbours of the box of cell c (existing or not)
  void item(U c, const I3& o, NL& r) const {
    A3 i=idx(c); U n=len(c); long long s[3],w[3];
    for(int d=0;d<3;d++){ s[d]=(long long)i[d]+(long long)o[d]*(long long)n; w[d]=s[d]; long long g=G(d);
      if(s[d]<0||s[d]>=g){ if(!per[d]) return; w[d]=((s[d]%g)+g)%g; } }
    A3 wi{(U)w[0],(U)w[1],(U)w[2]};
    U f=leaf(wi); vector<U> cells;
    if(f && lev(f)<=lev(c)) cells.push_back(f); else inside(id(wi,lev(c)),cells);
    for(U x:cells){ A3 xi=idx(x); I3 off; for(int d=0;d<3;d++) off[d]=int((long long)xi[d]+s[d]-w[d]-(long long)i[d]); r.push_back({x,off}); }
  }
  NL of(U c, const vector<I3>& h) const { NL r; for(auto&o:h) item(c,o,r); return r; }
  vector<I3> hood_of() const { vector<I3> h; int n=hood;
    if(n==0) return {{0,0,-1},{0,-1,0},{-1,0,0},{1,0,0},{0,1,0},{0,0,1}};
    for(int z=-n;z<=n;z++)for(int y=-n;y<=n;y++)for(int x=-n;x<=n;x++) if(x||y||z) h.push_back({x,y,z}); return h; }
};

// gather a vector from every process without using the library
static vector<vector<U>> gather(const vector<U>& v){
  int n=v.size(); vector<int> ns(nproc),ds(nproc); MPI_Allgather(&n,1,MPI_INT,ns.data(),1,MPI_INT,MPI_COMM_WORLD);
  int t=0; for(int i=0;i<nproc;i++){ ds[i]=t; t+=ns[i]; } vector<U> all(t+1); U dummy=0;
  MPI_Allgatherv(n?(void*)v.data():&dummy,n,MPI_UINT64_T,all.data(),ns.data(),ds.data(),MPI_UINT64_T,MPI_COMM_WORLD);
  vector<vector<U>> r(nproc); for(int i=0;i<nproc;i++) r[i].assign(all.begin()+ds[i],all.begin()+ds[i]+ns[i]); return r; }

// items of the user that the grid keeps with its cells and neighbours
struct CItem { U tag=0; const void* ptr=nullptr; template<class G,class Me> void update(const G& g,const Me& c,const CItem&){ tag=c.id*2+(g.is_local(c.id)?1:0); ptr=c.data; } };
struct NItem { U tag=0; template<class G,class Ce,class Me> void update(const G& g,const Ce& c,const Me& n,const int& hood,const NItem&){ tag=c.id*1000003+n.id*31+hood; } };
struct NItem2 { long off=0; const void* ptr=nullptr; template<class G,class Ce,class Me> void update(const G& g,const Ce& c,const Me& n,const int& hood,const NItem2&){ off=n.x+7l*n.y+49l*n.z; ptr=n.data; } };
template<class Geo> struct Params;
template<> struct Params<dccrg::No_Geometry>{ static dccrg::No_Geometry::Parameters make(const A3&){ return {}; } };
template<> struct Params<dccrg::Cartesian_Geometry>{ static dccrg::Cartesian_Geometry::Parameters make(const A3&){
  dccrg::Cartesian_Geometry::Parameters p; for(int i=0;i<3;i++){ p.start[i]=double(int(R(21))-10)/4; p.level_0_cell_length[i]=(1+R(16))/8.0; } return p; } };
template<> struct Params<dccrg::Stretched_Cartesian_Geometry>{ static dccrg::Stretched_Cartesian_Geometry::Parameters make(const A3& L){
  dccrg::Stretched_Cartesian_Geometry::Parameters p; for(int i=0;i<3;i++){ double x=double(int(R(21))-10)/4; p.coordinates[i].clear(); for(U k=0;k<=L[i];k++){ p.coordinates[i].push_back(x); x+=(1+R(16))/8.0; } } return p; } };

inline string scratch;

template<class Geo> struct Sim {
  typedef dccrg::Dccrg<Data,Geo,tuple<CItem>,tuple<NItem,NItem2>> Grid;
  Grid g; Model m; map<int,vector<I3>> hoods; map<U,D4> data; map<U,D4> copies;  // copies: of this process
  map<U,int> pins; map<U,double> weights; U stamp=1; vector<I3> H;
  string method;
  bool deep=false, big=false; // high refinement levels around single spots
  bool C(const char* p) const { return P==p; }

  void init(){
    static const U lens[]={1,1,2,2,3,3,4,5,6};
    do { for(auto&x:m.L) x=lens[R(9)]; } while(m.L[0]*m.L[1]*m.L[2]>60);
    big=chance(3); if(big) for(auto&x:m.L) x=5+R(9);
    deep=!big&&chance(8); if(deep){ for(auto&x:m.L) x=1+R(2); }
    m.M=deep? 4+R(17) : big? R(3) : R(4); if(!deep&&m.M==3 && m.L[0]*m.L[1]*m.L[2]>16) m.M=2;
    for(auto&x:m.per) x=chance(45);
    m.hood=R(3); if(m.hood==2 && (deep||chance(50))) m.hood=1;
    Data::mode=R(7); if(Data::mode==4) Data::mode=0; Data::watch=0; if(Data::mode==5) Data::mode=chance(50)?5:0; Data::phase=2;
    static const char* ms[]={"RCB","RIB","HSFC","RANDOM","BLOCK","GRAPH","HYPERGRAPH","HIER"};
    method=ms[R(8)]; if(method=="HIER"&&(C("C15")||C("C18"))) method="RCB";
    bool single=chance(30);
    context="grid "+S(m.L[0])+"x"+S(m.L[1])+"x"+S(m.L[2])+" M"+S(m.M)+" per"+S(m.per[0])+S(m.per[1])+S(m.per[2])+" hood"+S(m.hood)+" "+method+" mode"+S(Data::mode)+(single?" single":"");
    g.set_initial_length(m.L).set_neighborhood_length(m.hood).set_maximum_refinement_level(m.M).set_periodic(m.per[0],m.per[1],m.per[2]);
    g.set_load_balancing_method(method).set_send_single_cells(single);
    g.initialize(MPI_COMM_WORLD); g.set_geometry(Params<Geo>::make(m.L));
    if(method=="HIER"){ int n=1+R(2); for(int k=0;k<n;k++){ g.add_partitioning_level(1+R(nproc)); g.add_partitioning_option(k,"LB_METHOD",ms[R(2)]); } }
    H=m.hood_of();
    vector<U> sizes=all_sizes();
    if(C("C13")){ U lo=~0ull,hi=0; for(U s:sizes){ lo=min(lo,s); hi=max(hi,s); } CHECK(hi-lo<=1,"initial shares differ by more than one cell: "+LS(sizes)); }
    adopt(); 
    if(C("C10")||C("C13")){ CHECK(m.owner.size()==m.L[0]*m.L[1]*m.L[2],"initial number of cells "+S(m.owner.size())); for(auto&o:m.owner) CHECK(o.first<=m.L[0]*m.L[1]*m.L[2],"initial cell "+S(o.first)+" not of level 0"); }
    if(C("C12")) for(const auto& c: g.local_cells()) CHECK(same(c.data->get(),D4{0,0,0,0}),"initial data of cell "+S(c.id));
    stampall(); reset_copies();
  }
  vector<U> all_sizes(){ vector<U> v{(U)g.get_cells().size()}, r; for(auto&x:gather(v)) r.push_back(x[0]); return r; }
  // take the real distribution as the model's (postconditions are checked separately)
  void adopt(){ m.owner.clear(); auto a=gather(g.get_cells()); for(int p=0;p<nproc;p++) for(U c:a[p]){
      if(m.owner.count(c)) fail("cell "+S(c)+" is on processes "+S(m.owner[c])+" and "+S(p)); m.owner[c]=p; } }
  void stampall(){ stamp++; data.clear(); for(auto&o:m.owner) data[o.first]=mkdata(o.first,stamp*1000003+R(1000));
    for(auto&o:m.owner) if(o.second==rnk){ Data* d=g[o.first]; if(!d) fail("no data for local cell "+S(o.first)); for(int i=0;i<4;i++) d->a[i]=data[o.first][i]; } }
  void reset_copies(){ copies.clear(); for(U c: expect_remote(-0x7fff)) copies[c]=D4{0,0,0,0}; }
  const vector<I3>& hood(int id){ return id==-0x7fff? H : hoods.at(id); }
  // ---- model relations
  map<pair<int,U>,NL> ofc; map<int,map<U,set<U>>> toc;
  void invalidate(){ ofc.clear(); toc.clear(); }
  const NL& of(U c,int id){ auto k=make_pair(id,c); auto it=ofc.find(k); if(it==ofc.end()) it=ofc.emplace(k,m.of(c,hood(id))).first; return it->second; }
  const set<U>& to(U c,int id){ auto&t=toc[id]; if(t.empty()){ for(auto&o:m.owner){ t[o.first]; } for(auto&o:m.owner) for(auto&n:of(o.first,id)) t[n.first].insert(o.first); } return t[c]; }
  set<U> expect_remote(int id){ set<U> r; for(auto&o:m.owner) if(o.second==rnk){ for(auto&n:of(o.first,id)) if(m.owner[n.first]!=rnk) r.insert(n.first); for(U n:to(o.first,id)) if(m.owner[n]!=rnk) r.insert(n); } return r; }
  set<U> expect_recv(int id){ set<U> r; for(auto&o:m.owner) if(o.second==rnk) for(auto&n:of(o.first,id)) if(m.owner[n.first]!=rnk) r.insert(n.first); return r; }
  int realid(int id){ return id==-0x7fff ? dccrg::default_neighborhood_id : id; }
  vector<int> ids(){ vector<int> r{-0x7fff}; for(auto&h:hoods) r.push_back(h.first); return r; }

  // ---- checks
  void check(){
    invalidate();
    if(C("C10")) check_partition();
    if(C("C13")||C("C12")||C("C10")) check_owners();
    if(C("C13")) for(auto&o:m.owner){ double w=g.get_cell_weight(o.first), e=weights.count(o.first)?weights[o.first]:1; if(o.second==rnk) CHECK(w==e,"weight of cell "+S(o.first)+" is "+S(w)+" expected "+S(e)); else CHECK(w!=w,"weight of remote cell"); }
    if(C("C09")) check_neighbors();
    if(C("C17")) check_lists();
    if(C("C08")) check_lookup();
    if(C("C07")) check_windows();
    if(C("C12")) check_data();
    if(C("C14")){ check_copies("quiescent"); }
  }
  void check_partition(){
    auto all=g.get_all_cells(true); set<U> s(all.begin(),all.end()); CHECK(s.size()==all.size(),"a cell is listed twice in get_all_cells");
    vector<U> mine(all.begin(),all.end()); auto a=gather(mine); for(auto&x:a) CHECK(x==mine,"processes disagree on existing cells");
    U vol=0; for(U c:all){ CHECK(c>0&&c<=m.last(),"existing cell "+S(c)+" is not a valid id"); U n=m.len(c); vol+=n*n*n; U q=c; while(m.lev(q)>0){ q=m.parent(q); CHECK(!s.count(q),"cell "+S(c)+" and its ancestor "+S(q)+" both exist"); } 
      CHECK(m.lev(c)<=m.M,"level"); }
    CHECK(vol==m.G(0)*m.G(1)*m.G(2),"existing cells cover "+S(vol)+" of "+S(m.G(0)*m.G(1)*m.G(2))+" index units");
    set<U> loc; for(auto&o:m.owner) loc.insert(o.first); CHECK(loc==s,"union of local cells differs from existing cells");
    for(U c:all){ if((c+rnk)%nproc) continue; for(auto&n:of(c,-0x7fff)) CHECK(abs(m.lev(n.first)-m.lev(c))<=1,"cell "+S(c)+" of level "+S(m.lev(c))+" has neighbour "+S(n.first)+" of level "+S(m.lev(n.first))); }
    for(U c:all) for(U k:m.kids(c)) CHECK(g.get_process(k)==-1,"child "+S(k)+" of existing cell "+S(c)+" has an owner");
    nontriv++;
  }
  void check_owners(){
    auto cells=g.get_cells(vector<int>(),false,dccrg::default_neighborhood_id,true); vector<U> exp; for(auto&o:m.owner) if(o.second==rnk) exp.push_back(o.first);
    CHECK(cells==exp,"local cells "+LS(cells)+" expected "+LS(exp));
    auto all=g.get_all_cells(); CHECK(all.size()==m.owner.size(),"number of existing cells "+S(all.size())+" but processes own "+S(m.owner.size()));
    for(auto&o:m.owner){ CHECK(g.get_process(o.first)==o.second,"process of cell "+S(o.first)+" is "+S(g.get_process(o.first))+" but it is on "+S(o.second)); CHECK(g.is_local(o.first)==(o.second==rnk),"is_local "+S(o.first)); }
    set<U> it; for(const auto& c:g.local_cells()){ CHECK(it.insert(c.id).second,"cell twice in local_cells()"); CHECK(c.data==g[c.id]&&c.data,"data pointer of local cell "+S(c.id)); }
    CHECK(it==set<U>(exp.begin(),exp.end()),"local_cells() "+LS(it)+" expected "+LS(exp));
    nontriv++;
  }
  void check_neighbors(){
    check_offsets();
    for(int id:ids()){
      for(auto&o:m.owner) if(o.second==rnk){ U c=o.first;
        auto* n=g.get_neighbors_of(c,realid(id)); CHECK(n,"no neighbours of "+S(c)+" hood "+S(id));
        const NL& e=of(c,id); CHECK(*n==e,"neighbours of cell "+S(c)+" hood "+S(id)+" are "+NS(*n)+" expected "+NS(e)); nontriv+=e.size()>0;
        auto* t=g.get_neighbors_to(c,realid(id)); CHECK(t,"no neighbours to "+S(c)); set<U> ts; for(auto&x:*t) CHECK(ts.insert(x.first).second,"cell twice in neighbours_to of "+S(c));
        CHECK(ts==to(c,id),"neighbours to cell "+S(c)+" hood "+S(id)+" are "+LS(ts)+" expected "+LS(to(c,id)));
      } }
    for(auto&o:m.owner) if(o.second==rnk){ U c=o.first; A3 i=m.idx(c); U n=m.len(c);
      vector<pair<U,int>> e; for(int d=0;d<3;d++) for(int s=-1;s<=1;s+=2){ I3 off{0,0,0}; off[d]=s; NL w; m.item(c,off,w);
        for(auto&x:w){ long long lo=x.second[d], hi=lo+(long long)m.len(x.first); if(s<0? hi==0 : lo==(long long)n) e.push_back({x.first,s*(d+1)}); } }
      auto f=g.get_face_neighbors_of(c); auto fs=f; sort(fs.begin(),fs.end()); sort(e.begin(),e.end());
      if(fs!=e){ string a,b; for(auto&x:fs) a+=S(x.first)+":"+S(x.second)+" "; for(auto&x:e) b+=S(x.first)+":"+S(x.second)+" "; fail("face neighbours of cell "+S(c)+" are "+a+"expected "+b); } evals++; }
  }
  void check_offsets(){
    mt19937_64 lr(rng()); auto R=[&](U n){ return U(lr()%n); };
    for(auto&o:m.owner) if(o.second==rnk&&R(2)){ U c=o.first; const NL& all=of(c,-0x7fff); long long n=m.len(c); int h=max<int>(1,m.hood);
      for(int k=0;k<4;k++){ I3 f{int(R(2*h+1))-h,int(R(2*h+1))-h,int(R(2*h+1))-h}; auto v=g.get_neighbors_of_at_offset(c,f[0],f[1],f[2]); if(f==I3{0,0,0}){ CHECK(v.empty(),"neighbours at zero offset"); continue; }
        for(auto&x:v) CHECK(find(all.begin(),all.end(),x)!=all.end(),"cell "+S(x.first)+" at offset is not a neighbour of "+S(c));
        for(auto&x:all) if(m.len(x.first)==(U)n&&x.second==I3{int(f[0]*n),int(f[1]*n),int(f[2]*n)}) CHECK(find(v.begin(),v.end(),x)!=v.end(),"neighbour "+S(x.first)+" of cell "+S(c)+" at offset "+S(f[0])+","+S(f[1])+","+S(f[2])+" is missing");
        for(auto&x:v){ bool in=true; for(int d=0;d<3;d++){ long long e=(long long)m.idx(x.first)[d]-(long long)m.idx(c)[d]-f[d]*n; if(m.per[d]) e%=(long long)m.G(d); in&= e==0; } CHECK(in,"neighbour "+S(x.first)+" of cell "+S(c)+" is not at offset "+S(f[0])+","+S(f[1])+","+S(f[2])); nontriv++; } } }
  }
  void check_lists(){
    for(int id:ids()){ int rid=realid(id);
      set<U> inner,outer,remote=expect_remote(id);
      map<U,int> types;
      for(auto&o:m.owner) if(o.second==rnk){ int t=0; for(auto&n:of(o.first,id)) t|= m.owner[n.first]==rnk? dccrg::has_local_neighbor_of:dccrg::has_remote_neighbor_of;
        for(U n:to(o.first,id)) t|= m.owner[n]==rnk? dccrg::has_local_neighbor_to:dccrg::has_remote_neighbor_to; types[o.first]=t;
        if(t&(dccrg::has_remote_neighbor_of|dccrg::has_remote_neighbor_to)) outer.insert(o.first); else inner.insert(o.first); }
      auto V=[&](vector<U> v,const set<U>& e,string what){ set<U> s(v.begin(),v.end()); CHECK(s.size()==v.size(),what+" lists a cell twice"); CHECK(s==e,what+" hood "+S(id)+" "+LS(s)+" expected "+LS(e)); };
      V(g.get_local_cells_on_process_boundary(rid),outer,"get_local_cells_on_process_boundary");
      V(g.get_local_cells_not_on_process_boundary(rid),inner,"get_local_cells_not_on_process_boundary");
      V(g.get_remote_cells_on_process_boundary(rid),remote,"get_remote_cells_on_process_boundary");
      for(auto&o:m.owner) if(o.second==rnk){ set<U> ro,rt; for(auto&n:of(o.first,id)) if(m.owner[n.first]!=rnk) ro.insert(n.first); for(U n:to(o.first,id)) if(m.owner[n]!=rnk) rt.insert(n);
        auto a=g.get_remote_neighbors_of(o.first,rid), b=g.get_remote_neighbors_of(o.first,rid,true), c=g.get_remote_neighbors_to(o.first,rid), d=g.get_remote_neighbors_to(o.first,rid,true);
        CHECK(set<U>(a.begin(),a.end())==ro&&set<U>(b.begin(),b.end())==ro&&is_sorted(b.begin(),b.end()),"remote neighbours of cell "+S(o.first)+" hood "+S(id)+" "+LS(a)+" expected "+LS(ro));
        CHECK(set<U>(c.begin(),c.end())==rt&&set<U>(d.begin(),d.end())==rt&&is_sorted(d.begin(),d.end()),"remote neighbours to cell "+S(o.first)+" hood "+S(id)+" "+LS(c)+" expected "+LS(rt)); }
      auto sb=g.get_remote_cells_on_process_boundary(rid,true); CHECK(is_sorted(sb.begin(),sb.end()),"sorted list is not sorted");
      sb=g.get_local_cells_on_process_boundary(rid,true); CHECK(is_sorted(sb.begin(),sb.end()),"sorted list is not sorted");
      sb=g.get_local_cells_not_on_process_boundary(rid,true); CHECK(is_sorted(sb.begin(),sb.end()),"sorted list is not sorted");
      auto I=[&](const auto& st,const set<U>& e,string what,bool local){ set<U> s; for(const auto& c:st){ CHECK(s.insert(c.id).second,what+" gives a cell twice"); CHECK(c.data&&c.data==g[c.id],what+" data pointer of "+S(c.id)); if(local) check_item(c,id); } CHECK(s==e,what+" hood "+S(id)+" "+LS(s)+" expected "+LS(e)); };
      set<U> local=inner; local.insert(outer.begin(),outer.end());
      // iterators over remote cells cover the cells known through the default neighborhood
      set<U> known=expect_remote(-0x7fff), all=local; all.insert(known.begin(),known.end());
      I(g.inner_cells(rid),inner,"inner_cells",true); I(g.outer_cells(rid),outer,"outer_cells",true); I(g.local_cells(rid),local,"local_cells",false);
      if(id==-0x7fff){ I(g.remote_cells(rid),known,"remote_cells",false); I(g.all_cells(rid),all,"all_cells",false); }
      else { set<U> s; for(const auto& c:g.remote_cells(rid)) s.insert(c.id); for(U c:remote) CHECK(s.count(c),"remote_cells hood "+S(id)+" lacks "+S(c)); for(U c:s) CHECK(known.count(c),"remote_cells hood "+S(id)+" has "+S(c)); }
      // criteria
      for(int k=0;k<6;k++){ vector<int> crit; int n=1+R(3); for(int i=0;i<n;i++) crit.push_back(R(16)); bool exact=chance(50);
        set<U> e; for(auto&t:types){ bool ok=false; int un=0; for(int c:crit){ un|=c; if(exact&&t.second==c) ok=true; } if(!exact&&(t.second&un)) ok=true; if(ok) e.insert(t.first);
          CHECK(g.is_neighbor_type_match(t.first,crit,exact,rid)==ok,"is_neighbor_type_match cell "+S(t.first)+" types "+S(t.second)+" criteria "+LS(crit)+" exact "+S(exact)); }
        auto v=g.get_cells(crit,exact,rid,true); V(v,e,"get_cells with criteria "+LS(crit)+" exact "+S(exact)); CHECK(is_sorted(v.begin(),v.end()),"get_cells not sorted"); }
      V(g.get_cells(vector<int>(),chance(50),rid),local,"get_cells");
      V(g.get_cells({dccrg::has_no_neighbor,dccrg::has_local_neighbor_of,dccrg::has_local_neighbor_to,dccrg::has_local_neighbor_both},true,rid),inner,"documented inner criteria");
      V(g.get_cells({dccrg::has_remote_neighbor_both},false,rid),outer,"documented outer criteria");
      if(!outer.empty()) nontriv++;
    }
    for(auto&o:m.owner){ if(o.second!=rnk) CHECK(!g.is_neighbor_type_match(o.first,{0,1,2,4,8,15},false,dccrg::default_neighborhood_id),"type match for remote cell"); }
  }
  template<class Item> void check_item(const Item& c,int id){
    set<pair<U,I3>> e; for(auto&n:of(c.id,id)) e.insert(n); set<U> eto=to(c.id,id), eall=eto; for(auto&n:e) eall.insert(n.first);
    set<pair<U,I3>> s; for(const auto& n:c.neighbors_of){ CHECK(s.insert({n.id,I3{n.x,n.y,n.z}}).second,"neighbor item twice"); CHECK(n.data==g[n.id]&&n.data,"data pointer of neighbor "+S(n.id)+" of "+S(c.id)); }
    CHECK(c.tag==c.id*2+1&&c.ptr==c.data,"item of the user in cell "+S(c.id)); for(const auto& n:c.all_neighbors) CHECK(n.tag==c.id*1000003+n.id*31+realid(id)&&n.off==n.x+7l*n.y+49l*n.z&&n.ptr==n.data&&n.data==g[n.id],"item of the user in neighbor "+S(n.id)+" of "+S(c.id)+" hood "+S(id));
    CHECK(s==e,"neighbors_of items of cell "+S(c.id)+" hood "+S(id)+" number "+S(s.size())+" expected "+S(e.size()));
    set<U> t; for(const auto& n:c.neighbors_to) t.insert(n.id); CHECK(t==eto,"neighbors_to items of cell "+S(c.id)+" hood "+S(id)+" "+LS(t)+" expected "+LS(eto));
    set<U> a; for(const auto& n:c.all_neighbors) a.insert(n.id); CHECK(a==eall,"all_neighbors items of cell "+S(c.id));
  }
  void check_lookup(){
    for(int k=0;k<60;k++){ A3 i; for(int d=0;d<3;d++) i[d]=R(m.G(d)); bool out=chance(8); if(out) i[R(3)]=chance(50)? m.G(0)+m.G(1)+m.G(2)+R(5) : ~U(0)-R(3);
      int lo=R(m.M+1),hi=R(m.M+1); U e=0; bool outside=false; for(int d=0;d<3;d++) outside|=i[d]>=m.G(d);
      if(!outside && lo<=hi){ U f=m.leaf(i); if(f&&m.lev(f)>=lo&&m.lev(f)<=hi) e=f; }
      U r=g.get_existing_cell(i,lo,hi); CHECK(r==e,"get_existing_cell("+S(i[0])+","+S(i[1])+","+S(i[2])+","+S(lo)+","+S(hi)+") = "+S(r)+" expected "+S(e)); nontriv+=e>0; }
    for(int k=0;k<20;k++){ U x=R(30),n=U(1)<<R(5),y=R(30),o=U(1)<<R(5); bool e=false; for(U q=x;q<x+n;q++) if(q>=y&&q<y+o) e=true; CHECK(g.indices_overlap(x,n,y,o)==e,"indices_overlap("+S(x)+","+S(n)+","+S(y)+","+S(o)+")"); }
    // existing cells in an index range
    for(int k=0;k<10;k++){ A3 a,b; set<U> e; int lo=R(m.M+1), hi=lo+R(m.M+1-lo);
      for(int d=0;d<3;d++){ a[d]=R(m.G(d)); b[d]=a[d]+R(min<U>(32,m.G(d)-a[d])); }
      for(auto&o:m.owner){ int l=m.lev(o.first); if(l<lo||l>hi) continue; A3 i=m.idx(o.first); U n=m.len(o.first); bool ov=true; for(int d=0;d<3;d++) if(i[d]+n<=a[d]||i[d]>b[d]) ov=false; if(ov) e.insert(o.first); }
      if(hi==m.M){ auto v=g.find_cells(a,b,lo,hi); set<U> s(v.begin(),v.end()); CHECK(s.size()==v.size(),"find_cells gives a cell twice"); s.erase(0); CHECK(s==e,"find_cells levels "+S(lo)+".."+S(hi)+" gives "+LS(s)+" expected "+LS(e)); nontriv++; } }
    // smallest existing cell at a coordinate
    for(auto&o:m.owner){ if(chance(50)) continue; auto mid=g.geometry.get_center(o.first); U r=g.get_existing_cell(mid); CHECK(r==o.first,"existing cell at the centre of "+S(o.first)+" is "+S(r)); }
  }
  void check_windows(){
    for(auto&o:m.owner){ U c=o.first; if(chance(60)) continue; vector<I3> h; for(int k=0;k<4;k++) h.push_back(I3{int(R(9))-4,int(R(9))-4,int(R(9))-4}); if(chance(10)) h.push_back(I3{int(R(60))-30,int(R(60))-30,int(R(60))-30});
      auto r=g.indices_from_neighborhood(m.idx(c),m.len(c),h); CHECK(r.size()==h.size(),"indices_from_neighborhood returns "+S(r.size())+" items for "+S(h.size()));
      for(size_t k=0;k<h.size();k++){ A3 e=m.idx(c); bool out=false; for(int d=0;d<3;d++){ long long gl=m.G(d), s=(long long)e[d]+(long long)h[k][d]*(long long)m.len(c); if(s<0||s>=gl){ if(!m.per[d]) out=true; s=((s%gl)+gl)%gl; } e[d]=s; }
        if(out) e=A3{dccrg::error_index,dccrg::error_index,dccrg::error_index};
        CHECK(r[k]==e,"window of cell "+S(c)+" offset "+S(h[k][0])+","+S(h[k][1])+","+S(h[k][2])+" is at "+S(r[k][0])+","+S(r[k][1])+","+S(r[k][2])+" expected "+S(e[0])+","+S(e[1])+","+S(e[2])); nontriv+=!out; } }
    for(int d=0;d<3;d++) CHECK(g.topology.is_periodic(d)==m.per[d],"periodicity of dimension "+S(d));
    auto of=g.get_neighborhood_of(), to=g.get_neighborhood_to(); auto a=H; auto b=of; CHECK(a.size()==b.size(),"size of default neighbourhood"); for(size_t i=0;i<a.size();i++) CHECK(a[i]==b[i],"default neighbourhood item "+S(i));
    set<I3> neg; for(auto&x:H) neg.insert(I3{-x[0],-x[1],-x[2]}); set<I3> ts; for(auto&x:to) ts.insert(I3{x[0],x[1],x[2]}); CHECK(neg==ts&&to.size()==H.size(),"inverse neighbourhood");
    for(auto&o:m.owner) if(o.second==rnk){ set<U> e,s; for(auto&n:this->of(o.first,-0x7fff)) e.insert(n.first); for(auto&n:*g.get_neighbors_of(o.first)) s.insert(n.first); CHECK(s==e,"cells in the neighbourhood window of "+S(o.first)+" are "+LS(s)+" expected "+LS(e)); }
  }
  void check_data(){ for(auto&o:m.owner) if(o.second==rnk){ Data* d=g[o.first]; CHECK(d,"no data for cell "+S(o.first)); CHECK(same(d->get(),data[o.first]),"data of cell "+S(o.first)+" is "+DS(d->get())+" expected "+DS(data[o.first])); nontriv++; } }
  void check_copies(string when){
    for(U c: expect_remote(-0x7fff)){ Data* d=g[c]; CHECK(d,"no copy of remote neighbour "+S(c)+" "+when); if(!copies.count(c)) copies[c]=D4{0,0,0,0}; CHECK(same(d->get(),copies[c]),when+": copy of remote cell "+S(c)+" is "+DS(d->get())+" expected "+DS(copies[c])); nontriv++; }
    for(auto&o:m.owner) if(o.second==rnk) CHECK(same(g[o.first]->get(),data[o.first]),when+": local data of "+S(o.first)+" changed"); }

  // ---- operations
  void op_update(){
    vector<int> v=ids(); int id=v[R(v.size())], rid=realid(id); int way=R(3); string w="update hood "+S(id)+" way "+S(way);
    U es=0, er=expect_recv(id).size(); for(auto&o:m.owner) if(o.second==rnk){ set<int> ps; for(U n:to(o.first,id)) if(m.owner[n]!=rnk) ps.insert(m.owner[n]); es+=ps.size(); }
    if(C("C14")){ CHECK(g.get_number_of_update_send_cells(rid)==es,w+": number of cells to send "+S(g.get_number_of_update_send_cells(rid))+" expected "+S(es)); CHECK(g.get_number_of_update_receive_cells(rid)==er,w+": number of cells to receive "+S(g.get_number_of_update_receive_cells(rid))+" expected "+S(er)); }
    bool ok=true; Data::watch=2; Data::want_id=rid;
    if(Data::mode==5 && chance(60)){ for(Data::phase=0;Data::phase<2;Data::phase++) g.update_copies_of_remote_neighbors(rid); Data::phase=2; }
    else if(way==0) ok=g.update_copies_of_remote_neighbors(rid);
    else if(way==1){ ok=g.start_remote_neighbor_copy_updates(rid); ok=g.wait_remote_neighbor_copy_updates(rid)&&ok; }
    else { if(chance(50)){ ok=g.start_remote_neighbor_copy_receives(rid); ok=g.start_remote_neighbor_copy_sends(rid)&&ok; } else { ok=g.start_remote_neighbor_copy_sends(rid); ok=g.start_remote_neighbor_copy_receives(rid)&&ok; }
      ok=g.wait_remote_neighbor_copy_update_receives(rid)&&ok; ok=g.wait_remote_neighbor_copy_update_sends()&&ok; }
    Data::watch=0;
    if(C("C14")) CHECK(ok,w+" reports failure");
    for(U c: expect_recv(id)){ D4 old=copies.count(c)?copies[c]:D4{0,0,0,0}; copies[c]=data[c]; if(Data::mode==3) copies[c][2]=old[2]; if(Data::mode==6&&rid>0){ copies[c][2]=old[2]; copies[c][3]=old[3]; } }
    if(C("C14")) check_copies("after "+w);
  }
  void op_hood(){
    if(!hoods.empty() && chance(35)){ int id=next(hoods.begin(),R(hoods.size()))->first; g.remove_neighborhood(id); hoods.erase(id); invalidate();
      if(C("C17")||C("C18")){ CHECK(g.get_cells(vector<int>(),false,id).empty(),"cells of removed neighbourhood"); CHECK(g.get_local_cells_on_process_boundary(id).empty(),"boundary of removed neighbourhood");
        auto T=[&](function<void()> f,string n){ bool thrown=false; try{ f(); }catch(const exception&){ thrown=true; } CHECK(thrown,n+" accepts removed neighbourhood "+S(id)); };
        T([&]{ g.inner_cells(id); },"inner_cells"); T([&]{ g.outer_cells(id); },"outer_cells"); T([&]{ g.local_cells(id); },"local_cells"); T([&]{ g.remote_cells(id); },"remote_cells"); T([&]{ g.all_cells(id); },"all_cells"); }
      if(C("C09")||C("C18")) for(auto&o:m.owner) if(o.second==rnk) CHECK(!g.get_neighbors_of(o.first,id),"neighbours of removed neighbourhood");
      return; }
    int id=1+R(50); if(hoods.count(id)||hoods.size()>2) return;
    vector<I3> h,src=H; for(auto&o:src) if(chance(m.hood==2?12:30)) h.push_back(o); if(h.empty()&&chance(80)) h.push_back(src[R(src.size())]); shuffle(h.begin(),h.end(),rng);
    vector<dccrg::Types<3>::neighborhood_item_t> hh; for(auto&o:h) hh.push_back({{o[0],o[1],o[2]}});
    bool ok=g.add_neighborhood(id,hh); CHECK(ok,"add_neighborhood refuses a valid neighbourhood"); hoods[id]=h; invalidate();
  }
  int picknear(){ return R(m.owner.size()); }
  set<U> DRp; // do-not-refine requests hold until the next load balancing
  void op_refine(){
    invalidate();
    bool exact=C("C11");
    set<U> R0,DR=DRp,DU,Umaybe,Udef; vector<set<U>> localDR(nproc,DRp); vector<U> refcalls, ucalls;
    int kind=R(5); if(deep&&chance(60)) kind=0; // 0 refine mostly, 1 unrefine only, 2 mixed, 3 nothing, 4 mixed with vetoes
    int n= kind==3?0: 1+R(min<U>(12,m.owner.size()));
    if(m.M==0) n=R(4);
    vector<U> leaf; for(auto&o:m.owner) leaf.push_back(o.first);
    string log;
    if(m.owner.size()>(big?4000:deep?900:400)) kind=1;
    for(int k=0;k<n;k++){
      U c=leaf[R(leaf.size())]; if(chance(deep?75:40)){ int tries=0; int best=m.lev(c); while(tries++<(deep?60:4)){ U d=leaf[R(leaf.size())]; if(m.lev(d)>best){ best=m.lev(d); c=d; } } }
      int op= kind==0?(chance(85)?0:3): kind==1?(chance(85)?1:2): kind==2?int(R(3)): int(R(4)); bool at=chance(25);
      bool bad=chance(6); int ow=m.owner[c]; bool ret=false, mine=ow==rnk;
      if(bad){ U b; int w=R(3); if(w==0) b=0; else if(w==1) b=m.last()+1+R(5); else { b=m.lev(c)?m.parent(c):(m.M?m.kids(c)[0]:m.last()+1); }
        CHECK(!g.refine_completely(b),"refine of nonexistent cell "+S(b)+" accepted"); CHECK(!g.unrefine_completely(b),"unrefine of nonexistent cell "+S(b)+" accepted"); CHECK(!g.dont_refine(b),"dont_refine of nonexistent cell accepted"); CHECK(!g.dont_unrefine(b),"dont_unrefine of nonexistent cell accepted"); continue; }
      if(!mine && (op==0||op==1)){ bool r= op==0? g.refine_completely(c):g.unrefine_completely(c); CHECK(!r,string(op?"unrefine":"refine")+" of cell "+S(c)+" of another process accepted"); }
      auto ctr=g.geometry.get_center(c);
      if(op==0){ bool veto=false; if(m.lev(c)<m.M){ if(localDR[ow].count(c)) veto=true; for(auto&x:of(c,-0x7fff)) if(m.lev(x.first)<m.lev(c)&&localDR[ow].count(x.first)) veto=true; }
        if(mine){ ret= at? g.refine_completely_at(ctr):g.refine_completely(c); if(exact) CHECK(ret==!veto,"refine_completely("+S(c)+") returns "+S(ret)+" veto "+S(veto)+log); }
        if(!veto){ if(m.lev(c)==m.M){ if(m.M>0) DU.insert(m.parent(c)); } else { R0.insert(c); refcalls.push_back(c); } } log+=" R"+S(c); }
      else if(op==1){ bool kidsleaf=true; if(m.lev(c)>0) for(U s:m.kids(m.parent(c))) if(!m.owner.count(s)) kidsleaf=false;
        if(mine){ ret= at? g.unrefine_completely_at(ctr):g.unrefine_completely(c); bool other=m.lev(c)>0&&DU.count(m.parent(c)); if(m.lev(c)>0) for(U k:m.kids(m.parent(c))) other|=R0.count(k)>0; if(exact&&!other) CHECK(ret==(m.lev(c)==0||kidsleaf),"unrefine_completely("+S(c)+") returns "+S(ret)+log); }
        if(m.lev(c)>0&&kidsleaf) ucalls.push_back(c); log+=" U"+S(c); }
      else if(op==2){ if(mine){ ret= at? g.dont_unrefine_at(ctr):g.dont_unrefine(c); if(exact) CHECK(ret,"dont_unrefine("+S(c)+") fails"); } if(m.lev(c)>0) DU.insert(m.parent(c)); log+=" DU"+S(c); }
      else { if(mine){ ret=g.dont_refine(c); if(exact) CHECK(ret,"dont_refine("+S(c)+") fails"); } if(m.lev(c)<m.M){ DR.insert(c); localDR[ow].insert(c); R0.erase(c); } log+=" DR"+S(c); }
    }
    if(chance(8)){ // requests are lost in load balancing
      string c0=context; context+=log+" BALANCE"; op_balance(); context=c0; log.clear(); R0.clear(); DR.clear(); DU.clear(); ucalls.clear(); refcalls.clear(); invalidate(); context+=" [balance after requests]"; }
    // expected outcome
    set<U> D=DR; for(bool more=true;more;){ more=false; set<U> add; for(U c:D){ for(auto&x:of(c,-0x7fff)) if(m.lev(x.first)>m.lev(c)&&!D.count(x.first)) add.insert(x.first); for(U x:to(c,-0x7fff)) if(m.lev(x)>m.lev(c)&&!D.count(x)) add.insert(x); } if(!add.empty()){ D.insert(add.begin(),add.end()); more=true; } }
    DRp=D; set<U> RF; for(U c:R0) if(!D.count(c)) RF.insert(c);
    for(bool more=true;more;){ more=false; set<U> add; for(U c:RF){ for(auto&x:of(c,-0x7fff)) if(m.lev(x.first)<m.lev(c)&&!RF.count(x.first)) add.insert(x.first); for(U x:to(c,-0x7fff)) if(m.lev(x)<m.lev(c)&&!RF.count(x)) add.insert(x); } if(!add.empty()){ RF.insert(add.begin(),add.end()); more=true; } }
    map<U,int> fam; // parent -> 1 maybe, 2 definitely requested
    for(U c:ucalls){ U p=m.parent(c); auto ks=m.kids(p); set<U> f(ks.begin(),ks.end()); bool touch=false; for(U r:refcalls){ if(f.count(r)) touch=true; for(auto&x:of(r,-0x7fff)) if(f.count(x.first)) touch=true; for(U x:to(r,-0x7fff)) if(f.count(x)) touch=true; } int v=touch?1:2; fam[p]=max(fam[p],v); }
    Model old=m; auto oldpins=pins; auto olddata=data;
    auto cond=[&](U p){ if(DU.count(p)) return false; for(U k:m.kids(p)){ if(!old.owner.count(k)||RF.count(k)) return false; }
      int l=m.lev(p)+1; for(auto&x:old.of(p,H)){ if(m.lev(x.first)>l||(m.lev(x.first)==l&&RF.count(x.first))) return false; } return true; };
    bool srt=chance(50); Data::watch=1; auto newcells=g.stop_refining(srt); Data::watch=0; bool srt2=chance(50); auto removed=g.get_removed_cells(srt2);
    if(exact&&srt) CHECK(is_sorted(newcells.begin(),newcells.end()),"new cells not sorted"); if(exact&&srt2) CHECK(is_sorted(removed.begin(),removed.end()),"removed cells not sorted");
    context+=" |"+log;
    Model before=m; adopt(); // real leaf set now in m
    set<U> exp; for(auto&o:old.owner) exp.insert(o.first);
    for(U c:RF){ exp.erase(c); for(U k:old.kids(c)) exp.insert(k); }
    set<U> gone; // families really unrefined
    for(auto&o:m.owner) if(!old.owner.count(o.first)&&m.lev(o.first)<m.M){ auto ks=m.kids(o.first); bool all=true; for(U k:ks) if(!old.owner.count(k)) all=false; if(all) gone.insert(o.first); }
    if(exact){
      for(U p:gone){ CHECK(fam.count(p),"children of "+S(p)+" were unrefined without a request"); CHECK(cond(p),"children of "+S(p)+" were unrefined against a veto or balance"); }
      for(auto&f:fam) if(f.second==2&&cond(f.first)) CHECK(gone.count(f.first),"requested unrefinement of the children of "+S(f.first)+" was not done");
      for(U p:gone){ exp.insert(p); for(U k:m.kids(p)) exp.erase(k); }
      set<U> real; for(auto&o:m.owner) real.insert(o.first);
      if(real!=exp){ set<U> a,b; set_difference(real.begin(),real.end(),exp.begin(),exp.end(),inserter(a,a.end())); set_difference(exp.begin(),exp.end(),real.begin(),real.end(),inserter(b,b.end())); fail("existing cells after commit: unexpected "+LS(a)+" missing "+LS(b)); }
      if(!RF.empty()||!gone.empty()) nontriv++;
    }
    set<U> en; for(auto&o:m.owner) if(o.second==rnk&&!old.owner.count(o.first)&&!gone.count(o.first)) en.insert(o.first);
    set<U> rn(newcells.begin(),newcells.end());
    if(exact||C("C12")){ CHECK(rn.size()==newcells.size(),"new cell listed twice"); CHECK(rn==en,"new cells "+LS(rn)+" expected "+LS(en)); }
    set<U> er; for(U p:gone) if(m.owner[p]==rnk) for(U k:m.kids(p)) er.insert(k);
    set<U> rr(removed.begin(),removed.end());
    if(exact||C("C12")){ CHECK(rr.size()==removed.size(),"removed cell listed twice"); CHECK(rr==er,"removed cells "+LS(rr)+" expected "+LS(er)); }
    if(C("C13")||exact||C("C12")){ for(auto&o:m.owner){ U c=o.first; if(old.owner.count(c)) CHECK(old.owner[c]==o.second,"cell "+S(c)+" moved in refinement"); else if(gone.count(c)){ bool ok=false; for(U k:m.kids(c)) ok|=old.owner[k]==o.second; CHECK(ok,"unrefined parent "+S(c)+" on a process that had none of its children"); } else CHECK(old.owner.count(m.parent(c))&&o.second==old.owner[m.parent(c)],"child "+S(c)+" is not on its parent's process"); } }
    if(C("C12")){
      for(auto&o:m.owner) if(o.second==rnk){ Data*d=g[o.first]; CHECK(d,"no data of "+S(o.first)); D4 e=old.owner.count(o.first)?olddata[o.first]:D4{0,0,0,0}; CHECK(same(d->get(),e),"after commit data of cell "+S(o.first)+" is "+DS(d->get())+" expected "+DS(e)); }
      for(auto&o:old.owner) if(o.second==rnk&&!m.owner.count(o.first)){ // refined or removed
          bool refined=true; if(m.lev(o.first)>0&&gone.count(m.parent(o.first))) refined=false;
          if(refined){ Data*d=g[o.first]; CHECK(d,"data of refined cell "+S(o.first)+" is not available"); CHECK(same(d->get(),olddata[o.first]),"data of refined cell "+S(o.first)+" changed"); nontriv++; } }
      for(U k:er){ Data*d=g[k]; CHECK(d,"data of removed cell "+S(k)+" is not on the process of its parent"); CHECK(same(d->get(),olddata[k]),"data of removed cell "+S(k)+" is "+DS(d->get())+" expected "+DS(olddata[k])); nontriv++; }
      if(chance(50)){ g.clear_refined_unrefined_data(); for(U k:er) CHECK(!g[k],"data of removed cell "+S(k)+" after clear"); CHECK(g.get_removed_cells().empty(),"removed cells after clear"); }
    }
    { auto ow=weights; for(auto&w:ow) if(!m.owner.count(w.first)){ weights.erase(w.first); if(!(m.lev(w.first)>0&&gone.count(m.parent(w.first)))) for(U k:m.kids(w.first)) weights[k]=w.second; } }
    for(auto&pp:oldpins) if(!m.owner.count(pp.first)){ pins.erase(pp.first); if(!(m.lev(pp.first)>0&&gone.count(m.parent(pp.first)))) for(U k:m.kids(pp.first)) pins[k]=pp.second; }
    invalidate(); stampall(); reset_copies(); check();
  }
  void op_pin(){
    vector<U> leaf; for(auto&o:m.owner) leaf.push_back(o.first);
    int n=1+R(4); U prev=0; for(int k=0;k<n;k++){ U c=leaf[R(leaf.size())]; int z=R(10); if(prev&&z<5) c=prev; else if(z<8&&!pins.empty()) c=next(pins.begin(),R(pins.size()))->first; prev=c; int ow=m.owner[c], to=R(nproc), how=R(7); bool r=true;
      if(how<4){ if(ow==rnk) r=g.pin(c,to); pins[c]=to; context+=" pin"+S(c)+">"+S(to); if(C("C13")) CHECK(r,"pin refused for "+S(c)); }
      else if(how==4){ if(ow==rnk) r=g.pin(c); pins[c]=ow; context+=" pin"+S(c)+">"+S(ow); if(C("C13")) CHECK(r,"pin refused"); }
      else if(how==5){ if(ow==rnk) r=g.unpin(c); pins.erase(c); context+=" unpin"+S(c); if(C("C13")) CHECK(r,"unpin refused"); }
      else { U p=m.lev(c)?m.parent(c):m.last()+1+R(3); int b1=nproc+R(3), b2=-1-int(R(3));
        if(C("C13")){ CHECK(!g.pin(p,to),"pin of nonexistent cell "+S(p)+" accepted"); CHECK(!g.unpin(p),"unpin of nonexistent cell accepted");
          if(ow==rnk){ CHECK(!g.pin(c,b1),"pin to nonexistent process accepted"); CHECK(!g.pin(c,b2),"pin to negative process accepted"); }
          else { CHECK(!g.pin(c,to),"pin of remote cell accepted"); CHECK(!g.unpin(c),"unpin of remote cell accepted"); } } }
    }
    if(chance(40)) for(int k=0;k<3;k++) setweight(leaf[R(leaf.size())]);
    if(chance(6)){ g.unpin_all_cells(); pins.clear(); context+=" unpinall"; }
    else if(chance(5)){ int who=R(nproc); if(rnk==who) g.unpin_local_cells(); for(auto it=pins.begin();it!=pins.end();) if(m.owner[it->first]==who) it=pins.erase(it); else ++it; context+=" unpinlocal"+S(who); }
  }
  void setweight(U c){ double w=(1+R(20))/4.0; bool r=g.set_cell_weight(c,w); if(C("C18")||C("C13")) CHECK(r==(m.owner[c]==rnk),"set_cell_weight returns "+S(r)); weights[c]=w; }
  void op_weights(){ if(nproc!=2) return; // a quarter of the cells has three quarters of the weight
    Grid q; U n=32; int d=R(3); bool low=chance(50); A3 l{1,1,1}; l[d]=n; q.set_initial_length(l).set_neighborhood_length(1).set_maximum_refinement_level(0).set_load_balancing_method("RCB").initialize(MPI_COMM_WORLD); q.set_geometry(Params<Geo>::make(l));
    for(U c=1;c<=8;c++){ U h=low?c:n+1-c; if(q.is_local(h)) CHECK(q.set_cell_weight(h,9),"set_cell_weight"); } q.balance_load(); auto c=q.get_cells(); if(q.is_local(low?1:n)) CHECK(c.size()<12,"load balancing put "+S(c.size())+" of "+S(n)+" cells on the process of the heavy cells"); nontriv++; }
  void op_balance(){ if(getenv("TRACE")&&rnk==0) cout<<"TRACE "<<context<<" cells "<<m.owner.size()<<endl;
    DRp.clear();
    for(int k=0;k<3&&!m.owner.empty();k++) if(chance(40)){ U c=next(m.owner.begin(),R(m.owner.size()))->first; setweight(c); }
    bool zol=chance(70)&&m.last()<(U(1)<<32)&&!(method=="HSFC"&&m.owner.size()<=(U)nproc); Model old=m; // Zoltan itself fails for HSFC with so few cells
    auto olddata=data; context+=zol?" LB":" LBpins";
    int way=R(3); Data::watch=1;
    if(Data::mode==5 && chance(70)){ g.initialize_balance_load(zol); for(Data::phase=0;Data::phase<2;Data::phase++) g.continue_balance_load(); Data::phase=2; g.finish_balance_load(); }
    else if(way==0) g.balance_load(zol);
    else { g.initialize_balance_load(zol);
      if(C("C12")||C("C13")){ auto add=g.get_cells_added_by_balance_load(), rem=g.get_cells_removed_by_balance_load(); vector<U> av(add.begin(),add.end()), rv(rem.begin(),rem.end()); auto ga=gather(av), gr=gather(rv); set<U> sa,sr; for(auto&v:ga) for(U c:v) CHECK(sa.insert(c).second,"cell "+S(c)+" added to two processes"); for(auto&v:gr) for(U c:v) CHECK(sr.insert(c).second,"cell removed from two processes"); CHECK(sa==sr,"added and removed cells of load balancing differ"); for(U c:rv) CHECK(old.owner.count(c)&&old.owner[c]==rnk,"removed cell "+S(c)+" was not local"); }
      int n=1+R(2); for(int k=0;k<n;k++) g.continue_balance_load(); g.finish_balance_load(); }
    Data::watch=0; weights.clear(); adopt();
    set<U> a,b; for(auto&o:old.owner) a.insert(o.first); for(auto&o:m.owner) b.insert(o.first);
    CHECK(a==b,"load balancing changed the existing cells");
    int moved=0; for(auto&o:m.owner) moved+=old.owner[o.first]!=o.second; nontriv+=moved>0;
    if(C("C13")){ for(auto&p:pins) CHECK(m.owner[p.first]==p.second,"cell "+S(p.first)+" pinned to process "+S(p.second)+" is on "+S(m.owner[p.first])); 
      if(!zol) for(auto&o:m.owner) if(!pins.count(o.first)) CHECK(old.owner[o.first]==o.second,"cell "+S(o.first)+" moved without being pinned"); }
    if(Data::mode==3) for(auto&o:m.owner) if(old.owner[o.first]!=o.second) data[o.first][2]=0;
    invalidate();
    if(C("C12")) check_data();
    if(chance(50)){ stampall(); } else for(auto&o:m.owner) if(o.second==rnk&&g[o.first]) for(int i=0;i<4;i++) g[o.first]->a[i]=data[o.first][i];
    reset_copies(); check();
  }
#include "grid_ops.inc"
  void dive(){ int n=R(m.M+1); context+=" dive"+S(n); bool corner=chance(50); int k0=R(8);
    for(int k=0;k<n&&m.owner.size()<900;k++){ vector<U> fine; int best=0; for(auto&o:m.owner){ int l=m.lev(o.first); if(l>best){ best=l; fine.clear(); } if(l==best) fine.push_back(o.first); }
      if(best==m.M) break; U c=fine[R(fine.size())]; if(corner&&best>0) c=m.kids(m.parent(c))[k0]; if(m.owner[c]==rnk) g.refine_completely(c);
      if(chance(20)){ U d=fine[R(fine.size())]; if(m.owner[d]==rnk) g.refine_completely(d); }
      g.stop_refining(); adopt(); }
    invalidate(); stampall(); reset_copies(); check(); }
  // the same cells created from scratch
  void op_loadcells(){ context+=" load_cells"; Grid h; static const char* ms[]={"RCB","RANDOM","HSFC"};
    h.set_initial_length(m.L).set_neighborhood_length(m.hood).set_maximum_refinement_level(m.M).set_periodic(m.per[0],m.per[1],m.per[2]).set_load_balancing_method(ms[R(3)]);
    h.initialize(MPI_COMM_WORLD); h.set_geometry(Params<Geo>::make(m.L)); if(chance(50)) h.balance_load();
    vector<U> l; bool only=chance(50); for(auto&o:m.owner){ bool ov=h.is_local(h.mapping.get_level_0_parent(o.first)); CHECK(h.cell_overlaps_local(o.first)==ov,"cell_overlaps_local "+S(o.first)); if(ov||!only) l.push_back(o.first); }
    if(chance(50)) reverse(l.begin(),l.end());
    CHECK(h.load_cells(l),"load_cells fails"); auto a=h.get_all_cells(); set<U> s(a.begin(),a.end()), e; for(auto&o:m.owner) e.insert(o.first);
    if(s!=e||s.size()!=a.size()) fail("existing cells after load_cells are "+LS(s)+" expected "+LS(e)); nontriv++; }
  void history(int steps){
    init(); check(); if(deep&&chance(50)){ dive(); steps=3+R(3); } else if(deep) steps*=2; if(big) steps=3;
    for(int s=0;s<steps;s++){
      string base=context; int op=R(100);
      if(C("C14")){ if(op<35) op=0; else if(op<60) op=40; else if(op<80) op=70; else op=90; }
      if(C("C13") && op>=95){ op_weights(); continue; }
      if(C("C15") && op>=75) op=99; if(C("C10") && op>=92) op=99;
      if(C("C18") && op<45) op=98;
      if(op<40){ context+=" ref"; op_refine(); }
      else if(op<46){ op_pin(); }
      else if(op<60){ if(chance(80)) op_pin(); op_balance(); }
      else if(op<75){ context+=" hood"; op_hood(); check(); }
      else if(op<97){ context+=" upd"; op_update(); if(chance(40)){ stampall(); } }
      else if(op==98){ if(C("C18")) op_misuse(); }
      else { if(C("C15")) op_saveload(); if(C("C10")&&m.owner.size()<300) op_loadcells(); }
      if(context.size()>900) context=context.substr(0,300)+"..."+context.substr(context.size()-500);
    }
  }
};

#ifndef PART
#define PART -1
#endif
void run_cartesian(), run_none(), run_stretched();
#if PART==0 || PART==-1
void run_cartesian(){ Sim<dccrg::Cartesian_Geometry> s; s.history(4+R(8)); }
#endif
#if PART==1 || PART==-1
void run_none(){ Sim<dccrg::No_Geometry> s; s.history(4+R(6)); }
#endif
#if PART==2 || PART==-1
void run_stretched(){ Sim<dccrg::Stretched_Cartesian_Geometry> s; s.history(4+R(6)); }
#endif
#if PART==0 || PART==-1
int main(int argc,char**argv){
  MPI_Init(&argc,&argv); MPI_Comm_rank(MPI_COMM_WORLD,&rnk); MPI_Comm_size(MPI_COMM_WORLD,&nproc);
  float v; Zoltan_Initialize(argc,argv,&v);
  P=argv[1]; U seed=strtoull(argv[2],0,10); double secs=atof(argv[3]); U only= argc>4? strtoull(argv[4],0,10):~0ull;
  scratch="."; if(!getenv("VERBOSE_ERR")) cerr.setstate(ios::failbit);
  auto t0=chrono::steady_clock::now(); U n=0;
  for(;;n++){
    if(only!=~0ull){ if(n<only) continue; if(n>only) break; }
    rng.seed(seed*1000003+n*7919+13); casenr=n; context="start";
    try {
      int w=R(10);
      if(w<6) run_cartesian();
      else if(w<8) run_none();
      else run_stretched();
    } catch(const exception& e){ fail(string("exception ")+e.what()); }
    int stop= chrono::duration<double>(chrono::steady_clock::now()-t0).count()>secs; MPI_Bcast(&stop,1,MPI_INT,0,MPI_COMM_WORLD); if(stop) break;
  }
  long t[2]={evals,nontriv}, r[2]; MPI_Reduce(t,r,2,MPI_LONG,MPI_SUM,0,MPI_COMM_WORLD);
  if(rnk==0){ cout<<"\nOK evaluations "<<r[0]<<" nontrivial "<<r[1]<<" histories "<<n<<endl; cout.flush(); }
  MPI_Finalize(); return 0;
}
#endif
