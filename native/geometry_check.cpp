// Executable contracts of the geometries and the topology evaluated on the real compiled code
// (covers floating point rounding, which the proof treats as real arithmetic).
// usage: geometry_check PROPERTY SEED SECONDS
#include <array>
#include <chrono>
#include <cmath>
#include <cstdint>
#include <cstdlib>
#include <fstream>
#include <iostream>
#include <limits>
#include <random>
#include <sstream>
#include <string>
#include <unistd.h>
#include <vector>
#include "mpi.h"
#include "dccrg_mapping.hpp"
#include "dccrg_topology.hpp"
#include "dccrg_no_geometry.hpp"
#include "dccrg_cartesian_geometry.hpp"
#include "dccrg_stretched_cartesian_geometry.hpp"
using namespace dccrg;
using namespace std;
typedef array<uint64_t,3> A3;
typedef array<double,3> D3;
typedef long double LD;
static long evals=0, nontriv=0;
static string context;
[[noreturn]] static void fail(const string& what){ cout<<"FAIL "<<context<<": "<<what<<endl; cout.flush(); _Exit(1); }
#define CHECK(cond, text) do{ evals++; if(!(cond)){ ostringstream o_; o_.precision(20); o_<<text; fail(o_.str()); } }while(0)
static mt19937_64 rng;
static uint64_t rnd(uint64_t n){ return rng()%n; }
static double uni(){ return double(rng()>>11)/9007199254740992.0; }

// ---- spec: boundaries of level 0 cells, per dimension
struct Spec {
  A3 L; int M; array<bool,3> per;
  array<vector<double>,3> c;    // L+1 boundaries
  bool exact;                   // all values are small dyadic numbers: double arithmetic is exact
  LD lo(int d,int l,uint64_t v) const { uint64_t k=v>>l; LD f=LD(v-(k<<l))/LD(uint64_t(1)<<l); if(k>=L[d]) return c[d][L[d]]; return c[d][k]+f*(LD(c[d][k+1])-c[d][k]); }
  double tol(int d) const { if(exact) return 0; double m=max(fabs(c[d].front()),fabs(c[d].back())); return m*numeric_limits<double>::epsilon()*64; }
};
static string show(const D3& x){ ostringstream o; o.precision(20); o<<"("<<x[0]<<", "<<x[1]<<", "<<x[2]<<")"; return o.str(); }
static bool allnan(const D3& x){ return x[0]!=x[0] && x[1]!=x[1] && x[2]!=x[2]; }

static D3 center_i(const Cartesian_Geometry& g,int l,const A3& i){ return g.get_center(l,i); }
static D3 center_i(const No_Geometry& g,int l,const A3& i){ return g.get_center(l,i); }
static D3 center_i(const Stretched_Cartesian_Geometry& g,int l,const A3& i){ return g.get_center(i,l); }

template<class G> static void check_boxes(const Spec& s, const Mapping& m, const G& g){
  for(int d=0;d<3;d++){
    CHECK(fabsl(g.get_start()[d]-LD(s.c[d].front()))<=s.tol(d),"get_start "<<show(g.get_start()));
    CHECK(fabsl(g.get_end()[d]-LD(s.c[d].back()))<=s.tol(d),"get_end "<<show(g.get_end())<<" expected "<<s.c[d].back()<<" in dimension "<<d);
  }
  uint64_t last=m.get_last_cell();
  for(int k=0;k<40;k++){
    int l=int(rnd(s.M+1)); A3 v,ix;
    for(int d=0;d<3;d++){ uint64_t n=s.L[d]<<l; switch(rnd(4)){case 0:v[d]=0;break;case 1:v[d]=n-1;break;default:v[d]=rnd(n);} ix[d]=v[d]<<(s.M-l); }
    uint64_t cell=m.get_cell_from_indices(ix,l); nontriv++;
    D3 mn=g.get_min(cell),mx=g.get_max(cell),ce=g.get_center(cell),le=g.get_length(cell),c2=center_i(g,l,ix);
    for(int d=0;d<3;d++){
      LD a=s.lo(d,l,v[d]), b=s.lo(d,l,v[d]+1), t=s.tol(d);
      CHECK(fabsl(mn[d]-a)<=t,"get_min("<<cell<<")["<<d<<"] = "<<mn[d]<<" expected "<<(double)a);
      CHECK(fabsl(mx[d]-b)<=t,"get_max("<<cell<<")["<<d<<"] = "<<mx[d]<<" expected "<<(double)b);
      CHECK(fabsl(ce[d]-(a+b)/2)<=t,"get_center("<<cell<<")["<<d<<"] = "<<ce[d]<<" expected "<<(double)((a+b)/2));
      CHECK(fabsl(c2[d]-(a+b)/2)<=t,"get_center(level "<<l<<", indices of cell "<<cell<<")["<<d<<"] = "<<c2[d]<<" expected "<<(double)((a+b)/2));
      CHECK(fabsl(le[d]-(b-a))<=t && (le[d]>0),"get_length("<<cell<<")["<<d<<"] = "<<le[d]<<" expected "<<(double)(b-a));
    }
  }
  for(uint64_t bad: {uint64_t(0), last+1, last+2, ~uint64_t(0), last + 1 + rnd(1000)}){
    if(bad && bad<=last) continue;
    CHECK(allnan(g.get_min(bad))&&allnan(g.get_max(bad))&&allnan(g.get_center(bad))&&allnan(g.get_length(bad)),"invalid cell "<<bad<<" has box "<<show(g.get_min(bad))<<" "<<show(g.get_max(bad))<<" center "<<show(g.get_center(bad))<<" length "<<show(g.get_length(bad)));
  }
  A3 z{{0,0,0}};
  for(int l: {-1,s.M+1,-1000,1000}) CHECK(allnan(center_i(g,l,z)),"get_center(level "<<l<<", 0) = "<<show(center_i(g,l,z)));
  for(int d=0;d<3;d++) for(uint64_t x: {s.L[d]<<s.M,(s.L[d]<<s.M)+1,~uint64_t(0)}){ A3 i=z; i[d]=x; CHECK(allnan(center_i(g,s.M,i)),"get_center(level, indices) outside the grid, index "<<x<<" in dimension "<<d<<" = "<<show(center_i(g,s.M,i))); }
}

static double rcoord(const Spec& s,int d){
  double a=s.c[d].front(), b=s.c[d].back(), w=b-a;
  if(s.exact){     // multiples of a quarter of the smallest cell, up to several grid lengths away
    uint64_t n=s.L[d]; uint64_t k=rnd(n); double q=(s.c[d][k+1]-s.c[d][k])/double(uint64_t(1)<<s.M)/4;
    double x=s.c[d][k]+q*double(rnd((uint64_t(4)<<s.M)+1));
    switch(rnd(6)){ case 0: return a; case 1: return b; case 2: return x+w*(double(rnd(7))-3); case 3: return rnd(2)?a-q:b+q; default: return x; }
  }
  double x=a+uni()*w;
  switch(rnd(10)){ case 0: return a; case 1: return b; case 2: return nextafter(a,-1e300); case 3: return nextafter(b,1e300);
    case 4: return x+w*(double(rnd(2001))-1000); case 5: return nextafter(a,1e300); case 6: return nextafter(b,-1e300); case 7: { uint64_t k=rnd(s.L[d]+1); return s.c[d][k]; }
    case 8: return (rnd(2)?1:-1)*ldexp(1+uni(),int(rnd(60))); default: return x; }
}
template<class G> static void check_lookup(const Spec& s, const Mapping& m, const G& g){
  for(int k=0;k<40;k++){
    D3 x; for(int d=0;d<3;d++) x[d]=rcoord(s,d);
    bool hasnan=rnd(20)==0; if(hasnan) x[rnd(3)]=numeric_limits<double>::quiet_NaN();
    D3 r=g.get_real_coordinate(x); A3 ix=g.get_indices(x); bool out=false;
    for(int d=0;d<3;d++){
      double a=g.get_start()[d], b=g.get_end()[d], t=s.tol(d); bool in=x[d]>=a&&x[d]<=b;
      if(in) CHECK(r[d]==x[d],"get_real_coordinate"<<show(x)<<" inside the grid gives "<<show(r));
      else if(s.per[d] && x[d]==x[d]){
        CHECK(r[d]>=a&&r[d]<=b,"get_real_coordinate"<<show(x)<<" = "<<show(r)<<" outside the grid in periodic dimension "<<d);
        LD w=LD(b)-a, q=(LD(x[d])-r[d])/w; LD tt= s.exact?0: 64*numeric_limits<double>::epsilon()*(fabsl(x[d])+fabsl(a)+fabsl(b)+1)*max(LD(1),fabsl(q));
        CHECK(fabsl(q-roundl(q))*w<=tt,"get_real_coordinate"<<show(x)<<" = "<<show(r)<<" not shifted by whole grid lengths in dimension "<<d);
      } else CHECK(r[d]!=r[d],"get_real_coordinate"<<show(x)<<" = "<<show(r)<<" not NaN outside non-periodic dimension "<<d);
      if(r[d]!=r[d]){ out=true; CHECK(ix[d]==error_index,"get_indices"<<show(x)<<"["<<d<<"] = "<<ix[d]<<" outside the grid"); continue; }
      CHECK(ix[d]<(s.L[d]<<s.M),"get_indices"<<show(x)<<"["<<d<<"] = "<<ix[d]<<" not inside the grid");
      LD lo=s.lo(d,s.M,ix[d]),hi=s.lo(d,s.M,ix[d]+1);
      CHECK(lo-t<=r[d]&&r[d]<=hi+t,"get_indices"<<show(x)<<"["<<d<<"] = "<<ix[d]<<" does not contain the coordinate");
    }
    nontriv+=!out;
    for(int l=0;l<=s.M;l++){ if(s.M>4&&rnd(3)) continue;
      uint64_t c=g.get_cell(l,x);
      if(out){ CHECK(c==error_cell,"get_cell("<<l<<", "<<show(x)<<") = "<<c<<" outside the grid"); continue; }
      CHECK(m.get_refinement_level(c)==l,"get_cell("<<l<<", "<<show(x)<<") = "<<c<<" has level "<<m.get_refinement_level(c));
      D3 mn=g.get_min(c),mx=g.get_max(c);
      for(int d=0;d<3;d++) CHECK(mn[d]-s.tol(d)<=r[d]&&r[d]<=mx[d]+s.tol(d),"get_cell("<<l<<", "<<show(x)<<") = "<<c<<" with box "<<show(mn)<<" "<<show(mx)<<" does not contain the coordinate");
    }
    for(int l: {-1,s.M+1}) CHECK(g.get_cell(l,x)==error_cell,"get_cell with invalid level "<<l);
  }
}
static Spec rspec(int kind){   // 0 no geometry, 1 cartesian, 2 stretched
  Spec s; s.M=int(rnd(4)); if(rnd(6)==0) s.M=int(rnd(kind==2?8:13)); s.exact=rnd(2);
  for(int d=0;d<3;d++){ s.L[d]=1+rnd(rnd(3)?4:12); s.per[d]=rnd(2); }
  if(s.exact && s.M>6) s.M=6;
  for(int d=0;d<3;d++){
    double x, D; 
    if(s.exact){ x=double(rnd(9))-4; D=1+double(rnd(4)); } else { x=(uni()-0.5)*ldexp(1.0,int(rnd(24))-4); D=(uni()+0.01)*ldexp(1.0,int(rnd(20))-4); if(rnd(3)==0) x=0; if(rnd(4)==0){ x=0.1; D=0.1; } }
    if(kind==0){ x=0; D=1; }
    for(uint64_t i=0;i<=s.L[d];i++){ s.c[d].push_back(kind==1? x+double(i)*D : x); if(kind!=1){ x+=D; if(kind==2){ D= s.exact? 1+double(rnd(4)) : D*(0.4+uni()*2); } } }
  }
  return s;
}
static string desc(const Spec& s,int kind){ ostringstream o; o.precision(17); o<<(kind==0?"No_Geometry":kind==1?"Cartesian_Geometry":"Stretched_Cartesian_Geometry")<<" length "<<s.L[0]<<" "<<s.L[1]<<" "<<s.L[2]<<" max level "<<s.M<<" periodic "<<s.per[0]<<s.per[1]<<s.per[2]; for(int d=0;d<3;d++){ o<<" ["; for(size_t i=0;i<s.c[d].size()&&i<6;i++) o<<s.c[d][i]<<" "; o<<"]"; } return o.str(); }

template<class G> static void one(const string& P,const Spec& s,const Mapping& m,const G& g){ if(P=="C04") check_boxes(s,m,g); if(P=="C05") check_lookup(s,m,g); }

static void run_boxes(const string& P){
  int kind=int(rnd(3)); Spec s=rspec(kind); context=desc(s,kind);
  Mapping m; CHECK(m.set_length(s.L)&&m.set_maximum_refinement_level(s.M),"valid mapping refused");
  Grid_Topology t; for(int d=0;d<3;d++) t.set_periodicity(d,s.per[d]);
  if(kind==0){ No_Geometry g(m.length,m,t); one(P,s,m,g); }
  if(kind==1){ Cartesian_Geometry g(m.length,m,t); Cartesian_Geometry::Parameters p; for(int d=0;d<3;d++){ p.start[d]=s.c[d][0]; p.level_0_cell_length[d]=s.exact? s.c[d][1]-s.c[d][0] : s.c[d][1]-s.c[d][0]; }
    for(int d=0;d<3;d++) for(uint64_t i=0;i<=s.L[d];i++) s.c[d][i]=p.start[d]+double(i)*p.level_0_cell_length[d];
    CHECK(g.set(p),"valid parameters refused"); one(P,s,m,g); }
  if(kind==2){ Stretched_Cartesian_Geometry g(m.length,m,t); Stretched_Cartesian_Geometry::Parameters p; for(int d=0;d<3;d++) p.coordinates[d]=s.c[d]; CHECK(g.set(p),"valid parameters refused"); one(P,s,m,g); }
}
// ---------------------------------------------------------------- C06
static string tmpname;
static double weird(){ switch(rnd(12)){ case 0: return 0; case 1: return -0.0; case 2: return -1; case 3: return numeric_limits<double>::quiet_NaN(); case 4: return -numeric_limits<double>::denorm_min(); case 5: return numeric_limits<double>::denorm_min(); default: return uni()*10+0.001; } }
static bool same3(const D3& a,const D3& b){ return a==b; }
template<class G,class F> static void file_roundtrip(const G& g, G& h, F eq, const Mapping&, const char* what){
  MPI_File f; MPI_Offset off=rnd(3)*8;
  if(MPI_File_open(MPI_COMM_SELF,tmpname.c_str(),MPI_MODE_RDWR|MPI_MODE_CREATE,MPI_INFO_NULL,&f)!=MPI_SUCCESS) return;
  CHECK(g.write(f,off),what<<" write failed");
  MPI_Offset size=0; MPI_File_get_size(f,&size);
  CHECK(size==off+MPI_Offset(g.data_size()),what<<" data_size "<<g.data_size()<<" but wrote "<<size-off);
  CHECK(h.read(f,off),what<<" read of written file failed"); CHECK(eq(),what<<" differs after write and read");
  MPI_File_close(&f); unlink(tmpname.c_str());
}
static void run_params(){
  Mapping m; A3 L; for(auto& x:L) x=1+rnd(5); m.set_length(L); Grid_Topology t;
  { context="Cartesian_Geometry"; Cartesian_Geometry g(m.length,m,t); D3 s{{0,0,0}},D{{1,1,1}};
    for(int k=0;k<8;k++){ Cartesian_Geometry::Parameters p; for(int d=0;d<3;d++){ p.start[d]=(uni()-0.5)*100; p.level_0_cell_length[d]=rnd(3)?uni()+0.01:weird(); }
      bool ok=true; for(double x:p.level_0_cell_length) ok=ok&&(x>0); bool got=g.set(p);
      CHECK(got==ok,"set with cell lengths "<<show(p.level_0_cell_length)<<(got?" accepted":" refused"));
      if(ok){ s=p.start; D=p.level_0_cell_length; nontriv++; }
      CHECK(same3(g.get().start,s)&&same3(g.get().level_0_cell_length,D)&&same3(g.get_start(),s)&&same3(g.get_level_0_cell_length(),D),"after "<<(ok?"accepted":"refused")<<" set the geometry reports "<<show(g.get_start())<<" "<<show(g.get_level_0_cell_length())<<" expected "<<show(s)<<" "<<show(D));
      Cartesian_Geometry h(m.length,m,t); CHECK(h.set(g),"set(other) failed"); CHECK(same3(h.get_start(),s)&&same3(h.get_level_0_cell_length(),D),"set(other) differs");
      if(rnd(8)==0){ Cartesian_Geometry h2(m.length,m,t); file_roundtrip(g,h2,[&]{return same3(h2.get_start(),s)&&same3(h2.get_level_0_cell_length(),D);},m,"Cartesian_Geometry"); 
        ofstream o(tmpname,ios::binary); int id=1; o.write((char*)&id,4); o.write((char*)s.data(),24); o.write((char*)D.data(),24); o.close(); ifstream in(tmpname,ios::binary); Cartesian_Geometry h3(m.length,m,t); CHECK(h3.read(in)&&same3(h3.get_start(),s)&&same3(h3.get_level_0_cell_length(),D),"ifstream read differs");
        { D3 D2=D; D2[rnd(3)]=rnd(2)?0:-1; ofstream o2(tmpname,ios::binary); o2.write((char*)&id,4); o2.write((char*)s.data(),24); o2.write((char*)D2.data(),24); o2.close(); ifstream in2(tmpname,ios::binary); CHECK(!h3.read(in2)&&same3(h3.get_start(),s)&&same3(h3.get_level_0_cell_length(),D),"reading invalid parameters did not fail without effect"); }
        unlink(tmpname.c_str()); }
    } }
  { context="Stretched_Cartesian_Geometry"; Stretched_Cartesian_Geometry g(m.length,m,t); array<vector<double>,3> c; for(int d=0;d<3;d++) for(uint64_t i=0;i<=L[d];i++) c[d].push_back(double(i));
    CHECK(g.get().coordinates==c,"default coordinates are not 0, 1, 2...");
    for(int k=0;k<8;k++){ Stretched_Cartesian_Geometry::Parameters p; bool ok=true;
      for(int d=0;d<3;d++){ uint64_t n=L[d]+1; if(rnd(8)==0) n=rnd(L[d]+4); double x=(uni()-0.5)*50; for(uint64_t i=0;i<n;i++){ p.coordinates[d].push_back(x); x+=rnd(10)?uni()+0.01:weird(); }
        if(rnd(12)==0&&n) p.coordinates[d][rnd(n)]=numeric_limits<double>::quiet_NaN();
        if(n!=L[d]+1) ok=false; for(uint64_t i=0;i+1<n;i++) if(!(p.coordinates[d][i]<p.coordinates[d][i+1])) ok=false; }
      bool got=g.set(p); ostringstream o; for(auto& v:p.coordinates){ o<<"["; for(double x:v) o<<x<<" "; o<<"]"; }
      CHECK(got==ok,"set with coordinates "<<o.str()<<(got?" accepted":" refused")<<" for grid length "<<L[0]<<" "<<L[1]<<" "<<L[2]);
      if(ok){ c=p.coordinates; nontriv++; }
      CHECK(g.get().coordinates==c,"coordinates after "<<(ok?"accepted":"refused")<<" set differ from expected"); 
      Stretched_Cartesian_Geometry h(m.length,m,t); CHECK(h.set(g),"set(other) failed"); CHECK(h.get().coordinates==c,"set(other) differs");
      if(rnd(8)==0){ Stretched_Cartesian_Geometry h2(m.length,m,t); file_roundtrip(g,h2,[&]{return h2.get().coordinates==c;},m,"Stretched_Cartesian_Geometry"); }
    }
    // from a Cartesian geometry of the same and of a different length
    Cartesian_Geometry cg(m.length,m,t); Cartesian_Geometry::Parameters p; for(int d=0;d<3;d++){ p.start[d]=double(rnd(20))-10; p.level_0_cell_length[d]=1+double(rnd(5)); } cg.set(p);
    Mapping m2; A3 L2=L; L2[rnd(3)]+=1; m2.set_length(L2); Cartesian_Geometry cg2(m2.length,m2,t); 
    CHECK(!g.set(cg2)&&g.get().coordinates==c,"set from a Cartesian geometry of another grid length did not fail without effect");
    CHECK(g.set(cg),"set from a Cartesian geometry failed"); for(int d=0;d<3;d++){ CHECK(g.get().coordinates[d].size()==L[d]+1,"size"); for(uint64_t i=0;i<=L[d];i++) CHECK(g.get().coordinates[d][i]==p.start[d]+double(i)*p.level_0_cell_length[d],"set from a Cartesian geometry: coordinate "<<i<<" of dimension "<<d<<" is "<<g.get().coordinates[d][i]); }
  }
  { context="No_Geometry"; No_Geometry g(m.length,m,t); CHECK(g.set(No_Geometry::Parameters()),"set refused"); No_Geometry h(m.length,m,t); if(rnd(8)==0) file_roundtrip(g,h,[&]{return same3(h.get_start(),g.get_start())&&same3(h.get_end(),g.get_end());},m,"No_Geometry");
    if(rnd(8)==0){ // a file written by one geometry is not accepted by another
      MPI_File f; if(MPI_File_open(MPI_COMM_SELF,tmpname.c_str(),MPI_MODE_RDWR|MPI_MODE_CREATE,MPI_INFO_NULL,&f)==MPI_SUCCESS){ g.write(f,0); Cartesian_Geometry c(m.length,m,t); CHECK(!c.read(f,0)&&same3(c.get_start(),D3{{0,0,0}}),"Cartesian_Geometry read a No_Geometry file"); MPI_File_close(&f); unlink(tmpname.c_str()); } } }
}
// ---------------------------------------------------------------- topology part of C07
static void run_topology(){
  context="Grid_Topology"; array<bool,3> p{{bool(rnd(2)),bool(rnd(2)),bool(rnd(2))}}; Grid_Topology t(p), t0;
  for(int d=0;d<3;d++){ CHECK(t.is_periodic(d)==p[d],"constructed periodicity"); CHECK(!t0.is_periodic(d),"default periodicity"); }
  for(int k=0;k<20;k++){ uint64_t d=rnd(4)?rnd(3):rnd(2)?3+rnd(5):rng(); bool v=rnd(2); bool r=t.set_periodicity(d,v); CHECK(r==(d<3),"set_periodicity("<<d<<") returned "<<r); if(d<3) p[d]=v; for(uint64_t q=0;q<3;q++) CHECK(t.is_periodic(q)==p[q],"periodicity of dimension "<<q<<" after setting "<<d); CHECK(!t.is_periodic(3+rnd(9)),"periodic in dimension > 2"); nontriv++; }
  if(rnd(8)==0){ Grid_Topology u; file_roundtrip(t,u,[&]{ for(int d=0;d<3;d++) if(u.is_periodic(d)!=p[d]) return false; return true; },Mapping(),"Grid_Topology"); 
    array<uint8_t,3> b; for(int d=0;d<3;d++) b[d]=p[d]; ofstream o(tmpname,ios::binary); o.write((char*)b.data(),3); o.close(); ifstream in(tmpname,ios::binary); Grid_Topology w; CHECK(w.read(in),"ifstream read failed"); for(int d=0;d<3;d++) CHECK(w.is_periodic(d)==p[d],"ifstream read differs"); unlink(tmpname.c_str()); }
}
int main(int argc,char** argv){
  MPI_Init(&argc,&argv);
  string P=argv[1]; rng.seed(strtoull(argv[2],0,10)*6151+3); double secs=atof(argv[3]);
  char tmpl[]="/tmp/verif_geoXXXXXX"; int fd=mkstemp(tmpl); if(fd>=0) close(fd); unlink(tmpl); tmpname=tmpl;
  cerr.setstate(ios::failbit);
  auto t0=chrono::steady_clock::now();
  do { for(int k=0;k<20;k++){ if(P=="C06") run_params(); else if(P=="C07") run_topology(); else run_boxes(P); } }
  while(chrono::duration<double>(chrono::steady_clock::now()-t0).count()<secs);
  cout<<"OK evaluations "<<evals<<" nontrivial "<<nontriv<<endl; cout.flush();
  MPI_Finalize(); return 0;
}
