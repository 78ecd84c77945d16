// Executable contracts of Mapping / Grid_Length evaluated on the real compiled code (replay and bounded stand-in).
// usage: mapping_check PROPERTY SEED SECONDS [hint-file]     exit 0 ok, 1 violated (details on stdout)
#include <new>
#include <array>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <fstream>
#include <iostream>
#include <sstream>
#include <random>
#include <string>
#include <vector>
#include <chrono>
#include <set>
#include "dccrg_mapping.hpp"
using namespace dccrg;
using namespace std;
typedef unsigned __int128 U;
typedef array<uint64_t,3> A3;
static const uint64_t MX = ~uint64_t(0);
static long evals = 0, nontriv = 0;
static string str(U v){ string s; if(!v) s="0"; while(v){ s=char('0'+int(v%10))+s; v/=10;} return s; }

static U sat_mul(U a, U b){ const U lim = U(1)<<100; if(!a||!b) return 0; if (a > lim / b) return lim; return a*b; }
static U NN(const A3& L){ return sat_mul(sat_mul(L[0],L[1]),L[2]); }
static U S(int k){ U s=0,p=1; for(int i=0;i<k;i++){ s+=p; p*=8;} return s; }
static bool fits(const A3& L, int M){ if(!L[0]||!L[1]||!L[2]||M<0||M>21) return false; return sat_mul(NN(L),S(M+1)) <= MX; }

struct Spec {
  A3 L; int M;
  U off(int l) const { return NN(L)*S(l); }
  U last() const { return off(M+1); }
  U id(int l, U a, U b, U c) const { U X=U(L[0])<<l, Y=U(L[1])<<l; return 1+off(l)+a+b*X+c*X*Y; }
  int level(uint64_t c) const { if(!c || U(c)>last()) return -1; int l=0; while(U(c)>off(l+1)) l++; return l; }
  A3 loc(uint64_t c) const { int l=level(c); U r=U(c)-1-off(l), X=U(L[0])<<l, Y=U(L[1])<<l; return A3{{uint64_t(r%X),uint64_t(r/X%Y),uint64_t(r/X/Y)}}; }
};
static string desc(const Spec& s){ ostringstream o; o<<"length "<<s.L[0]<<" "<<s.L[1]<<" "<<s.L[2]<<" max level "<<s.M; return o.str(); }
[[noreturn]] static void fail(const Spec& s, const string& what){
  cout<<"FAIL "<<desc(s)<<": "<<what<<endl; exit(1);
}
#define CHECK(cond, text) do{ evals++; if(!(cond)){ ostringstream o_; o_<<text; fail(s,o_.str()); } }while(0)

static bool quiet_set(Mapping& m, const A3& L, int M){
  return m.set_length(L) && m.set_maximum_refinement_level(M);
}
static void check_cell(const Spec& s, const Mapping& m, uint64_t c){
  int l=s.level(c);
  CHECK(m.get_refinement_level(c)==l, "get_refinement_level("<<c<<") = "<<m.get_refinement_level(c)<<" expected "<<l);
  auto ix=m.get_indices(c);
  uint64_t clen=m.get_cell_length_in_indices(c);
  if(l<0){
    for(int i=0;i<3;i++) CHECK(ix[i]==error_index,"get_indices("<<c<<") of invalid cell gives "<<ix[i]);
    CHECK(clen==error_index,"get_cell_length_in_indices("<<c<<") of invalid cell gives "<<clen);
    return;
  }
  nontriv++;
  A3 v=s.loc(c); int sh=s.M-l;
  for(int i=0;i<3;i++) CHECK(ix[i]==v[i]<<sh,"get_indices("<<c<<")["<<i<<"] = "<<ix[i]<<" expected "<<(v[i]<<sh));
  CHECK(clen==uint64_t(1)<<sh,"get_cell_length_in_indices("<<c<<") = "<<clen);
  CHECK(m.get_cell_from_indices(ix,l)==c,"get_cell_from_indices(get_indices("<<c<<"),"<<l<<") = "<<m.get_cell_from_indices(ix,l));
}
static void check_idx(const Spec& s, const Mapping& m, const A3& ix, int l){
  bool in = l>=0 && l<=s.M; for(int i=0;i<3;i++) in = in && U(ix[i]) < (U(s.L[i])<<s.M);
  U want = in ? s.id(l, ix[0]>>(s.M-l), ix[1]>>(s.M-l), ix[2]>>(s.M-l)) : 0;
  uint64_t got=m.get_cell_from_indices(ix,l);
  if(in) nontriv++;
  CHECK(got==want,"get_cell_from_indices({"<<ix[0]<<","<<ix[1]<<","<<ix[2]<<"},"<<l<<") = "<<got<<" expected "<<str(want));
}
static void check_tree(const Spec& s, const Mapping& m, uint64_t c){
  int l=s.level(c);
  auto ch=m.get_all_children(c); auto sb=m.get_siblings(c);
  uint64_t fc=m.get_child(c), p=m.get_parent(c), p0=m.get_level_0_parent(c);
  array<uint64_t,8> wc{}, ws{}; uint64_t wfc=0, wp=0, wp0=0;
  if(l>=0){
    nontriv++;
    A3 v=s.loc(c);
    if(l<s.M){ for(int k=0;k<8;k++) wc[k]=uint64_t(s.id(l+1,2*U(v[0])+(k&1),2*U(v[1])+(k>>1&1),2*U(v[2])+(k>>2))); wfc=wc[0]; }
    else wfc=c;
    wp = l? uint64_t(s.id(l-1,v[0]/2,v[1]/2,v[2]/2)) : c;
    wp0 = uint64_t(s.id(0,v[0]>>l,v[1]>>l,v[2]>>l));
    if(l) for(int k=0;k<8;k++) ws[k]=uint64_t(s.id(l,2*U(v[0]/2)+(k&1),2*U(v[1]/2)+(k>>1&1),2*U(v[2]/2)+(k>>2)));
    else ws[0]=c;
  }
  for(int k=0;k<8;k++){
    CHECK(ch[k]==wc[k],"get_all_children("<<c<<")["<<k<<"] = "<<ch[k]<<" expected "<<wc[k]);
    CHECK(sb[k]==ws[k],"get_siblings("<<c<<")["<<k<<"] = "<<sb[k]<<" expected "<<ws[k]);
  }
  CHECK(fc==wfc,"get_child("<<c<<") = "<<fc<<" expected "<<wfc);
  CHECK(p==wp,"get_parent("<<c<<") = "<<p<<" expected "<<wp);
  CHECK(p0==wp0,"get_level_0_parent("<<c<<") = "<<p0<<" expected "<<wp0);
}
static void check_state(const Spec& s, const Mapping& m, const string& after){
  for(int i=0;i<3;i++) CHECK(m.length.get()[i]==s.L[i], after<<": length["<<i<<"] = "<<m.length.get()[i]<<" expected "<<s.L[i]);
  CHECK(m.get_maximum_refinement_level()==s.M, after<<": maximum refinement level = "<<m.get_maximum_refinement_level());
  CHECK(U(m.get_last_cell())==s.last(), after<<": last cell = "<<m.get_last_cell()<<" expected "<<str(s.last()));
  int mp=0; while(fits(s.L,mp+1)) mp++;
  CHECK(m.get_maximum_possible_refinement_level()==mp, after<<": maximum possible refinement level = "<<m.get_maximum_possible_refinement_level()<<" expected "<<mp);
}
static void op_length(Spec& s, Mapping& m, const A3& L){
  bool ok=fits(L,s.M); bool got=m.set_length(L);
  CHECK(got==ok,"set_length("<<L[0]<<","<<L[1]<<","<<L[2]<<") "<<(got?"accepted":"refused"));
  if(ok) s.L=L;
  nontriv++;
  check_state(s,m,"after set_length "+to_string(L[0])+" "+to_string(L[1])+" "+to_string(L[2]));
}
static void op_level(Spec& s, Mapping& m, int M){
  bool ok=fits(s.L,M); bool got=m.set_maximum_refinement_level(M);
  CHECK(got==ok,"set_maximum_refinement_level("<<M<<") "<<(got?"accepted":"refused"));
  if(ok) s.M=M;
  nontriv++;
  check_state(s,m,"after set_maximum_refinement_level "+to_string(M));
}
static mt19937_64 rng;
static uint64_t rnd(uint64_t n){ return n? rng()%n : 0; }
static uint64_t rlen(){ // log-uniform length biased to corners
  int b=rnd(65); uint64_t v = b==64? MX : (uint64_t(1)<<b); 
  switch(rnd(4)){ case 0: return v; case 1: return v-1+(v==0); case 2: return v + rnd(3); default: return b? (rng()>>(64-b))|1 : 1; }
}
static bool rgrid(Spec& s){
  for(int t=0;t<50;t++){
    int M=rnd(22); U lim = U(MX)/S(M+1); A3 L; uint64_t rest=uint64_t(lim);
    int order[3]={0,1,2}; swap(order[0],order[rnd(3)]); swap(order[1],order[1+rnd(2)]);
    for(int i=0;i<3;i++){
      uint64_t x; switch(rnd(4)){ case 0: x=1; break; case 1: x=rest; break; case 2: x=1+rnd(min<uint64_t>(rest,9)); break; default: { int b=0; while(b<63 && (rest>>b)>1) b++; int k=rnd(b+1); x=(uint64_t(1)<<k)+rnd(uint64_t(1)<<k); } }
      if(x<1) x=1; if(x>rest) x=rest; L[order[i]]=x; rest/=x;
    }
    if(fits(L,M)){ s.L=L; s.M=M; return true; }
  }
  return false;
}
static uint64_t rcell(const Spec& s){
  int l=rnd(s.M+1); U lo=s.off(l)+1, hi=s.off(l+1);
  switch(rnd(8)){ case 0: return lo; case 1: return hi; case 2: return 0; case 3: return uint64_t(s.last()); case 4: return s.last()<MX? uint64_t(s.last())+1 : MX; case 5: return MX-rnd(3);
    case 6: { U n=hi-lo+1; U k=U(s.L[0])<<l; return uint64_t(lo + (k*rnd(8) + (rnd(3)) + n - 1)%n); }
    default: return uint64_t(lo + (U(rng()) % (hi-lo+1))); }
}
static A3 ridx(const Spec& s){
  A3 r; for(int i=0;i<3;i++){ U n=U(s.L[i])<<s.M; switch(rnd(6)){ case 0: r[i]=0; break; case 1: r[i]=uint64_t(n-1); break; case 2: r[i]= rnd(8)? uint64_t(n-1-(n>1?rnd(2):0)) : uint64_t(n); break; case 3: r[i]= rnd(6)? uint64_t(U(rng())%n) : MX; break; default: r[i]=uint64_t(U(rng())%n);} }
  return r;
}
static void do_one(const string& P, Spec s){
  Mapping m; if(P!="C03"){ CHECK(quiet_set(m,s.L,s.M),"valid configuration refused"); }
  if(P=="C01"){ for(int k=0;k<60;k++){ check_cell(s,m,rcell(s)); check_idx(s,m,ridx(s),rnd(12)?int(rnd(s.M+1)):int(rnd(40))-10); } CHECK(U(m.get_last_cell())==s.last(),"last cell "<<m.get_last_cell()); }
  if(P=="C02"){ for(int k=0;k<60;k++) check_tree(s,m,rcell(s)); }
}
int main(int argc,char** argv){
  string P=argv[1]; uint64_t seed=strtoull(argv[2],0,10); double secs=atof(argv[3]); rng.seed(seed*7919+17);
  cerr.setstate(ios::failbit);
  if(argc>4){ ifstream f(argv[4]); string line;
    while(getline(f,line)){ istringstream in(line); Spec s; uint64_t c; A3 ix,n; long l; 
      if(!(in>>s.L[0]>>s.L[1]>>s.L[2]>>s.M>>c>>ix[0]>>ix[1]>>ix[2]>>l>>n[0]>>n[1]>>n[2])) continue;
      if(!fits(s.L,s.M)) continue;
      Mapping m; bool acc=quiet_set(m,s.L,s.M);
      CHECK(acc,"valid configuration refused");
      if(P=="C01"){ check_cell(s,m,c); check_idx(s,m,ix,int(l)); for(int k=0;k<=s.M;k++) check_idx(s,m,ix,k); }
      if(P=="C02"){ check_tree(s,m,c); }
      if(P=="C03"){ Spec t=s; check_state(t,m,"configured"); op_length(t,m,n); Spec t2=t; op_level(t2,m,int(l)); }
    } }
  // exhaustive small grids
  if(P!="C03") for(uint64_t x=1;x<=3;x++)for(uint64_t y=1;y<=3;y++)for(uint64_t z=1;z<=3;z++)for(int M=0;M<=2;M++){
    Spec s; s.L=A3{{x,y,z}}; s.M=M; Mapping m; CHECK(quiet_set(m,s.L,M),"valid configuration refused");
    for(uint64_t c=0;c<=uint64_t(s.last())+2;c++){ if(P=="C01") check_cell(s,m,c); else check_tree(s,m,c); }
    if(P=="C01"){ set<uint64_t> seen; for(int l=-1;l<=M+1;l++) for(uint64_t i=0;i<=x<<M;i++)for(uint64_t j=0;j<=y<<M;j++)for(uint64_t k=0;k<=z<<M;k++) check_idx(s,m,A3{{i,j,k}},l); }
  }
  auto t0=chrono::steady_clock::now();
  if(P=="C03"){
    { Spec s; s.L=A3{{1,1,1}}; s.M=0; Mapping m; check_state(s,m,"default constructed"); }
    for(uint64_t v: {uint64_t(1)<<32, (uint64_t(1)<<32)-1, (uint64_t(1)<<32)+1, uint64_t(1)<<22, uint64_t(2642245), uint64_t(2642246)}) { Spec s; s.L=A3{{1,1,1}}; s.M=0; Mapping m; op_length(s,m,A3{{v,v,1}}); op_length(s,m,A3{{1,v,v}}); op_length(s,m,A3{{v,1,v}}); op_length(s,m,A3{{v,v,v}}); }
    for(int M=0;M<=21;M++) for(int d=-2;d<=2;d++) for(int dim=0;dim<3;dim++){ uint64_t n=uint64_t(U(MX)/S(M+1)); A3 L{{1,1,1}}; if(d<0 && n<=uint64_t(-d)) continue; if(d>0 && n>MX-uint64_t(d)) continue; L[dim]=n+d; Spec s; s.L=A3{{1,1,1}}; s.M=0; Mapping m; op_length(s,m,L); op_level(s,m,M); op_level(s,m,M+1); op_level(s,m,-1); 
      Mapping c(m); check_state(s,c,"copy"); }
    for(int M=0;M<=21;M++){ Spec s; s.L=A3{{1,1,1}}; s.M=0; Mapping m; op_level(s,m,M); for(int k=0;k<30;k++) op_length(s,m,A3{{rlen(),rnd(3)?1:rlen(),rnd(3)?1:rlen()}}); }
  }
  while(chrono::duration<double>(chrono::steady_clock::now()-t0).count()<secs){
    for(int r=0;r<50;r++){
      if(P=="C03"){
        Spec s; s.L=A3{{1,1,1}}; s.M=0; Mapping m;
        for(int k=0;k<12;k++){ 
          if(rnd(2)){ A3 L; switch(rnd(3)){ case 0: { Spec t; if(rgrid(t)) L=t.L; else L=A3{{1,1,1}}; if(rnd(3)==0) L[rnd(3)]+=rnd(3)-1; break; } case 1: L=A3{{rlen(),rlen(),rlen()}}; break; default: L=A3{{1+rnd(20),rnd(20),1+rnd(20)}}; } op_length(s,m,L); }
          else op_level(s,m, rnd(8)? int(rnd(24))-1 : int(rng()));
          if(rnd(6)==0){ Spec t=s; Mapping* c=new Mapping(m); op_level(s,m,0); op_length(s,m,A3{{7,5,3}}); check_state(t,*c,"copy after the original was changed"); delete c; }
        }
      } else { Spec s; if(rgrid(s)) do_one(P,s); }
    }
  }
  cout<<"OK evaluations "<<evals<<" nontrivial "<<nontriv<<endl;
  return 0;
}
