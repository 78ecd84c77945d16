// Executable contracts of the collective helpers (C16) on the real code; bounded by the generated cases.
// usage: mpiexec -n N mpi_check C16 SEED SECONDS [onlycase]
#include <chrono>
#include <cstdint>
#include <cstdlib>
#include <iostream>
#include <limits>
#include <random>
#include <set>
#include <sstream>
#include <string>
#include <unistd.h>
#include <unordered_map>
#include <unordered_set>
#include <vector>
#include "mpi.h"
#include "dccrg_mpi_support.hpp"
using namespace std;
typedef uint64_t U;
static int rnk,nproc; static long evals=0,nontriv=0; static U casenr; static string context;
static mt19937_64 rng;  // same stream on every process
static U R(U n){ return rng()%n; }
[[noreturn]] static void fail(const string& w){ cout<<"FAIL C16 case "<<casenr<<" rank "<<rnk<<" of "<<nproc<<" "<<context<<": "<<w<<endl; cout.flush(); usleep(300000); _Exit(1); }
template<class T> static string S(const T& x){ ostringstream o; o<<x; return o.str(); }
#define CHECK(c,m) do{ evals++; if(!(c)) fail(m); }while(0)
static U val(U a,U b,U c){ U x=a*0x9e3779b97f4a7c15ull^(b+0x1234567)*0xbf58476d1ce4e5b9ull^(c+77)*0x94d049bb133111ebull; x^=x>>31; return x*0xd6e8feb86659fd93ull; }
static void skew(U k){ if(val(k,rnk,1)%4==0) usleep(val(k,rnk,2)%800); }

static void one(MPI_Comm comm,int cr,int cn,U tag){
  int kind=R(5); U key=rng();
  if(kind<2){ // all gather
    int shape=R(5); vector<U> size(cn); for(auto&x:size) x= shape==0?0: shape==1?R(4): shape==2?(R(2)?0:R(50)): shape==3? R(3000): R(8)*R(2); if(R(60)==0) size[R(cn)]=60000;
    vector<U> v; for(U i=0;i<size[cr];i++) v.push_back(val(key,cr,i));
    auto v0=v; vector<vector<U>> r(R(7)); for(auto&x:r) x.assign(R(5),99);
    context="All_Gather sizes"; for(U x:size) context+=" "+S(x);
    skew(key); dccrg::All_Gather()(v,r,comm);
    CHECK(v==v0,"the values given were changed"); CHECK((int)r.size()==cn,"result has "+S(r.size())+" items for "+S(cn)+" processes");
    for(int p=0;p<cn;p++){ CHECK(r[p].size()==size[p],"values of process "+S(p)+" number "+S(r[p].size())+" expected "+S(size[p])); for(U i=0;i<size[p];i++){ U e=val(key,p,i); CHECK(r[p][i]==e,"value "+S(i)+" of process "+S(p)+" is "+S(r[p][i])+" expected "+S(e)); } nontriv+=size[p]>0; }
  } else if(kind==2){ context="All_Reduce"; bool big=R(2); U e=0,mine=0; for(int p=0;p<cn;p++){ U x=val(key,p,3)>>(big?0:20); e+=x; if(p==cr) mine=x; } skew(key); U r=dccrg::All_Reduce()(mine,comm); CHECK(r==e,"sum is "+S(r)+" expected "+S(e)); nontriv++; }
  else { int n=1+R(4); for(int k=0;k<n;k++){ int den=R(4); U e=0,mine=0; unordered_set<int> nb; for(int p=0;p<cn;p++) for(int q=p+1;q<cn;q++){ bool on= den==0? false: den==1? R(3)==0: den==2? R(2): true; if(on&&p==cr) nb.insert(q); if(on&&q==cr) nb.insert(p); }
      auto V=[&](int p){ return val(key,p,100+k); }; mine=V(cr); e=mine; for(int p:nb) e+=V(p); auto nb0=nb; context="Some_Reduce "+S(k)+" with "+S(nb.size())+" neighbours"; skew(key+k);
      U r=dccrg::Some_Reduce()(mine,nb,comm); CHECK(r==e,"sum is "+S(r)+" expected "+S(e)); CHECK(nb==nb0,"neighbours changed"); nontriv+=!nb.empty(); } }
  (void)tag;
}
int main(int argc,char**argv){
  MPI_Init(&argc,&argv); MPI_Comm_rank(MPI_COMM_WORLD,&rnk); MPI_Comm_size(MPI_COMM_WORLD,&nproc);
  U seed=strtoull(argv[2],0,10); double secs=atof(argv[3]); U only=argc>4?strtoull(argv[4],0,10):~0ull; cerr.setstate(ios::failbit);
  { MPI_Datatype t,u; MPI_Type_contiguous(2,MPI_INT,&t); MPI_Type_dup(MPI_INT,&u); MPI_Datatype n[]={MPI_INT,MPI_BYTE,MPI_UINT64_T,MPI_DOUBLE}; dccrg::Is_Named_Datatype d; context="Is_Named_Datatype"; for(auto&x:n) CHECK(d(x),"predefined type not recognised"); CHECK(!d(t),"derived type taken as predefined"); CHECK(!d(u),"duplicated type taken as predefined"); MPI_Type_free(&t); MPI_Type_free(&u); }
  auto t0=chrono::steady_clock::now(); U n=0;
  for(;;n++){ if(only!=~0ull){ if(n<only) continue; if(n>only) break; }
    rng.seed(seed*1000003+n*7919+5); casenr=n; int way=R(4);
    if(way==0&&nproc>1){ int k=1+R(nproc-1); MPI_Comm sub; MPI_Comm_split(MPI_COMM_WORLD,rnk<k,R(2)?-rnk:rnk,&sub); int a,b; MPI_Comm_rank(sub,&a); MPI_Comm_size(sub,&b); auto save=rng; for(int i=0;i<4;i++){ rng.seed(seed+n*31+i+(rnk<k)*1000); one(sub,a,b,n); } rng=save; MPI_Comm_free(&sub); }
    else for(int i=0;i<6;i++) one(MPI_COMM_WORLD,rnk,nproc,n);
    if(n%16==15||only!=~0ull){ int stop=chrono::duration<double>(chrono::steady_clock::now()-t0).count()>secs; MPI_Bcast(&stop,1,MPI_INT,0,MPI_COMM_WORLD); if(stop) break; } }
  long t[2]={evals,nontriv},r[2]; MPI_Reduce(t,r,2,MPI_LONG,MPI_SUM,0,MPI_COMM_WORLD);
  if(rnk==0){ cout<<"OK evaluations "<<r[0]<<" nontrivial "<<r[1]<<" cases "<<n<<endl; cout.flush(); }
  MPI_Finalize(); return 0; }
