  // ---- C15: save and load
  D4 disk(U c){ return data[c]; }
  void op_saveload(){
    static int fileno=0; fileno++; string name=scratch+"/gc_"+S(getppid())+"_"+S(fileno)+".dc";
    MPI_Offset off=R(3)*13+R(2); int hk=R(4); vector<U> hdr(6); for(auto&x:hdr) x=rng(); int hn= hk==0?0: hk==1?3: 4;
    auto header=[&](U* p){ MPI_Datatype t; if(hk==2){ MPI_Type_contiguous(2,MPI_UINT64_T,&t); return tuple<void*,int,MPI_Datatype>((void*)p,2,t); } if(hk==3){ return tuple<void*,int,MPI_Datatype>((void*)p,32,MPI_BYTE); } return tuple<void*,int,MPI_Datatype>((void*)p,hn,MPI_UINT64_T); };
    bool subset=chance(15); vector<U> towrite; map<int,set<U>> per; 
    if(subset){ for(auto&o:m.owner) if(chance(50)) per[o.second].insert(o.first); for(auto&o:m.owner) if(per[o.second].empty()) per[o.second].insert(o.first); for(U c:per[rnk]) towrite.push_back(c); if(chance(50)) reverse(towrite.begin(),towrite.end()); }
    bool opts=subset&&chance(50), wi=true, wc=true, wd=true; if(opts){ wi=chance(50); wc=chance(50); wd=chance(50); }
    context+=" save(off"+S(off)+" hdr"+S(hk)+(subset?" subset":"")+(opts?" opts"+S(wi)+S(wc)+S(wd):string())+")";
    if(rnk==0) unlink(name.c_str()); MPI_Barrier(MPI_COMM_WORLD);
    bool extra= C("C15")&&chance(30); if(extra) op_update();
    MPI_Datatype none=MPI_BYTE; auto hh= rnk==0? header(hdr.data()) : tuple<void*,int,MPI_Datatype>(nullptr,0,none);
    bool ok=g.save_grid_data(name,off,hh,towrite,wi,wc,wd); CHECK(ok,"save_grid_data reports failure"); MPI_Barrier(MPI_COMM_WORLD);
    for(auto&o:m.owner) if(o.second==rnk) CHECK(g[o.first]&&same(g[o.first]->get(),data[o.first]),"saving changed data of cell "+S(o.first));
    set<U> want; if(subset){ for(auto&p:per) want.insert(p.second.begin(),p.second.end()); } else for(auto&o:m.owner) want.insert(o.first);
    // the documented file format, read back without the library
    if(rnk==0){ ifstream f(name,ios::binary); string b((istreambuf_iterator<char>(f)),istreambuf_iterator<char>()); size_t p=off;
      auto get=[&](size_t at){ U x=0; CHECK(at+8<=b.size(),"file ends at "+S(b.size())+" before "+S(at+8)); memcpy(&x,b.data()+at,8); return x; };
      for(int i=0;i<hn;i++) CHECK(get(p+8*i)==hdr[i],"header word "+S(i)+" in file"); p+=8*hn;
      U n=want.size();
      if(wi){ CHECK(get(p)==0x1234567890abcdefull,"endianness mark in file"); p+=8;
        for(int i=0;i<3;i++) CHECK(get(p+8*i)==m.L[i],"grid length in file"); p+=g.mapping.data_size()+4+g.topology.data_size()+g.geometry.data_size();
        CHECK(get(p)==n,"number of cells in file is "+S(get(p))+" expected "+S(n)); p+=8; }
      size_t dp=p+8*n*(int(wc)+int(wd)); set<U> seen; size_t bytes= Data::mode==3?24:32; size_t expect_at=dp;
      for(U i=0;i<n;i++){ U c=0,at=expect_at; size_t q=p+8*i*(int(wc)+int(wd)); if(wc){ c=get(q); q+=8; } if(wd){ at=get(q); CHECK(at==expect_at,"data of item "+S(i)+" at "+S(at)+" expected "+S(expect_at)); } 
        if(!wc){ c=get(at); }
        CHECK(want.count(c)&&seen.insert(c).second,"cell "+S(c)+" in file is not to be saved or listed twice");
        D4 d=data[c]; if(Data::mode==3){ CHECK(get(at)==d[0]&&get(at+8)==d[1]&&get(at+16)==d[3],"data of cell "+S(c)+" in file"); } else for(int k=0;k<4;k++) CHECK(get(at+8*k)==d[k],"data of cell "+S(c)+" in file");
        expect_at+=bytes; }
      CHECK(b.size()==expect_at,"file has "+S(b.size())+" bytes expected "+S(expect_at)); nontriv++; }
    if(!subset){
      int k=1+R(nproc); bool rev=chance(30); static const char* ms[]={"RCB","RIB","HSFC","RANDOM","BLOCK"}; const char* me=ms[R(5)]; bool split=chance(60); bool two= Data::mode==5&&chance(70);
      context+=" load on "+S(k)+(two?" two phases":"");
      int in= rev? rnk>=nproc-k : rnk<k; MPI_Comm sub; MPI_Comm_split(MPI_COMM_WORLD,in?0:MPI_UNDEFINED,rev?-rnk:rnk,&sub);
      if(in){ int sr,sn; MPI_Comm_rank(sub,&sr); MPI_Comm_size(sub,&sn);
        Grid h; vector<U> hb(8,77);
        if(two||split){ CHECK(h.start_loading_grid_data(name,off,header(hb.data()),sub,me),"start_loading_grid_data fails");
          if(two){ for(Data::phase=0;Data::phase<2;Data::phase++) CHECK(h.continue_loading_grid_data(),"continue_loading_grid_data fails"); Data::phase=2; } else CHECK(h.continue_loading_grid_data(),"continue_loading_grid_data fails");
          CHECK(h.finish_loading_grid_data(),"finish_loading_grid_data fails"); }
        else CHECK(h.load_grid_data(name,off,header(hb.data()),sub,me),"load_grid_data fails");
        for(int i=0;i<hn;i++) CHECK(hb[i]==hdr[i],"loaded header word "+S(i)); for(int i=hn;i<8;i++) CHECK(hb[i]==77,"loading wrote past the header");
        auto L=h.length.get(); for(int d=0;d<3;d++){ CHECK(L[d]==m.L[d],"loaded grid length"); CHECK(h.topology.is_periodic(d)==m.per[d],"loaded periodicity of dimension "+S(d)); }
        CHECK(h.get_maximum_refinement_level()==m.M,"loaded maximum refinement level"); CHECK(h.get_neighborhood_length()==m.hood,"loaded neighbourhood length "+S(h.get_neighborhood_length()));
        auto loc=h.get_cells(); vector<U> all; { int n=loc.size(); vector<int> ns(sn),ds(sn); MPI_Allgather(&n,1,MPI_INT,ns.data(),1,MPI_INT,sub); int t=0; for(int i=0;i<sn;i++){ ds[i]=t; t+=ns[i]; } all.resize(t+1); loc.push_back(0); MPI_Allgatherv(loc.data(),n,MPI_UINT64_T,all.data(),ns.data(),ds.data(),MPI_UINT64_T,sub); loc.pop_back(); all.resize(t); }
        set<U> as(all.begin(),all.end()); CHECK(as.size()==all.size(),"a loaded cell is on two processes");
        if(as!=want){ set<U> a,b; set_difference(as.begin(),as.end(),want.begin(),want.end(),inserter(a,a.end())); set_difference(want.begin(),want.end(),as.begin(),as.end(),inserter(b,b.end())); fail("loaded cells: unexpected "+LS(a)+" missing "+LS(b)); }
        for(U c:loc){ Data* d=h[c]; CHECK(d,"no data of loaded cell "+S(c)); D4 e=data[c]; if(Data::mode==3) e[2]=0; CHECK(same(d->get(),e),"loaded data of cell "+S(c)+" is "+DS(d->get())+" expected "+DS(e)); nontriv++; }
        for(U c:want){ auto a0=g.geometry.get_min(c),a1=h.geometry.get_min(c),b0=g.geometry.get_max(c),b1=h.geometry.get_max(c); CHECK(a0==a1&&b0==b1,"loaded geometry of cell "+S(c)); }
        set<U> it; for(const auto& c:h.local_cells()){ it.insert(c.id); CHECK(c.data==h[c.id],"local_cells() data of loaded cell"); } CHECK(it==set<U>(loc.begin(),loc.end()),"local_cells() of the loaded grid are "+LS(it)+" expected "+LS(loc));
        for(U c:loc){ auto* n=h.get_neighbors_of(c); CHECK(n,"no neighbours of loaded cell "+S(c)); CHECK(*n==of(c,-0x7fff),"neighbours of loaded cell "+S(c)+" are "+NS(*n)+" expected "+NS(of(c,-0x7fff))); }
        // copies can be updated in the loaded grid
        CHECK(h.update_copies_of_remote_neighbors(),"update of copies in the loaded grid");
        for(const auto& c:h.remote_cells()){ D4 e=data[c.id]; CHECK(c.data,"copy"); bool recv=false; for(U l:loc) for(auto&n:of(l,-0x7fff)) if(n.first==c.id) recv=true; if(recv) CHECK(same(c.data->get(),e),"copy of remote cell "+S(c.id)+" in the loaded grid"); }
      }
      if(in) MPI_Comm_free(&sub);
      Data::phase=2;
    }
    MPI_Barrier(MPI_COMM_WORLD); if(rnk==0) unlink(name.c_str());
  }
  // ---- C18: refused operations leave the grid as it was
  string state(){
    ostringstream o; o.precision(17);
    map<U,U> cp(g.get_cell_process().begin(),g.get_cell_process().end()); for(auto&x:cp) o<<x.first<<":"<<x.second<<" "; o<<"|";
    map<U,D4> cd; for(auto&x:g.get_cell_data()) cd[x.first]=x.second.get(); for(auto&x:cd) o<<x.first<<"="<<DS(x.second)<<" "; o<<"|";
    for(auto&x:cp) o<<NS(g.get_all_neighbors_of().at(x.first)); o<<"|"; for(auto&x:cp) o<<NS(g.get_all_neighbors_to().at(x.first)); o<<"|";
    for(auto&h:hoods){ for(auto&x:cp){ o<<NS(g.get_all_user_neigh_of().at(h.first).at(x.first)); o<<NS(g.get_all_user_neigh_to().at(h.first).at(x.first)); } } o<<g.get_user_hood_of().size()<<" "<<g.get_user_hood_to().size()<<" "<<g.get_all_user_neigh_of().size()<<" "<<g.get_all_user_neigh_to().size()<<"|";
    map<U,U> p1(g.get_pin_requests().begin(),g.get_pin_requests().end()), p2(g.get_new_pin_requests().begin(),g.get_new_pin_requests().end()); for(auto&x:p1) o<<x.first<<">"<<x.second<<" "; o<<"|"; for(auto&x:p2) o<<x.first<<">"<<x.second<<" "; o<<"|";
    map<U,double> w(g.get_cell_weights().begin(),g.get_cell_weights().end()); for(auto&x:w) o<<x.first<<"*"<<x.second<<" "; o<<"|";
    for(auto x:g.get_processes_per_part()) o<<x<<" "; for(size_t l=0;l<g.get_processes_per_part().size();l++){ auto v=g.get_partitioning_options(l); sort(v.begin(),v.end()); for(auto&n:v) o<<n<<"="<<g.get_partitioning_option_value(l,n)<<" "; } o<<"|";
    o<<g.get_maximum_refinement_level()<<" "<<g.get_neighborhood_length()<<" "<<g.get_load_balancing_method(); for(int d=0;d<3;d++) o<<" "<<g.length.get()[d]<<" "<<g.topology.is_periodic(d)<<" "<<g.geometry.get_start()[d]<<" "<<g.geometry.get_end()[d]; o<<"|";
    auto sl=[&](const auto& l){ map<int,vector<pair<U,int>>> q(l.begin(),l.end()); for(auto&x:q){ o<<x.first<<"["; for(auto&y:x.second) o<<y.first<<","<<y.second<<" "; o<<"]"; } o<<"|"; };
    sl(g.get_cells_to_send()); sl(g.get_cells_to_receive()); for(auto&h:hoods){ sl(g.get_user_neigh_cells_to_send().at(h.first)); sl(g.get_user_neigh_cells_to_receive().at(h.first)); }
    set<U> s1; for(const auto& c:g.local_cells()) s1.insert(c.id); o<<LS(s1); s1.clear(); for(const auto& c:g.remote_cells()) s1.insert(c.id); o<<LS(s1);
    return o.str(); }
  template<class F> void refused(const string& what,F f){ bool thrown=false,ok=false; try{ ok=f(); }catch(const std::exception&){ thrown=true; } CHECK(thrown||!ok,what+" is not refused"); nontriv++; }
  void op_misuse(){
    context+=" misuse"; vector<U> leaf; for(auto&o:m.owner) leaf.push_back(o.first);
    // pending valid requests, which the refused operations must not disturb
    U rc=leaf[R(leaf.size())]; bool ask=chance(50)&&m.lev(rc)<m.M; if(ask&&m.owner[rc]==rnk) g.refine_completely(rc);
    if(chance(30)){ U c=leaf[R(leaf.size())]; int to=R(nproc); if(m.owner[c]==rnk) g.pin(c,to); pins[c]=to; }
    if(chance(20)) g.add_partitioning_level(1+R(3));
    string before=state();
    for(int k=0;k<6;k++){ U c=leaf[R(leaf.size())]; U b; int w=R(6); 
      switch(w){ case 0: b=0; break; case 1: b=m.last()+1+R(4); break; case 2: b=~U(0)-R(3); break; case 3: b=m.lev(c)?m.parent(c):m.last()+1; break; case 4: b=m.M>m.lev(c)?m.kids(c)[R(8)]:0; break; default: b=c; }
      int bi=R(4), to=R(nproc); bool exists=m.owner.count(b)>0, local=exists&&m.owner[b]==rnk; string bs=S(b); int id=60+R(40);
      if(exists){ if(local) continue; }
      refused("refine of cell "+bs,[&]{ return g.refine_completely(b); }); refused("unrefine of cell "+bs,[&]{ return g.unrefine_completely(b); });
      if(!exists){ refused("dont_refine of cell "+bs,[&]{ return g.dont_refine(b); }); refused("dont_unrefine of cell "+bs,[&]{ return g.dont_unrefine(b); });
        refused("neighbours of cell "+bs,[&]{ return g.get_neighbors_of(b)!=nullptr; }); refused("neighbours to cell "+bs,[&]{ return g.get_neighbors_to(b)!=nullptr; });
        refused("face neighbours of cell "+bs,[&]{ return !g.get_face_neighbors_of(b).empty(); }); refused("process of cell "+bs,[&]{ return g.get_process(b)!=-1; });
        bool refined=false; { auto r=g.get_removed_cells(); for(U x:r) refined|=x==b; } if(!g.get_cell_data().count(b)&&w<3) refused("data of cell "+bs,[&]{ return g[b]!=nullptr; }); }
      refused("pin of cell "+bs,[&]{ return g.pin(b,to); }); refused("pin of cell "+bs,[&]{ return g.pin(b); }); refused("unpin of cell "+bs,[&]{ return g.unpin(b); });
      refused("weight of cell "+bs,[&]{ return g.set_cell_weight(b,2+k); }); double wt=g.get_cell_weight(b); CHECK(wt!=wt,"weight of cell "+bs+" is "+S(wt));
      refused("is_local of cell "+bs,[&]{ return g.is_local(b); }); refused("neighbours at offset of cell "+bs,[&]{ return !g.get_neighbors_of_at_offset(b,1,0,0).empty(); });
      refused("remote neighbours of cell "+bs,[&]{ return !g.get_remote_neighbors_of(b).empty(); }); refused("remote neighbours to cell "+bs,[&]{ return !g.get_remote_neighbors_to(b).empty(); });
      refused("type match of cell "+bs,[&]{ return g.is_neighbor_type_match(b,{0,1,2,4,8,15},bool(bi&1),dccrg::default_neighborhood_id); });
      (void)id; }
    { U c=leaf[R(leaf.size())]; int p=chance(50)? nproc+R(3) : -1-int(R(3)); refused("pin to process "+S(p),[&]{ return g.pin(c,p); }); 
      array<double,3> bad=g.geometry.get_start(); int d=R(3); if(m.per[d]||chance(30)) bad[d]=0.0/0.0; else bad[d]=chance(50)? bad[d]-1 : g.geometry.get_end()[d]+1;
      refused("refine at outside coordinate",[&]{ return g.refine_completely_at(bad); }); refused("unrefine at outside coordinate",[&]{ return g.unrefine_completely_at(bad); }); refused("dont_unrefine at outside coordinate",[&]{ return g.dont_unrefine_at(bad); }); CHECK(g.get_existing_cell(bad)==0,"existing cell outside of the grid"); }
    int id=1+R(50); while(hoods.count(id)) id++;
    refused("cells of unknown neighbourhood",[&]{ return !g.get_cells(vector<int>(),false,id).empty(); }); refused("boundary of unknown neighbourhood",[&]{ return !g.get_local_cells_on_process_boundary(id).empty(); }); refused("inner cells of unknown neighbourhood",[&]{ return !g.get_local_cells_not_on_process_boundary(id).empty(); }); refused("remote boundary of unknown neighbourhood",[&]{ return !g.get_remote_cells_on_process_boundary(id).empty(); });
    refused("inner_cells of unknown neighbourhood",[&]{ g.inner_cells(id); return true; }); refused("outer_cells of unknown neighbourhood",[&]{ g.outer_cells(id); return true; }); refused("local_cells of unknown neighbourhood",[&]{ g.local_cells(id); return true; }); refused("remote_cells of unknown neighbourhood",[&]{ g.remote_cells(id); return true; }); refused("all_cells of unknown neighbourhood",[&]{ g.all_cells(id); return true; });
    for(auto&o:m.owner) if(o.second==rnk){ refused("neighbours in unknown neighbourhood",[&]{ return g.get_neighbors_of(o.first,id)||g.get_neighbors_to(o.first,id); }); refused("remote neighbours in unknown neighbourhood",[&]{ return !g.get_remote_neighbors_of(o.first,id).empty()||!g.get_remote_neighbors_to(o.first,id).empty(); }); refused("type match in unknown neighbourhood",[&]{ return g.is_neighbor_type_match(o.first,{0,1,2,4,8,15},false,id); }); break; }
    CHECK(g.get_number_of_update_send_cells(id)==~U(0)&&g.get_number_of_update_receive_cells(id)==~U(0),"number of update cells of unknown neighbourhood");
    int uw=R(3); if(uw==0) refused("update in unknown neighbourhood",[&]{ return g.update_copies_of_remote_neighbors(id); }); else if(uw==1) refused("update in unknown neighbourhood",[&]{ bool a=g.start_remote_neighbor_copy_updates(id); bool b=g.wait_remote_neighbor_copy_updates(id); return a||b; });
    else { refused("sends in unknown neighbourhood",[&]{ return g.start_remote_neighbor_copy_sends(id); }); refused("receives in unknown neighbourhood",[&]{ return g.start_remote_neighbor_copy_receives(id); }); }
    g.remove_neighborhood(id); g.remove_neighborhood(dccrg::default_neighborhood_id);
    { typedef dccrg::Types<3>::neighborhood_item_t T; vector<T> h; for(auto&o:H) if(chance(30)) h.push_back({{o[0],o[1],o[2]}}); int far=max(1u,m.hood)+1+R(3); 
      T bad={{0,0,0}}; int w=R(m.hood==0?4:3); if(w==1) bad[R(3)]=far; else if(w==2) bad[R(3)]=-far; else if(w==3){ bad[0]=1; bad[1+R(2)]=-1; } h.insert(h.begin()+R(h.size()+1),bad);
      refused("neighbourhood with item "+S(bad[0])+","+S(bad[1])+","+S(bad[2]),[&]{ return g.add_neighborhood(id,h); }); vector<T> one{{{1,0,0}}}; refused("redefinition of the default neighbourhood",[&]{ return g.add_neighborhood(dccrg::default_neighborhood_id,one); });
      if(!hoods.empty()) refused("redefinition of a neighbourhood",[&]{ return g.add_neighborhood(hoods.begin()->first,one); }); }
    { int lev=chance(50)? -1-int(R(3)) : int(g.get_processes_per_part().size()+R(3)); auto T=[&](auto f){ try{ f(); }catch(const std::exception&){} };
      T([&]{ g.add_partitioning_level(-int(R(3))); }); T([&]{ g.remove_partitioning_level(lev); }); T([&]{ g.add_partitioning_option(lev,"IMBALANCE_TOL","1.5"); }); T([&]{ g.remove_partitioning_option(lev,"LB_METHOD"); }); T([&]{ g.set_partitioning_option("RETURN_LISTS","NONE"); }); T([&]{ g.add_partitioning_option(0,"NUM_GID_ENTRIES","3"); });
      CHECK(g.get_partitioning_options(lev).empty()&&g.get_partitioning_option_value(lev,"LB_METHOD").empty(),"options of partitioning level "+S(lev)); }
    { A3 l{2,3,4}; refused("second initial length",[&]{ g.set_initial_length(l); return true; }); refused("second initialization",[&]{ g.initialize(MPI_COMM_WORLD); return true; }); refused("too large maximum refinement level",[&]{ g.set_maximum_refinement_level(22+R(100)); return true; }); 
      for(int d=3;d<6;d++) CHECK(!g.topology.is_periodic(d),"periodicity of dimension "+S(d)); }
    string after=state();
    if(before!=after){ size_t i=0; while(i<before.size()&&i<after.size()&&before[i]==after[i]) i++; fail("refused operations changed the grid: before ..."+before.substr(i>40?i-40:0,120)+"... after ..."+after.substr(i>40?i-40:0,120)); } evals++;
    // valid pending requests still work afterwards
    while(!g.get_processes_per_part().empty()) g.remove_partitioning_level(0);
    Model old=m; auto nc=g.stop_refining(); adopt();
    if(ask){ CHECK(!m.owner.count(rc),"pending refinement of cell "+S(rc)+" was lost"); for(U k:m.kids(rc)) CHECK(m.owner.count(k)&&m.owner[k]==old.owner[rc],"child "+S(k)+" of refined cell"); }
    else CHECK(m.owner==old.owner,"refused requests changed the grid in the next commit");
    for(auto&o:old.owner) if(!m.owner.count(o.first)){ auto p=pins.find(o.first); if(p!=pins.end()){ int to=p->second; pins.erase(p); for(U k:m.kids(o.first)) pins[k]=to; } }
    invalidate(); stampall(); reset_copies();
    int cr=R(2); if(cr){ g.balance_load(false); weights.clear(); Model o2=m; adopt(); for(auto&o:o2.owner){ int e=pins.count(o.first)?pins[o.first]:o.second; CHECK(m.owner.count(o.first)&&m.owner[o.first]==e,"cell "+S(o.first)+" is on process "+S(m.owner[o.first])+" expected "+S(e)+" after refused pins"); } invalidate(); stampall(); reset_copies(); }
    if(chance(20)){ Grid q; A3 z{2,0,1}; refused("initialization before setting length",[&]{ q.initialize(MPI_COMM_WORLD); return true; }); refused("initial length of 0",[&]{ q.set_initial_length(z); return true; }); q.set_initial_length({{2,2,1}}); refused("too large maximum refinement level",[&]{ q.set_maximum_refinement_level(40); return true; }); q.set_maximum_refinement_level(1); q.initialize(MPI_COMM_WORLD); CHECK(q.get_all_cells().size()==4,"grid initialized after a refused initialization"); }
  }
