// Serialization: archive operations as events, checked against the grammar of the archive and the state of the loaded container.
// EL ids: 0/5 node of the element numbered n (saving / loading), 31 last pointer read, 30 the one before, 39 older ones.
#pragma once
#include "reh.hpp"
struct Ser{
  Eng&E;std::map<Str,long>&probe;long voff,cnt,hdr;bool chain,iter;
  static std::map<Str,std::vector<Str>>&seqs(){static std::map<Str,std::vector<Str>> m;return m;}
  static bool prim(const Str&d,bool chain,bool iter){
    static const std::regex all("index_matcher::algorithm<.*>::(add|execute<.*>|is_ordered)\\(|std::(sort|binary_search)<|^(void )?boost::throw_exception<|random_access_index_loader(_base)?<.*>::~?random_access_index_loader(_base)?\\(|bad_archive_exception::|::uncheck\\(|::throw_exception<");
    static const std::regex main_("multi_index_container<.*>::(clear_|insert_rv_)\\(|(sequenced|ordered|hashed|random_access)_index(_impl)?<.*>::(save_|load_)<.*\\(|node_iterator<.*>::operator\\+\\+\\(\\)");
    static const std::regex ch("index_saver<.*>::save<.*\\(|index_loader<.*>::load<.*\\(|duplicates_iterator<.*>::duplicates_iterator\\(");
    static const std::regex be("(sequenced|ordered|hashed|random_access)_index(_impl)?<.*>::(begin|end)\\(\\) const$");
    static const std::regex it("bucket_array<.*>::end\\(\\) const");
    if(std::regex_search(d,all))return true;
    if(iter)return std::regex_search(d,it);
    if(std::regex_search(d,be))return true;
    return std::regex_search(d,chain?ch:main_);
  }
  Ser(Eng&e,std::map<Str,long>&p,bool c,bool i):E(e),probe(p),chain(c),iter(i){voff=p["val"];cnt=p["cnt"];hdr=p["hdr"];}
  static Str gname(Value*v){ // string constant behind a name argument
    if(isa<ConstantPointerNull>(v))return "";
    auto*g=dyn_cast<GlobalVariable>(getUnderlyingObject(v));if(!g||!g->hasInitializer())return "?";
    auto*c=dyn_cast<ConstantDataSequential>(g->getInitializer());return c&&c->isCString()?c->getAsCString().str():"?";
  }
  Str nm(State&S,CallBase*c){Value*v=c->getArgOperand(0);Str s=gname(v);if(s!="?")return s;V x=E.ev(S,v);if(x.k==MEMP&&x.id<0){for(auto&g:E.gvar)if(g.second==x.id)return gname(const_cast<GlobalVariable*>(g.first));}return "?";}
  static void want(const Str&got,const char*w){if(got=="?")throw Fail{"an archive name is unknown"};if(got!=w)throw Viol{"archive grammar","the item written or read is named '"+got+"' instead of '"+w+"'"};}
  static bool same(const V&a,const V&b){return a.k==b.k&&a.id==b.id&&a.off==b.off;}
  void age(State&S){
    std::function<void(V&)> fv=[&](V&v){if(v.k==EL&&(v.id==30||v.id==31))v.id=v.id==31?30:39;for(auto&a:v.agg)fv(a);};
    for(auto&p:S.env)fv(p.second);for(auto&p:S.mem)for(auto&q:p.second)fv(q.second);
    S.gi["chk30"]=S.gi["chk31"];S.gi["chk31"]=0;S.gi.erase("same");
  }
  static Str classOf(Instruction*I){ // the index whose save_ or load_ makes this call
    for(const DILocation*l=I->getDebugLoc().get();l;l=l->getInlinedAt())if(auto*sp=l->getScope()->getSubprogram())if(sp->getName().starts_with("save_")||sp->getName().starts_with("load_")){
      Str d=demangle(sp->getLinkageName().str());size_t p=d.find("::save_<");if(p==Str::npos)p=d.find("::load_<");if(p==Str::npos)continue;d=d.substr(0,p);if(d.starts_with("void "))d=d.substr(5);return d;}
    return "?";
  }
  template<class G> void fork(State&S,const char*key,G f){auto&g=S.gi;if(!g.count(key)){Split sp;for(int k=0;k<2;++k)E.alt(S,sp,[&](State&T){T.gi[key]=k;});throw sp;}int k=g[key];g.erase(key);f(k);}
  // loading: the element being constructed
  bool loadHook(State&S,CallBase*c,StringRef n,const Str&d,V&r){
    auto A=[&](unsigned i){return E.ev(S,c->getArgOperand(i));};
    auto has=[&](const char*s){return d.find(s)!=Str::npos;};auto&g=S.gi;
    auto closed=[&]{if(g["pend"]&&!(g["reset"]&&g["pos"]))throw Viol{"archive grammar",g["pos"]?"the address of a loaded element is not reported to the archive":"the position of a loaded element is not read"};g["pend"]=g["reset"]=g["pos"]=0;};
    if(n=="vp_get_count"){want(nm(S,c),"count");if(g["phase"])throw Viol{"archive grammar","the number of elements is read out of order"};g["phase"]=1;r=V::i(S.gl["s"]);g["throws"]=1;return true;}
    if(n=="vp_get_version"){want(nm(S,c),"value_version");if(g["phase"]!=1||!g["hasvv"])throw Viol{"archive grammar","the element version is read out of order or although older archives lack it"};g["phase"]=2;r=V::i(S.gl["vv"]);g["throws"]=1;return true;}
    if(n=="vp_get_cd"){
      int exp=g["hasvv"]?2:1;if(g["arc"])exp=0;if(g["phase"]!=exp)throw Viol{"archive grammar","an element is read before the preamble or after the header"};
      if(g["live"])throw Viol{"leak","an element is constructed while the one before still exists"};closed();
      if(!g["arc"]&&!S.ge(S.gl["s"]-S.gl["ins"]-Lin(1)))throw Viol{"archive grammar","more elements are read than the archive holds"};
      V v=A(1);Lin w=g["hasvv"]||g["arc"]?S.gl["vv"]:Lin(0);if(v.k!=INT)throw Fail{"unknown element version"};if(!S.eq0(v.n-w))throw Viol{"archive grammar","an element is constructed with another version than that of the archive"};
      fork(S,"cdx",[&](int k){if(k)g["throws"]=2;else{S.mem[90][0]=A(0);g["live"]=2;}});return true;} // exists only once the call has returned
    if(n=="vp_get_item"){
      Str s=nm(S,c);if(g["arc"]!=2)want(s,"item");if(!g["live"]||!same(A(1),S.mem[90][0]))throw Viol{"archive grammar","an element is read into something not constructed"};
      if(g["live"]==3)throw Viol{"archive grammar","an element is read twice"};g["live"]=3;g["throws"]=1;return true;}
    if(has("vp::V::~V(")){if(!g["live"]||!same(A(0),S.mem[90][0]))throw Viol{"leak","something is destroyed which was not constructed"};g["live"]=0;return true;}
    if(has("::clear_(")){if(S.gi["inserted"])throw Viol{"archive grammar","the container is cleared after elements have been loaded"};g["clr"]=1;return true;}
    if(has("::insert_rv_(")){
      if(!g["clr"])throw Viol{"archive grammar","elements are loaded in a container that has not been cleared"};
      if(g["live"]!=3||!same(A(1),S.mem[90][0]))throw Viol{"archive grammar","something else than the element read is inserted"};
      if(g["pend"])throw Viol{"archive grammar","an element is inserted twice"};
      if(!g.count("insok")){Split sp;for(int k=0;k<2;++k)E.alt(S,sp,[&](State&T){T.gi["insok"]=k;});throw sp;}
      int ok=g["insok"];g.erase("insok");r.k=AGG;
      if(ok){r.agg={V::el(S.gl["ins"],5),V::i(1)};S.gl["ins"]+=Lin(1);g["pend"]=1;}else{V u=V::el(S.gl["ins"],6);r.agg={u,V::i(0)};g["fail"]=1;}
      g["throws"]=1;return true;}
    if(n=="vp_reset"){
      V a=A(0),b=A(1);if(g["fail"])throw Viol{"bad archive","an element that could not be inserted is used"};
      if(!(a.k==EL&&a.id==5&&a.off==voff&&g["pend"]&&S.eq0(a.n-S.gl["ins"]+Lin(1)))||!same(b,S.mem[90][0]))throw Viol{"archive grammar","the archive is told wrong addresses for the loaded element"};
      if(!g["live"])throw Viol{"archive grammar","the address of a destroyed element is given to the archive"};
      g["reset"]=1;g["throws"]=1;return true;}
    if(n=="vp_get_obj"){
      V o=A(1);want(nm(S,c),"position");
      if(g["fail"])throw Viol{"bad archive","an element that could not be inserted is used"};
      if(o.k==MEMP&&o.id==2){closed();if(g["phase"]!=(g["hasvv"]?2:1)||!S.eq0(S.gl["s"]-S.gl["ins"]))throw Viol{"archive grammar","the header is tracked before all elements are loaded"};g["phase"]=3;g["throws"]=1;return true;}
      if(!(o.k==EL&&o.id==5&&g["pend"]&&!g["pos"]&&S.eq0(o.n-S.gl["ins"]+Lin(1))))throw Viol{"archive grammar","the position read is not that of the element just loaded"};
      g["pos"]=1;g["throws"]=1;return true;}
    if(has("::load_<")){
      if(g["phase"]!=3)throw Viol{"archive grammar","indices are loaded before the elements"};
      V v=A(2);if(v.k==INT&&v.n.isC()&&v.n.c!=g["ver"])throw Viol{"archive grammar","indices are loaded as of another version"};
      bool ok=false;if(S.arr.count(100)){auto&p=S.arr[100].p;for(auto&x:p)if(x.k==EL&&x.id==5&&x.s==1&&S.eq0(x.lo)&&S.eq0(x.hi-S.gl["s"])&&S.eq0(x.c))ok=true;}
      if(!ok&&!S.eq0(S.gl["s"]))throw Viol{"bad archive","the loader does not know exactly the elements loaded"};
      g["phase"]=4;g["throws"]=1;return true;}
    return false;
  }
  bool saveHook(State&S,CallBase*c,StringRef n,const Str&d,V&r){
    auto A=[&](unsigned i){return E.ev(S,c->getArgOperand(i));};
    auto has=[&](const char*s){return d.find(s)!=Str::npos;};auto&g=S.gi;
    auto ret=[&](V v){if(c->getType()->isVoidTy()){V p=A(0);if(p.k!=MEMP)throw Fail{"iterator"};S.mem[p.id][p.off]=v;}else r=v;};
    auto cur=[&](const V&x,long off){if(x.k!=EL||x.off!=off||!S.eq0(x.n-S.gl["w"]))throw Viol{"archive grammar","another element is saved than the next one"};};
    if(n=="vp_put_count"){want(nm(S,c),"count");V x=A(1);if(g["phase"]||x.k!=INT||!S.eq0(x.n-S.gl["N"]))throw Viol{"archive grammar","the number of elements is not saved first"};g["phase"]=1;g["throws"]=1;return true;}
    if(n=="vp_put_version"){want(nm(S,c),"value_version");V x=A(1);if(g["phase"]!=1||x.k!=INT)throw Viol{"archive grammar","the element version is saved out of order"};S.gl["vv"]=x.n;g["phase"]=2;g["throws"]=1;return true;}
    if(n=="vp_put_cd"){if(g["phase"]!=2||g["el"])throw Viol{"archive grammar","an element is saved out of order"};cur(A(0),voff);V v=A(1);if(v.k!=INT||!S.eq0(v.n-S.gl["vv"]))throw Viol{"archive grammar","an element is saved with another version than the one recorded"};g["el"]=1;g["throws"]=1;return true;}
    if(n=="vp_put_item"){want(nm(S,c),"item");if(g["el"]!=1)throw Viol{"archive grammar","an element is saved out of order"};cur(A(1),voff);g["el"]=2;g["throws"]=1;return true;}
    if(n=="vp_put_obj"){
      want(nm(S,c),"position");V o=A(1);
      if(o.k==MEMP&&o.id==2){if(g["phase"]!=2||g["el"]||g["added"]||!S.eq0(S.gl["N"]-S.gl["w"]))throw Viol{"archive grammar","the header is tracked before all elements are saved"};g["phase"]=3;g["throws"]=1;return true;}
      if(g["el"]!=2)throw Viol{"archive grammar","a position is saved before its element"};if(o.k==EL)o.off=0;cur(o,0);g["el"]=3;done(S);g["throws"]=1;return true;}
    if(has("algorithm<")&&has("::add(")){V o=A(1);if(o.k==EL)o.off=0;if(!g["added"])cur(o,0);else throw Viol{"archive grammar","an element is given to the matcher twice"};g["added"]=1;done(S);return true;}
    if(has("::save_<")){if(g["phase"]!=3)throw Viol{"archive grammar","indices are saved before the elements"};g["phase"]=4;g["throws"]=1;return true;}
    if(has("::begin() const")){ret(V::el(Lin(0)));return true;}
    if(has("::end() const")){ret(V::el(S.gl["N"]));return true;}
    if(has("::operator++()")){V p=A(0);if(p.k!=MEMP)throw Fail{"iterator"};V&x=S.mem[p.id][p.off];if(x.k!=EL)throw Fail{"iterator"};if(!S.ge(S.gl["N"]-x.n-Lin(1)))throw Viol{"bounds","an iterator is moved past the end"};x.n+=Lin(1);r=p;return true;}
    return false;
  }
  static void done(State&S){if(S.gi["el"]==3&&S.gi["added"]){S.gi["el"]=S.gi["added"]=0;S.gl["w"]+=Lin(1);}}
  bool common(State&S,CallBase*c,StringRef n,const Str&d,V&r){
    auto A=[&](unsigned i){return E.ev(S,c->getArgOperand(i));};
    auto has=[&](const char*s){return d.find(s)!=Str::npos;};
    if(has("vp::Al<")&&has("::allocate(")){V z=A(1);if(z.k!=INT)throw Fail{"allocation of an unknown size"};int id=100;while(S.arr.count(id))++id;Arr a;a.cap=z.n;a.p.push_back(Rnd::pc(0,z.n,UNK,0));fork(S,"alx",[&](int k){if(k)S.gi["throws"]=2;else{S.arr[id]=a;r=V::slot(id,0);S.gi["mem"]+=1;}});return true;}
    if(has("vp::Al<")&&has("::deallocate(")){S.gi["mem"]-=1;return true;}
    if(has("bad_archive_exception::")||has("std::runtime_error::"))return true;
    if(has("throw_exception<")){
      if(d.find("bad_archive")!=Str::npos&&!S.gi["fail"]&&!S.gi["bad"]&&!S.gi["mustthrow"])throw Viol{"bad archive","a well-formed archive is rejected"};
      S.gi["threw"]=1;S.gi["throws"]=2;return true;}
    return false;
  }
  Str dn(StringRef n){return n.starts_with("_Z")?demangle(n.str()):n.str();}
  static void noLeak(State&S,bool thrown){
    if(S.gi["live"])throw Viol{"leak",Str("an element under construction is not destroyed")+(thrown?" when loading fails":"")};
    if(S.gi["mem"])throw Viol{"leak",Str("auxiliary memory is not released")+(thrown?" when an exception leaves":"")};
  }
  bool configs(const Str&nm_){
    E.useGlobals=true;
    auto base=[this](std::function<bool(State&,CallBase*,StringRef,const Str&,V&)> f){
      E.hook=[this,f](Eng&,State&S,CallBase*c,StringRef n,V&r){Str d=dn(n);return common(S,c,n,d,r)||f(S,c,n,d,r);};};
    auto cont=[this](State&S,Lin N){auto&m=S.mem[1];m[cnt]=V::i(N);m[hdr]=V::mem(2,0);S.mem[2];};
    E.ldHook=[this](Eng&E,State&S,const V&p,V&r){
      if(p.k==MEMP&&p.id==3){r=V();auto i=S.mem[3].find(p.off);if(i!=S.mem[3].end())r=i->second;return true;}
      if(p.k==CELL){r=V::el(Lin(0),8);return true;}
      return false;};
    E.eqHook=[this](Eng&E,State&S,const V&x,const V&y)->int{
      V a=x,b=y;if(a.k==EL&&b.k==EL&&a.id>b.id)std::swap(a,b);
      if(a.k==EL&&b.k==EL&&a.id==30&&b.id==31){auto i=S.gi.find("same");if(i!=S.gi.end())return i->second;Split sp;for(int k=0;k<2;++k)E.alt(S,sp,[&](State&T){T.gi["same"]=k;if(k&&T.gi["chk30"])T.gi["chk31"]=1;if(k&&T.gi["chk31"])T.gi["chk30"]=1;});throw sp;}
      if(a.k==EL&&b.k==EL&&a.id==b.id&&(a.id==30||a.id==31))return 1;
      if(a.k==EL&&b.k==EL&&a.id==5&&b.id==8)return E.decideFact(S,8,Lin(1));
      if(b.k==NIL)std::swap(a,b);
      if(a.k==NIL&&b.k==EL)return 0;if(a.k==NIL&&b.k==CELL)return 0;
      return -1;};
    if(nm_.starts_with("load_")){
      base([this](State&S,CallBase*c,StringRef n,const Str&d,V&r){return loadHook(S,c,n,d,r);});
      for(int v:nm_=="load_version"?std::vector<int>{0,1,2,3,4}:std::vector<int>{-1}){
        State&S=E.add(v<0?"an archive of the current version":"an archive of version "+std::to_string(v),{V::mem(1),V::mem(4),V::i(v<0?0:v)},[](Eng&,State&S,const V*,bool thrown){
          noLeak(S,thrown);if(thrown)return;
          if(S.gi["fail"])throw Viol{"bad archive","an element that could not be inserted is ignored"};
          if(S.gi["phase"]!=4)throw Viol{"archive grammar","loading stops before the indices are loaded"};});
        Lin s=E.fs();cont(S,E.fs());S.gl["s"]=s;S.gl["ins"]=Lin(0);S.gl["vv"]=E.fs();S.gi["hasvv"]=v<0||v>=2;S.gi["ver"]=v<0?-1:v;
        if(v<0)S.gi["ver"]=4;}
      return true;}
    if(nm_=="save"){
      base([this](State&S,CallBase*c,StringRef n,const Str&d,V&r){return saveHook(S,c,n,d,r);});
      Lin N=E.fs();State&S=E.add("any content",{V::mem(1),V::mem(4)},[](Eng&,State&S,const V*,bool thrown){noLeak(S,thrown);if(!thrown&&S.gi["phase"]!=4)throw Viol{"archive grammar","saving stops before the indices are saved"};});
      cont(S,N);S.gl["N"]=N;S.gl["w"]=Lin(0);return true;}
    if(nm_.starts_with("constructed")){
      base([this](State&S,CallBase*c,StringRef n,const Str&d,V&r){return loadHook(S,c,n,d,r);});
      State&S=E.add("any archive",{V::mem(4),V()},[](Eng&,State&S,const V*,bool thrown){noLeak(S,thrown);});
      Lin v=E.fs();S.env[E.F.getArg(1)]=V::i(v);S.gl["vv"]=v;S.gi["arc"]=nm_=="constructed"?2:1;S.gl["ins"]=S.gl["s"]=Lin(0);return true;}
    if(nm_.starts_with("forged")){
      base([this](State&S,CallBase*c,StringRef n,const Str&d,V&r){return false;});
      State&S=E.add("any archive",{V::mem(4),V::mem(3),V::i(E.fs())},[](Eng&,State&,const V*,bool thrown){if(!thrown)throw Viol{"bad archive","a pointer to something not loaded before is accepted"};});
      S.gi["mustthrow"]=1;return true;}
    if(nm_.starts_with("loader")){
      base([this,nm_](State&S,CallBase*c,StringRef n,const Str&d,V&r){
        auto A=[&](unsigned i){return E.ev(S,c->getArgOperand(i));};auto&g=S.gi;
        auto range=[&]{V a=A(0),b=A(1);bool em=S.eq0(S.gl["s"]);if(em)return;
          if(!(a.k==SLOT&&b.k==SLOT&&a.id==100&&b.id==100))throw Fail{"unknown range"};Lin i,j;if(!a.n.div(8,i)||!b.n.div(8,j))throw Fail{"unknown range"};
          if(!S.eq0(i)||!S.eq0(j-S.gl["s"]))throw Viol{"bad archive","positions are looked up in something else than the elements loaded"};};
        auto checked=[&](const V&v){return v.k==EL&&((v.id==31&&g["chk31"])||(v.id==30&&g["chk30"]));};
        if(n=="vp_get_ptr"){
          want(nm(S,c),"pointer");
          if(g["ph"]==3)throw Viol{"archive grammar","something is read after the end of an index"};
          if(g["ph"]==2)throw Viol{"archive grammar","a position is read but its element is not moved"};
          if(!g.count("nul")){Split sp;for(int k=0;k<2;++k)E.alt(S,sp,[&](State&T){T.gi["nul"]=k;});throw sp;}
          int z=g["nul"];g.erase("nul");
          if(z){g["ph"]=g["ph"]==0?(nm_=="loader_twice"&&!g["second"]?(g["second"]=1,0):3):0;r=V::nil();}
          else{age(S);g["ph"]=g["ph"]==0?1:2;r=V::el(Lin(0),31);}
          g["throws"]=1;return true;}
        if(d.find("std::sort<")!=Str::npos){range();g["sorted"]=1;return true;}
        if(d.find("std::binary_search<")!=Str::npos){
          range();if(!g["sorted"])throw Viol{"bad archive","positions are looked up in a range that is not sorted"};
          V p=A(2);V x=p;if(p.k==MEMP)x=S.mem[p.id][p.off];if(x.k!=EL)throw Fail{"lookup of an unknown pointer"};
          if(checked(x)){r=V::i(1);return true;}
          if(x.id!=30&&x.id!=31){r=V::i(1);return true;}
          if(!g.count("ask")){Split sp;for(int k=0;k<2;++k)E.alt(S,sp,[&](State&T){T.gi["ask"]=k;});throw sp;}
          int k=g["ask"];g.erase("ask");if(k){g[x.id==31?"chk31":"chk30"]=1;if(g.count("same")&&g["same"])g["chk30"]=g["chk31"]=1;}else g["bad"]=1;
          r=V::i(k);return true;}
        if(n=="vp_rearr"){
          V p=A(0),x=A(1);
          if(g["bad"])throw Viol{"bad archive","a position that is not in the loaded data is used"};
          if(x.k!=EL||x.id!=31||g["ph"]!=2)throw Viol{"archive grammar","something else than the position just read is moved"};
          if(!checked(x))throw Viol{"bad archive","a position is used that may not be in the loaded data"};
          if(!g.count("same")){Split sp;for(int k=0;k<2;++k)E.alt(S,sp,[&](State&T){T.gi["same"]=k;if(k)T.gi["chk30"]=T.gi["chk31"]=1;});throw sp;}
          if(g["same"]){if(p.k!=NIL)throw Viol{"archive grammar","an element saved as the first one is not moved to the beginning"};}
          else{if(p.k!=EL||p.id!=30)throw Viol{"archive grammar","an element is not moved after the one saved before it"};if(!checked(p))throw Viol{"bad archive","a position is used that may not be in the loaded data"};}
          g["ph"]=1;g["throws"]=1;return true;}
        return false;});
      Lin s=E.fs();State&S=E.add("any archive",{V::mem(5),V::i(s),V::mem(4)},[](Eng&,State&S,const V*,bool thrown){noLeak(S,thrown);if(thrown)return;if(S.gi["bad"])throw Viol{"bad archive","a position that is not in the loaded data is ignored"};if(S.gi["ph"]!=3)throw Viol{"archive grammar","loading an index stops before its end"};});
      S.gl["s"]=s;S.mem[5][0]=V::i(E.fs());S.gi["chk30"]=S.gi["chk31"]=0;return true;}
    if(nm_=="saver"){
      base([this](State&S,CallBase*c,StringRef n,const Str&d,V&r){
        auto A=[&](unsigned i){return E.ev(S,c->getArgOperand(i));};auto&g=S.gi;
        if(n=="vp_next"){V x=A(0);if(x.k!=EL)throw Fail{"iterator"};if(!S.ge(S.gl["N"]-x.n-Lin(1)))throw Viol{"bounds","an iterator is moved past the end"};x.n+=Lin(1);r=x;return true;}
        if(d.find("::execute<")!=Str::npos){V a=A(1),b=A(2);if(a.k==MEMP)a=S.mem[a.id][a.off];if(b.k==MEMP)b=S.mem[b.id][b.off];if(a.k!=EL||b.k!=EL)throw Fail{"range"};if(!S.eq0(a.n)||!S.eq0(b.n-S.gl["N"]))throw Viol{"archive grammar","not the whole index is compared with the base sequence"};g["exec"]=1;g["throws"]=1;return true;}
        if(d.find("::is_ordered(")!=Str::npos){
          V x=A(1);if(x.k!=EL)throw Fail{"unknown element"};if(!g["exec"])throw Viol{"archive grammar","positions are asked for before they are computed"};
          if(g["pend"])throw Viol{"archive grammar","a displaced element is not saved"};
          if(!S.eq0(x.n-S.gl["asked"]))throw Fail{"order of inspection"};
          if(!g.count("isord")){Split sp;for(int k=0;k<2;++k)E.alt(S,sp,[&](State&T){T.gi["isord"]=k;});throw sp;}
          int k=g["isord"];g.erase("isord");S.gl["asked"]+=Lin(1);if(!k)g["pend"]=1;r=V::i(k);return true;}
        if(n=="vp_put_ptr"){
          want(nm(S,c),"pointer");V x=A(1);int ph=g["ph"];
          if(ph==3)throw Viol{"archive grammar","something is saved after the end of an index"};
          if(x.k==NIL){if(ph==0&&!S.eq0(S.gl["asked"]-S.gl["N"]))throw Viol{"archive grammar","the end of an index is saved before its last elements"};
            if(ph==0&&g["pend"])throw Viol{"archive grammar","a displaced element is not saved"};g["ph"]=ph==0?3:0;S.gl["last"]=Lin(0);g["throws"]=1;return true;}
          if(x.k!=EL)throw Fail{"an unknown pointer is saved"};
          if(!S.ge(x.n)||!S.ge(S.gl["N"]-Lin(1)-x.n))throw Viol{"archive grammar","the end of the index is saved as an element"};
          if(ph==0){S.gl["last"]=x.n;g["ph"]=1;}
          else{
            Lin dl=x.n-S.gl["last"];bool first=ph==1&&S.eq0(dl);
            if(first){if(!S.eq0(x.n))throw Viol{"archive grammar","an element is saved as the first one but is not"};}
            else if(!S.eq0(dl-Lin(1)))throw Viol{"archive grammar","an element is saved after one that does not precede it"};
            if(g["pend"]&&S.eq0(x.n-S.gl["asked"]+Lin(1)))g["pend"]=0;
            S.gl["last"]=x.n;g["ph"]=2;}
          g["throws"]=1;return true;}
        return false;});
      Lin N=E.fs();State&S=E.add("any index",{V::mem(5),V::el(Lin(0)),V::el(N),V::mem(4)},[](Eng&,State&S,const V*,bool thrown){if(thrown)return;if(S.gi["pend"])throw Viol{"archive grammar","a displaced element is not saved"};if(S.gi["ph"]!=3||!S.eq0(S.gl["asked"]-S.gl["N"]))throw Viol{"archive grammar","the end of an index is not saved"};});
      S.gl["N"]=N;S.gl["asked"]=Lin(0);S.gl["last"]=Lin(0);return true;}
    if(nm_.starts_with("chain")){
      static std::map<Str,int> code;static std::vector<Str> names;
      base([this](State&S,CallBase*c,StringRef n,const Str&d,V&r){
        auto A=[&](unsigned i){return E.ev(S,c->getArgOperand(i));};auto&g=S.gi;
        auto ret=[&](V v){if(c->getType()->isVoidTy()){V p=A(0);if(p.k!=MEMP)throw Fail{"iterator"};S.mem[p.id][p.off]=v;}else r=v;};
        auto event=[&](Str s){if(!code.count(s)){int k=names.size()+1;code[s]=k;names.push_back(s);}g["e"+std::to_string(100+g["ne"]++)]=code[s];g["throws"]=1;};
        if(d.find("::begin() const")!=Str::npos){ret(V::el(Lin(0)));return true;}
        if(d.find("::end() const")!=Str::npos){ret(V::el(S.gl["N"]));return true;}
        if(d.find("::duplicates_iterator(")!=Str::npos){V p=A(0),x=A(1);if(p.k!=MEMP||x.k!=EL)throw Fail{"iterator"};
          if(c->arg_size()>3){V y=A(2);if(y.k==EL&&!S.eq0(y.n-S.gl["N"]))throw Viol{"archive grammar","a range of equivalent elements does not end with the index"};}S.mem[p.id][p.off]=x;return true;}
        if(d.find("::save<")!=Str::npos){
          V a=A(1),b=A(2);if(a.k==MEMP)a=S.mem[a.id][a.off];if(b.k==MEMP)b=S.mem[b.id][b.off];if(a.k!=EL||b.k!=EL)throw Fail{"range"};
          if(!S.eq0(a.n)||!S.eq0(b.n-S.gl["N"]))throw Viol{"archive grammar","not the whole index is saved"};
          event("order of "+classOf(c));return true;}
        if(d.find("::load<")!=Str::npos){if(g["rld"]&&classOf(c).find("random_access_index")==Str::npos)throw Viol{"archive grammar","a random access index is still being rearranged while the next one is loaded"};event("order of "+classOf(c));return true;}
        if(n=="vp_put_obj"||n=="vp_get_obj"){V o=A(1);if(o.k!=MEMP)throw Fail{"unknown object"};event(nm(S,c)+" of the object at "+std::to_string(o.off)+" of "+classOf(c));return true;}
        if(n=="vp_put_ptr"||n=="vp_get_ptr"||n=="vp_put_count"||n=="vp_get_count"){event(Str(n.substr(7))+" "+nm(S,c)+" of "+classOf(c));return true;}
        if(d.find("::random_access_index_loader(")!=Str::npos||d.find("::random_access_index_loader_base(")!=Str::npos){g["rld"]+=1;return true;}
        if(d.find("::~random_access_index_loader")!=Str::npos){g["rld"]-=1;return true;}
        return false;});
      State&S=E.add("any content",{V::mem(1),V::mem(4),V::mem(5)},[nm_](Eng&,State&S,const V*,bool thrown){
        if(S.gi["rld"])throw Viol{"archive grammar","a random access index is left half rearranged"};
        if(thrown)return;
        std::vector<Str> q;for(int k=0;k<S.gi["ne"];++k)q.push_back(names[S.gi["e"+std::to_string(100+k)]-1]);
        for(auto&s:q)if(s.find("of ?")!=Str::npos)throw Fail{"an archive operation outside the indices"};
        if(auto w=seqs().find(nm_);w!=seqs().end()&&w->second!=q)throw Viol{"archive grammar","what is "+Str(nm_.ends_with("save")?"saved":"loaded")+" depends on the content of the container"};seqs()[nm_]=q;Str o=nm_.substr(0,7)+(nm_.ends_with("save")?"load":"save");
        auto i=seqs().find(o);if(i==seqs().end())return;
        for(size_t k=0;k<std::max(q.size(),i->second.size());++k){Str a=k<q.size()?q[k]:"nothing",b=k<i->second.size()?i->second[k]:"nothing";if(a!=b){auto sh=[](Str s){return s.substr(0,170);};throw Viol{"archive grammar","item "+std::to_string(k+1)+" differs: "+sh(nm_.ends_with("save")?a:b)+" is saved, "+sh(nm_.ends_with("save")?b:a)+" is loaded"};}}
        if(q.empty())throw Viol{"archive grammar","nothing is saved"};});
      S.gl["N"]=E.fs();S.mem[1][probe["cnt_"+nm_.substr(0,6)]]=V::i(S.gl["N"]);return true;}
    if(nm_.starts_with("version_")){
      base([](State&,CallBase*,StringRef,const Str&,V&){return false;});
      E.add("any",{},[](Eng&,State&,const V*r,bool t){if(t||r->k!=INT||!r->n.isC()||!(r->n.c&1))throw Viol{"archive grammar","the class version of a safe iterator is not that of the iterator"};});return true;}
    if(nm_.starts_with("it_")){
      bool sv=nm_.starts_with("it_save_"),v0=nm_.starts_with("it_load0_");Str k=nm_.substr(sv||!v0?8:9);
      long noff=probe["node_"+k],boff=probe["base_"+k];bool hashed=k[0]=='h',loc=k.ends_with("l")&&hashed;
      base([this](State&S,CallBase*c,StringRef n,const Str&d,V&r){
        auto A=[&](unsigned i){return E.ev(S,c->getArgOperand(i));};auto&g=S.gi;
        if(n=="vp_put_ptr"){want(nm(S,c),"pointer");S.mem[91][g["np"]++]=A(1);g["throws"]=1;return true;}
        if(n=="vp_get_ptr"){want(nm(S,c),"pointer");
          if(!g.count("nul")){Split sp;for(int k=0;k<2;++k)E.alt(S,sp,[&](State&T){T.gi["nul"]=k;});throw sp;}
          int z=g["nul"];g.erase("nul");r=z?V::nil():g["np"]?V::mem(6,0):V::el(Lin(0),5);S.mem[91][g["np"]++]=r;g["throws"]=1;return true;}
        if(n=="vp_put_obj"||n=="vp_get_obj"||n=="vp_put_count"||n=="vp_get_count")throw Viol{"archive grammar","something else than a pointer is saved or loaded for an iterator"};
        if(d.find("::uncheck(")!=Str::npos){g["unchecked"]=1;return true;}
        if(d.find("bucket_array<")!=Str::npos){r.k=CELL;return true;}
        return false;});
      if(sv)for(int z=0;z<(loc?2:1);++z){
        State&S=E.add(z?"an iterator at the end":"any iterator",{V::mem(1),V::mem(4)},[boff,z](Eng&,State&S,const V*,bool thrown){if(thrown)return;
          if(S.gi["np"]!=1)throw Viol{"archive grammar","an iterator is not saved as one pointer"};V x=S.mem[91][0];
          if(z?x.k!=NIL:!(x.k==EL&&x.id==5&&x.off==boff))throw Viol{"archive grammar","an iterator is not saved as the position it denotes"};});
        S.mem[1][noff]=z?V::nil():V::el(Lin(0),5);}
      else{
        int want=v0&&hashed?2:1;
        State&S=E.add(v0?"an archive of version 0":"an archive of the current version",{V::mem(1),V::mem(4)},[boff,noff,want,loc](Eng&,State&S,const V*,bool thrown){if(thrown)return;
          if(S.gi["np"]!=want)throw Viol{"archive grammar","an iterator is not loaded from the pointers saved for it"};V x=S.mem[91][0],y=S.mem[1][noff];
          if(x.k==EL)x.off=-boff;bool end=loc&&want==2&&y.k==NIL&&S.mem[91][1].k!=NIL&&E_fact(S);
          if(!end&&!(x.k==y.k&&(x.k!=EL||(x.id==y.id&&x.off==y.off))))throw Viol{"archive grammar","an iterator is loaded as another position than the one read"};
          if(loc&&want==2&&y.k!=NIL&&E_fact(S))throw Viol{"archive grammar","an old end position is not converted"};
          if(S.gi["safe"]&&!S.gi["unchecked"])throw Viol{"archive grammar","a loaded safe iterator keeps its former owner"};});
        S.gi["safe"]=E.F.getParent()->getFunction("drv_version_seq")&&!loc?1:0;S.mem[1][noff]=V();}
      return true;}
    return false;
  }
  static bool E_fact(State&S){for(auto&f:S.facts)if(f.kind==8)return f.v;return false;}
};
