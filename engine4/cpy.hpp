// copying of an index: the link structure of the copies mirrors that of the originals
#pragma once
#include "rnd.hpp"
// Originals are EL id 0, copies EL id 8; element N is the header. NBR id 1..3: parent, left, right of an element; 4, 5: left, right of its parent;
// 20, 21: its colour, subtree count; 40, 41: next, prior of a non-unique bucket list; +100: the copy of that node.
struct Cpy{
  Eng&E;std::map<Str,long> probe;bool nonuniq;long no=0,io,hdr,cnt,tab;std::map<long,Str> fld; // field offsets from the node
  Lin N,I;
  enum{LNULL=12,RNULL,ISL,ISR,ROOT,FB,NX,PV};
  Cpy(Eng&e,std::map<Str,long> p,bool nu):E(e),probe(p),nonuniq(nu){io=p["io"];if(p.count("up")){no=-io;io=0;}hdr=p["hdr"];cnt=p["cnt"];tab=p.count("tab")?p["tab"]:-1;for(auto*f:{"parent","left","right","color","sub","prior","next","up"})if(p.count(f))fld[io+p[f]]=f;}
  static bool prim(const Str&d){static const std::regex r("copy_map<.*>::(find|begin|end)\\(|hashed_index_node_alg<.*>::(after|is_first_of_bucket)\\(|bucket_array<[^()]*>::(begin|end|size|at)\\(|index_base<.*>::copy_\\(");return std::regex_search(d,r);}
  static bool prim2(const Str&d){static const std::regex r("bucket_array<[^()]*>::(bucket_array|size|clear)\\(|bucket_array_base<.*>::size_index\\(|random_access_index_ptr_array<.*>::(random_access_index_ptr_array|clear)\\(|::calculate_max_load\\(|index_base<.*>::clear_\\(");return std::regex_search(d,r);}
  static bool primC(const Str&d){static const std::regex r("bucket_array<[^()]*>::size\\(|::calculate_max_load\\(|index_base<.*>::clear_\\(");return std::regex_search(d,r);}
  static bool primB(const Str&d){static const std::regex r("bucket_array<[^()]*>::size\\(|bucket_array_base<.*>::size_index\\(");return std::regex_search(d,r);}
  // an empty index: only its header
  bool empty(const Str&nm){
    bool tree=probe.count("parent"),hashed=tab>=0,rnd=probe.count("up");long io=probe["io"];N=E.fs();
    auto h=[io](const V&v){return v.k==MEMP&&v.id==4&&v.off==io;};
    auto vals=[](const Str&d){return d.find("vp::Al<")!=Str::npos;};
    if(nm=="bucket_clear"||nm=="bucket_construct"){
      bool mk=nm=="bucket_construct";long oD=probe["bdata"],op=probe["prior"],on=probe["next"];
      E.hook=[this,vals](Eng&E,State&S,CallBase*c,StringRef n,V&r){
        Str d=n.starts_with("_Z")?demangle(n.str()):n.str();
        if(d.find("::size_index(")!=Str::npos){r=V::i(E.fs());return true;}
        if(d.find("bucket_array<")!=Str::npos&&d.find("::size(")!=Str::npos){r=V::i(N);return true;}
        if(vals(d)&&d.find("::allocate(")!=Str::npos){V z=E.ev(S,c->getArgOperand(1));if(z.k!=INT)throw Fail{"allocation of an unknown size"};Arr a;a.cap=z.n;a.p={Rnd::pc(0,z.n,UNK,0)};S.arr[100]=a;r=V::slot(100,0);return true;}
        return vals(d);};
      E.stHook=[h](Eng&E,State&S,const V&p,const V&v){if(p.k!=SLOT)return false;V w=v;if(h(v)){w=V::el(Lin(0));Lin i;if(!p.n.div(8,i))throw Fail{"misaligned bucket"};}E.write(S,S.arr[p.id],[&]{Lin i;if(!p.n.div(8,i))throw Fail{"misaligned bucket"};return i;}(),w,"a bucket is written");return true;};
      State&S=E.add("any size",mk?std::vector<V>{V::mem(1),V::mem(3),V::mem(4,io),V::i(E.fs())}:std::vector<V>{V::mem(1),V::mem(4,io)},[this,oD,op,on,io,h](Eng&E,State&S,const V*,bool thrown){
        if(thrown)return;V d=S.mem[1][oD];if(d.k!=SLOT||!S.eq0(d.n))bad("the table does not own its buckets");
        Arr&A=S.arr[d.id];if(!S.eq0(A.cap-N-Lin(1)))bad("the table has another number of buckets than recorded");
        Rnd::expect(E,S,A,{Rnd::pc(0,N,NIL,0),Rnd::pc(N,N+Lin(1),EL,N*-1)},"a bucket",false);
        V p=S.mem[4][io+op],n=S.mem[4][io+on];Lin q;if(!h(p))bad("the end of an empty list is not linked to itself");
        if(n.k!=SLOT||n.id!=d.id||!n.n.div(8,q)||!S.eq0(q-N))bad("the end of an empty list does not know its bucket");});
      S.gl["tablesize"]=N;S.mem[4];
      if(!mk){S.mem[1][oD]=V::slot(1,0);Arr A;A.cap=N+Lin(1);A.p={Rnd::pc(0,N+Lin(1),UNK,0)};S.arr[1]=A;}
      return true;}
    auto tabst=[h](Eng&E,State&S,const V&p,const V&v){if(p.k!=SLOT)return false;V w=v;Lin i;if(!p.n.div(8,i))throw Fail{"misaligned bucket"};if(h(v))w=V::el(Lin(0));E.write(S,S.arr[p.id],i,w,"a bucket is written");return true;};
    bool clr=nm=="clear_structure",cp=nm=="ctor_copy",args=nm=="ctor_args",nc=nm=="ctor_nocopy";if(!clr&&!cp&&!args&&!nc)return false;
    long ptrs=rnd?probe["ptrs"]:-1;Lin sz=E.fs();
    E.hook=[this,h,vals,ptrs,sz,clr](Eng&E,State&S,CallBase*c,StringRef n,V&r){
      auto A=[&](unsigned i){return E.ev(S,c->getArgOperand(i));};
      Str d=n.starts_with("_Z")?demangle(n.str()):n.str();auto has=[&](const char*s){return d.find(s)!=Str::npos;};
      if(has("index_base<")&&has("::clear_(")){S.gi["base"]+=1;return true;}
      if(has("::calculate_max_load(")){if(!S.gi.count("made"))bad("the load limit is computed before there are buckets");S.gi["load"]=1;return true;}
      bool b=has("bucket_array<"),p=has("random_access_index_ptr_array<");
      if(b||p){V t=A(0);long at=b?tab:ptrs;if(t.k!=MEMP||t.off!=at)throw Fail{"unknown array"};
        if(b&&has("::size(")){if(clr&&t.id==2){r=V::i(N);return true;}if(t.id!=1||clr)throw Fail{"size of a table"};r=V::i(sz);return true;}
        if(t.id!=2)bad("the array of another container is set up");
        if(has("::clear(")){if(b&&!h(A(1)))bad("the table is cleared for another list");S.gi["made"]+=1;return true;}
        if(!h(A(2)))bad("the array is made for another header");V z=A(3);S.gi["made"]+=1;S.mem[90][0]=z;S.gi["throws"]=1;return true;}
      return vals(d)||has("vp::");};
    State&S=E.add("any content",clr?std::vector<V>{V::mem(2)}:args?std::vector<V>{V::mem(2),V::mem(6),V::mem(7)}:std::vector<V>{V::mem(2),V::mem(1)},[this,h,tree,hashed,rnd,clr,cp,sz,io](Eng&E,State&S,const V*,bool thrown){
      if(thrown)return;auto&m=S.mem[4];auto f=[&](const char*n){return m[io+probe[n]];};
      if(clr&&S.gi["base"]!=1)bad("the indices that follow are not cleared once");
      if(tree&&!cp){V c=f("color");if(f("parent").k!=NIL||!h(f("left"))||!h(f("right")))bad("the header of an empty tree is not linked to itself");if(c.k!=INT||!c.n.isC()||c.n.c)bad("the header of an empty tree is not red");}
      if(!tree&&!hashed&&!rnd&&!cp)if(!h(f("prior"))||!h(f("next")))bad("the header of an empty list is not linked to itself");
      if(hashed&&clr){long on=probe["next"],op=probe["prior"];V d=S.mem[2][tab+probe["bdata"]];if(d.k!=SLOT||d.id!=1||!S.eq0(d.n))bad("the table does not own its buckets");
        Rnd::expect(E,S,S.arr[1],{Rnd::pc(0,N,NIL,0),Rnd::pc(N,N+Lin(1),EL,N*-1)},"a bucket",false);Lin q;V n=m[io+on];if(!h(m[io+op]))bad("the end of an empty list is not linked to itself");if(n.k!=SLOT||n.id!=1||!n.n.div(8,q)||!S.eq0(q-N))bad("the end of an empty list does not know its bucket");return;}
      if(hashed||rnd){if(S.gi["made"]!=1)bad(clr?"the array is not cleared":"the array is not set up once");
        V z=S.mem[90][0];
        if(cp&&(z.k!=INT||!S.eq0(z.n-(rnd?N:sz))))bad("the array of a copy is made for another size");
        if(!cp&&!clr&&rnd&&(z.k!=INT||!S.eq0(z.n)))bad("the array of an empty index is made with elements");
        if(hashed&&!cp&&!clr&&!S.gi.count("load"))bad("the load limit of a new table is not computed");}
    });
    S.mem[2][hdr]=V::mem(4,0);S.mem[1][hdr]=V::mem(5,0);S.mem[1][cnt]=V::i(N);S.mem[2][cnt]=V::i(clr?E.fs():Lin(0));if(hashed&&clr){E.stHook=tabst;S.gl["tablesize"]=N;S.mem[2][tab+probe["bdata"]]=V::slot(1,0);Arr A;A.cap=N+Lin(1);A.p={Rnd::pc(0,N+Lin(1),UNK,0)};S.arr[1]=A;}S.mem[4];S.mem[5];S.mem[6];S.mem[7];
    return true;
  }
  static V nbr(int id,Lin n,long off){V v;v.k=NBR;v.id=id;v.n=n;v.off=off;return v;}
  static V cell(int t,Lin n){V v;v.k=CELL;v.id=t;v.n=n;return v;}
  bool fact(State&S,int k,const Lin&n){
    int f=known(S,k,n);if(f>=0)return f;if(k==FB&&(E.decideEq(S,n)||E.decideEq(S,n-N)))return true;if(k==PV&&fact(S,FB,n))return true;
    Split sp;for(int v=0;v<2;++v)E.alt(S,sp,[&](State&T){T.facts.push_back({k,n,(bool)v});});throw sp;}
  int known(State&S,int k,const Lin&n){
    if(k==FB){if(S.eq0(n)||S.eq0(n-N))return 1;}
    if(k==PV){int b=known(S,FB,n);if(b==1)return 1;}
    Str g="f"+std::to_string(k);if(S.gi.count(g)&&S.eq0(n-I))return S.gi[g];return E.fact(S,k,n);}
  void keep(State&S){for(auto&f:S.facts)if(S.eq0(f.n-I))S.gi["f"+std::to_string(f.kind)]=f.v;}
  void done(State&S,const Str&w,const Lin&j){if(E.decideEq(S,j-I))S.gi["w"+w]=1;}
  Lin nx(State&S,const Lin&n){return E.decideEq(S,n-N)?Lin(0):n+Lin(1);}
  Lin pv(State&S,const Lin&n){return E.decideEq(S,n)?N:n-Lin(1);}
  Str field(const V&p){auto i=fld.find(p.off);return i==fld.end()?"":i->second;}
  [[noreturn]] static void bad(const char*m){throw Viol{"structure copy",m};}
  bool isEl(const V&v,int id){return v.k==EL&&v.id==id&&v.off==io;}
  void storeTree(State&S,const Str&f,const Lin&j,const V&v){
    bool h=E.decideEq(S,j-N),empty=h&&E.decideEq(S,N);
    if(f=="color"){if((v.k==NBR&&v.id==20&&S.eq0(v.n-j))||(h&&v.k==INT&&v.n.isC()&&!v.n.c))return;bad("a copy does not get the colour of its original");}
    if(f=="sub"){if(v.k==NBR&&v.id==21&&S.eq0(v.n-j))return;if(h&&v.k==INT)return;bad("a copy does not get the subtree count of its original");}
    if(empty){if(f=="parent"?v.k==NIL:isEl(v,8)&&S.eq0(v.n-N))return;bad("the header of an empty copy is not linked to itself");}
    int id=f=="parent"?1:f=="left"?2:3;
    if(v.k==NBR&&v.id==100+id&&v.off==io&&S.eq0(v.n-j))return;
    if(v.k==NIL&&id!=1){if(h||!fact(S,id==2?LNULL:RNULL,j))bad("a link of a copy is reset although the original has one");return;}
    if(id==1&&isEl(v,8)&&S.eq0(v.n-N)&&!h&&fact(S,ROOT,j))return;
    bad("a link of a copy is not the copy of the original's link");
  }
  void storeList(State&S,const Str&f,const Lin&j,const V&v,bool hashed){
    if(f=="next"){
      Lin k=nx(S,j);
      if(!hashed){if(isEl(v,8)&&S.eq0(v.n-k))return;bad("a copy is not followed by the copy of its original's successor");}
      bool fb=fact(S,FB,k);
      if(v.k==CELL){if(v.id!=2)bad("a copy is linked to a bucket of the source");if(fb&&S.eq0(v.n-k))return;bad("a copy is linked to another bucket than its original");}
      if(!fb&&nonuniq&&v.k==NBR&&v.id==140&&v.off==io&&S.eq0(v.n-j))return;
      if(!fb&&isEl(v,8)&&S.eq0(v.n-k)&&(!nonuniq||fact(S,NX,j)))return;
      bad("a link of a copy is not the copy of the original's link");}
    Lin k=pv(S,j);
    if(nonuniq&&v.k==NBR&&v.id==141&&v.off==io&&S.eq0(v.n-j))return;
    if(isEl(v,8)&&S.eq0(v.n-k)&&(!hashed||!nonuniq||fact(S,PV,j)))return;
    bad("a link of a copy is not the copy of the original's link");
  }
  bool configs(const Str&nm){
    if(nm!="copy_structure")return empty(nm);
    bool tree=probe.count("parent"),hashed=tab>=0,rnd=probe.count("up");
    N=E.fs();Lin b=E.fs();I=E.fs();
    E.hook=[this](Eng&E,State&S,CallBase*c,StringRef n,V&r){
      auto A=[&](unsigned i){return E.ev(S,c->getArgOperand(i));};
      Str d=n.starts_with("_Z")?demangle(n.str()):n.str();auto has=[&](const char*s){return d.find(s)!=Str::npos;};
      if(has("index_base<")&&has("::copy_(")){S.gi["base"]+=1;return true;}
      if(has("copy_map<")){V m=A(0);if(m.k!=MEMP||m.id!=3||m.off)throw Fail{"unknown copy map"};
        if(has("::begin(")||has("::end(")){r=V::slot(70,0);if(has("::end("))r.n=N*16;return true;}
        V x=A(1);if((x.k==EL&&x.id==0&&x.off==no)||(x.k==NBR&&x.id<100&&x.off==no)){r=x;r.id=x.k==EL?8:x.id+100;return true;}
        if(x.k==EL&&x.id==8)bad("a copy is looked up as if it were an original");
        if(x.k==NIL)bad("a null pointer is looked up");throw Fail{"copy of an unknown node"};}
      if(has("bucket_array<")){V t=A(0);if(t.k!=MEMP||t.off!=tab||(t.id!=1&&t.id!=2))throw Fail{"unknown bucket array"};
        if(has("::begin(")){r=cell(t.id,Lin(0));r.neg=true;return true;}
        throw Fail{"use of a bucket array"};}
      if(has("::after(")||has("::is_first_of_bucket(")){V x=A(0);if(!isEl(x,0)){if(isEl(x,8))bad("the links of a copy are followed before they are set");throw Fail{"neighbour of an unknown node"};}
        if(has("::after("))r=V::el(nx(S,x.n)),r.off=io;else r=V::i(fact(S,FB,x.n));return true;}
      return false;};
    E.binHook=[this](Eng&,State&S,unsigned op,const V&a,const V&b,V&r){
      if(op==Instruction::Sub&&a.k==CELL&&b.k==CELL){if(!b.neg||a.neg)throw Fail{"difference of buckets"};if(a.id!=b.id)bad("the number of a bucket is taken in another table");r.k=BUCK;r.id=1;r.n=a.n;r.off=8;return true;}
      if((op==Instruction::SDiv||op==Instruction::AShr)&&a.k==BUCK&&b.k==INT&&b.n.isC()&&b.n.c==(op==Instruction::SDiv?8:3)&&a.off==8){r=a;r.off=1;return true;}
      return false;};
    E.gepHook=[](Eng&,State&,const V&p,const V&i,long sc,V&r){if(p.k==CELL&&p.neg&&i.k==BUCK&&i.off*sc==8){r=cell(p.id,i.n);return true;}return false;};
    E.ldHook=[this,tree,hashed,rnd](Eng&E,State&S,const V&p,V&r){
      if(p.k==SLOT&&p.id==70){Lin j;V o;if(p.n.div(16,j)){if(!S.ge(j)||!S.ge(N-j-Lin(1)))bad("the copy map is read outside its bounds");r=V::el(j);return true;}Lin q=p.n-Lin(8);if(q.div(16,j)){if(!S.ge(j)||!S.ge(N-j-Lin(1)))bad("the copy map is read outside its bounds");r=V::el(j,8);return true;}throw Fail{"a copy map entry"};}
      if(p.k==EL&&p.id==8)bad("a copy is read before it is complete");
      if(p.k==CELL&&!p.neg){if(p.id!=1)bad("a bucket of the copy is read");r=V::el(p.n);r.off=io;return true;}
      if(p.k==NBR&&p.id<100&&tree){Str f=field(p);if(p.id==1&&(f=="left"||f=="right")){r=nbr(f=="left"?4:5,p.n,io);return true;}throw Fail{"a link of a link is read"};}
      if(p.k!=EL)return false;
      Str f=field(p);if(f.empty())throw Fail{"an unknown field is read"};Lin j=p.n;
      if(rnd)return f=="up"?(r=V::slot(1,j),true):false;
      if(tree){if(f=="color"){r=nbr(20,j,0);return true;}if(f=="sub"){r=nbr(21,j,0);return true;}
        if(E.decideEq(S,j-N)&&E.decideEq(S,N)){if(f=="parent")r=V::nil();else{r=V::el(N);r.off=io;}return true;}
        r=nbr(f=="parent"?1:f=="left"?2:3,j,io);return true;}
      if(f=="next"){Lin k=nx(S,j);if(!hashed){r=V::el(k);r.off=io;return true;}if(fact(S,FB,k))r=cell(1,k);else if(nonuniq)r=nbr(40,j,io);else{r=V::el(k);r.off=io;}return true;}
      Lin k=pv(S,j);if(hashed&&nonuniq){r=nbr(41,j,io);return true;}r=V::el(k);r.off=io;return true;};
    E.stHook=[this,tree,hashed,rnd](Eng&E,State&S,const V&p,const V&v){
      if(p.k==EL&&p.id==0)bad("an original is changed");
      if(p.k==SLOT&&p.id==1)bad("the array of the source is changed");
      if(p.k==CELL&&!p.neg){if(p.id!=2)bad("a bucket of the source is changed");if(!isEl(v,8)||!S.eq0(v.n-p.n)||!fact(S,FB,p.n))bad("a bucket of the copy starts with another element than that of the source");done(S,"cell",p.n);return true;}
      if(tree&&p.k==NBR&&p.id==101){Str f=field(p);if(f!="left"&&f!="right")bad("a field of a copy is set from another original");
        if(v.k==NBR&&v.id==(f=="left"?104:105)&&v.off==io&&S.eq0(v.n-p.n)){}
        else if(!isEl(v,8)||!S.eq0(v.n-p.n)||!fact(S,f=="left"?ISL:ISR,p.n))bad("a child link of a copy is not the copy of the original's link");
        done(S,f=="left"?"cl":"cr",p.n);return true;}
      if(p.k!=EL||p.id!=8)return false;
      Str f=field(p);if(f.empty())throw Fail{"an unknown field is written"};
      if(rnd){E.write(S,S.arr[63],p.n,v,"the slot of a copy is written");return true;}
      if(tree)storeTree(S,f,p.n,v);else storeList(S,f,p.n,v,hashed);
      done(S,f,p.n);return true;};
    E.eqHook=[this](Eng&E,State&S,const V&x,const V&y)->int{
      V a=x,b=y;if(b.k==NBR)std::swap(a,b);if(a.k!=NBR)return -1;
      if(a.id>100)return b.k==NIL?0:-1;
      if(b.k==NIL){if(E.decideEq(S,a.n-N)){if(a.id==1)return E.decideEq(S,N);return 0;}if(a.id==2||a.id==3)return fact(S,a.id==2?LNULL:RNULL,a.n);if(a.id==1||a.id>=40)return 0;return -1;}
      if(b.k==EL&&b.id==0&&a.off==b.off){
        if((a.id==4||a.id==5)&&S.eq0(a.n-b.n))return fact(S,a.id==4?ISL:ISR,a.n);
        if(a.id==1&&S.eq0(b.n-N))return fact(S,ROOT,a.n);
        if(a.id==40&&S.eq0(nx(S,a.n)-b.n))return fact(S,NX,a.n);
        if(a.id==41&&S.eq0(pv(S,a.n)-b.n))return fact(S,PV,a.n);}
      return -1;};
    E.atHead=[this](Eng&E,State&S){keep(S);};
    State&S=E.add("any content",{V::mem(2),V::mem(1),V::mem(3)},[this,tree,hashed,rnd](Eng&E,State&S,const V*,bool thrown){
      if(thrown)bad("copying links throws");keep(S);
      if(S.gi["base"]!=1)bad("the indices that follow are not copied once");
      auto&g=S.gi;
      if(rnd){Rnd::expect(E,S,S.arr[2],{Rnd::pc(0,N+Lin(1),EL,0,1,8)},"the array of the copy",false);Rnd::expect(E,S,S.arr[63],{Rnd::pc(0,N+Lin(1),SLOT,0,1,2)},"the slot recorded in a copy",true);return;}
      if(!S.ge(N-I)){State T=S;T.cons.push_back(N-I);if(T.bad())return;S=T;}
      bool h=E.decideEq(S,I-N);
      if(tree){
        for(auto*f:{"parent","color","sub"})if(probe.count(f)&&!g.count(Str("w")+f)&&!(h&&f==Str("sub"))&&!(h&&f==Str("color")&&0))bad(h?"a field of the header is not set":"a field of a copy is not set");
        if(h){if(!g.count("wleft")||!g.count("wright"))bad("the header does not know the first or last element");return;}
        for(int k=0;k<2;++k)if(!g.count(k?"wright":"wleft")&&known(S,k?RNULL:LNULL,I)!=0)bad("a child link of a copy may stay unset");
        if(known(S,ROOT,I)==1)return;
        bool l=g.count("wcl"),r=g.count("wcr");if(l||r)return;
        if(known(S,ISL,I)!=0||known(S,ISR,I)!=0)bad("a copy may not be linked as a child of its parent");
        return;}
      if(hashed&&E.decideEq(S,N))return;
      if(!g.count("wnext")||!g.count("wprior"))bad("a link of a copy is not set");
      if(hashed&&known(S,FB,I)!=0&&!g.count("wcell"))bad("a bucket of the copy does not know its first element");
    });
    S.cons.push_back(N-I);
    S.mem[1][hdr]=V::el(N);S.mem[2][hdr]=V::el(N,8);S.mem[1][hdr].off=S.mem[2][hdr].off=no;S.mem[1][cnt]=V::i(N);S.mem[2][cnt]=V::i(Lin(0));S.mem[3];
    if(rnd){
      for(int o=1;o<3;++o){auto&m=S.mem[o];m[probe["size"]]=m[probe["cap"]]=V::i(N);m[probe["data"]]=V::slot(o,0);m[probe["n"]]=V::i(N+Lin(1));}
      Arr A;A.cap=N+Lin(1);A.p={Rnd::pc(0,N+Lin(1),EL,0)};S.arr[1]=A;A.p={Rnd::pc(0,N,UNK,0),Rnd::pc(N,N+Lin(1),EL,0,1,8)};S.arr[2]=A;
      A.p={Rnd::pc(0,N,UNK,0),Rnd::pc(N,N+Lin(1),SLOT,0,1,2)};S.arr[63]=A;}
    (void)b;return true;
  }
};
