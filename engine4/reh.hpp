// rehashing of hashed indices: list and bucket operations as events on the sequence of elements, last one first
#pragma once
#include "rnd.hpp"
// Elements (unique) or groups (non-unique) are numbered from the last of the original list: the old list holds [m,N), the new list [0,nw).
enum{N_PRIOR=1,N_PN=2,N_PNP=3,N_LAST=10,N_FIRSTCELL=11,N_ENDCELL=12,N_FIRST=13};
struct Reh{
  Eng&E;std::map<Str,long>&probe;bool uniq;long op,on,oio,tab,cnt,ml,hdr;
  Reh(Eng&e,std::map<Str,long>&p,bool u):E(e),probe(p),uniq(u){op=p["prior"];on=p["next"];oio=p["io"];tab=p["tab"];cnt=p["cnt"];ml=p["maxload"];hdr=p["hdr"];}
  static V nbr(int id,Lin n=Lin(0)){V v;v.k=NBR;v.id=id;v.n=n;return v;}
  V header()const{return V::mem(2,oio);}
  static int table(State&S,const V&t){if(t.k!=MEMP)throw Fail{"unknown bucket array"};auto&m=S.mem[t.id];auto i=m.find(t.off);if(i==m.end()||i->second.k!=INT||!i->second.n.isC())throw Fail{"unknown bucket array"};return i->second.n.c;}
  bool isHeader(const V&v)const{return v.k==MEMP&&v.id==2&&v.off==oio;}
  bool isCpy(State&S,const V&v)const{return v.k==MEMP&&S.gi.count("cpy")&&v.id==S.gi["cpy"]&&v.off==0;}
  // x names the whole element or group j: its last node, given its first where the operation takes both
  void whole(State&S,const V&first,const V&last){
    if(last.k!=EL||last.id||last.off)throw Fail{"the last node of the group is unknown"};
    bool ok=(first.k==EL&&!first.off&&S.eq0(first.n-last.n)&&(first.id==1||E.fact(S,2,last.n)==1))||(first.k==NBR&&first.id==N_PN&&S.eq0(first.n-last.n)&&E.fact(S,3,last.n)==0&&E.fact(S,4,last.n)==0);
    if(!ok)throw Viol{"rehash","an operation takes something else than a whole group"};
  }
  void toNew(State&S,const V&x,const V&cell,const V&end){
    if(x.k!=EL||cell.k!=CELL)throw Fail{"unknown element or bucket"};
    if(!isCpy(S,end))throw Viol{"rehash","an element is linked in the new table with another list's end"};
    if(!S.eq0(x.n-S.gl["nw"])||!S.ge(S.gl["m"]-S.gl["nw"]-Lin(1)))throw Viol{"rehash","an element is linked in the new table which was not just taken out of the old one"};
    if(!S.eq0(cell.n-x.n))throw Viol{"stale bucket","an element is linked in the bucket of another element's hash"};
    S.gl["nw"]+=Lin(1);
  }
  void back(State&S,const V&x,const V&end){
    if(x.k!=EL)throw Fail{"unknown element"};
    if(!isHeader(end))throw Viol{"rehash","an element is put back with another list's end"};
    if(!S.eq0(x.n-S.gl["m"]+Lin(1)))throw Viol{"rehash","an element is put back out of order"};
    if(!uniq&&!S.ge(x.n-S.gl["nw"]))throw Viol{"rehash","an element is put back while still linked in the new table"};
  }
  bool install(){
    auto&e=E;
    E.hook=[this](Eng&E,State&S,CallBase*c,StringRef n,V&r){
      auto A=[&](unsigned i){return E.ev(S,c->getArgOperand(i));};
      Str d=n.starts_with("_Z")?demangle(n.str()):n.str();
      auto has=[&](const char*s){return d.find(s)!=Str::npos;};
      if(has("vp::KE<")&&has("operator()")){V x=A(1);if(x.k!=EL||x.id)throw Fail{"key of an unknown element"};r=V::el(x.n,7);S.gi["throws"]=1;return true;}
      if(has("vp::Hash<")&&has("operator()")){V x=A(1);if(x.k!=EL||x.id!=7)throw Fail{"hash of an unknown key"};r.k=HASH;r.n=x.n;S.gi["throws"]=1;return true;}
      if(has("vp::Al<")&&has("::allocate(")){V z=A(1);if(z.k!=INT)throw Fail{"allocation of an unknown size"};int id=100;while(S.arr.count(id))++id;Arr a;a.cap=z.n;a.p.push_back(Rnd::pc(0,z.n,UNK,0));S.arr[id]=a;r=V::slot(id,0);S.gi["throws"]=1;return true;}
      if(has("vp::Al<")&&has("::deallocate("))return true;
      if(has("vp::")&&(has("::Al(")||has("::~Al(")))return true;
      if(has("::calculate_max_load(")){S.gi["load"]=table(S,V::mem(1,tab));return true;}
      if(has("::~bucket_array("))return true;
      if(has("::bucket_array(")){
        V t=A(0),end=A(2),n=A(3);if(t.k!=MEMP||end.k!=MEMP)throw Fail{"bucket array"};
        if(S.gi.count("cpy"))throw Fail{"a second bucket array"};
        if(n.k==INT&&S.gl.count("req")&&!S.eq0(n.n-S.gl["req"]))throw Viol{"rehash","the new table is not made for the requested number of buckets"};
        S.mem[t.id][t.off]=V::i(2);S.gi["cpy"]=end.id;S.gi["throws"]=1;return true;}
      if(has("bucket_array<")){
        if(has("::swap(")){V a=A(0),b=A(1);table(S,a);table(S,b);std::swap(S.mem[a.id][a.off],S.mem[b.id][b.off]);return true;}
        int t=table(S,A(0));
        if(has("::position(")){V h=A(1);if(h.k==BUCK&&h.id==t&&!h.neg){r=h;return true;}if(h.k==BUCK)throw Viol{"stale bucket","a bucket number of another table is used as a hash value"};if(h.k!=HASH)throw Fail{"position of an unknown hash"};r.k=BUCK;r.id=t;r.n=h.n;return true;}
        if(has("::at(")){V p=A(1);if(p.k==HASH||(p.k==BUCK&&p.neg))throw Viol{"stale bucket","a bucket is chosen by something else than a bucket number"};if(p.k!=BUCK)throw Fail{"unknown bucket number"};if(p.id!=t)throw Viol{"stale bucket","a bucket number computed for one table is used in another"};r.k=CELL;r.id=t;r.n=p.n;return true;}
        if(has("::size(")){r=V::i(S.gl[t==1?"sz1":"sz2"]);return true;}
        throw Fail{"use of a bucket array"};
      }
      if(has("::unlink_last(")||has("::unlink_last_group(")){
        if(!isHeader(A(0)))throw Viol{"rehash","an element is taken out of another list"};
        Lin m=S.gl["m"];if(!S.ge(S.gl["N"]-m-Lin(1)))throw Viol{"rehash","an element is taken out of an empty list"};
        S.gl["m"]=m+Lin(1);V same;same.k=SAME;same.n=m;same.neg=true;
        if(has("::unlink_last("))r=same;else{r.k=AGG;r.agg.push_back(V::el(m,1));r.agg.push_back(same);}
        return true;}
      if(has("::link(")||has("::link_range(")){
        bool g=has("::link_range(");V f=A(0),x=g?A(1):f,cell=A(g?2:1),end=A(g?3:2);if(g)whole(S,f,x);
        if(cell.k!=CELL)throw Fail{"unknown bucket"};
        if(cell.id==2){toNew(S,x,cell,end);return true;}
        back(S,x,end);if(!S.eq0(cell.n-x.n))throw Viol{"stale bucket","an element is put back in the bucket of another element's hash"};
        if(E.fact(S,0,x.n)!=0)throw Viol{"rehash","an element put back may change places with others of its bucket"};
        S.gl["m"]=x.n;return true;}
      if(has("::append(")||has("::append_range(")){
        bool g=has("::append_range(");V f=A(0),x=g?A(1):f,end=A(g?2:1);if(g)whole(S,f,x);
        back(S,x,end);if(E.fact(S,0,x.n)!=1)throw Viol{"rehash","an element may be put back in the bucket of the element after it, which is not its own"};
        S.gl["m"]=x.n;return true;}
      if(has("::unlink_range(")){
        V f=A(0),x=A(1);whole(S,f,x);
        if(!S.eq0(x.n-S.gl["nw"]+Lin(1)))throw Viol{"rehash","a group is taken out of the new table out of order"};
        S.gl["nw"]=x.n;return true;}
      return false;};
    E.ldHook=[this](Eng&E,State&S,const V&p,V&r){
      if(p.k==MEMP&&p.id==2){
        auto&mm=S.mem[2];auto i=mm.find(p.off);if(i!=mm.end()){r=i->second;return true;}
        if(p.off==oio+op){if(E.decideEq(S,S.gl["N"]-S.gl["m"]))r=header();else r=V::el(S.gl["m"]);return true;}
        throw Fail{"a link of the header is read"};
      }
      if(p.k==MEMP&&S.gi.count("cpy")&&p.id==S.gi["cpy"]){
        auto&mm=S.mem[p.id];auto i=mm.find(p.off);if(i!=mm.end()){r=i->second;return true;}
        bool em=E.decideEq(S,S.gl["nw"]);
        if(p.off==op)r=em?V::mem(p.id):nbr(N_LAST);else if(p.off==on)r=nbr(em?N_ENDCELL:N_FIRSTCELL);else throw Fail{"a link of the new end is read"};
        return true;}
      if(p.k==NBR){
        auto&mm=S.mem[50+p.id];auto i=mm.find(p.off);if(i!=mm.end()){r=i->second;return true;}
        if(p.id==N_LAST&&p.off==on){r=nbr(N_ENDCELL);return true;}
        if(p.id==N_FIRSTCELL&&p.off==op){r=nbr(N_FIRST);return true;}
        if(p.id==N_ENDCELL&&p.off==op){r=V::mem(S.gi["cpy"]);return true;}
        if(p.id==N_PRIOR&&p.off==on){r=nbr(N_PN,p.n);return true;}
        if(p.id==N_PN&&p.off==op){r=nbr(N_PNP,p.n);return true;}
        throw Fail{"a link is read"};}
      if(p.k==EL&&!p.id&&p.off==op&&!uniq){
        if(!S.eq0(p.n-S.gl["nw"]+Lin(1)))throw Viol{"rehash","the neighbours of an element are inspected in a list that is no longer intact"};
        r=nbr(N_PRIOR,p.n);return true;}
      if(p.k==EL)throw Fail{"a link of an element is read"};
      return false;};
    E.stHook=[this](Eng&E,State&S,const V&p,const V&v){
      if(p.k==MEMP&&p.id==2){S.mem[2][p.off]=v;return true;}
      if(p.k==NBR&&(p.id==N_FIRST||p.id==N_ENDCELL)&&p.off==op){S.mem[50+p.id][p.off]=v;return true;}
      if(p.k==EL||p.k==NBR)throw Fail{"a link of an element is written"};
      return false;};
    E.eqHook=[this](Eng&E,State&S,const V&x,const V&y)->int{
      V a=x,b=y;
      if(a.k==BUCK&&b.k==BUCK){if(a.id!=b.id)throw Fail{"comparison of positions in different tables"};
        Lin d=a.n-b.n;if(a.neg!=b.neg)return 0; // a complement is never a bucket number
        if(S.eq0(d))return 1;if(S.eq0(d+Lin(1)))return E.decideFact(S,0,a.n);if(S.eq0(d-Lin(1)))return E.decideFact(S,0,b.n);
        if(S.ge(d-Lin(2))||S.ge(Lin(-2)-d))return E.decideFact(S,9,a.n*3+b.n*5);
        Split sp;for(long k=-1;k<2;++k)E.alt(S,sp,[&](State&T){T.cons.push_back(d-Lin(k));T.cons.push_back(Lin(k)-d);});
        E.alt(S,sp,[&](State&T){T.cons.push_back(d-Lin(2));});E.alt(S,sp,[&](State&T){T.cons.push_back(Lin(-2)-d);});throw sp;}
      if(b.k==NBR)std::swap(a,b);
      if(a.k==NBR&&b.k==EL&&S.eq0(a.n-b.n)){
        int f3=E.fact(S,3,b.n),f4=E.fact(S,4,b.n);
        auto ask=[&](int k,int f,int other){if(f>=0)return f;if(other==1)return 0;
          Split sp;for(int v=0;v<2;++v)E.alt(S,sp,[&](State&T){T.facts.push_back({k,b.n,(bool)v});if(v)T.facts.push_back({2,b.n,true});});throw sp;};
        if(a.id==N_PN)return ask(3,f3,f4);if(a.id==N_PNP)return ask(4,f4,f3);}
      if(a.k==NBR&&b.k==MEMP)return 0;
      if(a.k==NBR&&b.k==NBR)return a.id==b.id?1:0;
      if(a.k==NBR&&b.k==NIL)return 0;
      if(a.k==EL&&b.k==MEMP)return 0;if(a.k==MEMP&&b.k==EL)return 0;
      return -1;};
    (void)e;return true;
  }
  bool configs(const Str&nm){
    bool res=nm=="reserve_for_insert";if(!res&&nm!="rehash")return false;
    install();Lin N=E.fs(),req=E.fs(),max=E.fs();
    State&S=E.add("any content",{V::mem(1),V::i(req)},[this,N,req,max,res](Eng&E,State&S,const V*,bool thrown){
      int t=table(S,V::mem(1,tab));
      if(thrown){
        if(t!=1)throw Viol{"rehash","the table is exchanged although the rehash failed"};
        if(!S.eq0(S.gl["m"]))throw Viol{"rehash","elements are not put back when the rehash fails"};
        if(S.mem[2].count(oio+op)||S.mem[2].count(oio+on))throw Viol{"rehash","the header is changed although the rehash failed"};
        return;}
      if(res&&t==1){
        if(!S.ge(max-req))throw Viol{"stale bucket","the table is not grown although the load limit is exceeded"};
        if(!S.eq0(S.gl["m"]))throw Viol{"rehash","elements are lost"};
        return;}
      if(t!=2)throw Viol{"rehash","the new table is not installed"};
      if(!S.eq0(S.gl["m"]-N)||!S.eq0(S.gl["nw"]-N))throw Viol{"rehash","not every element is moved to the new table"};
      if(S.gi["load"]!=2)throw Viol{"rehash","the load limit is not recomputed for the new table"};
      bool em=E.decideEq(S,N);auto&h=S.mem[2];
      V p=h[oio+op],x=h[oio+on];
      if(em?!isHeader(p):!(p.k==NBR&&p.id==N_LAST))throw Viol{"rehash","the header does not know the last element of the new list"};
      if(!(x.k==NBR&&x.id==(em?N_ENDCELL:N_FIRSTCELL)))throw Viol{"rehash","the header does not know the first bucket of the new list"};
      if(!isHeader(S.mem[50+N_ENDCELL][op]))throw Viol{"rehash","the end of the new table does not know the header"};
      if(!em&&!isHeader(S.mem[50+N_FIRST][op]))throw Viol{"rehash","the first element of the new list does not know the header"};
    });
    auto&m=S.mem[1];m[tab]=V::i(1);m[cnt]=V::i(N);m[ml]=V::i(max);m[hdr]=V::mem(2,0);S.mem[2];
    S.gl["sz1"]=E.fs();S.gl["sz2"]=E.fs();S.gl["N"]=N;S.gl["m"]=S.gl["nw"]=Lin(0);if(!res)S.gl["req"]=req;
    return true;
  }
};
