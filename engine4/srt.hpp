// merge sort of sequenced indices: every element stays in a list that is handed back to the index.
// The header, the carry and the counters are rings known to be empty, known to hold elements or unknown; the ring operations
// (whose effect on links is decided by the shape analysis) move elements between them.
#pragma once
#include "cpy.hpp"
struct Srt{
  Eng&E;long op,on,ho;
  enum{U,EMPTY,FULL,MAYBE,PO,NO};
  struct R{int a;Lin i;};
  Srt(Eng&e,std::map<Str,long>p):E(e){op=p["prior"];on=p["next"];ho=p["impl"];}
  static bool prim(const Str&d,bool inSort){static const std::regex r("sequenced_index_node_impl<.*>::(relink|swap|link|unlink|reverse)\\("),c("^(void )?(boost::multi_index::detail::)?sequenced_index_collate<");return std::regex_search(d,r)||(inSort&&std::regex_search(d,c));}
  static long kind(const V&v){return v.off&7;}
  static V cell(const R&r,long k){V v;v.k=CELL;v.id=r.a;v.n=r.i;v.off=k;return v;}
  bool head(State&S,const V&v,long f,R&r){
    if(v.k==MEMP&&S.arr.count(v.id)&&v.off-(v.id==1?ho:0)==f){r={v.id,Lin(0)};return true;}
    if(v.k==SLOT&&v.id==20){Lin q;if((v.n-Lin(f)).div(16,q)){r={20,q};return true;}}
    return false;
  }
  void bound(State&S,const R&r){if(r.a==20){Lin b=S.arr[20].p.back().hi-r.i-Lin(1);if(!S.ge(b))S.cons.push_back(b);}}
  int get(State&S,const R&r){bound(S,r);V v=E.read(S,S.arr[r.a],r.i,"a list");return v.k==UNK?U:v.k==NIL?EMPTY:v.id;}
  void put(State&S,const R&r,int st){V v;if(st==EMPTY)v=V::nil();else{v.k=HASH;v.id=st;v.n=r.i;}E.write(S,S.arr[r.a],r.i,v,"a list");}
  int ready(State&S,const R&r){int s=get(S,r);if(s==U||s==PO||s==NO)throw Viol{"list-uninitialised","a list head is used before it is set up"};return s;}
  bool nonEmpty(State&S,const R&r){int s=ready(S,r);if(s!=MAYBE)return s==FULL;Split sp;for(int k:{EMPTY,FULL})E.alt(S,sp,[&](State&T){put(T,r,k);});throw sp;}
  bool same(State&S,const R&a,const R&b){return a.a==b.a&&E.decideEq(S,a.i-b.i);}
  void cells(State&S,const R&r,std::function<void(V&)> f){
    std::vector<V*> w;for(auto&p:S.env)if(p.second.k==CELL&&p.second.id==r.a)w.push_back(&p.second);
    for(auto&m:S.mem)for(auto&q:m.second)if(q.second.k==CELL&&q.second.id==r.a)w.push_back(&q.second);
    for(auto*v:w)if(!E.decideEq(S,v->n-r.i))continue;
    for(auto*v:w)if(E.decideEq(S,v->n-r.i))f(*v);
  }
  R ringOf(State&S,const V&v){R r;if(head(S,v,0,r))return r;if(v.k==CELL&&(v.off>>3)==0)return {v.id,v.n};throw Fail{"a list position is unknown"};}
  void demote(State&S,const R&r){cells(S,r,[&](V&v){if(kind(v)!=2)v.off=(v.off&~7L)|2;});}
  void relink(State&S,const V&pos,const V&x){
    R p=ringOf(S,pos),y,h;ready(S,p);if(head(S,x,0,h))throw Viol{"list-corrupted","the header of a list is moved"};y=ringOf(S,x);
    if(kind(x)!=0)throw Fail{"a node is moved that is not known to be the first of its list"};
    if(!nonEmpty(S,y))throw Viol{"list-corrupted","the header of a list is moved"};
    if(same(S,p,y)){demote(S,p);return;}
    demote(S,p);
    cells(S,y,[&](V&v){long k=kind(v),o=v.off-k;if(k==0){v=cell(p,2);v.off+=o;}else if(k==4)v.off=o;else v=V();});
    put(S,y,MAYBE);put(S,p,FULL);
  }
  void relink3(State&S,const V&pos,const V&x,const V&y){
    R p=ringOf(S,pos),z=ringOf(S,x),w,h;ready(S,p);
    if(!head(S,y,0,w))throw Fail{"a range of nodes is moved whose end is not the end of its list"};
    if(!same(S,z,w))throw Viol{"list-corrupted","the ends of the range moved belong to different lists"};
    if(head(S,x,0,h))return;
    int sz=ready(S,z);if(sz==EMPTY)return;
    if(same(S,p,z))throw Fail{"a range is moved within its list"};
    int sp=ready(S,p);long k=kind(x);
    demote(S,p);
    int np=sp==FULL?FULL:sz==FULL&&k==0?FULL:MAYBE;
    cells(S,z,[&](V&v){long o=v.off-kind(v);if(k==0&&sz==FULL){v=cell(p,2);v.off+=o;}else v=V();});
    put(S,z,k==0?EMPTY:MAYBE);put(S,p,np);
  }
  void swap(State&S,const V&x,const V&y){
    R a,b;if(!head(S,x,0,a)||!head(S,y,0,b))throw Fail{"the lists exchanged are unknown"};
    int sa=ready(S,a),sb=ready(S,b);if(same(S,a,b))return;
    std::vector<V*> va,vb;cells(S,a,[&](V&v){va.push_back(&v);});cells(S,b,[&](V&v){vb.push_back(&v);});
    for(auto*v:va){v->id=b.a;v->n=b.i;}for(auto*v:vb){v->id=a.a;v->n=a.i;}
    put(S,a,sb);put(S,b,sa);
  }
  bool configs(const Str&nm){
    if(nm!="seq_sort"&&nm!="seq_collate")return false;
    E.allocHook=[](Eng&E,State&S,AllocaInst*a,V&r){
      auto z=a->getAllocationSize(E.DL);if(!z||z->getFixedValue()<16)return false;long n=z->getFixedValue();
      if(n==16){int id=1000000+E.num[a];Arr A;A.cap=Lin(1);A.p.push_back(Rnd::pc(0,1,UNK,0));S.arr[id]=A;r=V::mem(id);return true;}
      if(n%16||S.arr.count(20))return false;
      Arr A;Lin c=E.fs();A.cap=c;A.p.push_back(Rnd::pc(0,c,UNK,0));S.arr[20]=A;r=V::slot(20,0);return true;}; // long enough: more than 2^64 elements otherwise
    E.hook=[this](Eng&E,State&S,CallBase*c,StringRef n,V&r){
      auto A=[&](unsigned i){return E.ev(S,c->getArgOperand(i));};Str d=n.starts_with("_Z")?demangle(n.str()):n.str();
      auto has=[&](const char*s){return d.find(s)!=Str::npos;};
      if(has("vp::")&&has("operator()")){S.gi["throws"]=1;r.k=SAME;r.n=E.fs();return true;}
      if(!prim(d,true))return false;
      if(has("sequenced_index_collate<")){ // decided for any two lists by the entry seq_collate
        R x,y;if(!head(S,A(0),0,x)||!head(S,A(1),0,y))throw Fail{"the lists collated are unknown"};
        int sx=ready(S,x),sy=ready(S,y);if(same(S,x,y))throw Viol{"list-corrupted","a list is collated with itself"};
        if(!S.gi.count("cc")){Split sp;for(int k=1;k<3;++k)E.alt(S,sp,[&](State&T){T.gi["cc"]=k;});throw sp;}
        bool thr=S.gi["cc"]==2;S.gi.erase("cc");
        for(auto&q:{x,y})cells(S,q,[](V&v){v=V();});
        int sum=sx==FULL||sy==FULL?FULL:sx==EMPTY&&sy==EMPTY?EMPTY:MAYBE;
        if(thr){S.gi["throws"]=2;put(S,x,MAYBE);put(S,y,MAYBE);}else{put(S,x,sum);put(S,y,EMPTY);}
        return true;}
      if(has("::relink(")){if(c->arg_size()==2)relink(S,A(0),A(1));else relink3(S,A(0),A(1),A(2));return true;}
      if(has("::swap(")){swap(S,A(0),A(1));return true;}
      return false;};
    E.ldHook=[this](Eng&E,State&S,const V&p,V&r){
      R h;for(long f:{on,op})if(head(S,p,f,h)){ready(S,h);r=cell(h,f==on?0:2);return true;}
      if(p.k!=CELL)return false;
      long k=kind(p),f=p.off-k;R q{p.id,p.n};
      if(f==on){r=cell(q,k==0?(nonEmpty(S,q)?4:0):2);return true;}
      if(f==op){r=cell(q,2);return true;}
      throw Fail{"a field of a node is read"};};
    E.stHook=[this](Eng&E,State&S,const V&p,const V&v){
      R h,t;for(long f:{on,op})if(head(S,p,f,h)){
        if(!head(S,v,0,t)||!same(S,h,t))throw Fail{"links are written directly"};
        int s=get(S,h),n=s==U?(f==on?NO:PO):s==PO?(f==on?(int)EMPTY:(int)PO):s==NO?(f==op?(int)EMPTY:(int)NO):s;
        if(s==FULL||s==MAYBE)throw Viol{"list-lost","a list is reset which may hold elements"};
        if(n!=s)put(S,h,n);return true;}
      if(p.k==CELL)throw Fail{"links are written directly"};
      return false;};
    E.eqHook=[this](Eng&E,State&S,const V&a0,const V&b0){
      V a=a0,b=b0;if(b.k==CELL&&a.k!=CELL)std::swap(a,b);if(a.k!=CELL)return -1;
      if(b.k==NIL)return 0;
      R h,q{a.id,a.n};
      if(head(S,b,0,h)&&(a.off>>3)==0){if(!same(S,h,q))return 0;return kind(a)==0?!nonEmpty(S,q):2;}
      if(b.k==CELL&&(a.off>>3)==(b.off>>3)){if(!same(S,q,R{b.id,b.n}))return 0;return kind(a)==0&&kind(b)==0?1:2;}
      return -1;};
    E.atHead=[this](Eng&E,State&S){
      if(S.depth[S.bb]<2)return;
      auto i=S.arr.find(20);
      for(auto&p:S.arr)if(p.first!=20)for(auto&q:p.second.p)if(q.k==HASH&&q.id==FULL)q.id=MAYBE;
      if(i==S.arr.end())return;auto&P=i->second.p;
      size_t n=0;while(n<P.size()&&P[n].k!=UNK&&!(P[n].k==HASH&&(P[n].id==PO||P[n].id==NO)))++n;
      if(n<2)return;
      if(n==2&&P[0].k==HASH&&P[0].id==MAYBE)return;
      Pc m=P[0];m.hi=P[n-2].hi;m.k=HASH;m.id=MAYBE;m.s=1;m.c=Lin(0);P.erase(P.begin(),P.begin()+n-1);P.insert(P.begin(),m);};
    auto ring=[](State&S,int id){Arr A;A.cap=Lin(1);A.p.push_back(Rnd::pc(0,1,HASH,0,1,MAYBE));S.arr[id]=A;};
    if(nm=="seq_collate"){ho=0;State&S=E.add("any two lists",{V::mem(1),V::mem(2)},[this](Eng&E,State&S,const V*,bool exc){
        for(int id:{1,2})for(auto&p:S.arr[id].p)if(p.k==UNK)throw Viol{"list-lost","a list is reset"};
        if(!exc&&get(S,R{2,Lin(0)})!=EMPTY)throw Viol{"elements-lost","elements may remain in the second list after collating"};});
      ring(S,1);ring(S,2);return true;}
    State&S=E.add("any list",{V::mem(1)},[](Eng&E,State&S,const V*,bool exc){
      for(auto&a:S.arr)if(a.first!=1)for(auto&p:a.second.p)if(p.k==HASH&&(p.id==FULL||p.id==MAYBE)){
        State T=S;T.cons.push_back(p.hi-p.lo-Lin(1));if(T.bad())continue;
        throw Viol{"elements-lost",Str("elements may remain in a temporary list when sorting ")+(exc?"is left by an exception":"returns")};}});
    Arr A;A.cap=Lin(1);A.p.push_back(Rnd::pc(0,1,HASH,0,1,MAYBE));S.arr[1]=A;return true;
  }
};
