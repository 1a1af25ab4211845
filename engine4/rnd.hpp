// random access pointer arrays: initial arrays and expected contents
#pragma once
#include "eng.hpp"
struct Rnd{
  Eng&E;std::map<Str,long>&probe;
  Rnd(Eng&e,std::map<Str,long>&p):E(e),probe(p){}
  static Pc pc(Lin lo,Lin hi,K k,Lin c,int s=1,int id=0){Pc p;p.lo=lo;p.hi=hi;p.k=k;p.c=c;p.s=s;p.id=id;return p;}
  // every position of the expected pieces holds the expected content
  static void expect(Eng&E,State&S,Arr&A,const std::vector<Pc>&want,const char*what,bool isUp){
    for(auto&w:want){if(S.ge(w.lo-w.hi))continue;
      std::vector<State> todo;{State T=S;T.cons.push_back(w.hi-w.lo-Lin(1));if(T.bad())continue;todo.push_back(T);}
      int t=E.fresh();Lin i=w.lo+Lin::sym(t);todo[0].cons.push_back(w.hi-i-Lin(1));
      while(!todo.empty()){State T=todo.back();todo.pop_back();if(T.bad())continue;Arr B=A;
        try{V v=E.read(T,B,i,what);Lin x=v.n;if(v.k==SLOT)v.n.div(8,x);
          if(v.k!=w.k||(w.k==SLOT&&v.id!=w.id)||!T.eq0(x-(i*w.s+w.c))){if(DBG){errs()<<what<<" at "<<i.str()<<": "<<E.vs(v)<<" expected "<<(i*w.s+w.c).str()<<"\n";E.dump(T);}throw Viol{isUp?"back pointers":"array content",Str(what)+" is wrong afterwards"};}
        }catch(Split&sp){for(auto&a:sp.alts)todo.push_back(std::move(a));}
      }}
  }
  struct Sp{std::vector<Pc> arr,up;int a=1;};
  void slots(State&S,int id,Lin n,bool full=true){Arr A;A.p.push_back(pc(Lin(0),n,full?EL:UNK,Lin(0)));A.cap=n;S.arr[id]=A;}
  void ups(State&S,int id,Lin n){S.up=Arr();S.up.p.push_back(pc(Lin(0),n,SLOT,Lin(0),1,id));S.up.cap=n;}
  void add(const Str&nm,std::vector<V> args,std::function<void(State&)> pre,Sp sp,std::function<void(Eng&,State&,const V*)> more={}){
    State&S=E.add(nm,args,[sp,more](Eng&E,State&S,const V*v,bool){
      expect(E,S,S.arr[sp.a],sp.arr,"the content of the array",false);expect(E,S,S.up,sp.up,"the slot recorded in an element",true);if(more)more(E,S,v);});
    pre(S);
  }
  static void wantEl(Eng&E,State&S,const V*v,const Lin&n){if(!v||v->k!=EL||v->off||!S.eq0(v->n-n))throw Viol{"result","the result is not the expected element"};}
  bool configs(const Str&nm){
    if(nm=="seq_reverse"){ // ring of the header (element 0) and n elements
      long op=probe["prior"],on=probe["next"];E.upOff=-1;
      auto which=[op,on](const V&p){return p.k!=EL||p.id?0:p.off==op?50:p.off==on?51:0;};
      E.ldHook=[which](Eng&E,State&S,const V&p,V&r){int w=which(p);if(!w)return false;r=E.read(S,S.arr[w],p.n,"a link is read");return true;};
      E.stHook=[which](Eng&E,State&S,const V&p,const V&v){int w=which(p);if(!w)return false;E.write(S,S.arr[w],p.n,v,"a link is written");return true;};
      Lin n=E.fs();
      State&S=E.add("any ring",{V::el(Lin(0))},[n](Eng&E,State&S,const V*,bool){
        expect(E,S,S.arr[51],{pc(0,1,EL,n),pc(1,n+Lin(1),EL,-1)},"the next link of an element",false);
        expect(E,S,S.arr[50],{pc(0,n,EL,1),pc(n,n+Lin(1),EL,n*-1)},"the prior link of an element",false);});
      Arr A;A.cap=n+Lin(1);A.p={pc(0,n,EL,1),pc(n,n+Lin(1),EL,n*-1)};S.arr[51]=A;
      A.p={pc(0,1,EL,n),pc(1,n+Lin(1),EL,-1)};S.arr[50]=A;return true;}
    E.upOff=probe["up"];
    auto s=[&]{return E.fs();};
    if(nm=="extract"){ // [0,X) x (X,P) | [P,N)
      Lin X=s(),a=s(),b=s();Lin P=X+a+Lin(1),N=P+b;
      Sp sp;sp.arr={pc(0,X,EL,0),pc(X,P-Lin(1),EL,1),pc(P,N,EL,0)};sp.up={pc(0,X,SLOT,0,1,1),pc(X+Lin(1),P,SLOT,-1,1,1),pc(P,N,SLOT,0,1,1)};
      add("any slot",{V::slot(1,X),V::slot(1,P)},[&](State&S){slots(S,1,N);ups(S,1,N);},sp);return true;}
    if(nm=="relocate"){
      {Lin X=s(),a=s(),b=s();Lin P=X+a+Lin(1),N=P+b;Sp sp;sp.arr={pc(0,X,EL,0),pc(X,P-Lin(1),EL,1),pc(P-Lin(1),P,EL,X-P+Lin(1)),pc(P,N,EL,0)};
        sp.up={pc(0,X,SLOT,0,1,1),pc(X,X+Lin(1),SLOT,P-Lin(1)-X,1,1),pc(X+Lin(1),P,SLOT,-1,1,1),pc(P,N,SLOT,0,1,1)};
        add("forwards",{V::slot(1,P),V::slot(1,X)},[&](State&S){slots(S,1,N);ups(S,1,N);},sp);}
      {Lin P=s(),a=s(),b=s();Lin X=P+a,N=X+Lin(1)+b;Sp sp;sp.arr={pc(0,P,EL,0),pc(P,P+Lin(1),EL,X-P),pc(P+Lin(1),X+Lin(1),EL,-1),pc(X+Lin(1),N,EL,0)};
        sp.up={pc(0,P,SLOT,0,1,1),pc(P,X,SLOT,1,1,1),pc(X,X+Lin(1),SLOT,P-X,1,1),pc(X+Lin(1),N,SLOT,0,1,1)};
        add("backwards",{V::slot(1,P),V::slot(1,X)},[&](State&S){slots(S,1,N);ups(S,1,N);},sp);}
      return true;}
    if(nm=="transfer"){
      Lin B=s(),a=s(),b=s(),D=s(),e=s();Lin En=B+a,N=En+b,M=D+a+e;Sp sp;sp.a=2;sp.arr={pc(D,D+a,EL,B-D)};sp.up={pc(0,B,SLOT,0,1,1),pc(B,En,SLOT,D-B,1,2),pc(En,N,SLOT,0,1,1)};
      add("any range",{V::slot(1,B),V::slot(1,En),V::slot(2,D)},[&](State&S){slots(S,1,N);slots(S,2,M,false);ups(S,1,N);},sp);return true;}
    if(nm=="reverse"){
      for(int odd=0;odd<2;++odd){Lin B=s(),h=s(),b=s();Lin En=B+h*2+Lin(odd),N=En+b;Sp sp;sp.arr={pc(0,B,EL,0),pc(B,En,EL,B+En-Lin(1),-1),pc(En,N,EL,0)};
        sp.up={pc(0,B,SLOT,0,1,1),pc(B,En,SLOT,B+En-Lin(1),-1,1),pc(En,N,SLOT,0,1,1)};
        add(odd?"odd number of elements":"even number of elements",{V::slot(1,B),V::slot(1,En)},[&](State&S){slots(S,1,N);ups(S,1,N);},sp);}
      return true;}
    if(nm=="increment"||nm=="decrement"||nm=="advance"){
      bool dec=nm=="decrement";Lin a=s(),b=s();Lin X=dec?a+Lin(1):a;
      for(int neg=0;neg<(nm=="advance"?2:1);++neg){Lin d=nm=="advance"?s():Lin(1);bool back=dec||neg;Lin x=back?a+d:X,r=back?a:X+d,N=(back?x:r)+b+Lin(1);
        Sp sp;sp.arr={pc(0,N,EL,0)};sp.up={pc(0,N,SLOT,0,1,1)};std::vector<V> args{V::el(x)};if(nm=="advance")args.push_back(V::i(neg?d*-1:d));
        add(neg?"backwards":"forwards",args,[&](State&S){slots(S,1,N);ups(S,1,N);},sp,[r](Eng&E,State&S,const V*v){wantEl(E,S,v,r);});}
      return true;}
    if(nm=="distance"){Lin a=s(),b=s(),c=s();for(int o=0;o<2;++o){Lin x=a,y=a+b;if(o)std::swap(x,y);Lin N=a+b+c+Lin(1);Sp sp;sp.arr={pc(0,N,EL,0)};sp.up={pc(0,N,SLOT,0,1,1)};
        add(o?"backwards":"forwards",{V::el(x),V::el(y)},[&](State&S){slots(S,1,N);ups(S,1,N);},sp,[x,y](Eng&,State&S,const V*v){if(!v||v->k!=INT||!S.eq0(v->n-(y-x)))throw Viol{"result","the distance is wrong"};});}
      return true;}
    // whole arrays: object 1 with n elements (slot n: the end), capacity c
    long oS=probe["size"],oC=probe["cap"],oD=probe["data"],oN=probe["n"];
    auto obj=[=](State&S,int o,int id,Lin n,Lin cap){auto&m=S.mem[o];m[oS]=V::i(n);m[oC]=V::i(cap);m[oD]=V::slot(id,0);m[oN]=V::i(cap+Lin(1));};
    auto cap=[&](State&S,int id,Lin n,Lin c){slots(S,id,n+Lin(1));S.arr[id].p.push_back(pc(n+Lin(1),c+Lin(1),UNK,0));S.arr[id].cap=c+Lin(1);};
    auto field=[=](Eng&E,State&S,int o,Lin n,const Lin*c,int id){
      auto g=[&](long off,const Lin&w,const char*m){V v=S.mem[o][off];if(v.k!=INT||!S.eq0(v.n-w))throw Viol{"array header",m};};
      g(oS,n,"the recorded size is wrong afterwards");
      V d=S.mem[o][oD];if(d.k!=SLOT||(id&&d.id!=id)||!S.eq0(d.n))throw Viol{"array header","the array does not own its storage afterwards"};
      Lin room=S.arr[d.id].cap;g(oN,room,"the recorded amount of storage is wrong afterwards");
      V cv=S.mem[o][oC];if(cv.k!=INT||!S.ge(room-cv.n-Lin(1)))throw Viol{"array header","the recorded capacity exceeds the storage"};
      if(!S.ge(cv.n-n))throw Viol{"array header","the recorded capacity is less than the size"};
      if(c&&!S.eq0(cv.n-*c))throw Viol{"array header","the recorded capacity is wrong afterwards"};
    };
    if(nm=="push_back"){Lin n=s(),e=s();Lin c=n+e+Lin(1);Sp sp;sp.arr={pc(0,n,EL,0),pc(n,n+Lin(1),EL,1),pc(n+Lin(1),n+Lin(2),EL,-1)};sp.up={pc(0,n,SLOT,0,1,1),pc(n,n+Lin(1),SLOT,1,1,1),pc(n+Lin(1),n+Lin(2),SLOT,-1,1,1)};
      // element n: end, element n+1: the new one
      add("with room",{V::mem(1),V::el(n+Lin(1))},[&](State&S){obj(S,1,1,n,c);cap(S,1,n,c);ups(S,1,n+Lin(1));S.up.p.push_back(pc(n+Lin(1),n+Lin(2),UNK,0));},sp,[=](Eng&E,State&S,const V*){field(E,S,1,n+Lin(1),&c,1);});return true;}
    if(nm=="erase"){Lin x=s(),a=s(),e=s();Lin n=x+a+Lin(1),c=n+e;Sp sp;sp.arr={pc(0,x,EL,0),pc(x,n,EL,1)};sp.up={pc(0,x,SLOT,0,1,1),pc(x+Lin(1),n+Lin(1),SLOT,-1,1,1)};
      add("any element",{V::mem(1),V::el(x)},[&](State&S){obj(S,1,1,n,c);cap(S,1,n,c);ups(S,1,n+Lin(1));},sp,[=](Eng&E,State&S,const V*){field(E,S,1,n-Lin(1),&c,1);});return true;}
    if(nm=="clear"){Lin n=s(),e=s();Lin c=n+e;Sp sp;sp.arr={pc(0,1,EL,n)};sp.up={pc(n,n+Lin(1),SLOT,n*-1,1,1)};
      add("any size",{V::mem(1)},[&](State&S){obj(S,1,1,n,c);cap(S,1,n,c);ups(S,1,n+Lin(1));},sp,[=](Eng&E,State&S,const V*){field(E,S,1,Lin(0),&c,1);});return true;}
    if(nm=="construct"){Lin n=s();Lin z=n;
      State&S=E.add("any size",{V::mem(1),V::mem(3),V::el(n),V::i(n)},[=](Eng&E,State&S,const V*,bool thrown){if(thrown)return;
        field(E,S,1,n,nullptr,0);V d=S.mem[1][oD];expect(E,S,S.arr[d.id],{pc(n,n+Lin(1),EL,0)},"the end of the array",false);expect(E,S,S.up,{pc(n,n+Lin(1),SLOT,0,1,d.id)},"the slot recorded in the end",true);});
      S.mem[1];S.up.cap=n+Lin(1);S.up.p={pc(0,n+Lin(1),UNK,0)};return true;}
    if(nm=="room_for_one"||nm=="reserve"||nm=="shrink"){
      Lin n=s(),e=s();Lin c=n+e;Lin r=nm=="reserve"?s():Lin(0);std::vector<V> args{V::mem(1)};if(nm=="reserve")args.push_back(V::i(r));
      // wherever the array is now, it holds the same elements and they point into it
      State&S=E.add("any size and capacity",args,[=](Eng&E,State&S,const V*,bool){
        V d=S.mem[1][oD];if(d.k!=SLOT)throw Viol{"array header","the array does not own its storage afterwards"};
        std::vector<Pc> a={pc(0,n+Lin(1),EL,0)},u={pc(0,n+Lin(1),SLOT,0,1,d.id)};
        expect(E,S,S.arr[d.id],a,"the content of the array",false);expect(E,S,S.up,u,"the slot recorded in an element",true);
        field(E,S,1,n,nullptr,0);V cv=S.mem[1][oC];
        if(nm=="room_for_one"&&!S.ge(cv.n-n-Lin(1)))throw Viol{"array header","there is no room for another element"};
        if(nm=="reserve"&&!S.ge(cv.n-r))throw Viol{"array header","the reserved capacity is not available"};
      });
      obj(S,1,1,n,c);cap(S,1,n,c);ups(S,1,n+Lin(1));return true;}
    if(nm=="swap"){Lin n=s(),e=s(),m=s(),f=s();Lin c=n+e,d=m+f;
      State&S=E.add("any two arrays",{V::mem(1),V::mem(2)},[=](Eng&E,State&S,const V*,bool){field(E,S,1,m,&d,2);field(E,S,2,n,&c,1);});
      obj(S,1,1,n,c);cap(S,1,n,c);obj(S,2,2,m,d);cap(S,2,m,d);return true;}
    if(nm=="gather_nulls"){
      // kept elements of [B,X) move to the front and those of [X,E) to the back, in order; fb/bb: first slot not yet filled from either side,
      // fe/be: first element not yet placed
      Lin B=s(),a=s(),b=s();Lin X=B+a,En=X+b;
      auto norm=[](Eng&E,State&S){
        for(bool again=true;again;){again=false;
          for(auto&f:S.facts)if(f.kind==1&&f.v){if(S.eq0(f.n-S.gl["fe"])&&!(S.gl["fe"]==S.gl["be"])){S.gl["fe"]+=Lin(1);again=true;break;}if(S.eq0(f.n-S.gl["be"]+Lin(1))){S.gl["be"]-=Lin(1);again=true;break;}}}
        if(S.gi["pending"])throw Viol{"back pointers","a moved element does not record its new slot"};
      };
      E.atHead=norm;
      E.ldHook=[](Eng&E,State&S,const V&p,V&r){
        Lin i;if(p.k!=SLOT||!p.n.div(8,i))return false;
        if(S.gi["pending"]==1&&S.eq0(i-S.gl["ws"])){r=V::el(S.gl["we"]);return true;}
        if(!E.ge(S,i-S.gl["fe"])||!E.ge(S,S.gl["be"]-i-Lin(1)))throw Viol{"array content","a slot that may have been overwritten, or was already inspected, is read"};
        r=V::el(i);return true;};
      E.stHook=[](Eng&E,State&S,const V&p,const V&v){
        if(p.k==SLOT){Lin i;if(!p.n.div(8,i)||v.k!=EL)throw Fail{"store to a slot"};
          if(E.fact(S,1,v.n)!=0)throw Viol{"array content","a slot that may be empty is moved"};
          int pd=S.gi["pending"];
          if(pd==1)throw Viol{"back pointers","a moved element does not record its new slot"};
          if(pd==2&&(!S.eq0(i-S.gl["ws"])||!S.eq0(v.n-S.gl["we"])))throw Viol{"back pointers","a moved element records a slot that is not its own"};
          if(S.eq0(i-S.gl["fb"])&&S.eq0(v.n-S.gl["fe"])){S.gl["fb"]+=Lin(1);S.gl["fe"]+=Lin(1);}
          else if(S.eq0(i-S.gl["bb"]+Lin(1))&&S.eq0(v.n-S.gl["be"]+Lin(1))){S.gl["bb"]-=Lin(1);S.gl["be"]-=Lin(1);}
          else throw Viol{"array content","an element is not moved next to those gathered before"};
          S.gi["pending"]=pd?0:1;S.gl["ws"]=pd?Lin(0):i;S.gl["we"]=pd?Lin(0):v.n;return true;}
        if(p.k==EL){Lin i;if(!S.gi["pending"]&&v.k==SLOT&&v.n.div(8,i)){S.gi["pending"]=2;S.gl["ws"]=i;S.gl["we"]=p.n;return true;}
          if(!S.gi["pending"]||!S.eq0(p.n-S.gl["we"])||v.k!=SLOT||!v.n.div(8,i)||!S.eq0(i-S.gl["ws"]))throw Viol{"back pointers","a moved element records a slot that is not its own"};S.gi["pending"]=0;S.gl["ws"]=S.gl["we"]=Lin(0);return true;}
        return false;};
      State&S=E.add("any pattern of empty slots",{V::slot(1,B),V::slot(1,En),V::slot(1,X)},[=](Eng&E,State&S,const V*v,bool){
        norm(E,S);
        if(!S.eq0(S.gl["fe"]-X)||!S.eq0(S.gl["be"]-X))throw Viol{"array content","not every element is gathered"};
        Lin i;if(!v||v->k!=SLOT||!v->n.div(8,i)||!S.eq0(i-S.gl["fb"]))throw Viol{"result","the result is not the end of the elements gathered at the front"};
      });
      S.gi["nullable"]=1;S.gi["pending"]=0;S.gl["fb"]=S.gl["fe"]=B;S.gl["bb"]=S.gl["be"]=En;S.gl["ws"]=S.gl["we"]=Lin(0);
      return true;}
    return false;
  }
};
