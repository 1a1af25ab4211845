#pragma once
#include "core.hpp"
#include <iostream>
#include <regex>
#include <chrono>
static bool DBG=false;static int TMAX=200;
static Str js(const Str&s){Str o="\"";for(char c:s){if(c=='"'||c=='\\'){o+='\\';o+=c;}else if((unsigned char)c<32)o+=' ';else o+=c;}return o+"\"";}
static Str where(const Instruction*I){
  if(!I)return "";DebugLoc d=I->getDebugLoc();if(!d)return "";
  Str s;int k=0;for(const DILocation*l=d.get();l&&k<4;l=l->getInlinedAt(),++k){Str f=l->getFilename().str();auto p=f.find("multi_index/");if(p!=Str::npos)f=f.substr(p+12);else{auto q=f.rfind('/');if(q!=Str::npos)f=f.substr(q+1);}
    if(k)s+=" <- ";s+=f+":"+std::to_string(l->getLine());if(auto*sp=l->getScope()->getSubprogram())s+=" "+sp->getName().str();}
  return s;
}
struct Probe{const BasicBlock*head;std::vector<State> back;std::set<Lin> cmp;int budget=20000;};
struct Eng{
  Function&F;const DataLayout&DL;Str name;int ctr=0;
  std::set<std::pair<const BasicBlock*,const BasicBlock*>> back;std::set<const BasicBlock*> heads;
  std::map<const BasicBlock*,std::set<const BasicBlock*>> inloop;
  std::map<const BasicBlock*,std::set<const Value*>> live;
  std::map<const Value*,int> num;std::vector<const Value*> vals;
  struct Cov{State g;std::vector<Lin> cand;std::vector<int> ks;std::vector<std::vector<long>> D;};
  std::map<const BasicBlock*,std::vector<Cov>> cov;
  long steps=0,configs=0,paths=0,accel=0,obl=0,inv=0;
  struct VR{Str rule,where,msg;std::vector<Str> trail;};std::vector<VR> viol;std::set<Str> unknown;Str error;std::set<Str> vkeys;
  std::vector<Str> cfgName;std::vector<std::function<void(Eng&,State&,const V*,bool)>> post; // bool: left by an exception
  std::vector<State> initial;
  std::function<bool(Eng&,State&,CallBase*,StringRef,V&)> hook;  // calls with a meaning
  std::function<bool(Eng&,State&,const V&,V&)> ldHook;std::function<bool(Eng&,State&,const V&,const V&)> stHook;
  std::function<int(Eng&,State&,const V&,const V&)> eqHook; // -1: not decided here; 2: either
  std::function<bool(Eng&,State&,AllocaInst*,V&)> allocHook;
  std::function<void(Eng&,State&)> atHead;
  std::function<bool(Eng&,State&,unsigned,const V&,const V&,V&)> binHook;std::function<bool(Eng&,State&,const V&,const V&,long,V&)> gepHook;
  Probe*pr=nullptr;long upOff=0;
  bool useGlobals=false;std::map<const GlobalVariable*,int> gvar; // globals as memory with negative identity
  Eng(Function&f):F(f),DL(f.getParent()->getDataLayout()){name=f.getName().str();analyse();}
  int fresh(){return ++ctr;}Lin fs(){return Lin::sym(fresh());}
  void analyse(){
    DominatorTree DT(F);for(auto&b:F)for(auto*s:successors(&b))if(DT.isReachableFromEntry(&b)&&DT.dominates(s,&b)){back.insert({&b,s});heads.insert(s);
      auto&L=inloop[s];L.insert(s);std::vector<const BasicBlock*> w{&b};while(!w.empty()){auto*x=w.back();w.pop_back();if(!L.insert(x).second)continue;for(auto*p:predecessors(x))w.push_back(p);}}
    int n=0;for(auto&a:F.args()){num[&a]=n++;vals.push_back(&a);}for(auto&i:instructions(F)){num[&i]=n++;vals.push_back(&i);}
    bool ch=true;while(ch){ch=false;for(auto&b:F){std::set<const Value*> s;for(auto*u:successors(&b)){for(auto*v:live[u])s.insert(v);for(auto&i:*u){auto*p=dyn_cast<PHINode>(&i);if(!p)break;Value*v=p->getIncomingValueForBlock(&b);if(isa<Instruction>(v)||isa<Argument>(v))s.insert(v);}}
      for(auto it=b.rbegin();it!=b.rend();++it){s.erase(&*it);if(isa<PHINode>(*it))continue;for(auto&o:it->operands())if(isa<Instruction>(o)||isa<Argument>(o))s.insert(o);}
      if(s!=live[&b]){live[&b]=s;ch=true;}}}
  }
  // ---- facts
  bool ge(State&S,const Lin&l){++obl;if(pr&&!l.isC()){pr->cmp.insert(l);}return S.ge(l);}
  bool eq0(State&S,const Lin&l){return l.isC()?l.c==0:ge(S,l)&&ge(S,Lin(0)-l);}
  template<class G> void alt(State&S,Split&sp,G f){State T=S;try{f(T);if(!T.bad())sp.alts.push_back(std::move(T));}catch(Infeasible&){}}
  bool decide(State&S,const Lin&ge0){ // ge0>=0 ? ; splits when open
    if(ge(S,ge0))return true;if(ge(S,Lin(-1)-ge0))return false;
    Split sp;alt(S,sp,[&](State&T){T.cons.push_back(ge0);});alt(S,sp,[&](State&T){T.cons.push_back(Lin(-1)-ge0);});throw sp;
  }
  bool decideEq(State&S,const Lin&d){
    if(d.isC())return d.c==0;
    bool a=ge(S,d),b=ge(S,Lin(0)-d);if(a&&b)return true;if(ge(S,d-Lin(1))||ge(S,Lin(-1)-d))return false;
    Split sp;alt(S,sp,[&](State&T){T.cons.push_back(d);T.cons.push_back(Lin(0)-d);});alt(S,sp,[&](State&T){T.cons.push_back(d-Lin(1));});alt(S,sp,[&](State&T){T.cons.push_back(Lin(-1)-d);});throw sp;
  }
  int fact(State&S,int kind,const Lin&n){for(auto&f:S.facts)if(f.kind==kind&&S.eq0(f.n-n))return f.v;return -1;}
  bool decideFact(State&S,int kind,const Lin&n){int f=fact(S,kind,n);if(f>=0)return f;Split sp;for(int v=0;v<2;++v)alt(S,sp,[&](State&T){T.facts.push_back({kind,n,(bool)v});});throw sp;}
  // ---- arrays
  size_t locate(State&S,Arr&A,const Lin&i,const char*what){
    for(size_t j=0;j<A.p.size();++j)if(ge(S,i-A.p[j].lo)&&ge(S,A.p[j].hi-i-Lin(1)))return j;
    Split sp;for(auto&p:A.p)alt(S,sp,[&](State&T){T.cons.push_back(i-p.lo);T.cons.push_back(p.hi-i-Lin(1));});
    if(!A.p.empty()){alt(S,sp,[&](State&T){T.cons.push_back(i-A.p.back().hi);T.gi["outside"]=1;});alt(S,sp,[&](State&T){T.cons.push_back(A.p[0].lo-i-Lin(1));T.gi["outside"]=1;});}
    if(sp.alts.empty()||S.gi.count("outside"))throw Viol{"bounds",Str(what)+" outside the array"};
    throw sp;
  }
  V read(State&S,Arr&A,const Lin&i,const char*what){Pc&p=A.p[locate(S,A,i,what)];V v;v.k=p.k;v.id=p.id;v.n=i*p.s+p.c;if(p.k==SLOT)v.n=v.n*8;return v;}
  void write(State&S,Arr&A,const Lin&i,const V&v,const char*what){
    size_t j=locate(S,A,i,what);Pc p=A.p[j];Pc a=p,b=p,c=p;a.hi=i;c.lo=i+Lin(1);b.lo=i;b.hi=i+Lin(1);b.k=v.k;b.id=v.id;b.s=1;
    Lin val=v.n;if(v.k==SLOT&&!v.n.div(8,val))throw Fail{"a misaligned slot address is stored"};
    if(v.k==NIL){b.k=NIL;val=i;}else if(v.k!=EL&&v.k!=SLOT&&v.k!=HASH&&(v.k!=BUCK||v.neg)){b.k=UNK;val=i;}
    b.c=val-i;A.p.erase(A.p.begin()+j);A.p.insert(A.p.begin()+j,{a,b,c});tidy(S,A);
  }
  void tidy(State&S,Arr&A){
    for(bool again=true;again;){again=false;
      for(size_t j=0;j<A.p.size();++j)if(S.eq0(A.p[j].hi-A.p[j].lo)){A.p.erase(A.p.begin()+j);again=true;break;}
      for(size_t j=0;!again&&j+1<A.p.size();++j){Pc&a=A.p[j],&b=A.p[j+1];if(a.k!=b.k||a.id!=b.id||!S.eq0(a.hi-b.lo))continue;
        if(a.k==UNK){a.hi=b.hi;A.p.erase(A.p.begin()+j+1);again=true;break;}
        bool sa=S.eq0(a.hi-a.lo-Lin(1)),sb=S.eq0(b.hi-b.lo-Lin(1));
        Lin va=a.lo*a.s+a.c,vb=b.lo*b.s+b.c; // first values
        int s=0;if(sa&&sb){Lin d=vb-va;s=S.eq0(d-Lin(1))?1:S.eq0(d+Lin(1))?-1:0;}else if(sa)s=b.s;else if(sb||a.s==b.s)s=a.s;
        if(!s)continue;
        Lin ca=sa?va-a.lo*s:a.c,cb=sb?vb-b.lo*s:b.c;
        if(!S.eq0(ca-cb))continue;
        a.s=s;a.c=ca;a.hi=b.hi;A.p.erase(A.p.begin()+j+1);again=true;}
    }
  }
  // ---- shapes
  struct Sh{Str s;std::vector<Lin> l;};
  Sh shape(State&S){
    Sh r;
    std::function<void(const V&)> fv=[&](const V&v){r.s+="("+std::to_string(v.k)+","+std::to_string(v.id)+","+std::to_string(v.off)+(v.neg?"n":"");if(v.k==INT||v.k==SLOT||v.k==EL||v.k==HASH||v.k==BUCK||v.k==CELL||v.k==SAME||v.k==NBR)r.l.push_back(v.n);for(auto&a:v.agg)fv(a);r.s+=")";};
    auto fa=[&](const Arr&A){for(auto&p:A.p){r.s+="<"+std::to_string(p.k)+","+std::to_string(p.id)+","+std::to_string(p.s)+">";r.l.push_back(p.lo);r.l.push_back(p.hi);if(p.k!=UNK)r.l.push_back(p.c);}r.l.push_back(A.cap);};
    for(auto*v:vals){auto i=S.env.find(v);if(i!=S.env.end()){r.s+="v"+std::to_string(num[v]);fv(i->second);}}
    for(auto&p:S.arr){r.s+="A"+std::to_string(p.first);fa(p.second);}r.s+="U";fa(S.up);
    for(auto&p:S.mem)for(auto&q:p.second){r.s+="m"+std::to_string(p.first)+"+"+std::to_string(q.first);fv(q.second);}
    for(auto&p:S.gl){r.s+="g"+p.first;r.l.push_back(p.second);}for(auto&p:S.gi)r.s+="i"+p.first+"="+std::to_string(p.second);
    r.s+="c"+std::to_string(S.cfg);
    return r;
  }
  // does g with some values of its step counts describe T (whose facts are at least those of the candidates)?
  bool covers(const State&g,const std::vector<Lin>&cand,const std::vector<int>&ks,State&T,std::vector<Lin>*bad=nullptr){
    Sh a=shape(const_cast<State&>(g)),b=shape(T);if(a.s!=b.s||a.l.size()!=b.l.size())return false;
    // rename the counts
    std::map<int,int> ren;for(int k:ks)ren[k]=-k-1;
    auto rn=[&](Lin l){for(auto&p:ren)l.subst(p.first,Lin::sym(p.second));return l;};
    std::vector<Lin> eqs;for(size_t i=0;i<a.l.size();++i){Lin e=rn(a.l[i])-b.l[i];long g=labs(e.c);for(auto&p:e.t)g=std::gcd(g,labs(p.second));if(g>1){for(auto&p:e.t)p.second/=g;e.c/=g;}eqs.push_back(e);}
    std::map<int,Lin> sol;
    for(bool again=true;again;){again=false;for(auto&e:eqs){int pv=0;long co=0;for(auto&p:e.t)if(p.first<0&&(p.second==1||p.second==-1)){pv=p.first;co=p.second;break;}
        if(!pv)continue;Lin x=e;x.t.erase(pv);if(co==1)x=x*-1; // pv = x
        for(auto&f:eqs)f.subst(pv,x);for(auto&s:sol)s.second.subst(pv,x);sol[pv]=x;again=true;break;}}
    for(auto&e:eqs){for(auto&p:e.t)if(p.first<0)return false;if(!T.eq0(e))return false;}
    for(auto&p:ren){auto i=sol.find(p.second);if(i==sol.end())return false;if(!T.ge(i->second))return false;}
    bool ok=true;
    for(auto&c:cand){Lin l=rn(c);for(auto&s:sol)l.subst(s.first,s.second);if(!T.ge(l)){ok=false;if(bad)bad->push_back(c);else return false;}}
    return ok;
  }
  // explores one iteration from S (which stands at head h)
  void probeRun(const State&S,const BasicBlock*h,Probe&P){
    P.head=h;Probe*old=pr;pr=&P;auto oc=cov;for(auto*x:inloop[h])if(x!=h)cov.erase(x);State T=S;T.sub=true; // what other paths covered says nothing about where this iteration leads
    std::vector<State> w{T};int n=0;
    while(!w.empty()&&n++<4000){State X=std::move(w.back());w.pop_back();
      try{for(;;){if(--P.budget<0)break;if(!exec(X,&*X.it,w))break;}}
      catch(Split&sp){for(auto&a:sp.alts)w.push_back(std::move(a));}catch(Infeasible&){}catch(Viol&){}catch(Fail&){}
      if(P.budget<0)break;}
    pr=old;cov=oc;
  }
  // at a back edge into h: closes the loop if possible. Returns false when the path ends here (already covered)
  bool headArrive(State&S,const BasicBlock*h){
    for(auto&c:cov[h])if(covers(c.g,c.cand,c.ks,S)){return false;}
    if(S.depth[h]>8)throw Fail{"a loop does not settle"};
    Probe p1;probeRun(S,h,p1);Sh s0=shape(S);
    std::vector<std::vector<long>> D;bool same=false;
    auto delta=[&](const Sh&x,const Sh&y,std::vector<long>&d){if(x.s!=y.s||x.l.size()!=y.l.size())return false;bool z=true;for(size_t i=0;i<x.l.size();++i){Lin e=y.l[i]-x.l[i];if(!e.isC())return false;d.push_back(e.c);if(e.c)z=false;}if(z)same=true;return !z;};
    for(auto&T:p1.back){std::vector<long> d;if(delta(s0,shape(T),d)&&std::find(D.begin(),D.end(),d)==D.end())D.push_back(d);}
    if(DBG)errs()<<"HEAD "<<h->getName()<<" depth "<<S.depth[h]<<" back "<<p1.back.size()<<" steps "<<D.size()<<(pr?" (probe)":"")<<"\n";
    if(DBG)for(auto&T:p1.back)if(D.empty())errs()<<"   shape "<<s0.s<<"\n      vs "<<shape(T).s<<"\n";
    if(S.depth[h]>=3)for(auto&c:cov[h]){ // widening: from an earlier state of this shape, along the directions in which this one differs
      Sh o=shape(c.g);if(o.s!=s0.s||o.l.size()!=s0.l.size())continue;
      State B=c.g;B.eachLin([&](Lin&l){for(int k:c.ks)l.subst(k,Lin(0));});
      std::vector<Lin> bc;for(auto&l:B.cons){bool m=false;for(int k:c.ks)if(l.t.count(k))m=true;if(!m&&S.ge(l))bc.push_back(l);}B.cons=bc;
      Sh sb=shape(B);std::vector<Lin> e;for(size_t i=0;i<sb.l.size();++i)e.push_back(s0.l[i]-sb.l[i]);
      std::vector<std::vector<long>> W=c.D;for(auto&d:D)if(std::find(W.begin(),W.end(),d)==W.end())W.push_back(d);
      std::vector<bool> used(e.size());bool ok=true;
      for(size_t i=0;i<e.size();++i){if(used[i])continue;std::vector<long> d(e.size());bool nz=false;
        for(size_t j=i;j<e.size();++j){if(used[j])continue;if(e[i].isC()?e[j].isC():(e[j]-e[i]).isC()&&(e[j]-e[i]).c==0){used[j]=true;d[j]=e[i].isC()?e[j].c:1;nz|=d[j]!=0;}}
        if(!e[i].isC()&&!S.ge(e[i]))ok=false;
        if(nz&&std::find(W.begin(),W.end(),d)==W.end())W.push_back(d);}
      if(ok&&close(S,B,h,W))return true;
    }
    if(D.empty()){cov[h].push_back({S,{},{}});return true;}
    State B=S;close(S,B,h,D);return true;
  }
  // from B along D: replaces S by the general state if it is one of those described
  bool close(State&S,const State&B,const BasicBlock*h,std::vector<std::vector<long>> D){
    Sh s0=shape(const_cast<State&>(B));bool wide=&S!=&B&&shape(S).l!=s0.l;
    auto delta=[&](const Sh&x,const Sh&y,std::vector<long>&d){if(x.s!=y.s||x.l.size()!=y.l.size())return false;bool z=true;for(size_t i=0;i<x.l.size();++i){Lin e=y.l[i]-x.l[i];if(!e.isC())return false;d.push_back(e.c);if(e.c)z=false;}return !z;};
    State G=B;std::vector<int> ks;std::vector<Lin> cand;
    auto build=[&]{
      G=B;ks.clear();std::vector<Lin> nl=s0.l;for(auto&d:D){int k=fresh();ks.push_back(k);for(size_t i=0;i<nl.size();++i)nl[i]+=Lin::sym(k)*d[i];}
      size_t i=0;assign(G,nl,i);
    };
    for(int round=0;round<4;++round){
      build();cand.clear();
      Probe p2;probeRun(G,h,p2);
      auto at0=[&](Lin l){for(int k:ks)l.subst(k,Lin(0));return l;};
      auto hasK=[&](const Lin&l){for(int k:ks)if(l.t.count(k))return true;return false;};
      auto clean=[&](const Lin&l){for(auto&p:l.t)if(p.first>ks.back())return false;return true;};
      for(auto&l:p2.cmp)for(int sg=1;sg>=-1;sg-=2)for(int o=-1;o<=1;++o){Lin c=l*sg+Lin(o);Poly::tight(c);if(!hasK(c)||!clean(c)||Poly::trivial(c))continue;if(B.ge(at0(c))&&std::find(cand.begin(),cand.end(),c)==cand.end())cand.push_back(c);}
      if(cand.size()>160)cand.resize(160);
      bool grow=false;
      for(;;){
        G.cons=B.cons;for(auto&c:cand)G.cons.push_back(c);
        if(wide){std::vector<Lin> bad;if(!covers(G,cand,ks,S,&bad)){if(bad.empty())return false;for(auto&b:bad){auto i=std::find(cand.begin(),cand.end(),b);if(i!=cand.end())cand.erase(i);}continue;}}
        Probe p3;probeRun(G,h,p3);bool drop=false;
        Sh g0=shape(G);
        for(auto&T:p3.back){if(shape(T).s!=g0.s)continue;std::vector<Lin> bad;
          if(!covers(G,cand,ks,T,&bad)){
            if(bad.empty()){std::vector<long> d;if(delta(g0,shape(T),d)&&std::find(D.begin(),D.end(),d)==D.end()){D.push_back(d);grow=true;}continue;}
            for(auto&b:bad){auto i=std::find(cand.begin(),cand.end(),b);if(i!=cand.end()){cand.erase(i);drop=true;}}
          }}
        if(!drop||grow)break;
      }
      if(!grow)break;
    }
    // redundant candidates are dropped to keep the constraints small
    for(size_t i=0;i<cand.size();){auto cs=B.cons;for(size_t j=0;j<cand.size();++j)if(j!=i)cs.push_back(cand[j]);if(Poly::implies(cs,cand[i]))cand.erase(cand.begin()+i);else ++i;}
    G.cons=B.cons;for(auto&c:cand)G.cons.push_back(c);
    ++accel;inv+=cand.size();
    if(DBG){errs()<<"ACCEL "<<h->getName()<<" steps "<<D.size()<<" invariants:";for(auto&c:cand)errs()<<" "<<c.str()<<">=0";errs()<<"\n";dump(G);}
    cov[h].push_back({G,cand,ks,D});
    auto d=S.depth;auto tr=S.trail;S=G;S.depth=d;S.trail=tr;
    return true;
  }
  void assign(State&G,std::vector<Lin>&nl,size_t&i){
    std::function<void(V&)> fv=[&](V&v){if(v.k==INT||v.k==SLOT||v.k==EL||v.k==HASH||v.k==BUCK||v.k==CELL||v.k==SAME||v.k==NBR)v.n=nl[i++];for(auto&a:v.agg)fv(a);};
    auto fa=[&](Arr&A){for(auto&p:A.p){p.lo=nl[i++];p.hi=nl[i++];if(p.k!=UNK)p.c=nl[i++];}A.cap=nl[i++];};
    for(auto*v:vals){auto it=G.env.find(v);if(it!=G.env.end())fv(it->second);}
    for(auto&p:G.arr)fa(p.second);fa(G.up);
    for(auto&p:G.mem)for(auto&q:p.second)fv(q.second);
    for(auto&p:G.gl)p.second=nl[i++];
  }
  Str vs(const V&v){static const char*n[]={"?","int","nil","slot","el","mem","hash","buck","cell","same","nbr","agg"};return Str(v.neg?"~":"")+n[v.k]+(v.id?"#"+std::to_string(v.id):"")+"("+v.n.str()+")"+(v.off?"+"+std::to_string(v.off):"");}
  void dump(State&S){
    for(auto*v:vals){auto i=S.env.find(v);if(i!=S.env.end())errs()<<"   %"<<(v->hasName()?v->getName().str():std::to_string(num[v]))<<"="<<vs(i->second)<<"\n";}
    auto fa=[&](const Arr&A){for(auto&p:A.p)errs()<<" ["<<p.lo.str()<<","<<p.hi.str()<<"):"<<(p.k==UNK?"?":Str(p.k==EL?"e":p.k==SLOT?"slot":p.k==HASH?"h":"x")+(p.s<0?"-":"+")+"i+"+p.c.str());errs()<<"\n";};
    for(auto&p:S.arr){errs()<<"   A"<<p.first;fa(p.second);}errs()<<"   up";fa(S.up);
    for(auto&p:S.gl)errs()<<"   g"<<p.first<<"="<<p.second.str();for(auto&p:S.gi)errs()<<" "<<p.first<<"="<<p.second;
    errs()<<"   cons";for(auto&c:S.cons)errs()<<" "<<c.str();errs()<<"\n";
  }
  // ---- instructions
  V ev(State&S,Value*v){
    if(isa<ConstantPointerNull>(v))return V::nil();
    if(auto*c=dyn_cast<ConstantInt>(v))return V::i(c->getBitWidth()>64?Lin(0):c->getBitWidth()==1?Lin(c->getZExtValue()):Lin(c->getSExtValue()));
    if(isa<UndefValue>(v))return V();
    if(useGlobals)if(auto*g=dyn_cast<GlobalVariable>(v)){auto i=gvar.emplace(g,-1-(int)gvar.size());return V::mem(i.first->second);}
    if(auto*ce=dyn_cast<ConstantExpr>(v)){if(ce->isCast())return ev(S,ce->getOperand(0));return V();}
    auto i=S.env.find(v);return i==S.env.end()?V():i->second;
  }
  void set(State&S,Instruction*I,V v){S.env[I]=std::move(v);}
  bool isTrue(State&S,const V&v){
    if(v.k==INT){if(v.n.isC())return v.n.c&1;}
    if(v.k==SAME)return decideFact(S,0,v.n)!=v.neg;
    throw Fail{"a branch depends on an undefined value"};
  }
  V load(State&S,const V&a){
    V r;if(ldHook&&ldHook(*this,S,a,r))return r;
    if(a.k==MEMP){auto&m=S.mem[a.id];auto i=m.find(a.off);return i==m.end()?V():i->second;}
    if(a.k==SLOT){Lin i;if(!a.n.div(8,i))throw Fail{"misaligned slot"};return read(S,S.arr[a.id],i,"a slot is read");}
    if(a.k==EL&&a.off==upOff&&!a.id)return read(S,S.up,a.n,"the slot of an element is read");
    if(a.k==NIL)throw Viol{"null dereference","a null pointer is followed"};
    throw Fail{"load through an undefined pointer"};
  }
  void store(State&S,const V&a,const V&v){
    if(stHook&&stHook(*this,S,a,v))return;
    if(a.k==MEMP){S.mem[a.id][a.off]=v;return;}
    if(a.k==SLOT){Lin i;if(!a.n.div(8,i))throw Fail{"misaligned slot"};write(S,S.arr[a.id],i,v,"a slot is written");return;}
    if(a.k==EL&&a.off==upOff&&!a.id){write(S,S.up,a.n,v,"the slot of an element is written");return;}
    if(a.k==NIL)throw Viol{"null dereference","a null pointer is followed"};
    throw Fail{"store through an undefined pointer"};
  }
  V bin(State&S,BinaryOperator*I){
    V a=ev(S,I->getOperand(0)),b=ev(S,I->getOperand(1));unsigned op=I->getOpcode();if(binHook){V r;if(binHook(*this,S,op,a,b,r))return r;}
    auto KC=[](const V&v){return v.k==INT&&v.n.isC();};
    bool i1=I->getType()->isIntegerTy(1);
    if(op==Instruction::Xor){if(KC(a)&&!KC(b))std::swap(a,b);if(KC(b)&&(b.n.c==-1||(b.n.c==1&&(i1||a.k==SAME)))&&(a.k==SAME||a.k==BUCK)){a.neg=!a.neg;return a;}}
    if(op==Instruction::And&&a.k==SAME&&KC(b)&&b.n.c==1)return a;
    if(KC(a)&&KC(b)){long x=a.n.c,y=b.n.c;switch(op){case Instruction::And:return V::i(x&y);case Instruction::Or:return V::i(x|y);case Instruction::Xor:return V::i(i1?(x^y)&1:x^y);case Instruction::Shl:return V::i(x<<y);case Instruction::LShr:return V::i((long)((unsigned long)x>>y));case Instruction::AShr:return V::i(x>>y);case Instruction::URem:if(y)return V::i(x%y);break;default:break;}}
    auto isP=[](const V&v){return v.k==SLOT;};
    if(op==Instruction::Add||op==Instruction::Sub){
      if(a.k==INT&&b.k==INT)return V::i(op==Instruction::Add?a.n+b.n:a.n-b.n);
      if(isP(a)&&b.k==INT){a.n=op==Instruction::Add?a.n+b.n:a.n-b.n;return a;}
      if(op==Instruction::Sub&&isP(a)&&isP(b)&&a.id==b.id)return V::i(a.n-b.n);
      return V();
    }
    if(op==Instruction::Mul){if(KC(a))std::swap(a,b);if(a.k==INT&&KC(b))return V::i(a.n*b.n.c);return V();}
    if(op==Instruction::Shl&&a.k==INT&&KC(b)&&b.n.c<40)return V::i(a.n*(1L<<b.n.c));
    if(op==Instruction::SDiv||op==Instruction::UDiv||op==Instruction::LShr||op==Instruction::AShr){
      if(a.k!=INT||!KC(b))return V();long k=b.n.c;if(op==Instruction::LShr||op==Instruction::AShr){if(k<0||k>40)return V();k=1L<<k;}
      if(k<=0)return V();Lin r;if(a.n.div(k,r))return V::i(r);
      // floor of a non-negative dividend: introduce quotient and remainder
      if(decide(S,a.n)){Lin q=fs();Lin rem=a.n-q*k;S.cons.push_back(rem);S.cons.push_back(Lin(k-1)-rem);return V::i(q);}
      return V();
    }
    return V();
  }
  V cmp(State&S,ICmpInst*I){
    V a=ev(S,I->getOperand(0)),b=ev(S,I->getOperand(1));auto p=I->getPredicate();
    auto B=[](bool x){return V::i(x);};
    if((a.k==SAME||b.k==SAME)&&I->isEquality()){if(a.k!=SAME)std::swap(a,b);if(b.k==INT&&b.n.isC()){bool ne=p==ICmpInst::ICMP_NE;if((b.n.c==0)!=ne)a.neg=!a.neg;return a;}}
    if(I->isEquality()){
      int e=-1;if(eqHook)e=eqHook(*this,S,a,b);
      if(e==2){V v;v.k=SAME;v.n=fs();v.neg=p!=ICmpInst::ICMP_EQ;return v;}
      if(e<0&&a.k==EL&&b.k==NIL)std::swap(a,b);
      if(e<0&&a.k==NIL&&b.k==EL){if(S.gi.count("nullable"))e=decideFact(S,1,b.n);else e=0;}
      if(e<0&&a.k==NIL&&b.k==NIL)e=1;
      if(e<0&&a.k==EL&&b.k==EL&&a.id==b.id&&a.off==b.off)e=decideEq(S,a.n-b.n);
      if(e<0&&a.k==MEMP&&b.k==MEMP)e=a.id==b.id&&a.off==b.off;
      if(e<0&&((a.k==NIL&&(b.k==SLOT||b.k==MEMP))||(b.k==NIL&&(a.k==SLOT||a.k==MEMP))))e=0;
      if(e<0&&a.k==SLOT&&b.k==SLOT&&a.id!=b.id)e=0;
      if(e>=0)return B(p==ICmpInst::ICMP_EQ?e:!e);
    }
    if(!((a.k==INT&&b.k==INT)||(a.k==SLOT&&b.k==SLOT&&a.id==b.id)))throw Fail{"comparison of an undefined value"};
    Lin d=a.n-b.n;
    if(a.k==SLOT){Lin q;if(d.div(8,q))d=q;}
    if(a.k==INT&&I->isUnsigned()){auto un=[&](const V&v){return !v.n.isC()||v.n.c>=0;};
      if(a.n.isC()&&b.n.isC()){unsigned long x=a.n.c,y=b.n.c;switch(p){case ICmpInst::ICMP_ULT:return B(x<y);case ICmpInst::ICMP_ULE:return B(x<=y);case ICmpInst::ICMP_UGT:return B(x>y);default:return B(x>=y);}}
      if(!un(a)||!un(b))throw Fail{"comparison of a wrapped value"};}
    switch(p){case ICmpInst::ICMP_EQ:return B(decideEq(S,d));case ICmpInst::ICMP_NE:return B(!decideEq(S,d));
      case ICmpInst::ICMP_ULT:case ICmpInst::ICMP_SLT:return B(!decide(S,d));case ICmpInst::ICMP_UGE:case ICmpInst::ICMP_SGE:return B(decide(S,d));
      case ICmpInst::ICMP_UGT:case ICmpInst::ICMP_SGT:return B(decide(S,d-Lin(1)));case ICmpInst::ICMP_ULE:case ICmpInst::ICMP_SLE:return B(!decide(S,d-Lin(1)));default:throw Fail{"comparison"};}
  }
  void report(const Viol&v,State&S,const Instruction*I){
    Str k=v.rule+v.msg+where(I);if(!vkeys.insert(k).second)return;VR r{v.rule,where(I),v.msg+" ["+cfgName[S.cfg]+"]",{}};
    size_t b=S.trail.size()>14?S.trail.size()-14:0;for(size_t i=b;i<S.trail.size();++i)r.trail.push_back("line "+std::to_string(S.trail[i]));viol.push_back(r);
    if(DBG){errs()<<"VIOL "<<v.rule<<": "<<v.msg<<" cfg "<<cfgName[S.cfg]<<" at "<<where(I)<<"\n";dump(S);}
  }
  void enter(State&S,BasicBlock*to){
    BasicBlock*from=S.bb;std::vector<std::pair<const Value*,V>> ph;
    auto it=to->begin();for(;isa<PHINode>(*it);++it)ph.push_back({&*it,ev(S,cast<PHINode>(*it).getIncomingValueForBlock(from))});
    for(auto&p:ph)S.env[p.first]=p.second;
    auto&lv=live[to];for(auto i=S.env.begin();i!=S.env.end();){if(!lv.count(i->first)&&!(isa<Instruction>(i->first)&&cast<Instruction>(i->first)->getParent()==to&&isa<PHINode>(i->first)))i=S.env.erase(i);else ++i;}
    S.bb=to;S.it=it;
  }
  void run(){
    auto t0=std::chrono::steady_clock::now();
    for(auto&S0:initial){
      cov.clear();std::vector<State> w{S0};
      while(!w.empty()){
        State S=std::move(w.back());w.pop_back();Instruction*I=nullptr;
        try{for(;;){I=&*S.it;if(++steps>4000000){error="step limit";return;}if(!exec(S,I,w))break;}}
        catch(Split&sp){if(w.size()>20000||std::chrono::steady_clock::now()-t0>std::chrono::seconds(TMAX)){if(viol.empty())error="state limit";return;}if(sp.alts.empty())++paths;for(auto&a:sp.alts)w.push_back(std::move(a));}
        catch(Infeasible&){++paths;}
        catch(Viol&v){++paths;report(v,S,I);if(viol.size()>=3)return;}
        catch(Fail&f){++paths;if(DBG){errs()<<"FAIL "<<f.msg<<" at "<<where(I)<<"\n";dump(S);}unknown.insert(f.msg+" at "+where(I)+" ["+cfgName[S.cfg]+"]");if(unknown.size()>20)return;}
      }
    }
  }
  bool go(State&S,BasicBlock*to){
    BasicBlock*from=S.bb;bool bk=back.count({from,to});
    enter(S,to);
    if(heads.count(to)){
      for(auto&p:S.arr)tidy(S,p.second);tidy(S,S.up);
      if(atHead)atHead(*this,S);
      if(bk)S.facts.clear();
      if(!bk){S.depth[to]=0;return true;}
      for(auto&p:S.depth)if(p.first!=to&&inloop[to].count(p.first))p.second=0;
      ++S.depth[to];
      if(pr&&pr->head!=to&&!inloop[pr->head].count(to)){++paths;return false;} // another loop: of no interest to the iteration studied
      if(pr&&pr->head==to){pr->back.push_back(S);++paths;return false;}
      if(!headArrive(S,to)){++paths;return false;}
    }
    return true;
  }
  bool exec(State&S,Instruction*I,std::vector<State>&w){
    if(auto*b=dyn_cast<BranchInst>(I)){
      BasicBlock*to=b->getSuccessor(0);
      if(b->isConditional()){bool t=isTrue(S,ev(S,b->getCondition()));to=b->getSuccessor(t?0:1);if(auto d=I->getDebugLoc())S.trail.push_back(d.getLine());if(S.trail.size()>60)S.trail.erase(S.trail.begin(),S.trail.begin()+30);}
      return go(S,to);
    }
    if(auto*s=dyn_cast<SwitchInst>(I)){V v=ev(S,s->getCondition());if(v.k!=INT||!v.n.isC())throw Fail{"switch on an unknown value"};BasicBlock*to=s->getDefaultDest();for(auto&c:s->cases())if(c.getCaseValue()->getSExtValue()==v.n.c)to=c.getCaseSuccessor();return go(S,to);}
    if(auto*r=dyn_cast<ReturnInst>(I)){if(pr)return false;V v;if(r->getReturnValue())v=ev(S,r->getReturnValue());++obl;post[S.cfg](*this,S,&v,false);++paths;return false;}
    if(isa<ResumeInst>(I)){if(pr)return false;++obl;post[S.cfg](*this,S,nullptr,true);++paths;return false;}
    if(isa<UnreachableInst>(I)){++paths;return false;}
    if(isa<LandingPadInst>(I)){V v;v.k=AGG;v.agg.resize(2);set(S,I,v);++S.it;return true;}
    if(auto*l=dyn_cast<LoadInst>(I)){V v;if(auto*gv=dyn_cast<GlobalVariable>(getUnderlyingObject(l->getPointerOperand()));gv&&S.gl.count("tablesize")&&gv->getName().contains("5sizes"))v=V::i(S.gl["tablesize"]);else if(!isa<GlobalVariable>(getUnderlyingObject(l->getPointerOperand())))v=load(S,ev(S,l->getPointerOperand()));set(S,I,v);}
    else if(auto*st=dyn_cast<StoreInst>(I)){if(isa<GlobalVariable>(getUnderlyingObject(st->getPointerOperand())))throw Fail{"store to a global"};store(S,ev(S,st->getPointerOperand()),ev(S,st->getValueOperand()));}
    else if(auto*g=dyn_cast<GetElementPtrInst>(I)){
      V p=ev(S,g->getPointerOperand());APInt off(64,0);MapVector<Value*,APInt> vo;if(!g->collectOffset(DL,64,vo,off))throw Fail{"address computation"};
      Lin o(off.getSExtValue());bool ok=true;for(auto&x:vo){V i=ev(S,x.first);if(i.k!=INT)ok=false;else o+=i.n*x.second.getSExtValue();}
      V gr;if(!ok&&gepHook&&vo.size()==1&&off==0&&gepHook(*this,S,p,ev(S,vo.begin()->first),vo.begin()->second.getSExtValue(),gr))set(S,I,gr);else
      if(p.k==SLOT){if(!ok)throw Fail{"slot index"};p.n+=o;set(S,I,p);}
      else if((p.k==MEMP||p.k==EL||p.k==CELL||p.k==NBR)&&ok&&o.isC()){p.off+=o.c;set(S,I,p);}
      else if(p.k==NIL&&ok&&S.eq0(o))set(S,I,p);
      else if(p.k==NIL&&ok&&o.isC()){if(o.c)throw Viol{"null dereference","a field of a null pointer is addressed"};set(S,I,p);}
      else set(S,I,V());
    }
    else if(auto*c=dyn_cast<ICmpInst>(I)){set(S,I,cmp(S,c));}
    else if(auto*b=dyn_cast<BinaryOperator>(I)){set(S,I,bin(S,b));}
    else if(auto*c=dyn_cast<CastInst>(I)){V v=ev(S,c->getOperand(0));
      if(isa<SIToFPInst>(c)||isa<UIToFPInst>(c)||isa<FPToSIInst>(c)||isa<FPToUIInst>(c)||isa<FPTruncInst>(c)||isa<FPExtInst>(c))v=V();
      if(isa<TruncInst>(c)&&v.k==INT&&v.n.isC()){unsigned w=c->getType()->getIntegerBitWidth();if(w<63)v.n.c&=(1L<<w)-1;}else if(isa<TruncInst>(c)&&v.k==INT&&c->getType()->getIntegerBitWidth()<32)v=V();
      set(S,I,v);}
    else if(isa<FreezeInst>(I)){set(S,I,ev(S,I->getOperand(0)));}
    else if(auto*s=dyn_cast<SelectInst>(I)){V cv=ev(S,s->getCondition());bool t=isTrue(S,cv);set(S,I,ev(S,t?s->getTrueValue():s->getFalseValue()));}
    else if(V ar;isa<AllocaInst>(I)&&allocHook&&allocHook(*this,S,cast<AllocaInst>(I),ar)){set(S,I,ar);}
    else if(isa<AllocaInst>(I)){int m=1000000+num[I];S.mem[m].clear();set(S,I,V::mem(m));}
    else if(auto*x=dyn_cast<InsertValueInst>(I)){V a=ev(S,x->getAggregateOperand()),v=ev(S,x->getInsertedValueOperand());if(a.k!=AGG){a=V();a.k=AGG;}if(x->getNumIndices()!=1)throw Fail{"aggregate"};unsigned k=x->getIndices()[0];if(a.agg.size()<=k)a.agg.resize(k+1);a.agg[k]=v;set(S,I,a);}
    else if(auto*x=dyn_cast<ExtractValueInst>(I)){V a=ev(S,x->getAggregateOperand());unsigned k=x->getIndices()[0];set(S,I,a.k==AGG&&k<a.agg.size()?a.agg[k]:V());}
    else if(auto*ci=dyn_cast<CallBase>(I)){
      auto*f=ci->getCalledFunction();StringRef n=f?f->getName():"";V r;
      if(hook&&hook(*this,S,ci,n,r)){
        S.env[I]=r;
        if(auto*iv=dyn_cast<InvokeInst>(I)){
          if(S.gi.count("throws")&&S.gi["throws"]==2){S.gi.erase("throws");S.gi["thrown"]=1;S.env.erase(I);return go(S,iv->getUnwindDest());}
          if(S.gi.count("throws")){S.gi.erase("throws");State T=S;w.push_back(std::move(S));
            State&N=w.back();N.gi.erase("thrown");bool c=go(N,iv->getNormalDest());if(!c)w.pop_back();
            T.gi["thrown"]=1;T.env.erase(I);if(go(T,iv->getUnwindDest()))w.push_back(std::move(T));return false;}
          return go(S,iv->getNormalDest());
        }
        if(S.gi.count("throws")){bool only=S.gi["throws"]==2;S.gi.erase("throws");if(!pr){State T=S;T.gi["thrown"]=1;++obl;post[S.cfg](*this,T,nullptr,true);}if(only){++paths;return false;}}
        ++S.it;return true;
      }
      if(n=="__cxa_rethrow"){if(auto*iv=dyn_cast<InvokeInst>(I))return go(S,iv->getUnwindDest());if(!pr){++obl;post[S.cfg](*this,S,nullptr,true);}++paths;return false;}
      if(isa<DbgInfoIntrinsic>(I)||n.starts_with("llvm.lifetime")||n.starts_with("llvm.assume")||n.starts_with("llvm.experimental")||n.starts_with("llvm.dbg")){}
      else if(n.starts_with("llvm.memcpy")||n.starts_with("llvm.memmove")){
        V d=ev(S,ci->getArgOperand(0)),s=ev(S,ci->getArgOperand(1)),z=ev(S,ci->getArgOperand(2));
        if(d.k==MEMP&&s.k==MEMP&&z.k==INT&&z.n.isC()){auto src=S.mem[s.id];for(auto&p:src)if(p.first>=s.off&&p.first<s.off+z.n.c)S.mem[d.id][p.first-s.off+d.off]=p.second;}
        else throw Fail{"block copy"};
      }
      else if(n.starts_with("llvm.expect")){set(S,I,ev(S,ci->getArgOperand(0)));}
      else if(f&&f->doesNotReturn()){++paths;return false;}
      else if(n.starts_with("__cxa_begin_catch")||n.starts_with("__cxa_end_catch")||n.starts_with("__clang_call_terminate")){}
      else if(n.starts_with("llvm.eh.typeid")){set(S,I,V());}
      else throw Fail{"call of "+demangle(n.str())};
      if(auto*iv=dyn_cast<InvokeInst>(I))return go(S,iv->getNormalDest());
    }
    else if(isa<FCmpInst>(I)){Split sp;for(int v=0;v<2;++v){State T=S;T.env[I]=V::i(v);++T.it;sp.alts.push_back(std::move(T));}throw sp;}
    else if(I->getType()->isFloatingPointTy()){set(S,I,V());}
    else throw Fail{Str("instruction ")+I->getOpcodeName()};
    ++S.it;return true;
  }
  State&add(const Str&nm,std::vector<V> args,std::function<void(Eng&,State&,const V*,bool)> p){
    State S;cfgName.push_back(nm);post.push_back(p);S.cfg=cfgName.size()-1;++configs;size_t i=0;for(auto&a:F.args())if(i<args.size())S.env[&a]=args[i++];
    S.bb=&F.getEntryBlock();S.it=S.bb->begin();initial.push_back(S);return initial.back();
  }
};
