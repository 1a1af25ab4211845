#include "core2.hpp"
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Dominators.h>
#include <llvm/Passes/PassBuilder.h>
#include <llvm/Transforms/IPO/AlwaysInliner.h>
#include <llvm/Transforms/Scalar/SROA.h>
#include <llvm/Transforms/Utils/Local.h>
#include <llvm/ADT/SCCIterator.h>
#include <llvm/Analysis/CallGraph.h>
#include <llvm/Demangle/Demangle.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/Support/raw_ostream.h>
#include <iostream>
#include <regex>
#include <chrono>
using namespace llvm;
Tables TB;
static bool DBG=false,RNG=false,HSH=false,HSHU=false,HINP=false;
static std::string tstr(TM t){ const Term&x=TB.t[t]; static const char*n[]={"P","A","FR","G","N","H","NEGINF","ROOT","LMOST","RMOST","L","R","PAR","LO","HI","SUCC","PRED","POS","INIT","","EQ","LT","J","UNDEF","T","PART","CH","HN"}; std::string r=n[x.op]; r+=x.s; if(x.k)r+="#"+std::to_string(x.k); if(!x.a.empty()){r+="(";for(size_t i=0;i<x.a.size();++i){if(i)r+=",";r+=str(x.a[i]);}r+=")";} return r;}
std::string str(LE e){ auto&x=TB.l[e]; std::string r; for(auto&p:x.v){ if(!r.empty()||p.second<0)r+=p.second<0?"-":"+"; if(std::abs(p.second)!=1)r+=std::to_string(std::abs(p.second))+"*"; r+=tstr(p.first);} if(x.c||r.empty()){if(x.c>0&&!r.empty())r+="+";r+=std::to_string(x.c);} return r;}
std::string demangleFn(const Function*f){return llvm::demangle(f->getName().str());}
// ---- function classification
enum Kind{K_INLINE,K_USER,K_INCR,K_DECR,K_LINK,K_UNLINK,K_RESTORE,K_VP,K_COPY,K_DTOR,K_ALLOC,K_NOP,K_ASSERT,K_NEXTINS,K_ATTACH,K_DETACH,K_VBEGIN,K_VEND,K_CHECKUF,K_HUF,K_HAFTER,K_HLINK,K_HUNLINK,K_HUNDO,K_REHASH,K_UNK};
struct FI{Kind k=K_UNK; std::string nm;};
static std::string stripT(const std::string&s){std::string r;int d=0; for(size_t i=0;i<s.size();++i){ if(s.compare(i,8,"operator")==0){size_t j=i+8; if(d==0)r+="operator"; if(s.compare(j,2,"()")==0){if(d==0)r+="()";i=j+1;continue;} while(j<s.size()&&strchr("<>=-!+*&|^",s[j])){if(d==0)r+=s[j];++j;} i=j-1;continue;} if(s[i]=='<')++d; else if(s[i]=='>')--d; else if(d==0)r+=s[i];} return r;}
static std::string qname(const Function*f){ std::string s=stripT(demangleFn(f)); size_t p=0,cut=std::string::npos; while((p=s.find('(',p))!=std::string::npos){ if(p>=8&&s.compare(p-8,8,"operator")==0&&s.compare(p,2,"()")==0){p+=2;continue;} cut=p;break;} s=s.substr(0,cut); size_t sp; while((sp=s.find(' '))!=std::string::npos&&s.find("operator")==std::string::npos)s=s.substr(sp+1); if((sp=s.find(' '))!=std::string::npos&&sp<s.find("operator"))s=s.substr(sp+1); return s;}
static std::map<const Function*,FI> fic;
static const FI& finf(const Function*f){
  auto it=fic.find(f); if(it!=fic.end())return it->second; FI r; StringRef m=f->getName(); std::string q=qname(f);
  if(m.starts_with("vp_")){r.k=K_VP;r.nm=m.str();}
  else if(m.starts_with("llvm.lifetime")||m.starts_with("llvm.dbg")||m.starts_with("llvm.assume")||m.starts_with("llvm.experimental")||m.starts_with("llvm.invariant"))r.k=K_NOP;
  else if(q.compare(0,4,"vp::")==0){
    std::string rest=q.substr(4); size_t c=rest.find("::"); std::string cls=rest.substr(0,c),me=c==std::string::npos?"":rest.substr(c+2);
    r.nm=cls; 
    if(me==cls){ r.k=f->arg_size()==2?K_COPY:K_USER; if(f->arg_size()==1)r.k=K_NOP; }
    else if(me.size()&&me[0]=='~')r.k=K_DTOR;
    else if(me=="operator=")r.k=K_COPY;
    else if(me=="allocate")r.k=K_ALLOC; else if(me=="deallocate")r.k=K_NOP;
    else {r.k=K_USER; if(me!="operator()"&&!me.empty())r.nm+="::"+me;}
    if(!f->isDeclaration()&&r.k!=K_ALLOC)r.k=K_INLINE;
  }
  else if(q.find("ordered_index_node_impl::")!=std::string::npos){ std::string me=q.substr(q.rfind("::")+2);
    r.k=me=="increment"?K_INCR:me=="decrement"?K_DECR:me=="link"?K_LINK:me=="rebalance_for_extract"?K_UNLINK:me=="restore"?K_RESTORE:K_INLINE; }
  else if(q.size()>26&&q.find("safe_iterator_base::attach")!=std::string::npos)r.k=K_ATTACH;
  else if(q.find("safe_iterator_base::detach")!=std::string::npos)r.k=K_DETACH;
  else if(q.find("any_container_view::begin")!=std::string::npos&&q.find("begin_for")==std::string::npos)r.k=K_VBEGIN;
  else if(q.find("any_container_view::end")!=std::string::npos&&q.find("end_for")==std::string::npos)r.k=K_VEND;
  else if(!RNG&&q.find("safe_mode::check_valid_range")!=std::string::npos||!RNG&&q.find("safe_mode::check_outside_range")!=std::string::npos)r.k=K_CHECKUF;
  else if(HSH&&q.find("hashed_index_node_alg::")!=std::string::npos){ std::string me=q.substr(q.rfind("::")+2); r.k=me=="next_to_inspect"||me=="after_local"?K_NEXTINS:me=="after"?K_HAFTER:me=="link"?K_HLINK:me=="unlink"?K_HUNLINK:K_HUF; r.nm=me; if(me=="link"){ std::string d=demangleFn(f); int dep=0,arg=0; std::string a2; size_t i=d.find('('); while(i!=std::string::npos&&d[i-1]=='r'&&d.compare(i-8,8,"operator")==0)i=d.find('(',i+1); for(++i;i<d.size();++i){ if(d[i]=='<')++dep; else if(d[i]=='>')--dep; else if(dep==0&&d[i]==','){++arg;continue;} if(arg==1)a2+=d[i]; } r.nm=a2.find("base_node_impl")!=std::string::npos?"link_bucket":"link_group"; } }
  else if(HSH&&q.find("unlink_undo_assigner::operator()")!=std::string::npos&&f->arg_size()==1)r.k=K_HUNDO;
  else if(HSH&&(q.find("bucket_array::position")!=std::string::npos||q.find("bucket_array::at")!=std::string::npos||(!HINP&&q.find("hashed_index::in_place")!=std::string::npos)||(!HSHU&&q.find("hashed_index::last_of_range")!=std::string::npos)||(!HSHU&&q.find("hashed_index::end_of_range")!=std::string::npos))){ r.k=K_HUF; r.nm=q.substr(q.rfind("::")+2); }
  else if(HSH&&q.find("hashed_index::unchecked_rehash")!=std::string::npos)r.k=K_REHASH;
  else if(q.find("hashed_index_node_alg::next_to_inspect")!=std::string::npos)r.k=K_NEXTINS;
  else if(!f->isDeclaration())r.k=K_INLINE;
  r.nm=r.nm.empty()?q:r.nm; return fic[f]=r;
}
// ---- state
struct V{LE le=-1; std::vector<V> sub; bool operator==(const V&o)const{return le==o.le&&sub==o.sub;}};
typedef std::pair<TM,int64_t> Loc;
struct Cell{LE v;unsigned sz; bool operator==(const Cell&o)const{return v==o.v&&sz==o.sz;}};
struct State{
  std::map<const Value*,V> env; std::map<Loc,Cell> mem; std::map<TM,LE> rep; std::map<TM,bool> facts; std::set<LE> ineq; std::map<LE,LE> succ; std::map<LE,LE> parOf; // z -> x where z is the parent of x
  int epoch=0; std::set<std::string> visited; std::map<const llvm::BasicBlock*,int> inst; std::map<std::string,LE> ghost; std::vector<std::string> trail; bool dead=false;
};
struct Lay{int64_t io=0,left=-1,right=-1,parent=-1,size=-1,value=0,hdr=-1,cnt=-1,itn=-1,itc=-1,itu=-1,itcRel=0,view=0;};
struct Viol{std::string rule,where,msg;std::vector<std::string> trail;};
static std::string where(const Instruction*I){ const DebugLoc&d=I->getDebugLoc(); std::string r; const DILocation*l=d.get(); int n=0; for(;l&&n<6;l=l->getInlinedAt(),++n){ std::string f=l->getFilename().str(); size_t p=f.find("/boost/"); f=p!=std::string::npos?f.substr(p+1):f.substr(f.rfind('/')+1); std::string fn=l->getScope()->getSubprogram()?l->getScope()->getSubprogram()->getName().str():""; fn=fn.substr(0,fn.find('<')); if(n)r+=" <- "; r+=f+":"+std::to_string(l->getLine())+"("+fn+")"; } return r;}
struct In{
  Function&F; Lay L; const DataLayout&DL; std::vector<Viol> viol; std::set<std::string> vseen; std::set<std::string> proved,unknown; uint64_t steps=0,joins=0,explored=0; std::string error; std::set<const Instruction*> userSites;
  std::map<const BasicBlock*,std::set<const Value*>> live; std::set<const BasicBlock*> hdrs; std::map<const Value*,int> num;
  struct Inv{State s;int n=0;bool pending=false;}; std::map<std::pair<const BasicBlock*,std::string>,Inv> invs; std::vector<std::pair<const BasicBlock*,std::string>> work;
  std::vector<std::pair<State,const Instruction*>> stack;
  In(Function&f,Lay l):F(f),L(l),DL(f.getParent()->getDataLayout()){}
  // --- terms
  LE H(){return var(TB.term({O_H}));} LE NEG(){return var(TB.term({O_NEGINF}));}
  bool isOp(LE e,Op o){TM t=pure(e);return t>=0&&TB.t[t].op==o;}
  static bool nodeOp(Op o){return o==O_NODE||o==O_H||o==O_NEGINF||o==O_ROOT||o==O_LEFTMOST||o==O_RIGHTMOST||o==O_LEFT||o==O_RIGHT||o==O_PAR||o==O_LO||o==O_HI||o==O_SUCC||o==O_PRED||o==O_HN;}
  bool isNodeT(TM t){ const Term&x=TB.t[t]; if(x.op==O_JOIN)return x.k==1; if(x.op==O_FRESH)return x.k==2; return nodeOp(x.op);}
  LE mk(State&s,Op op,std::vector<LE> a,std::string nm="",int64_t k=0){
    if(a.size()==1){ TM t=pure(a[0]); if(t>=0){ const Term x=TB.t[t];
      if(op==O_LO){ if(x.op==O_LEFT&&x.k==k)return mk(s,O_LO,{x.a[0]},"",k); if(x.op==O_RIGHT&&x.k==k)return x.a[0]; if(x.op==O_ROOT&&x.k==k)return NEG(); }
      if(op==O_HI){ if(x.op==O_RIGHT&&x.k==k)return mk(s,O_HI,{x.a[0]},"",k); if(x.op==O_LEFT&&x.k==k)return x.a[0]; if(x.op==O_ROOT&&x.k==k)return H(); }
      if(op==O_PAR){ if((x.op==O_LEFT||x.op==O_RIGHT)&&x.k==k)return x.a[0]; if(x.op==O_ROOT&&x.k==k)return H(); }
      if(op==O_POS){ if(x.op==O_HN&&(x.s=="after_local"||(x.s=="next_to_inspect"&&HSHU))&&x.k==k)return addc(mk(s,O_POS,{x.a[0]},"",k),1); if(x.op==O_NEGINF)return cst(-1); if(x.op==O_SUCC&&x.k==k)return addc(mk(s,O_POS,{x.a[0]},"",k),1); if(x.op==O_PRED&&x.k==k)return addc(mk(s,O_POS,{x.a[0]},"",k),-1); if(x.op==O_LEFTMOST&&x.k==k)return cst(0); if(x.op==O_RIGHTMOST&&x.k==k)return addc(mk(s,O_POS,{H()},"",k),-1);}
      if(op==O_SUCC){ if(x.op==O_PRED&&x.k==k)return x.a[0]; if(x.op==O_NEGINF)return mk(s,O_LEFTMOST,{},"",k); auto it=s.succ.find(a[0]); if(it!=s.succ.end())return it->second; }
      if(op==O_PRED){ if(x.op==O_SUCC&&x.k==k)return x.a[0]; if(x.op==O_LEFTMOST&&x.k==k)return NEG(); for(auto&p:s.succ)if(p.second==a[0])return p.first; }
    }}
    if(op==O_PART){ TM t=pure(a[0]); if(t>=0){const Term x=TB.t[t]; if(x.op==O_INIT)return mk(s,O_INIT,{add(x.a[0],a[1])},"",k);} }
    TM t=TB.term({op,k,nm,a}); auto it=s.rep.find(t); return it!=s.rep.end()?it->second:var(t);
  }
  LE subst(State&s,LE e,const std::map<TM,LE>&m,std::map<LE,LE>&memo){
    auto it=memo.find(e); if(it!=memo.end())return it->second; LinE x=TB.l[e]; LE r=cst(x.c);
    for(auto&p:x.v)r=add(r,substT(s,p.first,m,memo),p.second);
    return memo[e]=r;
  }
  LE substT(State&s,TM t,const std::map<TM,LE>&m,std::map<LE,LE>&memo){
    auto it=m.find(t); if(it!=m.end())return it->second; Term x=TB.t[t]; if(x.a.empty()){auto r=s.rep.find(t);return r!=s.rep.end()?r->second:var(t);} 
    bool ch=false; std::vector<LE> a; for(LE q:x.a){LE r=subst(s,q,m,memo); if(r!=q)ch=true; a.push_back(r);} 
    if(!ch){auto r=s.rep.find(t);return r!=s.rep.end()?r->second:var(t);}
    if(x.op==O_EQ)return mkEq(s,a[0]); if(x.op==O_LT)return mkLt(s,a[0]);
    return mk(s,x.op,a,x.s,x.k);
  }
  LE mkEq(State&s,LE d){ if(isC(d))return cst(cval(d)==0); LinE x=TB.l[d]; if(x.v[0].second<0)d=scale(d,-1); return mk(s,O_EQ,{d}); }
  LE mkLt(State&s,LE d){ if(isC(d))return cst(cval(d)>0); return mk(s,O_LT,{d}); }
  bool occurs(TM t,LE e){ for(auto&p:TB.l[e].v){ if(p.first==t)return true; for(LE a:TB.t[p.first].a)if(occurs(t,a))return true;} return false;}
  std::vector<LE> pendEq;
  void rewriteAll(State&s,std::map<TM,LE> m){
    std::map<LE,LE> memo; auto R=[&](LE e){return subst(s,e,m,memo);};
    std::function<void(V&)> RV=[&](V&v){ if(v.le>=0)v.le=R(v.le); for(auto&q:v.sub)RV(q);};
    for(auto&p:m)s.rep[p.first]=p.second;
    for(auto&p:s.env)RV(p.second);
    { std::map<Loc,Cell> nm; for(auto&p:s.mem){ Loc l=p.first; LE b=R(var(l.first)); TM t=single(b); if(t<0)continue; nm[{t,l.second+cval0(b)}]={R(p.second.v),p.second.sz}; } s.mem.swap(nm);}
    { std::map<TM,LE> nr; for(auto&p:s.rep)nr[p.first]=R(p.second); // keys may also mention replaced terms
      for(auto&p:s.rep){ Term x=TB.t[p.first]; bool ch=false; std::vector<LE> a; for(LE q:x.a){LE r=R(q);if(r!=q)ch=true;a.push_back(r);} if(ch){ TM t=TB.term({x.op,x.k,x.s,a}); if(!nr.count(t)){ if(var(t)!=nr[p.first]&&!occurs(t,nr[p.first]))nr[t]=nr[p.first]; } else if(nr[t]!=nr[p.first])pendEq.push_back(add(nr[t],nr[p.first],-1)); } }
      s.rep.swap(nr); }
    { std::map<TM,bool> nf; std::vector<std::pair<LE,bool>> pend; for(auto&p:s.facts){ LE r=R(var(p.first)); if(isC(r)){ if((cval(r)!=0)!=p.second)s.dead=true; continue;} TM t=pure(r); if(t>=0){auto it=nf.find(t); if(it!=nf.end()&&it->second!=p.second)s.dead=true; nf[t]=p.second;} } s.facts.swap(nf);}
    { std::set<LE> ni; for(LE e:s.ineq){LE r=R(e); if(isC(r)){if(cval(r)<=0)s.dead=true;}else ni.insert(r);} s.ineq.swap(ni);}
    { auto old=s.succ; s.succ.clear(); std::map<LE,LE> inv; for(auto&p:old){ LE a=R(p.first),b=R(p.second); auto it=s.succ.find(a); if(it!=s.succ.end()&&it->second!=b)pendEq.push_back(add(it->second,b,-1)); auto iv=inv.find(b); if(iv!=inv.end()&&iv->second!=a)pendEq.push_back(add(iv->second,a,-1)); inv[b]=a; s.succ[a]=b; } } 
    { auto old=s.parOf; s.parOf.clear(); for(auto&p:old)s.parOf[R(p.first)]=R(p.second);} 
    for(auto&g:s.ghost)g.second=R(g.second);
    if(!s.dead){ // facts that have become contradictory
      for(auto&p:std::map<TM,bool>(s.facts)){ Term x=TB.t[p.first]; if(x.op==O_EQ){int d=decideEq(s,x.a[0],false); if(d>=0&&(d!=0)!=p.second){s.dead=true;break;}} else if(x.op==O_UF){int d=sentinel(s,p.first); if(d>=0&&(d!=0)!=p.second){s.dead=true;break;}} }
      for(LE e:std::set<LE>(s.ineq)){ if(decideLt(s,e,e)==0){s.dead=true;break;} }
    }
  }
  int64_t cval0(LE e){return TB.l[e].c;}
  // --- deciding
  bool nonEnd(State&s,TM t){ Op o=TB.t[t].op; if(o==O_LEFT||o==O_RIGHT||o==O_ROOT||o==O_NEGINF||o==O_LEFTMOST||o==O_RIGHTMOST||o==O_FRESH||o==O_PRED||(o==O_HN&&TB.t[t].s!="end_of_range"))return true; if(o==O_JOIN&&TB.t[t].s.find('~')!=std::string::npos)return true; auto it=s.facts.find(TB.term({O_EQ,0,"",{ordDiff(var(t),H())}})); if(it!=s.facts.end()&&!it->second)return true; return false; }
  // nodes that belong to the tree of their epoch; nodes that do not (being inserted) unless linked since
  bool inTree(TM t){ const Term&x=TB.t[t]; return nodeOp(x.op)||(x.op==O_JOIN&&x.k==1&&x.s.find('^')!=std::string::npos); }
  bool outside(State&s,LE e){ LinE x=TB.l[e]; if(x.v.size()!=1||x.v[0].second!=1)return false; const Term t=TB.t[x.v[0].first]; if(t.op==O_FRESH)return notLinked(s,e); if(t.op==O_INIT&&L.itn<0&&t.a.size()==1&&x.c==L.io){ TM b=single(t.a[0]); return b>=0&&TB.t[b].op==O_PARAM&&TB.t[b].s!="c"&&notLinked(s,e); } return false; }
  bool notLinked(State&s,LE e){ auto it=s.ghost.find("linked"); return it==s.ghost.end()||it->second!=e; }
  bool nonNeg(State&s,TM t){ return decideEq(s,add(var(t),NEG(),-1))==0; }
  LE ordDiff(LE a,LE b){LE d=add(a,b,-1);return TB.l[d].v.size()&&TB.l[d].v[0].second<0?scale(d,-1):d;}
  bool nonNull(State&s,TM t){ Op o=TB.t[t].op; if(o==O_H||o==O_NODE||o==O_ALLOCA||o==O_GLOBAL||o==O_FRESH||(o==O_PARAM&&TB.t[t].k==0)||o==O_SUCC||o==O_PRED||o==O_LEFTMOST||o==O_RIGHTMOST||o==O_NEGINF||o==O_LO||o==O_HI||(o==O_HN&&(TB.t[t].s=="end_of_range"||TB.t[t].s=="last_of_range")))return true; 
    auto it=s.facts.find(TB.term({O_EQ,0,"",{var(t)}})); if(it!=s.facts.end()&&!it->second)return true; 
    if(o==O_JOIN&&TB.t[t].s.size()&&TB.t[t].s.back()=='!')return true; return false;}
  int decideEq(State&s,LE d,bool useFacts=true){
    if(isC(d))return cval(d)==0; LinE x=TB.l[d];
    if(useFacts){ LE q=mkEq(s,d); if(isC(q))return cval(q)!=0; TM t=pure(q); auto it=s.facts.find(t); if(it!=s.facts.end())return it->second; }
    if(x.v.size()==1&&(x.v[0].second==1||x.v[0].second==-1)){ TM t=x.v[0].first; if(nonNull(s,t)||(x.c!=0&&isNodeT(t)))return 0;
      // of two adjacent elements exactly one has no child on the side facing the other
      const Term xt=TB.t[t]; if(x.c==0&&(xt.op==O_LEFT||xt.op==O_RIGHT)&&xt.k==s.epoch){ LE n=xt.a[0]; LE m=mk(s,xt.op==O_LEFT?O_PRED:O_SUCC,{n},"",xt.k); TM mt=pure(m); if(mt>=0&&!isOp(m,O_H)&&!isOp(m,O_NEGINF)&&pure(n)>=0&&nonEnd(s,pure(n))&&(nonEnd(s,mt)&&nonNull(s,mt))&&(TB.t[mt].op!=O_PRED||nonNeg(s,mt))){ LE o=mk(s,xt.op==O_LEFT?O_RIGHT:O_LEFT,{m},"",xt.k); int r=-1; if(isC(o))r=cval(o)==0; else { auto it=s.facts.find(TB.term({O_EQ,0,"",{o}})); if(it!=s.facts.end())r=it->second; } if(r>=0)return !r; } } }
    if(x.v.size()==2&&x.v[0].second*x.v[1].second==-1){ TM a=x.v[0].first,b=x.v[1].first; Op p=TB.t[a].op,q=TB.t[b].op;
      for(int i=0;i<2;++i){ TM tt=x.v[i].first; if(!inTree(tt))continue; LinE o; o.v={{x.v[1-i].first,1}}; o.c=x.v[i].second==1?-x.c:x.c; if(outside(s,TB.lin(o)))return 0; }
      auto root=[&](Op o){return o==O_ALLOCA||o==O_GLOBAL||o==O_FRESH||o==O_PARAM;};
      if(root(p)&&root(q))return 0; if(p==O_ALLOCA&&nodeOp(q))return 0; if(q==O_ALLOCA&&nodeOp(p))return 0;
      if(isNodeT(a)&&isNodeT(b)){ if(x.c!=0)return 0; if(p==O_H&&nonEnd(s,b))return 0; if(q==O_H&&nonEnd(s,a))return 0; if(p==O_NEGINF&&q!=O_PRED&&q!=O_LO&&q!=O_JOIN)return 0; if(q==O_NEGINF&&p!=O_PRED&&p!=O_LO&&p!=O_JOIN)return 0;
        { TM pr=p==O_NEGINF&&q==O_PRED?b:q==O_NEGINF&&p==O_PRED?a:-1; if(pr>=0&&x.c==0){ const Term t=TB.t[pr]; LE lm=mk(s,O_LEFTMOST,{},"",t.k); if(lm==t.a[0])return 1; auto it=s.facts.find(TB.term({O_EQ,0,"",{ordDiff(lm,t.a[0])}})); if(it!=s.facts.end())return it->second; }
          TM sc=p==O_H&&q==O_SUCC?b:q==O_H&&p==O_SUCC?a:-1; if(sc>=0&&x.c==0){ const Term t=TB.t[sc]; LE rm=mk(s,O_RIGHTMOST,{},"",t.k); if(rm==t.a[0])return 1; auto it=s.facts.find(TB.term({O_EQ,0,"",{ordDiff(rm,t.a[0])}})); if(it!=s.facts.end())return it->second; } }
        // positions
        LE pd=add(mk(s,O_POS,{var(a)},"",s.epoch),mk(s,O_POS,{var(b)},"",s.epoch),-1); if(decideLt(s,pd)==1||decideLt(s,scale(pd,-1))==1)return 0; }
    }
    bool pos=false; for(auto&e:x.v)if(isNodeT(e.first))pos=true; if(!pos){ if(decideLt(s,d)==1||decideLt(s,scale(d,-1))==1)return 0; }
    return -1;
  }
  static LinE subl(const LinE&x,const LinE&y){ LinE r; size_t i=0,j=0; while(i<x.v.size()||j<y.v.size()){ if(j>=y.v.size()||(i<x.v.size()&&x.v[i].first<y.v[j].first))r.v.push_back(x.v[i++]); else if(i>=x.v.size()||y.v[j].first<x.v[i].first){r.v.push_back({y.v[j].first,-y.v[j].second});++j;} else{int64_t c=x.v[i].second-y.v[j].second; if(c)r.v.push_back({x.v[i].first,c});++i;++j;} } r.c=x.c-y.c; return r; }
  int decideLt(State&s,LE d,LE except=-1){ // d>0 ?
    if(isC(d))return cval(d)>0; LE nd=addc(scale(d,-1),1);
    auto neq=[&](LE g){ if(RNG){ for(auto&p:std::map<TM,bool>(s.facts)){ if(p.second||TB.t[p.first].op!=O_EQ)continue; const LinE y=TB.l[TB.t[p.first].a[0]]; if(y.c!=0||y.v.size()!=2||y.v[0].second*y.v[1].second!=-1||!isNodeT(y.v[0].first)||!isNodeT(y.v[1].first))continue; LE d=add(mk(s,O_POS,{var(y.v[0].first)},"",s.epoch),mk(s,O_POS,{var(y.v[1].first)},"",s.epoch),-1); if(d==g||scale(d,-1)==g)return true; } } LE q=mkEq(s,g); TM t=isC(q)?-1:pure(q); if(t<0)return false; auto it=s.facts.find(t); return it!=s.facts.end()&&!it->second; };
    auto basic0=[&](const LinE&g){ if(g.v.empty())return g.c>0; for(LE f:s.ineq){ if(f==except)continue; const LinE&q=TB.l[f]; if(q.v==g.v&&g.c>=q.c)return true; }
      // implicit: positions of elements lie strictly below the end position, positions are >= -1, unsigned parameters >= 0
      const LinE&x=g; if(x.v.size()==2&&x.c>=0&&x.v[0].second*x.v[1].second==-1){ TM a=x.v[x.v[0].second>0?0:1].first,b=x.v[x.v[0].second>0?1:0].first; const Term ta=TB.t[a],tb=TB.t[b]; if(ta.op==O_POS&&tb.op==O_POS&&ta.k==tb.k&&pure(ta.a[0])>=0&&pure(tb.a[0])>=0&&isOp(ta.a[0],O_H)&&isNodeT(pure(tb.a[0]))&&(x.c>=1||nonEnd(s,pure(tb.a[0]))))return true; }
      int64_t c=x.c; for(auto&p:x.v){ if(p.second<0||(TB.t[p.first].op!=O_POS&&TB.t[p.first].op!=O_PARAM))return false; bool isH=TB.t[p.first].op==O_PARAM||pure(TB.t[p.first].a[0])>=0; c+=isH?0:-p.second; } return c>0; };
    auto basic=[&](const LinE&g){ LinE h=g; for(int i=0;i<6;++i){ if(basic0(h))return true; if(!neq(TB.lin(h)))return false; h.c+=1; } return false; };
    auto impl=[&](LE g0){ LinE g=TB.l[g0]; if(basic(g))return true; for(LE f:s.ineq){ if(f==except)continue; LinE r=subl(g,TB.l[f]); r.c+=1; if(r.v.size()<=3&&basic(r))return true; } return false; };
    if(impl(d))return 1; if(impl(nd))return 0; return -1;
  }
  TM nodeIn(LE e){ for(auto&p:TB.l[e].v){ const Term&x=TB.t[p.first]; if(isNodeT(p.first))return p.first; if(x.op==O_INIT||x.op==O_UF||x.op==O_TUPLE||x.op==O_PART)for(LE a:x.a){TM r=nodeIn(a);if(r>=0)return r;} } return -1;}
  int sent(LE e){ TM n=nodeIn(e); if(n<0)return 0; Op o=TB.t[n].op; return o==O_H?1:o==O_NEGINF?-1:0; }
  bool isCmp(const Term&x){return x.op==O_UF&&x.a.size()==3&&(x.s=="Cmp"||x.s=="XC");}
  int sentinel(State&s,TM t){ const Term x=TB.t[t]; if(x.op!=O_UF)return -1;
    if(isCmp(x)){ int a=sent(x.a[1]),b=sent(x.a[2]); if(a||b){ if(a==b)return 0; if(a>0||b<0)return 0; return 1; } if(x.a[1]==x.a[2])return 0; }
    if((x.s=="Lo"||x.s=="Up")&&x.a.size()==2){int a=sent(x.a[1]); if(a)return (x.s=="Lo")==(a>0);} 
    return -1; }
  int decide(State&s,LE b){ if(isC(b))return cval(b)!=0; LinE x=TB.l[b]; if(x.v.size()!=1)return -1; int64_t k=x.v[0].second; TM t=x.v[0].first; int inv; if(k==1&&x.c==0)inv=0; else if(k==-1&&x.c==1)inv=1; else return -1; int r=decideT(s,t); return r<0?r:r^inv; }
  int decideT(State&s,TM t){ auto it=s.facts.find(t); if(it!=s.facts.end())return it->second; const Term x=TB.t[t]; if(x.op==O_EQ)return decideEq(s,x.a[0]); if(x.op==O_LT)return decideLt(s,x.a[0]);
    int r=sentinel(s,t); if(r>=0)return r; if(isCmp(x)){ TM u=TB.term({O_UF,x.k,x.s,{x.a[0],x.a[2],x.a[1]}}); auto f=s.facts.find(u); if(f!=s.facts.end()&&f->second)return 0; }
    return -1; }
  void adj(State&s,LE a,LE b){ // b directly follows a
    if(a==b){s.dead=true;return;} TM ta=pure(a),tb=pure(b); if(ta<0||tb<0)return;
    auto it=s.succ.find(a); if(it!=s.succ.end()){ if(it->second!=b)assumeEq(s,add(it->second,b,-1)); return; }
    LE so=mk(s,O_SUCC,{a},"",s.epoch),po=mk(s,O_PRED,{b},"",s.epoch); LE pa=mk(s,O_POS,{a},"",s.epoch),pb=mk(s,O_POS,{b},"",s.epoch);
    s.succ[a]=b; if(so!=b)assumeEq(s,add(so,b,-1)); if(s.dead)return; if(po!=a)assumeEq(s,add(po,a,-1)); if(s.dead)return;
    std::map<TM,LE> e; std::map<LE,LE> memo; LE d=add(subst(s,pb,e,memo),subst(s,pa,e,memo),-1); d=addc(d,-1); if(!isC(d))assumeEq(s,d); else if(cval(d)!=0)s.dead=true;
  }
  int prio(TM t){ switch(TB.t[t].op){case O_SUCC:return 90;case O_PRED:return 89;case O_LO:return 80;case O_HI:return 79;case O_LEFTMOST:return 65;case O_RIGHTMOST:return 64;case O_NODE:return 60;case O_HN:return 55;case O_JOIN:return 70;case O_LEFT:case O_RIGHT:return 50;case O_ROOT:return 30;case O_POS:return 85;case O_UF:return 40;case O_PART:case O_INIT:return 35;case O_UNDEF:return 95;case O_PARAM:return 10;case O_FRESH:return 5;default:return -1;} }
  void nullChild(State&s,TM t){ Term x=TB.t[t]; // subtree slot t is empty
    LE n=var(t); LE lo=mk(s,O_LO,{n},"",x.k),hi=mk(s,O_HI,{n},"",x.k); (void)x; pend.push_back({lo,hi}); }
  std::vector<std::pair<LE,LE>> pend;
  void assumeEq(State&s,LE d){ if(s.dead)return; int r=decideEq(s,d); if(r==0){s.dead=true;return;} if(isC(d))return; LinE x=TB.l[d];
    // single-term null: subtree slot
    std::vector<std::pair<LE,LE>> slots; 
    if(x.v.size()==1&&x.c==0){ TM t=x.v[0].first; const Term y=TB.t[t]; if(y.op==O_HN&&(y.s=="after_local"||(HSHU&&y.s=="next_to_inspect"))){ TM z=TB.term({O_POS,s.epoch,"",{cst(0)}}); LE pz=addc(mk(s,O_POS,{y.a[0]},"",s.epoch),1); if(!s.rep.count(z))s.rep[z]=pz; } if(y.op==O_LEFT||y.op==O_RIGHT||y.op==O_ROOT||(y.op==O_JOIN&&y.k==1)){ LE n=var(t); int64_t ep=y.op==O_JOIN?s.epoch:y.k; slots.push_back({mk(s,O_LO,{n},"",ep),mk(s,O_HI,{n},"",ep)}); } }
    int best=-1,bp=-1; for(size_t i=0;i<x.v.size();++i){ if(std::abs(x.v[i].second)!=1)continue; TM t=x.v[i].first; int p=prio(t); if(p<0)continue; LinE rest=x; rest.v.erase(rest.v.begin()+i); LE re=TB.lin(rest); if(occurs(t,re))continue; if(p>bp||(p==bp&&best>=0&&x.v[best].first<t)){bp=p;best=i;} }
    TM f=TB.term({O_EQ,0,"",{x.v[0].second<0?scale(d,-1):d}}); 
    if(best<0){ s.facts[f]=true; return; }
    TM t=x.v[best].first; LinE rest=x; int64_t k=x.v[best].second; rest.v.erase(rest.v.begin()+best); LE re=scale(TB.lin(rest),k==1?-1:1);
    // learned facts before replacing
    bool bothNodes=isNodeT(t)&&pure(re)>=0&&isNodeT(pure(re)); LE pa=0,pb=0; if(bothNodes){pa=mk(s,O_POS,{var(t)},"",s.epoch);pb=mk(s,O_POS,{re},"",s.epoch);} LE la=-1,lb=-1,ha=-1,hb=-1; bool boxed=bothNodes&&hasBox(t)&&hasBox(pure(re)); if(boxed){la=mk(s,O_LO,{var(t)},"",s.epoch);lb=mk(s,O_LO,{re},"",s.epoch);ha=mk(s,O_HI,{var(t)},"",s.epoch);hb=mk(s,O_HI,{re},"",s.epoch);} 
    std::map<TM,LE> m; m[t]=re; std::vector<LE> pq; pq.swap(pendEq); rewriteAll(s,m); pq.swap(pendEq); if(s.dead)return;
    for(LE q:pq){ std::map<TM,LE> e0; std::map<LE,LE> memo; LE d2=subst(s,q,e0,memo); if(isC(d2)){ if(cval(d2)!=0){s.dead=true;return;} } else assumeEq(s,d2); if(s.dead)return; }
    std::map<TM,LE> em; 
    if(bothNodes){ std::map<LE,LE> memo; LE dd=add(subst(s,pa,em,memo),subst(s,pb,em,memo),-1); if(!isC(dd)){assumeEq(s,dd);} else if(cval(dd)!=0)s.dead=true; }
    if(boxed&&!s.dead){ for(auto pr:{std::make_pair(la,lb),std::make_pair(ha,hb)}){ std::map<LE,LE> memo; LE dd=add(subst(s,pr.first,em,memo),subst(s,pr.second,em,memo),-1); if(!isC(dd))assumeEq(s,dd); if(s.dead)return; } }
    for(auto&p:slots){ std::map<LE,LE> memo; LE a=subst(s,p.first,em,memo),b=subst(s,p.second,em,memo); adj(s,a,b); if(s.dead)return; slotTouch(s); }
  }
  bool hasBox(TM t){Op o=TB.t[t].op; return o==O_LEFT||o==O_RIGHT||o==O_ROOT||o==O_NODE||o==O_JOIN||o==O_PRED||o==O_SUCC;}
  void slotTouch(State&s){ // adjacency lemma: between neighbours a,b exactly one of right(a), left(b) is empty
    for(auto&p:std::map<LE,LE>(s.succ)){ LE a=p.first,b=p.second; if(isOp(a,O_NEGINF)||isOp(b,O_H))continue; if(pure(a)<0||pure(b)<0)continue; TM ra=TB.term({O_RIGHT,s.epoch,"",{a}}),lb=TB.term({O_LEFT,s.epoch,"",{b}});
      auto known=[&](TM t){ auto it=s.rep.find(t); if(it!=s.rep.end()&&it->second==cst(0))return 0; return nonNull(s,t)?1:-1; };
      int x=known(ra),y=known(lb); if(x==0&&y==0){s.dead=true;return;} if(x==1&&y==-1){ LE v=mk(s,O_LEFT,{b},"",s.epoch); assumeEq(s,v); return; } if(y==1&&x==-1){ LE v=mk(s,O_RIGHT,{a},"",s.epoch); assumeEq(s,v); return; } if(x==1&&y==1){s.dead=true;return;} if(x==0&&y==-1)assumeNe(s,var(lb),false); if(y==0&&x==-1)assumeNe(s,var(ra),false); if(s.dead)return; } }
  void assumeNe(State&s,LE d,bool touch=true){ if(s.dead)return; int r=decideEq(s,d); if(r==1){s.dead=true;return;} if(r==0)return; LinE x=TB.l[d]; TM f=TB.term({O_EQ,0,"",{x.v[0].second<0?scale(d,-1):d}}); s.facts[f]=false;
    if(x.v.size()==1&&x.c==0&&touch&&isNodeT(x.v[0].first))slotTouch(s);
    // a is not the right child of its parent => it is the left one (and vice versa)
    if(x.v.size()==2&&x.c==0&&x.v[0].second*x.v[1].second==-1)for(int i=0;i<2;++i){ LE a=var(x.v[i].first); Term c=TB.t[x.v[1-i].first]; if(c.op!=O_LEFT&&c.op!=O_RIGHT)continue; auto it=s.parOf.find(c.a[0]); if(it==s.parOf.end()||it->second!=a)continue; LE o=mk(s,c.op==O_LEFT?O_RIGHT:O_LEFT,{c.a[0]},"",c.k); s.parOf.erase(c.a[0]); assumeEq(s,add(a,o,-1)); return; }
  }
  void assume(State&s,LE b,bool v){ if(s.dead)return; int r=decide(s,b); if(r>=0){ if((r!=0)!=v)s.dead=true; return; } LinE x=TB.l[b]; if(x.v.size()!=1)return; TM t=x.v[0].first; if(x.v[0].second==-1)v=!v; const Term y=TB.t[t];
    if(y.op==O_EQ){ if(v)assumeEq(s,y.a[0]); else assumeNe(s,y.a[0]); return; }
    if(y.op==O_LT){ if(v)s.ineq.insert(y.a[0]); else s.ineq.insert(addc(scale(y.a[0],-1),1)); 
      // integer trichotomy with a recorded disequality is not needed here
      return; }
    s.facts[t]=v; }
  // --- memory
  const Instruction*cur=nullptr;
  void report(State&s,const std::string&rule,const std::string&msg){ if(rule=="null-node"&&L.itn>=0)return; std::string w=where(cur); if(!vseen.insert(rule+"|"+w+"|"+msg).second)return; Viol v{rule,w,msg,s.trail}; if(DBG){ for(auto&f:s.facts)v.trail.push_back("fact "+tstr(f.first)+"="+(f.second?"1":"0")); for(auto&f:s.rep)v.trail.push_back("rep "+tstr(f.first)+"="+str(f.second)); for(auto&f:s.succ)v.trail.push_back("succ "+str(f.first)+"="+str(f.second)); for(LE e:s.ineq)v.trail.push_back("pos "+str(e)); } viol.push_back(v); }
  void fork(State s,const Instruction*I){ stack.push_back({std::move(s),I}); }
  struct Forked{};
  // fork on boolean b: afterwards b is decided in s; the other outcome is queued to re-execute cur
  bool split(State&s,LE b){ int r=decide(s,b); if(r>=0)return r; State o=s,t=s; assume(o,b,false); if(!o.dead)fork(std::move(o),cur); assume(t,b,true); if(!t.dead)fork(std::move(t),cur); throw Forked(); }
  bool badIt(State&s,TM b){ LE c=load(s,addc(var(b),L.itc),8); return isC(c)&&cval(c)==0; }
  LE initOf(State&s,LE addr,unsigned sz){ return mk(s,O_INIT,{addr},"",sz); }
  LE load(State&s,LE addr,unsigned sz){
    if(L.itn>=0){ auto g=s.ghost.find("guard"); if(g!=s.ghost.end()&&g->second==cst(0)){ TM q=single(addr); if(q>=0&&TB.t[q].op==O_INIT){ TM b=single(TB.t[q].a[0]); if(b>=0&&TB.t[b].op==O_PARAM&&TB.t[b].s.size()==1&&std::string("ijk").find(TB.t[b].s)!=std::string::npos&&cval0(TB.t[q].a[0])==L.itn&&badIt(s,b)){ report(s,"use before check","the position of an invalid iterator is dereferenced before the iterator is reported"); throw Forked(); } } } }
    TM t=single(addr); if(t<0){ return mk(s,O_INIT,{addr},"",sz); } int64_t off=cval0(addr); 
    auto it=s.mem.find({t,off}); if(it!=s.mem.end()&&it->second.sz==sz)return it->second.v;
    for(auto j=s.mem.lower_bound({t,off-4096});j!=s.mem.end()&&j->first.first==t&&j->first.second<=off;++j) if(j->first.second+(int64_t)j->second.sz>=off+(int64_t)sz) return mk(s,O_PART,{j->second.v,cst(off-j->first.second)},"",sz);
    Term x=TB.t[t];
    if(x.op==O_PARAM&&off==L.hdr&&x.s=="c")return addc(H(),-L.io);
    if(x.op==O_PARAM&&off==L.cnt&&x.s=="c")return mk(s,O_POS,{H()},"",s.epoch);
    if(HSH&&x.op==O_UF&&x.s=="at"&&off==0){ LE n=mk(s,O_HN,{var(t)},"first",s.epoch); TM nt=pure(n); if(nt>=0&&TB.t[nt].op==O_HN)for(auto&g:s.ghost)if(g.first.compare(0,2,"hk")==0)setClear(s,g.second,var(t),n); auto sf=s.ghost.find("self"); if(nt>=0&&TB.t[nt].op==O_HN&&sf!=s.ghost.end())setClear(s,sf->second,var(t),n); return n; }
    if(isNodeT(t)&&(off==L.left||off==L.right||off==L.parent||(L.size>=0&&off==L.size)))return nodeField(s,t,off);
    if(x.op==O_ALLOCA)return mk(s,O_UNDEF,{addr},"",sz);
    if(isNodeT(t))touchNode(s,t,"element access");
    return mk(s,O_INIT,{addr},"",sz);
  }
  // hashed lists: clear(k,B,n): every group of bucket B before n has been found different from k
  void setClear(State&s,LE k,LE B,LE n){ LE c=mk(s,O_UF,{k,B,n},"clear"); TM t=pure(c); if(t>=0)s.facts[t]=true; }
  bool isEqUF(const Term&x){return x.op==O_UF&&x.a.size()==3&&(x.s=="Eq"||x.s=="XE");}
  void advance(State&s,LE x,LE n){ auto g=s.ghost.find("eqf"); std::vector<std::pair<LE,LE>> add; for(auto&p:s.facts){ const Term t=TB.t[p.first]; if(!p.second||t.op!=O_UF||t.s!="clear"||t.a[2]!=x)continue; 
      for(auto&q:s.facts){ const Term e=TB.t[q.first]; if(q.second||!isEqUF(e)||(g!=s.ghost.end()&&e.a[0]!=g->second))continue; for(int k:{1,2}){ if(e.a[k]!=t.a[0])continue; TM m=nodeIn(e.a[3-k]); if(m>=0&&var(m)==x){add.push_back({t.a[0],t.a[1]});break;} } } }
    auto sf=s.ghost.find("self"); if(sf!=s.ghost.end()){ int r=decideEq(s,::add(x,sf->second,-1)); for(auto&p:s.facts){ const Term t=TB.t[p.first]; if(!p.second||t.op!=O_UF||t.s!="clear"||t.a[2]!=x)continue; if(t.a[0]==sf->second?r==0:r==1)add.push_back({t.a[0],t.a[1]}); } }
    for(auto&a:add)setClear(s,a.first,a.second,n); }
  void notEnd(State&s,TM t){ if(TB.t[t].op==O_H)return; if(nonEnd(s,t))return; split(s,mkEq(s,add(var(t),H(),-1))); /* decided */ }
  void touchNode(State&s,TM t,const char*what){ (void)what; if(!nonNull(s,t)&&!emptyExcl(s,t)){ report(s,"null-node","a possibly null node is accessed: "+tstr(t)); throw Forked(); } }
  bool emptyExcl(State&s,TM t){ LE n=var(t); LE d=add(mk(s,O_POS,{mk(s,O_HI,{n},"",s.epoch)},"",s.epoch),mk(s,O_POS,{mk(s,O_LO,{n},"",s.epoch)},"",s.epoch),-1); if(decideLt(s,addc(d,-1))==1){ s.facts[TB.term({O_EQ,0,"",{n}})]=false; slotTouch(s); return true;} return false; }
  LE nodeField(State&s,TM t,int64_t off){
    LE n=var(t); int ep=s.epoch; const Term x=TB.t[t];
    if(x.op==O_FRESH)return mk(s,O_UNDEF,{addc(n,off)},"",8);
    touchNode(s,t,"link access");
    if(x.op!=O_H&&!nonEnd(s,t)){ int r=decideEq(s,add(n,H(),-1)); if(r<0){ split(s,mkEq(s,add(n,H(),-1))); r=decideEq(s,add(n,H(),-1)); if(r==1){n=H();} } if(r==1)n=H(); }
    if(isOp(n,O_H)){ if(off==L.left)return mk(s,O_LEFTMOST,{},"",ep); if(off==L.right)return mk(s,O_RIGHTMOST,{},"",ep); if(off==L.parent)return mk(s,O_ROOT,{},"",ep); report(s,"end-node","the subtree count of the header is read"); return mk(s,O_UNDEF,{addc(n,off)},"",8); }
    if(isOp(n,O_NEGINF)){ report(s,"end-node","the position before the first element is accessed"); throw Forked(); }
    LE lo=mk(s,O_LO,{n},"",ep),hi=mk(s,O_HI,{n},"",ep),pl=mk(s,O_POS,{lo},"",ep),ph=mk(s,O_POS,{hi},"",ep),pn=mk(s,O_POS,{n},"",ep);
    for(LE d:{add(pn,pl,-1),add(ph,pn,-1)})if(!isC(d)&&decideLt(s,d)!=1)s.ineq.insert(d);
    if(off==L.left)return mk(s,O_LEFT,{n},"",ep); if(off==L.right)return mk(s,O_RIGHT,{n},"",ep);
    if(off==L.size)return addc(add(ph,pl,-1),-1);
    // parent
    LE p=mk(s,O_PAR,{n},"",ep); TM pt=pure(p); if(pt>=0&&TB.t[pt].op==O_PAR){ LE rd=add(n,mk(s,O_ROOT,{},"",ep),-1); int r=decideEq(s,rd); if(r<0){ split(s,mkEq(s,rd)); r=decideEq(s,rd); } if(r==1)return H(); LE z=freshNode(s,"par"); s.rep[pt]=z; s.parOf[z]=n; s.facts[TB.term({O_EQ,0,"",{ordDiff(z,H())}})]=false; return z; } return p;
  }
  int nfresh=0,ninst=0;
  LE freshNode(State&s,const char*nm){ return var(TB.term({O_NODE,0,std::string(nm)+"@"+std::to_string(num[cur]),{}})); }
  // safe mode: the program has violated (guard) or respected (clean) a precondition; the analysis ends at the first effect
  void effect(State&s,const std::string&what){ if(s.ghost.count("clean"))throw Forked(); if(s.ghost.count("guard")){ report(s,"effect before check",what+" before the violated precondition is reported"); throw Forked(); } }
  void store(State&s,LE addr,LE v,unsigned sz,bool eff=true){ TM t=single(addr); if(eff&&(t<0||TB.t[t].op!=O_ALLOCA))effect(s,"memory is changed"); if(t<0){ report(s,"imprecise","store through an unresolved pointer"); return; } int64_t off=cval0(addr);
    for(auto j=s.mem.lower_bound({t,off-4096});j!=s.mem.end()&&j->first.first==t&&j->first.second<off+(int64_t)sz;){ if(j->first.second+(int64_t)j->second.sz>off&&!(j->first.second==off&&j->second.sz==sz)){ Cell c=j->second; int64_t o=j->first.second; j=s.mem.erase(j); if(o<off){ s.mem[{t,o}]={mk(s,O_PART,{c.v,cst(0)},"",off-o),(unsigned)(off-o)}; } int64_t e=o+c.sz; if(e>off+(int64_t)sz)s.mem[{t,off+sz}]={mk(s,O_PART,{c.v,cst(off+sz-o)},"",e-off-sz),(unsigned)(e-off-sz)}; j=s.mem.lower_bound({t,off}); } else ++j; }
    s.mem[{t,off}]={v,sz}; }
  LE content(State&s,LE addr,unsigned sz){ if(sz<=1)return cst(0); TM t=single(addr); if(t>=0){ int64_t off=cval0(addr); 
      auto it=s.mem.find({t,off}); if(it!=s.mem.end()&&it->second.sz==sz)return it->second.v; 
      std::vector<LE> parts; bool cov=false; for(auto j=s.mem.lower_bound({t,off});j!=s.mem.end()&&j->first.first==t&&j->first.second<off+(int64_t)sz;++j){parts.push_back(cst(j->first.second-off));parts.push_back(j->second.v);cov=true;}
      if(cov)return mk(s,O_TUPLE,parts,"",sz); if(TB.t[t].op==O_ALLOCA)return load(s,addr,sz); if(isNodeT(t)){touchNode(s,t,"element access");} }
    return mk(s,O_INIT,{addr},"",sz); }
  void copyMem(State&s,LE dst,LE src,uint64_t n){ TM st=single(src); if(st<0||single(dst)<0){store(s,dst,mk(s,O_INIT,{src},"",n),n);return;} int64_t off=cval0(src); std::vector<std::pair<int64_t,Cell>> cs; bool al=TB.t[st].op==O_ALLOCA; for(auto j=s.mem.lower_bound({st,off});j!=s.mem.end()&&j->first.first==st&&j->first.second<off+(int64_t)n;++j)cs.push_back({j->first.second-off,j->second});
    if(cs.empty()){ if(n<=8||!al){ store(s,dst,load(s,src,n),n);} return; }
    for(auto&c:cs)store(s,addc(dst,c.first),c.second.v,c.second.sz); }
  // --- values
  LE ev(State&s,const Value*v){ return evV(s,v).le; }
  V mkV(LE e){V v;v.le=e;return v;}
  V evV(State&s,const Value*v){
    if(auto*c=dyn_cast<ConstantInt>(v))return mkV(cst(c->getBitWidth()==1?c->getZExtValue():c->getBitWidth()>64?0:c->getSExtValue()));
    if(isa<ConstantPointerNull>(v))return mkV(cst(0));
    if(isa<UndefValue>(v)||isa<ConstantAggregateZero>(v)){ if(auto*st=dyn_cast<StructType>(v->getType())){V r;for(unsigned i=0;i<st->getNumElements();++i)r.sub.push_back(mkV(isa<UndefValue>(v)?mk(s,O_UNDEF,{},"u"):cst(0)));return r;} return mkV(isa<UndefValue>(v)?mk(s,O_UNDEF,{},"u"):cst(0)); }
    if(auto*g=dyn_cast<GlobalValue>(v))return mkV(var(TB.term({O_GLOBAL,0,g->getName().str(),{}})));
    if(auto*ce=dyn_cast<ConstantExpr>(v)){ if(ce->getOpcode()==Instruction::GetElementPtr){ APInt off(64,0); const Value*b=ce->stripAndAccumulateConstantOffsets(DL,off,true); if(b!=ce)return mkV(addc(ev(s,b),off.getSExtValue())); } if(ce->isCast())return evV(s,ce->getOperand(0)); }
    auto it=s.env.find(v); if(it!=s.env.end())return it->second;
    std::string nm; raw_string_ostream os(nm); v->print(os); return mkV(mk(s,O_UNDEF,{},"?"+std::to_string(num.count(v)?num[v]:-1)));
  }
  bool isNodePtr(LE e){TM t=single(e);return t>=0&&isNodeT(t);}
  void setv(State&s,const Instruction*I,LE e){s.env[I]=mkV(e);}
  // execute until path ends
  void runPath(State s,const Instruction*I){
    try{ while(I){ cur=I; if(++steps>8000000){error="step limit";return;} 
      if(s.dead)return; I=exec(s,I); } }catch(Forked&){}
  }
  const Instruction* jump(State&s,const BasicBlock*from,const BasicBlock*to){
    std::vector<std::pair<const Instruction*,V>> ph; for(auto&p:to->phis())ph.push_back({&p,evV(s,p.getIncomingValueForBlock(from))}); for(auto&p:ph)s.env[p.first]=p.second;
    auto&lv=live[to]; for(auto it=s.env.begin();it!=s.env.end();){ if(!lv.count(it->first)&&!(isa<PHINode>(it->first)&&cast<Instruction>(it->first)->getParent()==to))it=s.env.erase(it); else ++it; }
    if(hdrs.count(to)){ gc(s); std::string k=hname(to)+"|"+sigOf(s,to); if(!s.inst.count(to))s.inst[to]=++ninst; if(s.visited.insert(k).second)return to->getFirstNonPHI(); arrive(s,to); return nullptr; }
    return to->getFirstNonPHI();
  }
  const Instruction* exec(State&s,const Instruction*I){
    const Instruction*nx=I->isTerminator()?nullptr:I->getNextNode();
    if(auto*a=dyn_cast<AllocaInst>(I)){ setv(s,I,var(TB.term({O_ALLOCA,0,std::to_string(num[a]),{}}))); return nx; }
    if(auto*l=dyn_cast<LoadInst>(I)){ LE ad=ev(s,l->getPointerOperand()); if(isC(ad)){report(s,"null-node","load through a null pointer");return nullptr;} Type*t=l->getType(); if(t->isStructTy()){V r;auto*st=cast<StructType>(t);auto*sl=DL.getStructLayout(st);for(unsigned i=0;i<st->getNumElements();++i)r.sub.push_back(mkV(load(s,addc(ad,sl->getElementOffset(i)),DL.getTypeStoreSize(st->getElementType(i)))));s.env[I]=r;return nx;} LE v=load(s,ad,DL.getTypeStoreSize(t)); setv(s,I,v); return nx; }
    if(auto*st=dyn_cast<StoreInst>(I)){ LE ad=ev(s,st->getPointerOperand()); V v=evV(s,st->getValueOperand()); if(isC(ad)){report(s,"null-node","store through a null pointer");return nullptr;} if(!v.sub.empty()){auto*ty=cast<StructType>(st->getValueOperand()->getType());auto*sl=DL.getStructLayout(ty);for(unsigned i=0;i<v.sub.size();++i)store(s,addc(ad,sl->getElementOffset(i)),v.sub[i].le,DL.getTypeStoreSize(ty->getElementType(i)));}else store(s,ad,v.le,DL.getTypeStoreSize(st->getValueOperand()->getType())); return nx; }
    if(auto*g=dyn_cast<GetElementPtrInst>(I)){ LE b=ev(s,g->getPointerOperand()); for(auto ti=gep_type_begin(g);ti!=gep_type_end(g);++ti){ Value*op=ti.getOperand(); if(auto*sty=ti.getStructTypeOrNull()){b=addc(b,DL.getStructLayout(sty)->getElementOffset(cast<ConstantInt>(op)->getZExtValue()));} else b=add(b,ev(s,op),(int64_t)DL.getTypeAllocSize(ti.getIndexedType())); } setv(s,I,b); return nx; }
    if(auto*c=dyn_cast<CastInst>(I)){ LE v=ev(s,c->getOperand(0)); if(isa<FPToUIInst>(c)||isa<UIToFPInst>(c)||isa<SIToFPInst>(c)||isa<FPToSIInst>(c)||isa<FPTruncInst>(c)||isa<FPExtInst>(c))v=mk(s,O_UF,{v},c->getOpcodeName()); else if(isa<TruncInst>(c)&&c->getType()->getIntegerBitWidth()==1){ /* bool loaded from memory */ } setv(s,I,v); return nx; }
    if(auto*c=dyn_cast<ICmpInst>(I)){ LE a=ev(s,c->getOperand(0)),b=ev(s,c->getOperand(1)); LE r; switch(c->getPredicate()){ case ICmpInst::ICMP_EQ:r=mkEq(s,add(a,b,-1));break; case ICmpInst::ICMP_NE:r=add(cst(1),mkEq(s,add(a,b,-1)),-1);break; case ICmpInst::ICMP_ULT:case ICmpInst::ICMP_SLT:r=mkLt(s,add(b,a,-1));break; case ICmpInst::ICMP_UGT:case ICmpInst::ICMP_SGT:r=mkLt(s,add(a,b,-1));break; case ICmpInst::ICMP_ULE:case ICmpInst::ICMP_SLE:r=add(cst(1),mkLt(s,add(a,b,-1)),-1);break; default:r=add(cst(1),mkLt(s,add(b,a,-1)),-1);break; } setv(s,I,simpBool(s,a,b,r)); return nx; }
    if(isa<FCmpInst>(I)){ setv(s,I,mk(s,O_UF,{ev(s,I->getOperand(0)),ev(s,I->getOperand(1))},std::string("fcmp")+std::to_string(cast<CmpInst>(I)->getPredicate()))); return nx; }
    if(auto*b=dyn_cast<BinaryOperator>(I)){ LE x=ev(s,b->getOperand(0)),y=ev(s,b->getOperand(1)); LE r=-1; bool i1=b->getType()->isIntegerTy(1)||(b->getType()->isIntegerTy(8)); switch(b->getOpcode()){ case Instruction::Add:r=add(x,y);break; case Instruction::Sub:r=add(x,y,-1);break; case Instruction::Mul: if(isC(y))r=scale(x,cval(y)); else if(isC(x))r=scale(y,cval(x)); break; case Instruction::Shl: if(isC(y))r=scale(x,(int64_t)1<<cval(y)); break; case Instruction::SDiv: case Instruction::AShr: {int64_t k=isC(y)?(b->getOpcode()==Instruction::SDiv?cval(y):(int64_t)1<<cval(y)):0; LinE e=TB.l[x]; bool ok=k>0&&e.c%k==0; for(auto&p:e.v)if(ok&&p.second%k)ok=false; if(ok){for(auto&p:e.v)p.second/=k;e.c/=k;r=TB.lin(e);} break;}
        case Instruction::Xor: if(isC(y)&&(cval(y)==1||cval(y)==-1)&&i1)r=add(cst(1),x,-1); else if(i1){ bool p=split(s,x),q=split(s,y); r=cst(p!=q);} break;
        case Instruction::And: if(isC(y)&&cval(y)==1)r=x; else if(isC(y)&&cval(y)==0)r=y; else if(b->getType()->isIntegerTy(1)){ r=split(s,x)?ev(s,b->getOperand(1)):cst(0);} break; case Instruction::Or: if(isC(y)&&cval(y)==0)r=x; else if(b->getType()->isIntegerTy(1)){ r=split(s,x)?cst(1):ev(s,b->getOperand(1));} break; default:; }
      if(r<0)r=mk(s,O_UF,{x,y},b->getOpcodeName()); setv(s,I,r); return nx; }
    if(I->getOpcode()==Instruction::FNeg||isa<FreezeInst>(I)){ setv(s,I,ev(s,I->getOperand(0))); return nx; }
    if(auto*se=dyn_cast<SelectInst>(I)){ bool c=split(s,ev(s,se->getCondition())); s.env[I]=evV(s,c?se->getTrueValue():se->getFalseValue()); return nx; }
    if(auto*e=dyn_cast<ExtractValueInst>(I)){ V v=evV(s,e->getAggregateOperand()); for(unsigned i:e->indices()){ if(i<v.sub.size()){V t=v.sub[i];v=t;}else v=mkV(mk(s,O_UNDEF,{},"xv"+std::to_string(num[I]))); } s.env[I]=v; return nx; }
    if(auto*e=dyn_cast<InsertValueInst>(I)){ V v=evV(s,e->getAggregateOperand()); auto*st=dyn_cast<StructType>(e->getType()); if(st&&v.sub.size()<st->getNumElements())v.sub.resize(st->getNumElements(),mkV(mk(s,O_UNDEF,{},"u"))); v.le=-1; unsigned i=*e->idx_begin(); if(e->getNumIndices()==1&&i<v.sub.size())v.sub[i]=evV(s,e->getInsertedValueOperand()); s.env[I]=v; return nx; }
    if(auto*b=dyn_cast<BranchInst>(I)){ if(b->isUnconditional())return jump(s,b->getParent(),b->getSuccessor(0)); bool c=split(s,ev(s,b->getCondition())); if(const DILocation*l=b->getDebugLoc().get()){ std::string f=l->getFilename().str(); f=f.substr(f.rfind('/')+1); s.trail.push_back(f+":"+std::to_string(l->getLine())+(c?" true":" false")); if(s.trail.size()>60)s.trail.erase(s.trail.begin()); } return jump(s,b->getParent(),b->getSuccessor(c?0:1)); }
    if(auto*sw=dyn_cast<SwitchInst>(I)){ LE c=ev(s,sw->getCondition()); for(auto&k:sw->cases()){ if(split(s,mkEq(s,addc(c,-k.getCaseValue()->getSExtValue()))))return jump(s,sw->getParent(),k.getCaseSuccessor()); } return jump(s,sw->getParent(),sw->getDefaultDest()); }
    if(isa<ReturnInst>(I)&&s.ghost.count("guard")){ report(s,"missing check","the operation completes without reporting the violated precondition"); return nullptr; }
    if(isa<ReturnInst>(I)||isa<UnreachableInst>(I)||isa<ResumeInst>(I))return nullptr;
    if(auto*cb=dyn_cast<CallBase>(I)){ call(s,cb); if(s.dead)return nullptr; if(auto*iv=dyn_cast<InvokeInst>(I))return jump(s,iv->getParent(),iv->getNormalDest()); return nx; }
    unknown.insert(I->getOpcodeName()); if(!I->getType()->isVoidTy())setv(s,I,mk(s,O_UNDEF,{},"i"+std::to_string(num[I]))); return nx;
  }
  LE simpBool(State&s,LE a,LE b,LE r){ // comparisons of boolean-valued expressions
    (void)a;(void)b; LinE x=TB.l[r]; if(x.v.size()!=1)return r; TM t=x.v[0].first; const Term y=TB.t[t]; if(y.op==O_EQ){ LinE d=TB.l[y.a[0]]; if(d.v.size()==1&&(d.v[0].second==1||d.v[0].second==-1)){ TM q=d.v[0].first; const Term z=TB.t[q]; bool isb=z.op==O_EQ||z.op==O_LT||(z.op==O_UF&&(z.s=="Cmp"||z.s=="XC"||z.s=="Eq"||z.s=="XEq"||z.s=="Lo"||z.s=="Up")); if(isb){ int64_t v=d.v[0].second==1?-d.c:d.c; LE e=v==1?var(q):v==0?add(cst(1),var(q),-1):cst(0); bool neg=x.v[0].second==-1; return neg?add(cst(1),e,-1):e; } } } return r; }
  LE idxNode(LE p){return addc(p,L.io);} // index-node pointer -> node term
  void initTree(State&s){ // fork: empty / non-empty tree in the current epoch
    LE e=mk(s,O_UF,{},"vp_empty",s.epoch); bool emp=split(s,e); int ep=s.epoch; TM R=TB.term({O_ROOT,ep,"",{}}),LM=TB.term({O_LEFTMOST,ep,"",{}}),RM=TB.term({O_RIGHTMOST,ep,"",{}});
    if(emp){ s.rep[R]=cst(0); s.rep[LM]=H(); s.rep[RM]=H(); s.succ[NEG()]=H(); s.rep[TB.term({O_POS,ep,"",{H()}})]=cst(0); }
    else{ s.facts[TB.term({O_EQ,0,"",{var(R)}})]=false; s.ineq.insert(mk(s,O_POS,{H()},"",ep)); s.succ[NEG()]=var(LM); s.succ[var(RM)]=H(); s.rep[TB.term({O_LEFT,ep,"",{var(LM)}})]=cst(0); s.rep[TB.term({O_RIGHT,ep,"",{var(RM)}})]=cst(0); }
  }
  bool prove(State&s,LE c){ return decide(s,c)==1; }
  void call(State&s,const CallBase*cb){
    const Function*f=cb->getCalledFunction(); Type*rt=cb->getType(); auto arg=[&](unsigned i){return ev(s,cb->getArgOperand(i));};
    auto ret=[&](LE e){ if(!rt->isVoidTy())setv(s,cb,e); };
    if(!f){ effect(s,"an indirect call is made"); unknown.insert("indirect call at "+where(cb)); ret(mk(s,O_UNDEF,{},"ic"+std::to_string(num[cb]))); return; }
    if(auto*mi=dyn_cast<MemTransferInst>(cb)){ LE n=ev(s,mi->getLength()); if(isC(n))copyMem(s,arg(0),arg(1),cval(n)); else report(s,"imprecise","memory copy of unknown length"); return; }
    if(auto*mi=dyn_cast<MemSetInst>(cb)){ LE n=ev(s,mi->getLength()); LE v=arg(1); if(isC(n)&&isC(v)&&cval(v)==0){ for(int64_t o=0;o<cval(n);o+=8)store(s,addc(arg(0),o),cst(0),std::min<int64_t>(8,cval(n)-o)); } return; }
    const FI&fi=finf(f);
    if(auto*ii=dyn_cast<IntrinsicInst>(cb)){ switch(ii->getIntrinsicID()){ case Intrinsic::expect: ret(arg(0)); return; case Intrinsic::umax: {LE a=arg(0),b=arg(1); ret(split(s,mkLt(s,add(a,b,-1)))?a:b);return;} case Intrinsic::umin:{LE a=arg(0),b=arg(1); ret(split(s,mkLt(s,add(a,b,-1)))?b:a);return;} default:; } if(fi.k==K_NOP)return; }
    switch(fi.k){
    case K_ATTACH: store(s,addc(arg(0),L.itcRel),arg(1),8,false); return;
    case K_DETACH: store(s,addc(arg(0),L.itcRel),cst(0),8,false); return;
    case K_VBEGIN: case K_VEND: { bool sret=f->hasParamAttribute(0,Attribute::StructRet); LE px=load(s,arg(sret?1:0),8); if(!sret){unknown.insert("view");return;} LE d=arg(0); bool b=fi.k==K_VBEGIN; store(s,addc(d,L.itn),mk(s,O_UF,{px},b?"vbegin":"vend"),8); store(s,addc(d,L.itc),addc(arg(1),-L.view),8); store(s,addc(d,L.itu),cst(0),1); return; }
    case K_CHECKUF: { std::vector<LE> a; for(unsigned i=0;i<cb->arg_size();++i)a.push_back(load(s,addc(arg(i),L.itn),8)); ret(mk(s,O_UF,a,fi.nm)); return; }
    case K_NOP: case K_DTOR: ret(mk(s,O_UNDEF,{},"nop")); return;
    case K_ALLOC: { effect(s,"memory is allocated"); ret(var(TB.term({O_FRESH,2,std::to_string(num[cb]),{}})));  LE p=ev(s,cb); setv(s,cb,addc(p,-L.io)); return; }
    case K_COPY: { LE d=arg(0),sr=arg(1); unsigned n=cb->getParamDereferenceableBytes(1); if(!n)n=f->getParamDereferenceableBytes(1); store(s,d,content(s,sr,n),n); ret(d); return; }
    case K_USER: { effect(s,"user code ("+fi.nm+") runs"); userSites.insert(cb); std::vector<LE> a; unsigned i=0; bool sret=f->hasParamAttribute(0,Attribute::StructRet)||cb->paramHasAttr(0,Attribute::StructRet); if(sret)i=1;
        for(;i<cb->arg_size();++i){ LE v=arg(i); unsigned n=std::max<uint64_t>(cb->getParamDereferenceableBytes(i),f->getParamDereferenceableBytes(i)); if(cb->getArgOperand(i)->getType()->isPointerTy()&&n)v=content(s,v,n); a.push_back(v); }
        bool drv=isDriver(cb);
        for(LE v:a){ TM n=nodeIn(v); if(n<0||drv)continue; if(TB.t[n].op==O_H||TB.t[n].op==O_NEGINF){report(s,"end-element","a user operation is applied to the element of the past-the-end or before-the-first position");throw Forked();} if(!nonEnd(s,n)){ if(split(s,mkEq(s,add(var(n),H(),-1)))){ report(s,"end-element","a user operation is applied to the element of the past-the-end position"); throw Forked(); } if(TB.t[n].op==O_PRED&&split(s,mkEq(s,add(var(n),NEG(),-1)))){report(s,"end-element","a user operation is applied before the first position");throw Forked();} } }
        if(HSH&&(fi.nm=="Hash"||fi.nm=="XH")&&a.size()==2){ bool have=false; int n=0; for(auto&g:s.ghost)if(g.first.compare(0,2,"hk")==0){++n;if(g.second==a[1])have=true;} if(!have&&n<4)s.ghost["hk"+std::to_string(n)]=a[1]; }
        LE r=mk(s,O_UF,a,fi.nm); if(sret){ unsigned n=DL.getTypeAllocSize(f->getParamStructRetType(0)); store(s,arg(0),r,n); return; } ret(r); return; }
    case K_INCR: case K_DECR: { effect(s,"an iterator moves"); LE p=arg(0); LE n=load(s,p,8); TM t=single(n); if(t<0){report(s,"imprecise","increment of an unresolved position");throw Forked();} 
        if(fi.k==K_INCR){ if(isOp(n,O_H)){report(s,"end-node","the past-the-end position is incremented");throw Forked();} store(s,p,mk(s,O_SUCC,{n},"",s.epoch),8); }
        else { LE q=mk(s,O_PRED,{n},"",s.epoch); if(isOp(q,O_PRED)){ if(split(s,mkEq(s,add(q,NEG(),-1)))){ report(s,"end-node","the first position is decremented"); throw Forked(); } } if(isOp(q,O_NEGINF)){report(s,"end-node","the first position is decremented");throw Forked();} store(s,p,q,8); }
        return; }
    case K_LINK: effect(s,"a node is linked"); doLink(s,arg(0),arg(1),arg(2)); return;
    case K_RESTORE: { effect(s,"a node is linked"); LE x=arg(0),p=arg(1); s.ghost["prev"]=mk(s,O_PRED,{p},"",s.epoch); s.ghost["next"]=p; s.ghost["linked"]=x; afterLink(s,x,s.ghost["prev"],p); return; }
    case K_UNLINK: { effect(s,"a node is unlinked"); LE z=arg(0); LE a=mk(s,O_PRED,{z},"",s.epoch),b=mk(s,O_SUCC,{z},"",s.epoch); split(s,mk(s,O_UF,{},"vp_empty",s.epoch+1)); s.ghost["unlinked"]=z; s.ghost["uprev"]=a; s.ghost["unext"]=b; ret(z); newEpoch(s,z); return; }
    case K_VP: vpcall(s,cb,fi.nm); return;
    case K_NEXTINS: { LE x=arg(0); if(!HSH){ ret(mk(s,O_UF,{x},"next_to_inspect")); return; } if(isC(x)){report(s,"null-node","a null node is advanced");throw Forked();} if(!isNodePtr(x)){report(s,"imprecise","advance of an unresolved node");throw Forked();} if(!nonNull(s,pure(x))){report(s,"null-node","a possibly null node is advanced");throw Forked();} LE n=mk(s,O_HN,{x},fi.nm,s.epoch); advance(s,x,n); ret(n); return; }
    case K_HAFTER: { ret(mk(s,O_SUCC,{arg(0)},"",s.epoch)); return; }
    case K_HUF: { std::vector<LE> a; for(unsigned i=0;i<cb->arg_size();++i){ LE v=arg(i); unsigned n=std::max<uint64_t>(cb->getParamDereferenceableBytes(i),f->getParamDereferenceableBytes(i)); if(i&&cb->getArgOperand(i)->getType()->isPointerTy()&&n)v=content(s,v,n); a.push_back(v); } bool node=fi.nm=="last_of_range"||fi.nm=="end_of_range"; if(node){ LE n=mk(s,O_HN,{a[1]},fi.nm,s.epoch); ret(n); if(fi.nm=="end_of_range"){ LE d=add(mk(s,O_POS,{n},"",s.epoch),mk(s,O_POS,{a[1]},"",s.epoch),-1); if(!isC(d))s.ineq.insert(d); } return; } auto te=s.ghost.find("tab"); ret(mk(s,O_UF,a,fi.nm,te==s.ghost.end()?0:cval(te->second))); return; }
    case K_HLINK: { s.ghost["hlinked"]=arg(0); if(fi.nm=="link_bucket")s.ghost["hbuc"]=arg(1); else { s.ghost["hfirst"]=arg(1); s.ghost["hlast"]=arg(2); } return; }
    case K_HUNLINK: { s.ghost["hunlinked"]=arg(0); s.epoch++; return; }
    case K_HUNDO: { s.ghost.erase("hunlinked"); s.epoch++; return; }
    case K_REHASH: { auto te=s.ghost.find("tab"); s.ghost["tab"]=cst((te==s.ghost.end()?0:cval(te->second))+1); s.epoch++; s.ghost["rehashed"]=arg(1); return; }
    default: { effect(s,"a call to "+fi.nm+" is made"); unknown.insert(fi.nm.empty()?f->getName().str():fi.nm+"/"+f->getName().str().substr(0,60)); if(DBG)errs()<<"unknown "<<fi.nm<<"\n"; ret(mk(s,O_UNDEF,{},"call"+std::to_string(num[cb]))); } }
  }
  bool isDriver(const CallBase*cb){ const DILocation*l=cb->getDebugLoc().get(); if(!l)return false; StringRef f=l->getFilename(); return f.contains("/verif/drivers/")||f.contains("drivers/ord")||f.ends_with("ord.cpp"); }
  void newEpoch(State&s,LE removed){ (void)removed; s.epoch++; s.succ.clear(); s.parOf.clear(); State keep=s; (void)keep; initTree(s); }
  void afterLink(State&s,LE x,LE a,LE b){ (void)x;(void)a;(void)b; s.epoch++; s.succ.clear(); s.parOf.clear(); }
  void doLink(State&s,LE x,LE side,LE pos){
    bool right=isC(side)?cval(side)!=0:split(s,mkEq(s,addc(side,-1))); int ep=s.epoch;
    if(!isOp(pos,O_H)&&pure(pos)>=0&&!nonEnd(s,pure(pos)))split(s,mkEq(s,add(pos,H(),-1)));
    { std::map<TM,LE> em; std::map<LE,LE> memo; pos=subst(s,pos,em,memo); x=subst(s,x,em,memo); }
    LE a,b; 
    if(isOp(pos,O_H)){ if(right||decide(s,mkEq(s,mk(s,O_ROOT,{},"",ep)))!=1){ report(s,"link-position","a node is linked next to the header of a non-empty index, or to its right"); throw Forked(); } a=NEG(); b=H(); }
    else{ LE slot=mk(s,right?O_RIGHT:O_LEFT,{pos},"",ep); if(slot!=cst(0)){ if(split(s,mkEq(s,slot))); else { report(s,"link-position",std::string("a node is linked on the ")+(right?"right":"left")+" side of a position that already has a child there"); throw Forked(); } std::map<TM,LE> em; std::map<LE,LE> memo; pos=subst(s,pos,em,memo); }
      if(right){a=pos;b=mk(s,O_SUCC,{pos},"",ep); if(isOp(b,O_SUCC)){ adj(s,pos,mk(s,O_HI,{pos},"",ep)); std::map<TM,LE> em; std::map<LE,LE> memo; pos=subst(s,pos,em,memo); a=pos; b=mk(s,O_SUCC,{pos},"",ep);} } else {b=pos;a=mk(s,O_PRED,{pos},"",ep); if(isOp(a,O_PRED)){ adj(s,mk(s,O_LO,{pos},"",ep),pos); std::map<TM,LE> em; std::map<LE,LE> memo; pos=subst(s,pos,em,memo); b=pos; a=mk(s,O_PRED,{pos},"",ep);} } if(s.dead)return; }
    s.ghost["prev"]=a; s.ghost["next"]=b; s.ghost["linked"]=x; afterLink(s,x,a,b);
  }
  void vpcall(State&s,const CallBase*cb,const std::string&nm){
    Type*rt=cb->getType(); auto arg=[&](unsigned i){return ev(s,cb->getArgOperand(i));}; auto ret=[&](LE e){ if(!rt->isVoidTy())setv(s,cb,e); };
    auto msg=[&](unsigned i){ std::string r; const Value*v=cb->getArgOperand(i)->stripPointerCasts(); if(auto*g=dyn_cast<GlobalVariable>(v))if(g->hasInitializer())if(auto*d=dyn_cast<ConstantDataArray>(g->getInitializer()))r=d->getAsCString().str(); return r;};
    if(nm=="vp_prove"){ std::string m=msg(1); proved.insert(m+"@"+std::to_string(num[cb])); LE c=arg(0); if(!prove(s,c)){ if(decide(s,c)<0){ // refine: the condition may be a conjunction already split
          report(s,"obligation",m+(DBG?" ["+str(c)+"]":"")); } else report(s,"obligation",m); throw Forked(); } return; }
    if(nm=="vp_guard"){ s.ghost["guard"]=arg(0); return; }
    if(nm=="vp_clean"){ s.ghost["clean"]=cst(1); return; }
    if(nm=="vp_fail"){ proved.insert("check@"+std::to_string(num[cb])); LE c=arg(0); if(s.ghost.count("guard")){ if(decideEq(s,add(c,s.ghost["guard"],-1))!=1)report(s,"wrong code","the violated precondition is reported with code "+str(c)+" instead of "+str(s.ghost["guard"])); } else if(s.ghost.count("clean"))report(s,"false report","an error (code "+str(c)+") is reported although every precondition holds"); s.dead=true; return; }
    if(nm=="vp_assume"){ assume(s,arg(0),true); return; }
    if(nm=="vp_tree"){ initTree(s); return; }
    if(nm=="vp_pred"){ LE n=idxNode(arg(0)); ret(addc(mk(s,O_PRED,{n},"",s.epoch),-L.io)); return; }
    if(nm=="vp_succ"){ LE n=idxNode(arg(0)); ret(addc(mk(s,O_SUCC,{n},"",s.epoch),-L.io)); return; }
    if(nm=="vp_pos"){ if(HSH&&arg(0)==cst(0)){ret(mk(s,O_POS,{cst(0)},"",s.epoch));return;} LE n=idxNode(arg(0)); TM t=pure(n); if(t<0||!isNodeT(t)){report(s,"imprecise","position of an unresolved node");throw Forked();} ret(mk(s,O_POS,{n},"",s.epoch)); return; }
    if(nm=="vp_count"){ ret(mk(s,O_POS,{H()},"",s.epoch)); return; }
    if(nm=="vp_any"){ // an arbitrary valid position of the index: end, first, or any other
      LE nd=var(TB.term({O_NODE,0,"pos"+std::to_string(num[cb]),{}})); int ep=s.epoch;
      LE k1=mk(s,O_UF,{},"vp_isend"+std::to_string(num[cb])); if(decide(s,mkEq(s,mk(s,O_ROOT,{},"",ep)))==1||split(s,k1)){ ret(addc(H(),-L.io)); return; }
      LE k2=mk(s,O_UF,{},"vp_isfirst"+std::to_string(num[cb])); if(split(s,k2)){ ret(addc(mk(s,O_LEFTMOST,{},"",ep),-L.io)); return; }
      assumeNe(s,add(nd,H(),-1)); LE lm=mk(s,O_LEFTMOST,{},"",ep); assumeNe(s,add(nd,lm,-1)); LE pd=mk(s,O_PRED,{nd},"",ep); assumeNe(s,add(pd,NEG(),-1)); s.ineq.insert(mk(s,O_POS,{nd},"",ep)); s.ineq.insert(add(mk(s,O_POS,{H()},"",ep),mk(s,O_POS,{nd},"",ep),-1)); ret(addc(nd,-L.io)); return; }
    if(nm=="vp_anyelem"&&HSH){ LE nd=var(TB.term({O_NODE,0,"el"+std::to_string(num[cb]),{}})); assumeNe(s,add(nd,H(),-1)); ret(addc(nd,-L.io)); return; }
    if(nm=="vp_anyelem"){ LE nd=var(TB.term({O_NODE,0,"el"+std::to_string(num[cb]),{}})); int ep=s.epoch; if(decide(s,mkEq(s,mk(s,O_ROOT,{},"",ep)))==1){s.dead=true;return;} LE k2=mk(s,O_UF,{},"vp_isfirst"+std::to_string(num[cb])); if(split(s,k2)){ ret(addc(mk(s,O_LEFTMOST,{},"",ep),-L.io)); return; } 
      assumeNe(s,add(nd,H(),-1)); LE lm=mk(s,O_LEFTMOST,{},"",ep); assumeNe(s,add(nd,lm,-1)); LE pd=mk(s,O_PRED,{nd},"",ep); assumeNe(s,add(pd,NEG(),-1)); s.ineq.insert(mk(s,O_POS,{nd},"",ep)); s.ineq.insert(add(mk(s,O_POS,{H()},"",ep),mk(s,O_POS,{nd},"",ep),-1)); ret(addc(nd,-L.io)); return; }
    if(nm=="vp_ghost"){ std::string m=msg(0); auto it=s.ghost.find(m); if(it==s.ghost.end()){ ret(cst(0)); return; } ret(addc(it->second,-L.io)); return; }
    if(nm=="vp_ghostraw"){ auto it=s.ghost.find(msg(0)); ret(it==s.ghost.end()?cst(0):it->second); return; }
    if(nm=="vp_eqf"){ s.ghost["eqf"]=content(s,arg(0),8); return; }
    if(nm=="vp_heq"){ // an element of the visited chain known to be equal to the key
      LE k=content(s,arg(0),8); auto g=s.ghost.find("eqf"); for(auto&p:s.facts){ const Term e=TB.t[p.first]; if(!p.second||!isEqUF(e)||(g!=s.ghost.end()&&e.a[0]!=g->second))continue; for(int q:{1,2}){ if(e.a[q]!=k)continue; TM m=nodeIn(e.a[3-q]); if(m<0)continue; for(auto&c:s.facts){ const Term t=TB.t[c.first]; if(c.second&&t.op==O_UF&&t.s=="clear"&&t.a[0]==k&&t.a[2]==var(m)){ ret(addc(var(m),-L.io)); return; } } } }
      ret(cst(0)); return; }
    if(nm=="vp_self"){ s.ghost["self"]=idxNode(arg(0)); return; }
    if(nm=="vp_clearself"){ LE B=arg(0),n=arg(1); if(n!=cst(0))n=addc(n,L.io); ret(cst(decide(s,mk(s,O_UF,{s.ghost["self"],B,n},"clear"))==1)); return; }
    if(nm=="vp_clear"){ // every group of the bucket before the node (all of it, if null) is known to differ from the key
      LE B=arg(0),n=arg(1),k=content(s,arg(2),8); if(n!=cst(0))n=addc(n,L.io); LE c=mk(s,O_UF,{k,B,n},"clear"); std::string m=msg(3); proved.insert(m+"@"+std::to_string(num[cb])); if(decide(s,c)!=1){report(s,"obligation",m+(DBG?" ["+str(c)+"]":""));throw Forked();} return; }
    if(nm=="vp_hasghost"){ ret(cst(s.ghost.count(msg(0))?1:0)); return; }
    if(nm=="vp_absent"){ // no element of the tree is equivalent to the key: some neighbours a<x<b
      LE x=content(s,arg(0),std::max<uint64_t>(cb->getParamDereferenceableBytes(0),8)); LE x2=arg(0); bool ok=false;
      auto lt=[&](LE n,bool before){ if(isOp(n,O_NEGINF))return before; if(isOp(n,O_H))return !before; for(auto&p:s.facts){ if(!p.second)continue; const Term&t=TB.t[p.first]; if(!isCmp(t))continue; LE e=before?t.a[1]:t.a[2],o=before?t.a[2]:t.a[1]; if((o==x||o==x2)&&nodeIn(e)>=0&&var(nodeIn(e))==n)return true; } return false; };
      for(auto&p:s.succ)if(lt(p.first,true)&&lt(p.second,false))ok=true;
      std::string m=msg(1); proved.insert(m+"@"+std::to_string(num[cb])); if(!ok){report(s,"obligation",m);throw Forked();} return; }
    if(nm=="vp_lb"||nm=="vp_ub"){ // the known boundary position of the key
      bool lb=nm=="vp_lb"; LE x=content(s,arg(0),8); auto val=[&](LE n,bool nodeFirst)->int{ if(isOp(n,O_NEGINF))return nodeFirst; if(isOp(n,O_H))return !nodeFirst; for(auto&p:s.facts){ const Term t=TB.t[p.first]; if(!isCmp(t))continue; for(int k:{1,2}){ if(t.a[3-k]!=x)continue; TM m=nodeIn(t.a[k]); if(m<0||var(m)!=n)continue; if((k==1)==nodeFirst)return p.second; if(p.second)return 0; } } return -1; };
      for(auto&p:s.succ){ bool ok=lb?(val(p.first,true)==1&&val(p.second,true)==0):(val(p.second,false)==1&&val(p.first,false)==0); if(ok){ ret(addc(p.second,-L.io)); return; } }
      ret(addc(var(TB.term({O_NODE,0,"nobound",{}})),-L.io)); return; }
    if(nm=="vp_bnd"){ // the known boundary position of a bounding predicate; null if none is known
      std::string m=msg(0); bool lo=m=="Lo"; auto val=[&](LE n)->int{ if(isOp(n,O_NEGINF))return lo?0:1; if(isOp(n,O_H))return lo?1:0; for(auto&p:s.facts){ const Term t=TB.t[p.first]; if(t.op!=O_UF||t.s!=m||t.a.size()!=2)continue; TM q=nodeIn(t.a[1]); if(q>=0&&var(q)==n)return p.second; } return -1; };
      for(auto&p:s.succ)if(val(p.first)==(lo?0:1)&&val(p.second)==(lo?1:0)){ ret(addc(p.second,-L.io)); return; }
      ret(cst(0)); return; }
    if(nm=="vp_witness"){ // some element known to be neither less nor greater than the key
      LE x=content(s,arg(0),8); for(auto&p:s.facts){ if(p.second)continue; const Term t=TB.t[p.first]; if(!isCmp(t))continue; for(int k:{1,2}){ if(t.a[3-k]!=x)continue; TM n=nodeIn(t.a[k]); if(n<0||TB.t[n].op==O_H||TB.t[n].op==O_NEGINF)continue; TM u=TB.term({O_UF,t.k,t.s,{t.a[0],t.a[2],t.a[1]}}); auto it=s.facts.find(u); if(it!=s.facts.end()&&!it->second&&(nonEnd(s,n)||decideEq(s,add(var(n),H(),-1))==0)){ ret(addc(var(n),-L.io)); return; } } }
      ret(addc(var(TB.term({O_NODE,0,"nowitness",{}})),-L.io)); return; }
    unknown.insert(nm); ret(mk(s,O_UNDEF,{},"vp"+std::to_string(num[cb])));
  }
  // --- joins
  std::string hname(const BasicBlock*b){return std::to_string(num[&*b->begin()]);}
  std::vector<std::pair<std::string,std::function<LE*(State&)>>> slotsOf(State&s,const BasicBlock*b){
    std::vector<std::pair<std::string,std::function<LE*(State&)>>> r; std::vector<const Value*> vs; for(auto&p:s.env)vs.push_back(p.first); std::sort(vs.begin(),vs.end(),[&](const Value*x,const Value*y){bool px=isa<PHINode>(x)&&cast<Instruction>(x)->getParent()==b,py=isa<PHINode>(y)&&cast<Instruction>(y)->getParent()==b; if(px!=py)return px; return num[x]<num[y];});
    for(auto*v:vs){ size_t n=s.env[v].sub.size(); if(!n)r.push_back({"v"+std::to_string(num[v]),[v](State&q)->LE*{auto it=q.env.find(v);return it==q.env.end()||!it->second.sub.empty()?nullptr:&it->second.le;}}); else for(size_t i=0;i<n;++i)r.push_back({"v"+std::to_string(num[v])+"."+std::to_string(i),[v,i](State&q)->LE*{auto it=q.env.find(v);return it==q.env.end()||it->second.sub.size()<=i?nullptr:&it->second.sub[i].le;}}); }
    for(auto&p:s.mem){ Loc l=p.first; unsigned z=p.second.sz; r.push_back({"m"+tstr(l.first)+"+"+std::to_string(l.second),[l,z](State&q)->LE*{auto it=q.mem.find(l);return it==q.mem.end()||it->second.sz!=z?nullptr:&it->second.v;}}); }
    for(auto&g:s.ghost){std::string k=g.first; r.push_back({"g"+k,[k](State&q)->LE*{auto it=q.ghost.find(k);return it==q.ghost.end()?nullptr:&it->second;}});}
    return r;
  }
  std::string sigOf(State&s,const BasicBlock*b){ std::string r; for(auto&p:slotsOf(s,b)){ LE v=*p.second(s); r+=p.first; if(isC(v)&&(cval(v)==0||cval(v)==1)){ bool ptr=true; if(p.first[0]=='v'){ for(auto&q:s.env)if("v"+std::to_string(num[q.first])==p.first){ptr=q.first->getType()->isPointerTy()||q.first->getType()->isIntegerTy(1)||q.first->getType()->isIntegerTy(8);} } if(ptr)r+="="+std::to_string(cval(v)); } else if(isOp(v,O_H))r+=""; r+=";"; }
    for(auto&p:s.rep){Op o=TB.t[p.first].op; if(o==O_ROOT||o==O_LEFTMOST||o==O_RIGHTMOST||(o==O_NODE&&TB.t[p.first].s.compare(0,3,"pos")==0))r+=tstr(p.first)+"="+str(p.second)+";";} for(auto&p:s.facts)if(TB.t[p.first].op==O_UF&&TB.t[p.first].s.compare(0,3,"vp_")==0)r+=TB.t[p.first].s+(p.second?"1":"0"); r+="e"+std::to_string(s.epoch); return r; }
  bool stale(LE e,const std::string&pre){ for(auto&p:TB.l[e].v){ const Term&x=TB.t[p.first]; if(x.op==O_JOIN&&x.s.compare(0,pre.size(),pre)==0)return true; for(LE a:x.a)if(stale(a,pre))return true; } return false; }
  State join(State A,State B,const BasicBlock*b,const std::string&pre,int n){
    ++joins; State R; R.epoch=A.epoch; R.visited=A.visited; R.inst=A.inst; R.inst.insert(B.inst.begin(),B.inst.end()); R.visited.insert(B.visited.begin(),B.visited.end()); R.trail=A.trail; std::map<std::pair<LE,LE>,LE> pm; std::vector<std::pair<std::pair<LE,LE>,LE>> nodes; // pairs -> name
    // reps common to both and not mentioning stale names
    for(auto&p:A.rep){ auto it=B.rep.find(p.first); if(it!=B.rep.end()&&it->second==p.second&&!stale(var(p.first),pre)&&!stale(p.second,pre))R.rep.insert(p); }
    std::function<LE(LE,LE,const std::string&,int)> nameOf=[&](LE x,LE y,const std::string&slot,int depth)->LE{
      if(x==y&&!stale(x,pre))return x; auto it=pm.find({x,y}); if(it!=pm.end())return it->second;
      TM tx=single(x),ty=single(y); 
      if(tx>=0&&ty>=0&&cval0(x)==cval0(y)&&cval0(x)!=0){ return addc(nameOf(addc(x,-cval0(x)),addc(y,-cval0(y)),slot,depth),cval0(x)); }
      if(tx>=0&&ty>=0&&cval0(x)==0&&cval0(y)==0){
        Term a=TB.t[tx],c=TB.t[ty];
        if(isNodeT(tx)&&isNodeT(ty)){ bool nn=nonNull(A,tx)&&nonNull(B,ty); LE r=var(TB.term({O_JOIN,1,pre+slot+(inTree(tx)&&inTree(ty)?"^":"")+(nonEnd(A,tx)&&nonEnd(B,ty)?"~":"")+(nn?"!":""),{}})); pm[{x,y}]=r; nodes.push_back({{x,y},r}); 
          if(depth<1&&nonEnd(A,tx)&&nonEnd(B,ty)){ for(Op o:{O_LO,O_HI}){ LE l1=mk(A,o,{x},"",A.epoch),l2=mk(B,o,{y},"",B.epoch); LE q=nameOf(l1,l2,slot+(o==O_LO?"L":"H"),depth+1); TM key=TB.term({o,R.epoch,"",{r}}); if(q!=var(key))R.rep[key]=q; } }
          if(depth<1){ LE pa=-1,pb=-1; for(auto&q:A.succ)if(q.second==x)pa=q.first; for(auto&q:B.succ)if(q.second==y)pb=q.first; if(pa>=0&&pb>=0){ LE q=nameOf(pa,pb,slot+"P",depth+1); R.succ[q]=r; } auto ia=A.succ.find(x),ib=B.succ.find(y); if(ia!=A.succ.end()&&ib!=B.succ.end()){ LE q=nameOf(ia->second,ib->second,slot+"S",depth+1); R.succ[r]=q; } }
          return r; }
        if(a.op==c.op&&a.k==c.k&&a.s==c.s&&a.a.size()==c.a.size()&&(a.op==O_UF||a.op==O_INIT||a.op==O_TUPLE||a.op==O_PART)&&!a.a.empty()&&depth<4){ std::vector<LE> aa; for(size_t i=0;i<a.a.size();++i)aa.push_back(nameOf(a.a[i],c.a[i],slot+"."+std::to_string(i),depth+1)); LE r=mk(R,a.op,aa,a.s,a.k); pm[{x,y}]=r; return r; }
      }
      LE r=var(TB.term({O_JOIN,0,pre+slot,{}})); pm[{x,y}]=r; return r; };
    auto sl=slotsOf(A,b); std::vector<std::pair<std::string,std::pair<LE,LE>>> ints; R.env=A.env; R.mem=A.mem; R.ghost=A.ghost; std::vector<std::pair<LE*,std::pair<std::string,std::pair<LE,LE>>>> defer; std::set<LE> same;
    for(auto&p:sl){ LE*x=p.second(A),*y=p.second(B),*z=p.second(R); if(!y){ if(p.first[0]=='m'){ for(auto it=R.mem.begin();it!=R.mem.end();++it)if(&it->second.v==z){R.mem.erase(it);break;} } else if(p.first[0]=='v')*z=var(TB.term({O_JOIN,0,pre+p.first,{}})); continue; }
      TM tx=single(*x),ty=single(*y); bool ptrish=tx>=0&&ty>=0&&isNodeT(tx)&&isNodeT(ty); if(*x==*y&&!stale(*x,pre)){*z=*x; if(ptrish){ LE nx=addc(*x,-cval0(*x)); same.insert(nx); TM tn=pure(nx); if(tn>=0&&TB.t[tn].op!=O_H&&TB.t[tn].op!=O_NEGINF)for(Op o:{O_LO,O_HI}){ LE l1=mk(A,o,{nx},"",A.epoch),l2=mk(B,o,{nx},"",B.epoch); if(l1==l2&&!stale(l1,pre))same.insert(l1);} } continue;} if(ptrish||(tx>=0&&ty>=0&&(TB.t[tx].op==O_UF||TB.t[tx].op==O_INIT)&&TB.t[tx].op==TB.t[ty].op))*z=nameOf(*x,*y,p.first,0); else defer.push_back({z,{p.first,{*x,*y}}}); }
    for(auto&d:defer){ LE x=d.second.second.first,y=d.second.second.second; auto it=pm.find({x,y}); if(it!=pm.end()){*d.first=it->second;continue;} bool ok=false; std::vector<std::pair<std::pair<LE,LE>,LE>> cand=nodes; cand.push_back({{H(),H()},H()}); for(LE n:same)cand.push_back({{n,n},n}); std::map<TM,LE> e0; std::map<LE,LE> mm; if(!stale(x,pre)&&subst(B,x,e0,mm)==y){*d.first=x;pm[{x,y}]=x;continue;} mm.clear(); if(!stale(y,pre)&&subst(A,y,e0,mm)==x){*d.first=y;pm[{x,y}]=y;continue;} for(auto&nd:cand){ for(int sg:{1,-1}){ LE r1=add(x,mk(A,O_POS,{nd.first.first},"",A.epoch),-sg),r2=add(y,mk(B,O_POS,{nd.first.second},"",B.epoch),-sg); if(r1==r2&&!stale(r1,pre)){ *d.first=add(r1,mk(R,O_POS,{nd.second},"",R.epoch),sg); pm[{x,y}]=*d.first; ok=true; break; } } if(ok)break; }
      if(!ok){ // also difference of two joined positions
        for(auto&n1:cand){ for(auto&n2:cand){ if(n1.second==n2.second)continue; LE r1=add(add(x,mk(A,O_POS,{n1.first.first},"",A.epoch),-1),mk(A,O_POS,{n2.first.first},"",A.epoch),1),r2=add(add(y,mk(B,O_POS,{n1.first.second},"",B.epoch),-1),mk(B,O_POS,{n2.first.second},"",B.epoch),1); if(r1==r2&&!stale(r1,pre)){*d.first=add(add(r1,mk(R,O_POS,{n1.second},"",R.epoch),1),mk(R,O_POS,{n2.second},"",R.epoch),-1);pm[{x,y}]=*d.first;ok=true;break;} } if(ok)break; } }
      if(!ok){ if(DBG){ fprintf(stderr,"JOINFAIL %s: %s | %s\n",d.second.first.c_str(),str(x).c_str(),str(y).c_str()); for(auto&nd:nodes)fprintf(stderr,"   node %s | %s -> %s  pos %s | %s\n",str(nd.first.first).c_str(),str(nd.first.second).c_str(),str(nd.second).c_str(),str(mk(A,O_POS,{nd.first.first},"",A.epoch)).c_str(),str(mk(B,O_POS,{nd.first.second},"",B.epoch)).c_str()); } *d.first=nameOf(x,y,d.second.first,0);} }
    // translation of names
    std::map<TM,LE> toA,toB; for(auto&p:pm){ TM t=pure(p.second); if(t>=0&&(TB.t[t].op==O_JOIN)){toA[t]=p.first.first;toB[t]=p.first.second;} }
    // facts: rewrite A's (and B's, early) facts over the names
    auto cands=[&](State&S,bool first){ std::vector<std::pair<LE,bool>> out; std::map<LE,std::vector<LE>> back; for(auto&p:pm){ LE k=first?p.first.first:p.first.second; back[k].push_back(p.second);} for(auto&p:R.rep){ (void)p; }
      std::function<std::vector<LE>(LE)> rw=[&](LE e)->std::vector<LE>{ std::vector<LE> r; auto it=back.find(e); if(it!=back.end())r=it->second; LinE x=TB.l[e]; if(x.v.empty()){r.push_back(e);return r;} if(x.c!=0){ LE e0=addc(e,-x.c); for(LE q:rw(e0))r.push_back(addc(q,x.c)); return r; }
        std::vector<LE> acc={cst(0)}; for(auto&p:x.v){ std::vector<LE> opts; LE tv=var(p.first); auto bi=back.find(tv); if(bi!=back.end())opts=bi->second; Term t=TB.t[p.first]; if(t.a.empty()){ bool st=t.op==O_JOIN&&t.s.compare(0,pre.size(),pre)==0; if(!st)opts.push_back(tv); } else { std::vector<std::vector<LE>> as={{}}; for(LE a:t.a){ auto o=rw(a); std::vector<std::vector<LE>> n2; for(auto&u:as)for(LE q:o){ if(n2.size()>24)break; auto w=u;w.push_back(q);n2.push_back(w);} as.swap(n2);} for(auto&u:as){ LE m=t.op==O_EQ?mkEq(R,u[0]):t.op==O_LT?mkLt(R,u[0]):mk(R,t.op,u,t.s,t.k); opts.push_back(m);} }
          std::vector<LE> n2; for(LE u:acc)for(LE o:opts){ if(n2.size()>24)break; n2.push_back(add(u,o,p.second)); } acc.swap(n2); }
        for(LE q:acc)if(std::find(r.begin(),r.end(),q)==r.end())r.push_back(q); return r; };
      for(auto&p:S.facts)for(LE q:rw(var(p.first)))if(!isC(q))out.push_back({q,p.second});
      for(LE i:S.ineq)for(LE q:rw(i))if(!isC(q)){ LE l=mkLt(R,q); if(!isC(l))out.push_back({l,true}); }
      return out; };
    auto holds=[&](State&S,const std::map<TM,LE>&m,LE f,bool v){ std::map<LE,LE> memo; LE e=subst(S,f,m,memo); int d=decide(S,e); return d>=0&&(d!=0)==v; };
    auto cs=cands(A,true); if(n<=9)for(auto&c:cands(B,false))cs.push_back(c);
    std::function<bool(LE)> silly=[&](LE e)->bool{ for(auto&p:TB.l[e].v){ const Term x=TB.t[p.first]; if((x.op==O_LEFT||x.op==O_RIGHT||x.op==O_LO||x.op==O_HI||x.op==O_POS)&&x.a.size()==1){ if(isC(x.a[0]))return true; TM q=pure(x.a[0]); if(q>=0&&x.op!=O_POS&&(TB.t[q].op==O_H||TB.t[q].op==O_NEGINF))return true; } for(LE a:x.a)if(silly(a))return true; } return false; };
    State AX; AX.epoch=R.epoch; auto trivial=[&](TM t,bool v){ const Term x=TB.t[t]; if(x.op==O_EQ){ int d=decideEq(AX,x.a[0]); return d>=0&&(d!=0)==v; } if(x.op==O_LT){ int d=decideLt(AX,x.a[0]); return d>=0&&(d!=0)==v; } return false; };
    for(auto&c:cs){ TM t=pure(c.first); if(t<0||silly(c.first)||trivial(t,c.second))continue; if(holds(A,toA,c.first,c.second)&&holds(B,toB,c.first,c.second)){ const Term x=TB.t[t]; if(x.op==O_LT){ if(c.second)R.ineq.insert(x.a[0]); else R.ineq.insert(addc(scale(x.a[0],-1),1)); } else R.facts[t]=c.second; } }
    // template inequalities between positions of joined nodes and unchanged quantities
    if(n<=9){ std::vector<LE> qs; for(LE i:A.ineq)for(auto&p:TB.l[i].v)if((TB.t[p.first].op==O_PARAM||(RNG&&TB.t[p.first].op==O_POS))&&!stale(var(p.first),pre)&&std::find(qs.begin(),qs.end(),var(p.first))==qs.end())qs.push_back(var(p.first)); for(auto&nd:nodes)for(LE q:qs){ LE ps=mk(R,O_POS,{nd.second},"",R.epoch); for(LE d:{add(q,ps,-1),add(ps,q,-1),addc(add(q,ps,-1),1),addc(add(ps,q,-1),1)}){ if(!RNG&&cval0(d)!=0&&d!=add(q,ps,-1)&&d!=add(ps,q,-1))continue; LE l=mkLt(R,d); if(!isC(l)&&holds(A,toA,l,true)&&holds(B,toB,l,true))R.ineq.insert(d);} } }
    // adjacency
    for(auto&p:A.succ){ if(stale(p.first,pre)||stale(p.second,pre))continue; auto it=B.succ.find(p.first); if(it!=B.succ.end()&&it->second==p.second)R.succ.insert(p); }
    for(auto&p:pm)for(auto&q:pm){ auto i=A.succ.find(p.first.first); if(i==A.succ.end()||i->second!=q.first.first)continue; auto j=B.succ.find(p.first.second); if(j==B.succ.end()||j->second!=q.first.second)continue; R.succ[p.second]=q.second; }
    return R;
  }
  std::string canon(State&s){ std::string r; for(auto&p:s.env){ r+=std::to_string(num[p.first])+":"+std::to_string(p.second.le); for(auto&q:p.second.sub)r+=","+std::to_string(q.le); r+=";"; } std::vector<std::string> v; for(auto&p:s.mem)v.push_back(std::to_string(p.first.first)+"+"+std::to_string(p.first.second)+"="+std::to_string(p.second.v)); for(auto&p:s.rep)v.push_back("r"+std::to_string(p.first)+"="+std::to_string(p.second)); for(auto&p:s.facts)v.push_back("f"+std::to_string(p.first)+"="+std::to_string(p.second)); for(LE i:s.ineq)v.push_back("i"+std::to_string(i)); for(auto&p:s.succ)v.push_back("s"+std::to_string(p.first)+"="+std::to_string(p.second)); for(auto&g:s.ghost)v.push_back(g.first+std::to_string(g.second)); std::sort(v.begin(),v.end()); for(auto&x:v)r+=x+"|"; return r; }
  void atoms(LE e,std::set<TM>&out,std::set<LE>&seen){ if(!seen.insert(e).second)return; for(auto&p:TB.l[e].v){ const Term x=TB.t[p.first]; if(x.op==O_JOIN||x.op==O_NODE)out.insert(p.first); for(LE a:x.a)atoms(a,out,seen);} }
  void gc(State&s){ std::set<TM> keep; std::set<LE> seen; std::function<void(const V&)> F=[&](const V&v){ if(v.le>=0)atoms(v.le,keep,seen); for(auto&q:v.sub)F(q);}; for(auto&p:s.env)F(p.second); for(auto&p:s.mem)atoms(p.second.v,keep,seen); for(auto&g:s.ghost)atoms(g.second,keep,seen); for(auto&p:s.parOf){atoms(p.first,keep,seen);atoms(p.second,keep,seen);}
    auto within=[&](LE e){ std::set<TM> a; std::set<LE> sn; atoms(e,a,sn); for(TM t:a)if(!keep.count(t))return false; return true; };
    for(int round=0;round<2;++round){ std::set<TM> add2; std::set<LE> sn; for(auto&p:s.succ){ if(within(p.first)||within(p.second)){atoms(p.first,add2,sn);atoms(p.second,add2,sn);} } for(auto&p:s.rep){Op o=TB.t[p.first].op; if((o==O_LO||o==O_HI)&&within(var(p.first)))atoms(p.second,add2,sn);} keep.insert(add2.begin(),add2.end()); }
    for(auto it=s.facts.begin();it!=s.facts.end();)it=within(var(it->first))?std::next(it):s.facts.erase(it);
    for(auto it=s.rep.begin();it!=s.rep.end();)it=within(var(it->first))&&within(it->second)?std::next(it):s.rep.erase(it);
    for(auto it=s.ineq.begin();it!=s.ineq.end();)it=within(*it)?std::next(it):s.ineq.erase(it);
    for(auto it=s.succ.begin();it!=s.succ.end();)it=within(it->first)&&within(it->second)?std::next(it):s.succ.erase(it);
  }
  void arrive(State&s,const BasicBlock*b){
    std::string sig=sigOf(s,b)+"#"+std::to_string(s.inst[b]); auto key=std::make_pair(b,sig); auto it=invs.find(key); if(it==invs.end()){ Inv v; v.s=s; v.n=0; v.pending=true; invs[key]=v; work.push_back(key); return; }
    Inv&v=it->second; std::string pre="h"+hname(b)+"s"+std::to_string(std::hash<std::string>()(sig)%9973)+"_"; State j=join(v.s,s,b,pre,v.n); if(canon(j)==canon(v.s))return; if(++v.n>14){ error="no fixpoint"; return; } v.s=j; if(!v.pending){v.pending=true;work.push_back(key);} 
    if(DBG){ errs()<<"JOIN "<<pre<<" n="<<v.n<<"\n"; for(auto&p:j.env)if(p.second.le>=0)errs()<<"   "<<p.first->getName()<<" = "<<str(p.second.le)<<"\n"; for(auto&p:j.mem)errs()<<"   ["<<tstr(p.first.first)<<"+"<<p.first.second<<"] = "<<str(p.second.v)<<"\n"; for(auto&p:j.rep)errs()<<"   rep "<<tstr(p.first)<<" = "<<str(p.second)<<"\n"; for(auto&p:j.facts)errs()<<"   fact "<<tstr(p.first)<<" = "<<p.second<<"\n"; for(LE i:j.ineq)errs()<<"   pos "<<str(i)<<"\n"; for(auto&p:j.succ)errs()<<"   succ "<<str(p.first)<<" = "<<str(p.second)<<"\n"; }
  }
  void run(){
    int n=0; for(auto&a:F.args())num[&a]=n++; for(auto&b:F)for(auto&i:b)num[&i]=n++;
    // liveness
    std::map<const BasicBlock*,std::set<const Value*>> use,def; for(auto&b:F){ for(auto&i:b){ if(!isa<PHINode>(i))for(auto&o:i.operands())if((isa<Instruction>(o)&&!def[&b].count(o))||isa<Argument>(o))use[&b].insert(o); def[&b].insert(&i);} }
    bool ch=true; while(ch){ ch=false; for(auto&b:F){ std::set<const Value*> in=use[&b]; for(auto*sc:successors(&b)){ for(auto*v:live[sc])if(!def[&b].count(v))in.insert(v); for(auto&p:sc->phis()){Value*v=p.getIncomingValueForBlock(&b); if((isa<Instruction>(v)&&!def[&b].count(v))||isa<Argument>(v))in.insert(v);} } for(auto&p:b.phis())in.erase(&p); if(in!=live[&b]){live[&b]=in;ch=true;} } }
    DominatorTree DT(F); for(auto&b:F)for(auto*sc:successors(&b))if(DT.dominates(sc,&b))hdrs.insert(sc);
    State s; int ai=0; for(auto&a:F.args()){ std::string nm=a.getName().str(); s.env[&a]=mkV(var(TB.term({O_PARAM,a.getType()->isPointerTy()?0:1,nm.empty()?"a"+std::to_string(ai):nm,{}}))); ++ai; }
    stack.push_back({s,&*F.getEntryBlock().begin()});
    for(;;){ while(!stack.empty()){ auto p=std::move(stack.back()); stack.pop_back(); ++explored; runPath(std::move(p.first),p.second); if(!error.empty())return; if(viol.size()>20)return; }
      if(work.empty())break; auto k=work.back(); work.pop_back(); Inv&v=invs[k]; v.pending=false; State c=v.s; ++explored; runPath(c,k.first->getFirstNonPHI()); if(explored>20000){error="exploration limit";return;} }
  }
};
static std::string js(const std::string&s){std::string r="\"";for(unsigned char c:s){if(c=='"'||c=='\\'){r+='\\';r+=c;}else if(c=='\n')r+="\\n";else if(c<32)r+=' ';else r+=c;}return r+"\"";}
static int64_t offProbe(Function*f,bool ld){ for(auto&b:*f)if(auto*r=dyn_cast<ReturnInst>(b.getTerminator())){ if(auto*c=dyn_cast<ConstantInt>(r->getReturnValue()))return c->getSExtValue(); Value*v=r->getReturnValue()->stripPointerCasts(); while(auto*ci=dyn_cast<CastInst>(v))v=ci->getOperand(0); if(ld){if(auto*l=dyn_cast<LoadInst>(v))v=l->getPointerOperand();else return -1;} APInt off(64,0); Value*base=v->stripAndAccumulateConstantOffsets(f->getParent()->getDataLayout(),off,true); if(isa<Argument>(base))return off.getSExtValue(); } return -1; }
int main(int argc,char**argv){
  std::string file,re=".*"; bool dump=false; for(int i=1;i<argc;++i){std::string a=argv[i]; if(a=="-d")DBG=true; else if(a=="-dump")dump=true; else if(a=="-f")re=argv[++i]; else file=a;}
  LLVMContext C; SMDiagnostic err; auto M=parseIRFile(file,err,C); if(!M){err.print("miord",errs());return 2;}
  std::set<const Function*> rec; {CallGraph CG(*M); for(auto it=scc_begin(&CG);!it.isAtEnd();++it)if(it.hasCycle())for(auto*n:*it)if(n->getFunction())rec.insert(n->getFunction());}
  RNG=M->getFunction("probe_rng")!=nullptr; HSH=M->getFunction("probe_hash")!=nullptr; HINP=M->getFunction("probe_inplace")!=nullptr; HSHU=M->getFunction("probe_hash_unique")!=nullptr;
  std::regex rx(re); std::vector<Function*> roots;
  for(auto&f:*M){ if(f.isDeclaration())continue; bool root=f.getName().starts_with("drv_")||f.getName().starts_with("probe_"); f.removeFnAttr(Attribute::OptimizeNone); if(root){ if(f.getName().starts_with("probe_")||std::regex_match(f.getName().str(),rx))roots.push_back(&f); continue; }
    const FI&fi=finf(&f); if(fi.k!=K_INLINE||rec.count(&f)){f.removeFnAttr(Attribute::AlwaysInline);f.addFnAttr(Attribute::NoInline);} else {f.removeFnAttr(Attribute::NoInline);f.addFnAttr(Attribute::AlwaysInline); if(f.hasLinkOnceLinkage()||f.hasWeakLinkage())f.setLinkage(GlobalValue::InternalLinkage),f.setComdat(nullptr);} }
  std::set<Function*> rs(roots.begin(),roots.end()); for(auto&f:*M)if(!f.isDeclaration()&&f.getName().starts_with("drv_")&&!rs.count(&f))f.deleteBody();
  { LoopAnalysisManager LAM;FunctionAnalysisManager FAM;CGSCCAnalysisManager CGAM;ModuleAnalysisManager MAM; PassBuilder PB;PB.registerModuleAnalyses(MAM);PB.registerCGSCCAnalyses(CGAM);PB.registerFunctionAnalyses(FAM);PB.registerLoopAnalyses(LAM);PB.crossRegisterProxies(LAM,FAM,CGAM,MAM);
    ModulePassManager MPM; MPM.addPass(AlwaysInlinerPass(false)); MPM.addPass(createModuleToFunctionPassAdaptor(SROAPass(SROAOptions::PreserveCFG))); MPM.run(*M,MAM); for(auto*f:roots)removeUnreachableBlocks(*f); }
  fic.clear();
  if(dump){for(auto*f:roots)f->print(outs());return 0;}
  Lay L; for(auto*f:roots){ StringRef n=f->getName(); if(n=="probe_io")L.io=offProbe(f,false); }
  for(auto*f:roots){ StringRef n=f->getName(); auto rel=[&](bool ld=false){int64_t o=offProbe(f,ld);return o<0?o:o-L.io;}; if(n=="probe_left")L.left=rel(); if(n=="probe_right")L.right=rel(); if(n=="probe_parent")L.parent=rel(); if(n=="probe_nsize")L.size=rel(); if(n=="probe_hdr")L.hdr=offProbe(f,true); if(n=="probe_cnt")L.cnt=offProbe(f,true); if(n=="probe_itnode")L.itn=offProbe(f,true); if(n=="probe_itcont")L.itc=offProbe(f,true); if(n=="probe_view")L.view=offProbe(f,true); if(n=="probe_itunch")L.itu=offProbe(f,true); }
  if(DBG)errs()<<"layout io="<<L.io<<" left="<<L.left<<" right="<<L.right<<" parent="<<L.parent<<" size="<<L.size<<" hdr="<<L.hdr<<" cnt="<<L.cnt<<"\n";
  std::string out="{\"functions\":["; bool first=true;
  for(auto*f:roots){ if(!f->getName().starts_with("drv_"))continue; auto t0=std::chrono::steady_clock::now(); In in(*f,L); in.run(); double dt=std::chrono::duration<double>(std::chrono::steady_clock::now()-t0).count();
    uint64_t ni=0;for(auto&b:*f)ni+=b.size(); if(!first)out+=",";first=false;
    out+="\n{\"name\":"+js(f->getName().str())+",\"instructions\":"+std::to_string(ni)+",\"steps\":"+std::to_string(in.steps)+",\"paths\":"+std::to_string(in.explored)+",\"joins\":"+std::to_string(in.joins)+",\"loop_invariants\":"+std::to_string(in.invs.size())+",\"obligations\":"+std::to_string(in.proved.size())+",\"user_sites\":"+std::to_string(in.userSites.size())+",\"wall\":"+std::to_string(dt)+",\"error\":"+js(in.error)+",\"unknown\":[";
    bool q=true; for(auto&u:in.unknown){if(!q)out+=",";q=false;out+=js(u);} out+="],\"violations\":["; q=true; for(auto&v:in.viol){ if(!q)out+=",";q=false; out+="{\"rule\":"+js(v.rule)+",\"where\":"+js(v.where)+",\"msg\":"+js(v.msg)+",\"trail\":["; bool g=true; for(auto&t:v.trail){if(!g)out+=",";g=false;out+=js(t);} out+="]}"; } out+="]}"; }
  out+="\n]}\n"; std::cout<<out; return 0;
}
