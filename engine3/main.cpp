#include <chrono>
#include "heap.hpp"
#include "llvm/IR/LLVMContext.h"
#include "llvm/IRReader/IRReader.h"
#include "llvm/Support/SourceMgr.h"
#include "llvm/Analysis/CallGraph.h"
#include "llvm/Analysis/ValueTracking.h"
#include "llvm/Analysis/LoopInfo.h"
#include "llvm/Analysis/CGSCCPassManager.h"
#include "llvm/Analysis/LoopAnalysisManager.h"
#include "llvm/ADT/SCCIterator.h"
#include "llvm/Passes/PassBuilder.h"
#include "llvm/Transforms/IPO/AlwaysInliner.h"
#include "llvm/Transforms/Scalar/SROA.h"
#include "llvm/Transforms/Utils/Local.h"
#include "llvm/IR/CFG.h"
#include "llvm/IR/Dominators.h"
#include <iostream>
#include <regex>
#include <chrono>
static int TMAX=100;static bool DBG=false;
static Str js(const Str&s){Str o="\"";for(char c:s){if(c=='"'||c=='\\'){o+='\\';o+=c;}else if((unsigned char)c<32)o+=' ';else o+=c;}return o+"\"";}
static Str where(const Instruction*I){
  if(!I)return "";DebugLoc d=I->getDebugLoc();if(!d)return "";
  Str s;int k=0;for(const DILocation*l=d.get();l&&k<4;l=l->getInlinedAt(),++k){Str f=l->getFilename().str();auto p=f.find("multi_index/");if(p!=Str::npos)f=f.substr(p+12);else{auto q=f.rfind('/');if(q!=Str::npos)f=f.substr(q+1);}
    if(k)s+=" <- ";s+=f+":"+std::to_string(l->getLine());if(auto*sp=l->getScope()->getSubprogram())s+=" "+sp->getName().str();}
  return s;
}
#include "lists.hpp"
struct Eng:Heap{
  Function&F;const DataLayout&DL;Str name;
  std::set<std::pair<const BasicBlock*,const BasicBlock*>> back;
  std::map<const BasicBlock*,std::set<const Value*>> live;
  std::map<const Value*,int> num;std::vector<const Value*> vals;
  std::map<std::pair<const BasicBlock*,Str>,int> seen;
  long steps=0,states=0,configs=0,paths=0,folds=0;
  struct VR{Str rule,where,msg;std::vector<Str> trail;};std::vector<VR> viol;std::set<Str> unknown;Str error;std::set<Str> vkeys;
  std::map<int,std::vector<State>> work;size_t nwork=0;std::vector<Str> cfgName;
  std::function<void(State&,const V*)> atRet;
  ListWorld*LW=nullptr;
  Eng(Function&f,const Lay&l):F(f),DL(f.getParent()->getDataLayout()){L=l;name=f.getName().str();analyse();}
  void analyse(){
    DominatorTree DT(F);for(auto&b:F)for(auto*s:successors(&b))if(DT.isReachableFromEntry(&b)&&DT.dominates(s,&b))back.insert({&b,s});
    int n=0;for(auto&a:F.args()){num[&a]=n++;vals.push_back(&a);}for(auto&i:instructions(F)){num[&i]=n++;vals.push_back(&i);}
    bool ch=true;while(ch){ch=false;for(auto&b:F){std::set<const Value*> s;for(auto*u:successors(&b)){for(auto*v:live[u])s.insert(v);for(auto&i:*u){auto*p=dyn_cast<PHINode>(&i);if(!p)break;Value*v=p->getIncomingValueForBlock(&b);if(isa<Instruction>(v)||isa<Argument>(v))s.insert(v);}}
      for(auto it=b.rbegin();it!=b.rend();++it){s.erase(&*it);if(isa<PHINode>(*it))continue;for(auto&o:it->operands())if(isa<Instruction>(o)||isa<Argument>(o))s.insert(o);}
      if(s!=live[&b]){live[&b]=s;ch=true;}}}
  }
  V ev(State&S,Value*v){
    if(isa<ConstantPointerNull>(v))return V::nil();
    if(auto*c=dyn_cast<ConstantInt>(v))return V::i(c->getBitWidth()>64?Lin(0):c->getBitWidth()==1?Lin(c->getZExtValue()):Lin(c->getSExtValue()));
    if(isa<UndefValue>(v))return V();
    if(auto*ce=dyn_cast<ConstantExpr>(v)){if(ce->isCast())return ev(S,ce->getOperand(0));return V();}
    auto i=S.env.find(v);return i==S.env.end()?V():i->second;
  }
  void set(State&S,Instruction*I,V v){S.env[I]=v;}
  static bool isTrue(const V&v){if(v.k==INT&&v.n.isC())return v.n.c&1;throw Fail{"a branch depends on an undefined value"};}
  V load(State&S,const V&a){
    if(a.k!=P)throw Fail{"load through an undefined pointer"};
    if(a.b==MEM){auto&m=S.mem[a.id];auto i=m.find(a.off);if(i==m.end()&&LW&&a.id==9&&LW->has_cdata)return LW->cdata;return i==m.end()?V():i->second;}
    int n=deref(S,a);++obl;auto&f=S.nodes[n].f;auto i=f.find(a.off);if(i==f.end())throw Fail{"load of a field outside the index node (offset "+std::to_string(a.off)+")"};return i->second;
  }
  void store(State&S,const V&a,const V&v){
    if(a.k!=P)throw Fail{"store through an undefined pointer"};
    if(a.b==MEM){S.mem[a.id][a.off]=v;return;}
    int n=deref(S,a);++obl;auto&f=S.nodes[n].f;if(!f.count(a.off))throw Fail{"store to a field outside the index node (offset "+std::to_string(a.off)+")"};
    f[a.off]=v;
  }
  V bin(State&S,BinaryOperator*I){
    V a=ev(S,I->getOperand(0)),b=ev(S,I->getOperand(1));unsigned op=I->getOpcode();
    auto K=[](const V&v){return v.k==INT&&v.n.isC();};
    if(op==Instruction::And){
      if(K(a)&&!K(b))std::swap(a,b);
      if(K(a)&&K(b))return V::i(a.n.c&b.n.c);
      if(K(b)&&b.n.c==1){if(a.k==P)return a.c<0?[]{V v;v.k=BIT;return v;}():V::i(a.c);if(a.k==UNK||a.k==BIT){V v;v.k=BIT;return v;}}
      if(K(b)&&b.n.c==-2){if(a.k==P){a.c=0;return a;}if(a.k==UNK||a.k==BIT)return V();}
      if(K(b)&&b.n.c==0)return V::i(0);
      return V();
    }
    if(op==Instruction::Or||op==Instruction::Xor||op==Instruction::Add){
      if(a.k!=P&&b.k==P)std::swap(a,b);
      if(a.k==P){
        if(K(b)){if(b.n.c==0)return a;if(b.n.c==1&&op!=Instruction::Add){if(a.c<0)return op==Instruction::Or?(a.c=1,a):a;a.c=op==Instruction::Or?1:1-a.c;return a;}if(b.n.c==1&&a.c==0){a.c=1;return a;}}
        if(b.k==BIT&&a.c==0){a.c=-1;return a;}
        if(b.is(NIL)&&b.c==0)return a;if(a.is(NIL)&&a.c==0&&b.k==P)return b;
        return V();
      }
    }
    if(K(a)&&K(b)){long x=a.n.c,y=b.n.c;switch(op){case Instruction::Or:return V::i(x|y);case Instruction::Xor:return V::i(x^y);case Instruction::Shl:return V::i(x<<y);case Instruction::LShr:return V::i((long)((unsigned long)x>>y));case Instruction::Mul:return V::i(x*y);}}
    if(a.k==INT&&b.k==INT){if(op==Instruction::Add)return V::i(a.n+b.n);if(op==Instruction::Sub)return V::i(a.n-b.n);}
    return V();
  }
  bool cmp(State&S,ICmpInst*I){
    V a=ev(S,I->getOperand(0)),b=ev(S,I->getOperand(1));auto p=I->getPredicate();
    if(a.k==P||b.k==P){
      auto z=[](V&v){if(v.k==INT&&v.n.isC()&&(v.n.c==0||v.n.c==1)){int c=v.n.c;v=V::nil();v.c=c;}};z(a);z(b);
      if(a.k!=P||b.k!=P||!I->isEquality())throw Fail{"comparison of an undefined value"};
      bool e=eq(S,a,b);return p==ICmpInst::ICMP_EQ?e:!e;
    }
    if(a.k!=INT||b.k!=INT)throw Fail{"comparison of an undefined value"};
    Lin d=a.n-b.n; // a-b
    if(d.isC()){switch(p){case ICmpInst::ICMP_EQ:return d.c==0;case ICmpInst::ICMP_NE:return d.c!=0;case ICmpInst::ICMP_ULT:case ICmpInst::ICMP_SLT:if(a.n.isC()&&p==ICmpInst::ICMP_ULT)return (unsigned long)a.n.c<(unsigned long)b.n.c;return d.c<0;case ICmpInst::ICMP_ULE:case ICmpInst::ICMP_SLE:return d.c<=0;case ICmpInst::ICMP_UGT:case ICmpInst::ICMP_SGT:return d.c>0;case ICmpInst::ICMP_UGE:case ICmpInst::ICMP_SGE:return d.c>=0;default:throw Fail{"comparison"};}}
    if(I->isEquality()){Split sp;State T;
      bool neq=false;for(auto&n:S.neq){Lin e=n-d,f=n+d;if((e.isC()&&e.c==0)||(f.isC()&&f.c==0))neq=true;}
      if(neq)return p!=ICmpInst::ICMP_EQ;
      alt(S,sp,[&](State&T){unifySz(T,a.n,b.n);});alt(S,sp,[&](State&T){addNeq(T,d);});throw sp;}
    if(p==ICmpInst::ICMP_ULT&&b.n.isC()&&b.n.c==0)return false;if(p==ICmpInst::ICMP_UGE&&b.n.isC()&&b.n.c==0)return true;
    // d>=0 or -d-1>=0 (a<b)
    Lin lt=Lin(0)-d-Lin(1),ge=d,gt=d-Lin(1),le=Lin(0)-d;
    auto known=[&](const Lin&l){for(auto&c:S.cons){Lin x=l-c;if(x.isC()&&x.c>=0)return true;}return false;};
    auto dec=[&](Lin yes,Lin no)->bool{if(known(yes))return true;if(known(no))return false;Split sp;alt(S,sp,[&](State&T){addCons(T,yes);});alt(S,sp,[&](State&T){addCons(T,no);});throw sp;};
    switch(p){case ICmpInst::ICMP_ULT:case ICmpInst::ICMP_SLT:return dec(lt,ge);case ICmpInst::ICMP_UGE:case ICmpInst::ICMP_SGE:return !dec(lt,ge);
      case ICmpInst::ICMP_UGT:case ICmpInst::ICMP_SGT:return dec(gt,le);case ICmpInst::ICMP_ULE:case ICmpInst::ICMP_SLE:return !dec(gt,le);default:throw Fail{"comparison"};}
  }
  void report(const Viol&v,State&S,const Instruction*I){
    Str k=v.rule+v.msg+where(I);if(!vkeys.insert(k).second)return;VR r{v.rule,where(I),v.msg+" ["+cfgName[S.cfg]+"]",{}};
    size_t b=S.trail.size()>14?S.trail.size()-14:0;for(size_t i=b;i<S.trail.size();++i)r.trail.push_back("line "+std::to_string(S.trail[i]));viol.push_back(r);
    if(DBG){std::vector<const Value*> o;for(auto*v:vals)if(S.env.count(v))o.push_back(v);errs()<<"VIOL "<<v.rule<<": "<<v.msg<<" cfg "<<cfgName[S.cfg]<<"\n  "<<key(S,o)<<"\n";}
  }
  void enter(State&S,BasicBlock*to){ // take an edge
    BasicBlock*from=S.bb;std::vector<std::pair<const Value*,V>> ph;
    auto it=to->begin();for(;isa<PHINode>(*it);++it)ph.push_back({&*it,ev(S,cast<PHINode>(*it).getIncomingValueForBlock(from))});
    for(auto&p:ph)S.env[p.first]=p.second;
    auto&lv=live[to];for(auto i=S.env.begin();i!=S.env.end();){if(!lv.count(i->first)&&!(isa<Instruction>(i->first)&&cast<Instruction>(i->first)->getParent()==to&&isa<PHINode>(i->first)))i=S.env.erase(i);else ++i;}
    S.prev=from;S.bb=to;S.it=it;
  }
  void run(){
    // states with fewer loop iterations first: a program that never closes is still refuted early
    auto t0=std::chrono::steady_clock::now();
    while(!work.empty()){
      auto wb=work.begin();State S=std::move(wb->second.back());wb->second.pop_back();--nwork;if(wb->second.empty())work.erase(wb);
      Instruction*I=nullptr;
      try{
        for(;;){
          I=&*S.it;if(++steps>60000000){error="step limit";return;}
          if(!exec(S,I))break;
        }
      }catch(Split&sp){if(nwork+sp.alts.size()>200000||seen.size()>60000||std::chrono::steady_clock::now()-t0>std::chrono::seconds(TMAX)){if(viol.empty())error="state limit";return;}if(sp.alts.empty())++paths;for(auto&a:sp.alts){++nwork;work[a.iters].push_back(std::move(a));}states+=sp.alts.size();}
      catch(Infeasible&){++paths;}
      catch(Viol&v){++paths;report(v,S,I);if(viol.size()>=3)return;}
      catch(Fail&f){++paths;unknown.insert(f.msg+" at "+where(I)+" ["+cfgName[S.cfg]+"]");if(unknown.size()>40)return;}
    }
  }
  bool exec(State&S,Instruction*I){
    if(auto*b=dyn_cast<BranchInst>(I)){
      BasicBlock*to=b->getSuccessor(0);
      if(b->isConditional()){bool t=isTrue(ev(S,b->getCondition()));to=b->getSuccessor(t?0:1);if(auto d=I->getDebugLoc())S.trail.push_back(d.getLine());if(S.trail.size()>60)S.trail.erase(S.trail.begin(),S.trail.begin()+30);}
      return go(S,to);
    }
    if(auto*s=dyn_cast<SwitchInst>(I)){V v=ev(S,s->getCondition());if(v.k!=INT||!v.n.isC())throw Fail{"switch on an unknown value"};BasicBlock*to=s->getDefaultDest();for(auto&c:s->cases())if(c.getCaseValue()->getSExtValue()==v.n.c)to=c.getCaseSuccessor();return go(S,to);}
    if(auto*r=dyn_cast<ReturnInst>(I)){V v;if(r->getReturnValue())v=ev(S,r->getReturnValue());++obl;atRet(S,&v);++paths;return false;}
    if(isa<UnreachableInst>(I)){++paths;return false;}
    if(auto*l=dyn_cast<LoadInst>(I)){V v;if(!isa<GlobalVariable>(getUnderlyingObject(l->getPointerOperand())))v=load(S,ev(S,l->getPointerOperand()));if(v.k==P&&l->getType()->isIntegerTy()&&DL.getTypeSizeInBits(l->getType())<64)throw Fail{"partial load of a link"};set(S,I,v);}
    else if(isa<StoreInst>(I)&&isa<GlobalVariable>(getUnderlyingObject(cast<StoreInst>(I)->getPointerOperand())))throw Fail{"store to a global"};
    else if(auto*st=dyn_cast<StoreInst>(I)){store(S,ev(S,st->getPointerOperand()),ev(S,st->getValueOperand()));}
    else if(auto*g=dyn_cast<GetElementPtrInst>(I)){
      V p=ev(S,g->getPointerOperand());if(p.k!=P){set(S,I,V());}
      else{APInt off(64,0);MapVector<Value*,APInt> vo;if(!g->collectOffset(DL,64,vo,off))throw Fail{"address computation"};long o=off.getSExtValue();
        for(auto&x:vo){V i=ev(S,x.first);if(i.k!=INT||!i.n.isC())throw Fail{"address with unknown index"};o+=i.n.c*x.second.getSExtValue();}
        if(p.b==NIL&&o)throw Viol{"null dereference","a field of a null link is addressed"};
        p.off+=o;set(S,I,p);}
    }
    else if(auto*c=dyn_cast<ICmpInst>(I)){set(S,I,V::i(cmp(S,c)));}
    else if(auto*b=dyn_cast<BinaryOperator>(I)){set(S,I,bin(S,b));}
    else if(auto*c=dyn_cast<CastInst>(I)){V v=ev(S,c->getOperand(0));if(isa<TruncInst>(c)&&v.k==INT&&v.n.isC()){unsigned w=c->getType()->getIntegerBitWidth();if(w<63)v.n.c&=(1L<<w)-1;}else if(isa<TruncInst>(c)&&v.k==P){unsigned w=c->getType()->getIntegerBitWidth();(void)w;if(v.c<0){v=V();v.k=BIT;}else v=V::i(v.c);}set(S,I,v);}
    else if(isa<FreezeInst>(I)){set(S,I,ev(S,I->getOperand(0)));}
    else if(auto*s=dyn_cast<SelectInst>(I)){bool t=isTrue(ev(S,s->getCondition()));set(S,I,ev(S,t?s->getTrueValue():s->getFalseValue()));}
    else if(isa<AllocaInst>(I)){int m=1000000+num[I];S.mem[m];V v=V::ptr(MEM,m);set(S,I,v);}
    else if(auto*x=dyn_cast<InsertValueInst>(I)){V a=ev(S,x->getAggregateOperand()),v=ev(S,x->getInsertedValueOperand());if(a.k!=AGG){a=V();a.k=AGG;}if(x->getNumIndices()!=1)throw Fail{"aggregate"};unsigned k=x->getIndices()[0];if(a.agg.size()<=k)a.agg.resize(k+1);a.agg[k]=v;set(S,I,a);}
    else if(auto*x=dyn_cast<ExtractValueInst>(I)){V a=ev(S,x->getAggregateOperand());unsigned k=x->getIndices()[0];set(S,I,a.k==AGG&&k<a.agg.size()?a.agg[k]:V());}
    else if(auto*ci=dyn_cast<CallBase>(I)){
      auto*f=ci->getCalledFunction();StringRef n=f?f->getName():"";
      if(isa<DbgInfoIntrinsic>(I)||n.starts_with("llvm.lifetime")||n.starts_with("llvm.assume")||n.starts_with("llvm.experimental")||n.starts_with("llvm.dbg")){}
      else if(n.starts_with("llvm.memcpy")||n.starts_with("llvm.memmove")){
        V d=ev(S,ci->getArgOperand(0)),s=ev(S,ci->getArgOperand(1)),z=ev(S,ci->getArgOperand(2));
        if(d.is(MEM)&&s.is(MEM)&&z.k==INT&&z.n.isC()){auto src=S.mem[s.id];for(auto&p:src)if(p.first>=s.off&&p.first<s.off+z.n.c)S.mem[d.id][p.first-s.off+d.off]=p.second;}
        else throw Fail{"block copy"};
      }
      else if(n.starts_with("llvm.memset")){V d=ev(S,ci->getArgOperand(0));if(!d.is(MEM))throw Fail{"block fill"};}
      else if(n.starts_with("llvm.umul")||n.starts_with("llvm.uadd"))throw Fail{"arithmetic"};
      else if(LW&&n=="vp_eq"){V a=ev(S,ci->getArgOperand(0)),b=ev(S,ci->getArgOperand(1));if(!a.isNode()||!b.isNode()||!LW->eq[S.cfg])throw Fail{"comparison of an unseen element"};set(S,I,V::i(LW->eq[S.cfg](a.id,b.id)));}
      else throw Fail{"call of "+n.str()};
    }
    else throw Fail{Str("instruction ")+I->getOpcodeName()};
    ++S.it;return true;
  }
  bool go(State&S,BasicBlock*to){
    BasicBlock*from=S.bb;
    if(back.count({from,to})){
      enter(S,to);
      if(!LW)fold(S);++folds;
      std::vector<const Value*> o;for(auto*v:vals)if(S.env.count(v))o.push_back(v);
      Str k=key(S,o)+"@"+(LW?std::to_string(S.cfg):retKey(S));
      if(!seen.emplace(std::make_pair((const BasicBlock*)to,k),1).second){++paths;return false;}
      ++S.iters;
      if(DBG&&seen.size()<100000)errs()<<"LOOP "<<where(&*S.it)<<" "<<k.substr(0,600)<<"\n";
      return true;
    }
    enter(S,to);return true;
  }
  std::function<Str(State&)> retKey=[](State&){return Str();};
  void add(State&S,const Str&nm,std::vector<V> args){
    cfgName.push_back(nm);S.cfg=cfgName.size()-1;++configs;size_t i=0;for(auto&a:F.args())if(i<args.size())S.env[&a]=args[i++];
    S.bb=&F.getEntryBlock();S.it=S.bb->begin();++nwork;work[0].push_back(S);
  }
};
#include "trees.hpp"
#include "listcfg.hpp"
// offset of the field a probe function reads or addresses
static long probeOff(Function*f,bool&ptrTagged){
  ptrTagged=false;long r=-1;const DataLayout&DL=f->getParent()->getDataLayout();
  for(auto&I:instructions(*f))if(auto*l=dyn_cast<LoadInst>(&I)){APInt o(64,0);const Value*b=l->getPointerOperand()->stripAndAccumulateConstantOffsets(DL,o,true);if(isa<Argument>(b))r=o.getSExtValue();}
  return r;
}
int main(int argc,char**argv){
  Str file,re=".*";bool dump=false;for(int i=1;i<argc;++i){Str a=argv[i];if(a=="-d")DBG=true;else if(a=="-dump")dump=true;else if(a=="-f")re=argv[++i];else if(a=="-t")TMAX=atoi(argv[++i]);else file=a;}
  LLVMContext C;SMDiagnostic err;auto M=parseIRFile(file,err,C);if(!M){err.print("mishape",errs());return 2;}
  std::set<const Function*> rec;{CallGraph CG(*M);for(auto it=scc_begin(&CG);!it.isAtEnd();++it)if(it.hasCycle())for(auto*n:*it)if(n->getFunction())rec.insert(n->getFunction());}
  std::regex rx(re);std::vector<Function*> roots;
  for(auto&f:*M){if(f.isDeclaration())continue;f.removeFnAttr(Attribute::OptimizeNone);StringRef n=f.getName();bool root=n.starts_with("drv_")||n.starts_with("probe_");
    if(root){f.addFnAttr(Attribute::NoInline);f.removeFnAttr(Attribute::AlwaysInline);if(n.starts_with("probe_")||std::regex_match(n.str(),rx))roots.push_back(&f);continue;}
    if(rec.count(&f)){f.removeFnAttr(Attribute::AlwaysInline);f.addFnAttr(Attribute::NoInline);}
    else{f.removeFnAttr(Attribute::NoInline);f.addFnAttr(Attribute::AlwaysInline);if(f.hasLinkOnceLinkage()||f.hasWeakLinkage())f.setLinkage(GlobalValue::InternalLinkage);}}
  {LoopAnalysisManager LAM;FunctionAnalysisManager FAM;CGSCCAnalysisManager CGAM;ModuleAnalysisManager MAM;PassBuilder PB;PB.registerModuleAnalyses(MAM);PB.registerCGSCCAnalyses(CGAM);PB.registerFunctionAnalyses(FAM);PB.registerLoopAnalyses(LAM);PB.crossRegisterProxies(LAM,FAM,CGAM,MAM);
    ModulePassManager MPM;MPM.addPass(AlwaysInlinerPass(false));MPM.addPass(createModuleToFunctionPassAdaptor(SROAPass(SROAOptions::PreserveCFG)));MPM.run(*M,MAM);for(auto*f:roots)removeUnreachableBlocks(*f);}
  if(dump){for(auto*f:roots)f->print(outs());return 0;}
  Lay L;std::map<Str,long> probe;
  for(auto*f:roots)if(f->getName().starts_with("probe_")){bool t;probe[f->getName().str().substr(6)]=probeOff(f,t);}
  auto pr=[&](const char*n){auto i=probe.find(n);return i==probe.end()?-1L:i->second;};
  L.par=pr("parent");L.left=pr("left");L.right=pr("right");L.col=pr("color");L.size=pr("size");L.comp=L.col==L.par;
  Str out="{\"functions\":[";bool first=true;
  for(auto*f:roots){
    if(!f->getName().starts_with("drv_"))continue;
    Eng E(*f,L);Str nm=f->getName().str().substr(4);
    if(!treeConfigs(E,nm)&&!listConfigs(E,nm,probe))E.error="no configuration for this entry";else E.run();
    unsigned long ni=0;for(auto&b:*f)ni+=b.size();
    if(!first)out+=",";first=false;
    out+="\n{\"name\":"+js(f->getName().str())+",\"instructions\":"+std::to_string(ni)+",\"steps\":"+std::to_string(E.steps)+",\"configurations\":"+std::to_string(E.configs)+",\"states\":"+std::to_string(E.states)+",\"paths\":"+std::to_string(E.paths)+",\"loop_heaps\":"+std::to_string(E.seen.size())+",\"folds\":"+std::to_string(E.folds)+",\"obligations\":"+std::to_string(E.obl)+",\"error\":"+(E.error.empty()?Str("null"):js(E.error))+",\"unknown\":[";
    bool q=true;for(auto&u:E.unknown){if(!q)out+=",";q=false;out+=js(u);}
    out+="],\"violations\":[";q=true;
    for(auto&v:E.viol){if(!q)out+=",";q=false;out+="{\"rule\":"+js(v.rule)+",\"where\":"+js(v.where)+",\"msg\":"+js(v.msg)+",\"trail\":[";bool g=true;for(auto&t:v.trail){if(!g)out+=",";g=false;out+=js(t);}out+="]}";}
    out+="]}";
  }
  out+="\n]}\n";std::cout<<out;return 0;
}
