#include "interp.hpp"
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/IR/LLVMContext.h>
#include <llvm/Passes/PassBuilder.h>
#include <llvm/Transforms/IPO/AlwaysInliner.h>
#include <llvm/Transforms/Scalar/SROA.h>
#include <llvm/Transforms/Scalar/SimplifyCFG.h>
#include <llvm/Transforms/IPO/GlobalDCE.h>
#include <llvm/Transforms/Utils/Local.h>
#include <llvm/ADT/SCCIterator.h>
#include <llvm/Analysis/CallGraph.h>
#include <llvm/Support/raw_ostream.h>
#include <iostream>
#include <regex>
#include <chrono>
using namespace llvm;
void setRoles(const std::set<const Function*>&r,const std::set<const Function*>&d);
extern bool modularMode,lockMode; extern int64_t lockOff[2];
std::unique_ptr<Interp> makeInterp(Function&F,Options o);
static std::string finfoName(const Function*f){std::string s=stripTemplates(demangleFn(f)); size_t c=s.find('('); s=s.substr(0,c); size_t sp=s.rfind(' '); return sp==std::string::npos?s:s.substr(sp+1);}
static std::string js(const std::string&s){std::string r="\"";for(unsigned char c:s){if(c=='"'||c=='\\'){r+='\\';r+=c;}else if(c=='\n')r+="\\n";else if(c<32)r+=' ';else r+=c;}return r+"\"";}
static bool callsPrim(const Function&f,const char*cls,std::set<std::string> names){
  for(auto&b:f)for(auto&I:b)if(auto*c=dyn_cast<CallBase>(&I))if(auto*g=c->getCalledFunction()){
    std::string n=stripTemplates(demangleFn(g)); for(auto&x:names){ if(n.find(std::string(cls)+"::"+x+"(")!=std::string::npos)return true; }}
  return false;
}
static void leavesOf(Type*t,int64_t off,std::string path,bool al,bool fn,const DataLayout&DL,std::vector<Leaf>&out){
  if(auto*st=dyn_cast<StructType>(t)){ std::string n=st->hasName()?st->getName().str():""; size_t d=n.find('.'); if(d!=std::string::npos)n=n.substr(d+1); 
    if(n.compare(0,6,"vp::Al")==0)al=true; for(const char*q:{"vp::KE","vp::Cmp","vp::Hash","vp::Eq"})if(n.compare(0,strlen(q),q)==0)fn=true;
    size_t c=n.rfind("::"); std::string sn=c==std::string::npos?n:n.substr(c+2);
    auto*L=DL.getStructLayout(st); for(unsigned i=0;i<st->getNumElements();++i)leavesOf(st->getElementType(i),off+(int64_t)L->getElementOffset(i),path+(path.empty()?"":"/")+sn,al,fn,DL,out); return; }
  if(auto*at=dyn_cast<ArrayType>(t)){ if(at->getElementType()->isIntegerTy(8))return; for(uint64_t i=0;i<at->getNumElements();++i)leavesOf(at->getElementType(),off+(int64_t)(i*DL.getTypeAllocSize(at->getElementType())),path,al,fn,DL,out); return; }
  if(t->isIntegerTy(8))return;
  Leaf l; l.off=off; l.size=DL.getTypeStoreSize(t); l.path=path; l.alloc=al; l.functor=fn; l.flt=t->isFloatTy(); out.push_back(l);
}
int main(int argc,char**argv){
  std::string file,re=".*"; bool dump=false,trail=false; 
  for(int i=1;i<argc;++i){std::string a=argv[i]; if(a=="-dump")dump=true; else if(a=="-trail")trail=true; else if(a=="-modular")modularMode=true; else if(a=="-f")re=argv[++i]; else file=a;}
  LLVMContext C; SMDiagnostic err; auto M=parseIRFile(file,err,C); if(!M){err.print("miflow",errs());return 2;}
  if(M->getFunction("probe_lockmode"))lockMode=true;
  // roles discovered from structure
  std::set<const Function*> rehash,deltree;
  for(auto&f:*M){ if(f.isDeclaration())continue; if(callsPrim(f,"hashed_index_node_alg",{"unlink_last","unlink_last_group"})&&demangleFn(&f).find("hashed_index<")!=std::string::npos)rehash.insert(&f);
    bool self=false; for(auto&b:f)for(auto&I:b)if(auto*c=dyn_cast<CallBase>(&I))if(c->getCalledFunction()==&f)self=true;
    if(self&&finfoName(&f).compare(0,18,"boost::multi_index")==0&&f.getReturnType()->isVoidTy())deltree.insert(&f);}
  setRoles(rehash,deltree);
  std::set<const Function*> recursive;
  {CallGraph CG(*M); for(auto it=scc_begin(&CG);!it.isAtEnd();++it)if(it.hasCycle())for(auto*n:*it)if(n->getFunction())recursive.insert(n->getFunction());}
  std::regex rx(re);
  std::vector<Function*> roots;
  for(auto&f:*M){ if(f.isDeclaration())continue;
    bool root=f.getName().starts_with("drv_")||f.getName().starts_with("probe_");
    if(root){ if(f.getName().starts_with("probe_")||std::regex_match(f.getName().str(),rx))roots.push_back(&f); }
    f.removeFnAttr(Attribute::OptimizeNone); 
    if(root)continue;
    const FInfo&fi=finfo(&f);
    if(fi.ev!=EV_UNKNOWN||recursive.count(&f)){f.removeFnAttr(Attribute::AlwaysInline);f.addFnAttr(Attribute::NoInline);}
    else{f.removeFnAttr(Attribute::NoInline);f.addFnAttr(Attribute::AlwaysInline); if(f.hasLinkOnceLinkage()||f.hasWeakLinkage())f.setLinkage(GlobalValue::InternalLinkage),f.setComdat(nullptr);}
  }
  std::set<Function*> rs(roots.begin(),roots.end());
  for(auto&f:*M)if(!f.isDeclaration()&&(f.getName().starts_with("drv_"))&&!rs.count(&f)){f.deleteBody();}
  {
    LoopAnalysisManager LAM;FunctionAnalysisManager FAM;CGSCCAnalysisManager CGAM;ModuleAnalysisManager MAM;
    PassBuilder PB;PB.registerModuleAnalyses(MAM);PB.registerCGSCCAnalyses(CGAM);PB.registerFunctionAnalyses(FAM);PB.registerLoopAnalyses(LAM);PB.crossRegisterProxies(LAM,FAM,CGAM,MAM);
    ModulePassManager MPM; MPM.addPass(AlwaysInlinerPass(false));
    MPM.addPass(createModuleToFunctionPassAdaptor(SROAPass(SROAOptions::PreserveCFG)));
    MPM.run(*M,MAM);
    for(auto*f:roots)removeUnreachableBlocks(*f);
  }
  if(dump){for(auto*f:roots)f->print(outs());return 0;}
  std::map<std::string,std::vector<Leaf>> leaves; for(auto&g:M->globals())if(g.getName().starts_with("vp_type__"))leavesOf(g.getValueType(),0,"",false,false,M->getDataLayout(),leaves[g.getName().substr(9).str()]);
  std::map<std::string,int64_t> hdr;
  std::map<std::string,int64_t> cnt; std::map<std::string,int> lay,altr; std::map<std::string,int64_t> aof;
  std::string out="{\"functions\":[";bool first=true;
  for(auto*f:roots){
    StringRef n=f->getName(); 
    if(n.starts_with("probe_layers__")){ for(auto&b:*f)if(auto*r=dyn_cast<ReturnInst>(b.getTerminator()))if(auto*c=dyn_cast<ConstantInt>(r->getReturnValue()))lay[n.substr(14).str()]=c->getSExtValue(); }
    if(n.starts_with("probe_header__")){
      for(auto&b:*f)if(auto*r=dyn_cast<ReturnInst>(b.getTerminator())){ Value*v=r->getReturnValue()->stripPointerCasts(); if(auto*l=dyn_cast<LoadInst>(v)){APInt off(64,0); Value*base=l->getPointerOperand()->stripAndAccumulateConstantOffsets(f->getParent()->getDataLayout(),off,true); if(isa<Argument>(base))hdr[n.substr(14).str()]=off.getSExtValue();}}
    }
    if(n.starts_with("probe_size__")){
      for(auto&b:*f)if(auto*r=dyn_cast<ReturnInst>(b.getTerminator())){ Value*v=r->getReturnValue(); if(auto*l=dyn_cast<LoadInst>(v)){APInt off(64,0); Value*base=l->getPointerOperand()->stripAndAccumulateConstantOffsets(f->getParent()->getDataLayout(),off,true); if(isa<Argument>(base))cnt[n.substr(12).str()]=off.getSExtValue();}}
    }
    if(n.starts_with("probe_alloc__")){
      for(auto&b:*f)if(auto*r=dyn_cast<ReturnInst>(b.getTerminator())){ Value*v=r->getReturnValue(); if(auto*l=dyn_cast<LoadInst>(v)){APInt off(64,0); Value*base=l->getPointerOperand()->stripAndAccumulateConstantOffsets(f->getParent()->getDataLayout(),off,true); if(isa<Argument>(base))aof[n.substr(13).str()]=off.getSExtValue();}}
    }
    if(n.starts_with("probe_altr__")){ for(auto&b:*f)if(auto*r=dyn_cast<ReturnInst>(b.getTerminator()))if(auto*c=dyn_cast<ConstantInt>(r->getReturnValue()))altr[n.substr(12).str()]=c->getSExtValue(); }
  }
  auto ldOff=[&](const char*nm)->int64_t{ auto*f=M->getFunction(nm); if(!f||f->isDeclaration())return -1; for(auto&b:*f)if(auto*r=dyn_cast<ReturnInst>(b.getTerminator()))if(auto*l=dyn_cast<LoadInst>(r->getReturnValue()->stripPointerCasts())){APInt off(64,0); l->getPointerOperand()->stripAndAccumulateConstantOffsets(M->getDataLayout(),off,true); return off.getSExtValue();} return -2; };
  int64_t sc=ldOff("probe_safecont"),sn=ldOff("probe_safenode");
  for(int k=0;k<2;++k)if(auto*f=M->getFunction(k?"probe_listhead":"probe_mutex"))for(auto&b:*f)if(auto*r=dyn_cast<ReturnInst>(b.getTerminator())){ APInt off(64,0); Value*q=r->getReturnValue()->stripAndAccumulateConstantOffsets(M->getDataLayout(),off,true); if(isa<Argument>(q))lockOff[k]=off.getSExtValue(); }
  for(auto*f:roots){
    StringRef n=f->getName(); if(!n.starts_with("drv_"))continue;
    auto p=n.substr(4).split("__"); auto q=p.second.split("__");
    Options o; o.spec=p.first.str();o.driver=n.str();o.cont=q.first.str();
    if(lay.count(o.cont))o.K=lay[o.cont]; if(hdr.count(o.cont))o.headerOff=hdr[o.cont]; o.modular=modularMode; o.multi=modularMode||StringRef(o.spec).ends_with("r"); o.headerOk=o.spec=="dtor"||o.spec.compare(0,4,"ctor")==0||o.spec.compare(0,4,"asgn")==0;
    if(aof.count(o.cont))o.allocOff=aof[o.cont]; o.altr=altr[o.cont]; if(leaves.count(o.cont))o.leaves=leaves[o.cont];
    if(cnt.count(o.cont))o.countOff=cnt[o.cont];
    auto t0=std::chrono::steady_clock::now();
    o.safeCont=sc; o.safeNode=sn; auto in=makeInterp(*f,o); in->run();
    double dt=std::chrono::duration<double>(std::chrono::steady_clock::now()-t0).count();
    Result&r=in->res;
    if(!first)out+=",";first=false;
    uint64_t ni=0;for(auto&b:*f)ni+=b.size();
    out+="\n{\"name\":"+js(n.str())+",\"instructions\":"+std::to_string(ni)+",\"blocks\":"+std::to_string(r.blocks)+",\"steps\":"+std::to_string(r.steps)+",\"states\":"+std::to_string(r.states)+",\"exits_normal\":"+std::to_string(r.exitsNormal)+",\"exits_exc\":"+std::to_string(r.exitsExc)+",\"throw_points\":"+std::to_string(r.throwPoints.size())+",\"wall\":"+std::to_string(dt)+",\"countOff\":"+std::to_string(o.countOff)+",\"K\":"+std::to_string(o.K)+",\"error\":"+js(r.error);
    out+=",\"events\":{"; bool f1=true; std::map<std::string,int> es; for(auto&e:r.eventSites)++es[e.substr(0,e.find('@'))]; for(auto&e:es){if(!f1)out+=",";f1=false;out+=js(e.first)+":"+std::to_string(e.second);} out+="}";
    out+=",\"info\":{"; f1=true; for(auto&e:r.info){if(!f1)out+=",";f1=false;out+=js(e.first)+":"+js(e.second);} out+="}";
    out+=",\"unknown\":["; f1=true; for(auto&e:r.unknownCalls){if(!f1)out+=",";f1=false;out+=js(e);} out+="]";
    out+=",\"violations\":["; f1=true;
    for(auto&v:r.viol){ if(!f1)out+=",";f1=false; out+="{\"rule\":"+js(v.rule)+",\"where\":"+js(v.where)+",\"msg\":"+js(v.msg); out+=",\"trail\":["; bool f2=true; for(auto&t:v.trail){if(!f2)out+=",";f2=false;out+=js(t);} out+="]}"; }
    out+="]}";
    (void)trail;
  }
  out+="\n]}\n"; std::cout<<out; return 0;
}
