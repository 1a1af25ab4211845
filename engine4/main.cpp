#include "ser.hpp"
#include "cpy.hpp"
#include "srt.hpp"
static bool isPrim(const Str&d){
  static const std::regex r("hashed_index_node_alg<.*>::(unlink_last|link|append|unlink_last_group|link_range|append_range|unlink_range)\\(|bucket_array<[^()]*>::(bucket_array|~bucket_array|size|position|at|begin|end|clear|swap)\\(|::calculate_max_load\\(");
  return std::regex_search(d,r);
}
#include "llvm/IR/LLVMContext.h"
#include "llvm/IRReader/IRReader.h"
#include "llvm/Support/SourceMgr.h"
#include "llvm/Analysis/CallGraph.h"
#include "llvm/Analysis/CGSCCPassManager.h"
#include "llvm/Analysis/LoopAnalysisManager.h"
#include "llvm/ADT/SCCIterator.h"
#include "llvm/Passes/PassBuilder.h"
#include "llvm/Transforms/IPO/AlwaysInliner.h"
#include "llvm/Transforms/Scalar/SROA.h"
#include "llvm/Transforms/Utils/Local.h"
static long probeOff(Function*f){
  long r=-1;const DataLayout&DL=f->getParent()->getDataLayout();
  if(auto*rt=dyn_cast<ReturnInst>(f->back().getTerminator()))if(rt->getReturnValue()&&rt->getReturnValue()->getType()->isPointerTy()){APInt o(64,0);const Value*b=rt->getReturnValue()->stripAndAccumulateConstantOffsets(DL,o,true);if(isa<Argument>(b))return o.getSExtValue();}
  for(auto&I:instructions(*f))if(auto*l=dyn_cast<LoadInst>(&I)){APInt o(64,0);const Value*b=l->getPointerOperand()->stripAndAccumulateConstantOffsets(DL,o,true);if(isa<Argument>(b))r=o.getSExtValue();}
  return r;
}
int main(int argc,char**argv){
  Str file,re=".*";bool dump=false;for(int i=1;i<argc;++i){Str a=argv[i];if(a=="-d")DBG=true;else if(a=="-dump")dump=true;else if(a=="-f")re=argv[++i];else if(a=="-t")TMAX=atoi(argv[++i]);else file=a;}
  LLVMContext C;SMDiagnostic err;auto M=parseIRFile(file,err,C);if(!M){err.print("miarr",errs());return 2;}
  std::set<const Function*> rec;{CallGraph CG(*M);for(auto it=scc_begin(&CG);!it.isAtEnd();++it)if(it.hasCycle())for(auto*n:*it)if(n->getFunction())rec.insert(n->getFunction());}
  std::regex rx(re);std::vector<Function*> roots;bool reh=M->getFunction("probe_rehash"),ser=M->getFunction("probe_ser"),chain=M->getFunction("drv_chain1_save"),iter=M->getFunction("drv_it_save_seq"),cpy=M->getFunction("probe_copy"),srt=M->getFunction("probe_impl");
  auto prim=[&](Function&f){Str d;if(reh||ser||cpy||srt)d=demangle(f.getName().str());return (srt&&Srt::prim(d,re.find("collate")==Str::npos))||(reh&&isPrim(d))||(cpy&&(re.find("copy_structure")!=Str::npos?Cpy::prim(d):re.find("bucket_")!=Str::npos?Cpy::primB(d):re.find("clear_structure")!=Str::npos&&M->getFunction("probe_bdata")?Cpy::primC(d):Cpy::prim2(d)))||(ser&&Ser::prim(d,chain,iter));};
  for(auto&f:*M){if(f.isDeclaration())continue;f.removeFnAttr(Attribute::OptimizeNone);StringRef n=f.getName();bool root=n.starts_with("drv_")||n.starts_with("probe_");
    if(root){f.addFnAttr(Attribute::NoInline);f.removeFnAttr(Attribute::AlwaysInline);if(n.starts_with("probe_")||std::regex_match(n.str(),rx))roots.push_back(&f);continue;}
    if(rec.count(&f)||prim(f)){f.removeFnAttr(Attribute::AlwaysInline);f.addFnAttr(Attribute::NoInline);}
    else{f.removeFnAttr(Attribute::NoInline);f.addFnAttr(Attribute::AlwaysInline);if(f.hasLinkOnceLinkage()||f.hasWeakLinkage())f.setLinkage(GlobalValue::InternalLinkage);}}
  {LoopAnalysisManager LAM;FunctionAnalysisManager FAM;CGSCCAnalysisManager CGAM;ModuleAnalysisManager MAM;PassBuilder PB;PB.registerModuleAnalyses(MAM);PB.registerCGSCCAnalyses(CGAM);PB.registerFunctionAnalyses(FAM);PB.registerLoopAnalyses(LAM);PB.crossRegisterProxies(LAM,FAM,CGAM,MAM);
    ModulePassManager MPM;MPM.addPass(AlwaysInlinerPass(false));MPM.addPass(createModuleToFunctionPassAdaptor(SROAPass(SROAOptions::PreserveCFG)));MPM.run(*M,MAM);for(auto*f:roots)removeUnreachableBlocks(*f);}
  if(dump){for(auto*f:roots)f->print(outs());return 0;}
  std::map<Str,long> probe;
  for(auto*f:roots)if(f->getName().starts_with("probe_"))probe[f->getName().str().substr(6)]=probeOff(f);
  const std::map<Str,long> probe0=probe;
  Str out="{\"functions\":[";bool first=true;
  for(auto*f:roots){
    if(!f->getName().starts_with("drv_"))continue;
    Eng E(*f);Str nm=f->getName().str().substr(4);
    E.hook=[](Eng&E,State&S,CallBase*c,StringRef n,V&r){
      if(n=="_Znwm"){V z=E.ev(S,c->getArgOperand(0));Lin k;if(z.k!=INT||!z.n.div(8,k))throw Fail{"allocation of an unknown size"};int id=100;while(S.arr.count(id))++id;Arr A;A.cap=k;A.p.push_back(Rnd::pc(0,k,UNK,0));S.arr[id]=A;r=V::slot(id,0);return true;}
      if(n=="_ZdlPv"||n=="_ZdlPvm")return true;
      return false;};
    Rnd R(E,probe);Reh H(E,probe,M->getFunction("probe_hash_unique"));
    Ser Z(E,probe,chain,iter);
    Srt T(E,probe0);
    Cpy Y(E,probe0,M->getFunction("probe_nonuniq"));
    if(!(srt?T.configs(nm):cpy?Y.configs(nm):ser?Z.configs(nm):reh?H.configs(nm):R.configs(nm)))E.error="no configuration for this entry";else E.run();
    unsigned long ni=0;for(auto&b:*f)ni+=b.size();
    if(!first)out+=",";first=false;
    out+="\n{\"name\":"+js(f->getName().str())+",\"instructions\":"+std::to_string(ni)+",\"steps\":"+std::to_string(E.steps)+",\"configurations\":"+std::to_string(E.configs)+",\"paths\":"+std::to_string(E.paths)+",\"loops_closed\":"+std::to_string(E.accel)+",\"loop_invariants\":"+std::to_string(E.inv)+",\"obligations\":"+std::to_string(E.obl)+",\"error\":"+js(E.error)+",\"unknown\":[";
    bool q=true;for(auto&u:E.unknown){if(!q)out+=",";q=false;out+=js(u);}
    out+="],\"violations\":[";q=true;
    for(auto&v:E.viol){if(!q)out+=",";q=false;out+="{\"rule\":"+js(v.rule)+",\"where\":"+js(v.where)+",\"msg\":"+js(v.msg)+",\"trail\":[";bool g=true;for(auto&t:v.trail){if(!g)out+=",";g=false;out+=js(t);}out+="]}";}
    out+="]}";
  }
  out+="\n]}\n";std::cout<<out;return 0;
}
