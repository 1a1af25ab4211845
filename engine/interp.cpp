#include "interp.hpp"
#include <llvm/Demangle/Demangle.h>
#include <llvm/Support/raw_ostream.h>
using namespace llvm;
Arena A; extern int64_t lockOff[2];
static const unsigned OP_AGG=5001,OP_NOT=5002,OP_NONNULL=5003;

// ---------------------------------------------------------------- names
std::string demangleFn(const Function*f){return llvm::demangle(f->getName().str());}
std::string stripTemplates(const std::string&s){
  std::string r;int d=0;
  for(size_t i=0;i<s.size();++i){
    if(s.compare(i,8,"operator")==0&&(i==0||!(isalnum(s[i-1])||s[i-1]=='_'))){
      size_t j=i+8; if(d==0)r+="operator";
      if(j<s.size()&&(s[j]=='<'||s[j]=='>'||s[j]=='-'||s[j]=='(')){
        if(s.compare(j,2,"()")==0){if(d==0)r+="()";j+=2;}
        else if(s.compare(j,2,"->")==0){if(d==0)r+="->";j+=2;}
        else while(j<s.size()&&(s[j]=='<'||s[j]=='>'||s[j]=='=')){if(d==0)r+=(s[j]=='<'?"\x01":s[j]=='>'?"\x02":"=");++j;}
      }
      i=j-1;continue;}
    if(s[i]=='<'){++d;continue;}
    if(s[i]=='>'){if(i&&s[i-1]=='-')continue;--d;continue;}
    if(d==0)r+=s[i];
  }
  return r;
}
// Al<T,...>: T is a node of the container (as opposed to an auxiliary array element)
static bool isNodeType(const std::string&tp){
  size_t p=tp.find('<'); if(p==std::string::npos)return false; std::string h=tp.substr(0,p);
  auto ends=[&](const char*e){std::string x=e; return h.size()>=x.size()&&h.compare(h.size()-x.size(),x.size(),x)==0;};
  if(!ends("_index_node")&&!ends("::index_node_base"))return false;
  int d=0; for(;p<tp.size();++p){ if(tp[p]=='<')++d; if(tp[p]=='>'&&--d==0)break; }
  return !(p+1<tp.size()&&tp[p+1]=='*');
}
static std::map<const Function*,FInfo> fcache; bool modularMode=false,lockMode=false;
bool anyChecked=false;
static std::set<const Function*> rehashRole,delTreeRole;
void setRoles(const std::set<const Function*>&r,const std::set<const Function*>&d){rehashRole=r;delTreeRole=d;}
const FInfo& finfo(const Function*f){
  auto it=fcache.find(f); if(it!=fcache.end())return it->second;
  FInfo fi; fi.dem=demangleFn(f);
  std::string s=stripTemplates(fi.dem);
  // cut parameter list
  size_t p=0,cut=std::string::npos;
  while(true){
    p=s.find('(',p); if(p==std::string::npos)break;
    if(p>=8&&s.compare(p-8,8,"operator")==0&&s.compare(p,2,"()")==0){p+=2;continue;}
    if(s.compare(p,21,"(anonymous namespace)")==0){p+=21;continue;}
    cut=p;break;}
  std::string params=cut==std::string::npos?"":s.substr(cut);
  std::string n=cut==std::string::npos?s:s.substr(0,cut);
  // drop return type: last space at depth 0 not after "operator"
  size_t sp=n.rfind(' ');
  while(sp!=std::string::npos){
    if(sp>=8&&n.compare(sp-8,8,"operator")==0){sp=sp?n.rfind(' ',sp-1):std::string::npos;continue;}
    break;}
  if(sp!=std::string::npos)n=n.substr(sp+1);
  fi.name=n;
  size_t c=n.rfind("::"); fi.base=c==std::string::npos?n:n.substr(c+2); fi.cls=c==std::string::npos?"":n.substr(0,c);
  size_t cc=fi.cls.rfind("::"); std::string lc=cc==std::string::npos?fi.cls:fi.cls.substr(cc+2);
  std::string lib="boost::multi_index";
  auto is=[&](const char*cl,const char*b){return lc==cl&&fi.base==b&&n.compare(0,lib.size(),lib)==0;};
  if(f->isDeclaration()){
    StringRef raw=f->getName();
    if(raw=="__cxa_begin_catch")fi.ev=EV_CXA_BEGIN;
    else if(raw=="__cxa_end_catch")fi.ev=EV_CXA_END;
    else if(raw=="__cxa_rethrow")fi.ev=EV_RETHROW;
    else if(raw=="__cxa_throw")fi.ev=EV_THROW;
    else if(raw=="_ZSt9terminatev"||raw=="abort"||raw=="__cxa_pure_virtual")fi.ev=EV_TERM;
    else if(raw.starts_with("_ZSt")&&fi.base.compare(0,8,"__throw_")==0)fi.ev=EV_LIBTHROW;
    else if(raw.starts_with("vp_"))fi.ev=EV_VP,fi.name=raw.str();
    else if(raw.starts_with("__cxa_")||raw=="_Znwm"||raw=="_ZdlPv"||raw=="strlen"||raw=="memcmp")fi.ev=EV_PURE;
    else if(n.compare(0,4,"vp::")==0){
      fi.ev=EV_USER;
      if(lc=="V"&&fi.base=="V"){fi.ev=EV_V_CTOR;fi.rvalue=fi.dem.find("&&")!=std::string::npos;}
      else if(lc=="V"&&fi.base=="~V")fi.ev=EV_V_DTOR;
      else if(lc=="V"&&fi.base=="operator="){fi.ev=EV_V_ASSIGN;fi.rvalue=fi.dem.find("&&")!=std::string::npos;}
      else if(lc=="Al"&&fi.base=="allocate")fi.ev=EV_ALLOC;
      else if(lc=="Al"&&fi.base=="deallocate")fi.ev=EV_DEALLOC;
      else if(lc=="Al"&&fi.base=="select_on_container_copy_construction")fi.ev=EV_ALSELECT;
      if(fi.ev==EV_ALLOC||fi.ev==EV_DEALLOC){
        size_t q=fi.dem.find("vp::Al<"); fi.tparam=q==std::string::npos?"":fi.dem.substr(q+7);
      }
    }
  }else{
    auto*bt=dyn_cast<ReturnInst>(f->getEntryBlock().getTerminator()); auto*br=bt&&bt->getReturnValue()?dyn_cast<ConstantInt>(bt->getReturnValue()):nullptr;
    if(is("index_base","check_rollback_")&&br&&br->isOne()){fi.ev=EV_CHECKED;anyChecked=true;} // the end of the chain of indices asked whether they accept a rolled back value
    else if(rehashRole.count(f))fi.ev=EV_REHASH;
    else if(delTreeRole.count(f)){fi.ev=EV_DELTREE;fi.objArg=1;}
    else if(is("ordered_index_node_impl","link")||is("hashed_index_node_alg","link")||is("sequenced_index_node_impl","link")||is("ordered_index_node_impl","restore"))fi.ev=EV_LINK;
    else if(is("ordered_index_node_impl","rebalance_for_extract")||is("sequenced_index_node_impl","unlink"))fi.ev=EV_UNLINK;
    else if(is("hashed_index_node_alg","unlink")){fi.ev=f->arg_size()>=2?EV_UNLINK_UNDO:EV_UNLINK;}
    else if(modularMode&&lc=="multi_index_container"&&n.compare(0,lib.size(),lib)==0){
      static const std::map<std::string,bool> atoms={{"insert_",true},{"insert_rv_",true},{"insert_ref_",true},{"insert_nh_",true},{"emplace_",true},{"emplace_hint_",true},{"transfer_",true},{"erase_",false},{"extract_",false}};
      auto a=atoms.find(fi.base); if(a!=atoms.end()){fi.ev=EV_ATOM;fi.rvalue=a->second;}
      else if(fi.base=="move_clone"||fi.base=="copy_clone"){}
    }
    else if(lockMode&&(n=="std::mutex::lock"||n=="std::mutex::unlock"))fi.ev=fi.base=="lock"?EV_LOCK:EV_UNLOCK;
    else if(lockMode&&lc=="safe_iterator_base"){} // analysed inside
    else if(!lockMode&&(is("safe_iterator_base","attach")||is("safe_iterator_base","detach")||is("safe_container","detach_dereferenceable_iterators")||is("safe_container_base","swap")||is("safe_container_base","~safe_container_base")||is("safe_mode","detach_equivalent_iterators")))fi.ev=EV_SAFE;
    else if(!lockMode&&is("safe_mode_detail","transfer_equivalent_iterators")&&fi.dem.rfind("integral_constant<bool, true>")!=std::string::npos&&fi.dem.rfind("integral_constant<bool, true>")+31>fi.dem.size())fi.ev=EV_SAFE;
    else if(is("unlink_undo_assigner","operator()")&&f->arg_size()==1)fi.ev=EV_UNDO;
    else if(is("random_access_index_ptr_array","push_back")){fi.ev=EV_LINK;fi.objArg=1;}
    else if(is("random_access_index_ptr_array","erase")){fi.ev=EV_UNLINK;fi.objArg=1;}
    else if(is("sequenced_index_node_impl","relink")){fi.ev=EV_MOVE;fi.objArg=f->arg_size()==2?1:-1;}
    else if(is("sequenced_index_node_impl","reverse")||is("sequenced_index_node_impl","swap"))fi.ev=EV_PRIM;
    else if(is("random_access_index_node_impl","relocate")||is("random_access_index_node_impl","reverse")||
            is("random_access_index_node_impl","gather_nulls")||is("random_access_index_node_impl","transfer")||
            is("random_access_index_node_impl","extract"))fi.ev=EV_PRIM;
  }
  return fcache[f]=fi;
}
std::string locOf(const Instruction*I){
  if(!I)return "?";
  const DILocation*d=I->getDebugLoc().get();
  if(!d)return "?";
  std::string r;
  auto one=[&](const DILocation*x){
    std::string fn=x->getFilename().str(); size_t p=fn.rfind("boost/multi_index"); 
    if(p!=std::string::npos)fn=fn.substr(p+6); else{p=fn.rfind('/');if(p!=std::string::npos)fn=fn.substr(p+1);}
    std::string sub; if(auto*sp=x->getScope()->getSubprogram())sub=sp->getName().str();
    size_t t=sub.find('<'); if(t!=std::string::npos&&t>0)sub=sub.substr(0,t);
    return fn+":"+std::to_string(x->getLine())+"("+sub+")";};
  r=one(d); int n=0; d=d->getInlinedAt();
  std::vector<std::string> up; for(;d;d=d->getInlinedAt())up.push_back(one(d));
  for(auto&u:up){ if(++n>5){r+=" <- ... <- "+up.back();break;} r+=" <- "+u;}
  return r;
}
// ---------------------------------------------------------------- setup
Interp::Interp(Function&f,Options o):F(f),DL(f.getParent()->getDataLayout()),opt(o){
  ReversePostOrderTraversal<Function*> R(&F);int n=0;
  for(auto*b:R){rpo[b]=n++;byRpo.push_back(b);}
  unsigned v=1; for(auto&a:F.args())vnum[&a]=v++;
  for(auto*b:byRpo)for(auto&I:*b)vnum[&I]=v++;
  for(auto*b:byRpo){int np=0;for(auto*p:predecessors(b))if(rpo.count(p))++np; if(np!=1)joinBlocks.insert(b);}
  computeLiveness();
}
void Interp::computeLiveness(){
  bool ch=true;
  std::map<const BasicBlock*,std::set<unsigned>> use,def;
  for(auto*b:byRpo){
    auto&u=use[b];auto&d=def[b];
    for(auto&I:*b){
      if(!isa<PHINode>(I))
        for(auto&op:I.operands()){auto it=vnum.find(op.get()); if(it!=vnum.end()&&!d.count(it->second))u.insert(it->second);}
      d.insert(vnum[&I]);}
  }
  while(ch){
    ch=false;
    for(auto it=byRpo.rbegin();it!=byRpo.rend();++it){
      auto*b=*it; std::set<unsigned> out;
      for(auto*s:successors(b)){
        for(unsigned v:liveIn[s])out.insert(v);
        for(auto&ph:s->phis()){Value*v=ph.getIncomingValueForBlock(b);auto f=vnum.find(v);if(f!=vnum.end())out.insert(f->second);}
      }
      std::set<unsigned> in=use[b]; for(unsigned v:out)if(!def[b].count(v))in.insert(v);
      // phis of b are defined at its entry
      if(in!=liveIn[b]){liveIn[b]=in;ch=true;}
    }
  }
}
// ---------------------------------------------------------------- values
std::string Interp::describe(Ex b){
  if(!b)return "const"; const Term&t=A[b];
  auto vn=[&](const void*k){const Value*v=(const Value*)k; std::string s; 
    if(auto*I=dyn_cast<Instruction>(v)){const DILocation*d=I->getDebugLoc().get(); s=(v->hasName()?v->getName().str():std::string("v"))+(d?"@"+std::to_string(d->getLine()):"");}
    else s=v->getName().str(); return s;};
  switch(t.k){
    case SK_PARAM:case SK_NPARAM:return "param:"+vn(t.key);
    case SK_ALLOCA:return "local:"+vn(t.key);
    case SK_FRESH:return "new:"+vn(t.key);
    case SK_RES:return "res:"+vn(t.key);
    case SK_JOINV:case SK_JOINC:return "merge#"+std::to_string(b);
    case SK_OLD:return "old("+describe(t.aux)+")";
    case SK_GLOBAL:return "global";
    default:break;}
  if(t.opc==OP_INITLD)return "*("+valStr(t.args[0])+")";
  std::string r="op"+std::to_string(t.opc)+"("; for(auto&a:t.args)r+=valStr(a)+",";
  return r+")";
}
std::string Interp::valStr(Val v){
  if(!v.b)return std::to_string(v.o);
  return describe(v.b)+(v.o?(v.o>0?"+":"")+std::to_string(v.o):"");
}
Val Interp::freshSym(State&s,const Instruction*I,uint64_t aux,SymKind k){
  Ex e=A.sym(k,I,aux);
  if(refers(s,e))renameSym(s,e);
  s.late.erase(e);
  if(!s.escaped.empty())s.late.insert(e);
  return Val{e,0};
}
static bool contains(Ex e,Ex x){
  if(e==x)return true; const Term&t=A[e];
  if(t.k==SK_JOINC&&(t.aux>>32)&&contains(t.aux>>32,x))return true;
  if(t.k==SK_OLD)return contains(t.aux,x);
  for(auto&a:t.args)if(a.b&&contains(a.b,x))return true; return false;
}
static std::map<std::pair<Ex,Ex>,bool> containsMemo;
static bool containsM(Ex e,Ex x){
  if(e==x)return true; const Term&t=A[e]; if(t.k!=SK_OLD&&t.k!=SK_JOINC&&t.args.empty())return false;
  auto k=std::make_pair(e,x);auto it=containsMemo.find(k);if(it!=containsMemo.end())return it->second;
  return containsMemo[k]=contains(e,x);
}
bool Interp::refers(State&s,Ex e){
  for(auto&p:s.env)if(p.second.b&&containsM(p.second.b,e))return true;
  for(auto&p:s.mem){if(containsM(p.first.first,e))return true; if(p.second.v.b&&containsM(p.second.v.b,e))return true;}
  for(auto&p:s.ts.objs)if(containsM(p.first,e))return true;
  for(auto&p:s.truth)if(containsM(p.first,e))return true;
  for(auto&p:s.ts.undo)if(containsM(p.first.first,e)||containsM(p.second.first,e))return true;
  if(s.ts.resultSet){if(s.ts.resFlag.b&&containsM(s.ts.resFlag.b,e))return true; if(s.ts.resPtr.b&&containsM(s.ts.resPtr.b,e))return true;}
  for(auto&l:s.ts.locks)if(containsM(l.first,e))return true;
  for(auto&l:s.ts.region)if(l.second.first&&containsM(l.second.first,e))return true;
  if(s.escaped.count(e))return true;
  return false;
}
Ex Interp::subst(Ex e,const std::map<Ex,Ex>&m,std::map<Ex,Ex>&memo){
  if(!e)return e; auto it=m.find(e); if(it!=m.end())return it->second;
  auto mi=memo.find(e); if(mi!=memo.end())return mi->second;
  Term t=A[e]; Ex r=e;
  if(t.k==SK_OP){
    bool ch=false; for(auto&a:t.args)if(a.b){Ex n=subst(a.b,m,memo); if(n!=a.b){a.b=n;ch=true;}}
    if(ch)r=A.get(t);
  }
  return memo[e]=r;
}
void Interp::substState(State&s,const std::map<Ex,Ex>&m){
  std::map<Ex,Ex> memo; auto sv=[&](Val v){if(v.b)v.b=subst(v.b,m,memo);return v;}; auto se=[&](Ex e){return subst(e,m,memo);};
  for(auto&p:s.env)p.second=sv(p.second);
  {std::map<Loc,Cell> n; for(auto&p:s.mem){Loc l(se(p.first.first),p.first.second); Cell c=p.second;c.v=sv(c.v);
    auto it=n.find(l); if(it!=n.end()){ if(it->second.v!=c.v)n.erase(it);} else n[l]=c;} s.mem.swap(n);}
  {std::map<Ex,bool> n; std::set<Ex> bad; for(auto&p:s.truth){Ex e=se(p.first); auto it=n.find(e); if(it!=n.end()&&it->second!=p.second)bad.insert(e); n[e]=p.second;} for(Ex e:bad)n.erase(e); s.truth.swap(n);}
  {std::set<Ex> n; for(Ex e:s.late)n.insert(se(e)); s.late.swap(n);}
  {std::set<Ex> n; for(Ex e:s.escaped)n.insert(se(e)); s.escaped.swap(n);}
  {std::map<Ex,Obj> n; for(auto&p:s.ts.objs){Ex e=se(p.first); Obj o=p.second; o.nalloc=sv(o.nalloc);o.allocator=sv(o.allocator);o.parkAddr=sv(o.parkAddr);
     auto it=n.find(e);
     if(it!=n.end()&&!(it->second==o)){
       int d1,d2; if(settled(it->second,d1)&&settled(o,d2)){ s.ts.pending[0]-=d1; it->second=o; }
       else { s.ts.flags["merged-objects"]=1; if(settled(it->second,d1)){s.ts.pending[0]-=d1;it->second=o;} else if(settled(o,d2)){s.ts.pending[0]-=d2;} }
     }else if(it!=n.end()){int d; if(settled(o,d))s.ts.pending[0]-=d; else s.ts.flags["merged-objects"]=1;}
     else n[e]=o;} s.ts.objs.swap(n);}
  {std::map<Loc,Loc> n; for(auto&p:s.ts.undo)n[Loc(se(p.first.first),p.first.second)]=Loc(se(p.second.first),p.second.second); s.ts.undo.swap(n);}
  {std::set<Loc> n; for(auto&l:s.ts.locks)n.insert(Loc(se(l.first),l.second)); s.ts.locks.swap(n);}
  {std::map<Ex,Loc> n; for(auto&p:s.ts.region)n[se(p.first)]=Loc(p.second.first?se(p.second.first):0,p.second.second); s.ts.region.swap(n);}
  s.ts.resFlag=sv(s.ts.resFlag); s.ts.resPtr=sv(s.ts.resPtr);s.ts.resX[0]=sv(s.ts.resX[0]);s.ts.resX[1]=sv(s.ts.resX[1]);
}
void Interp::renameSym(State&s,Ex from){
  Ex to=A[from].k==SK_OLD?from:A.sym(SK_OLD,nullptr,from);
  if(refers(s,to)){ // becomes a summary: facts about it no longer hold
    for(auto it=s.truth.begin();it!=s.truth.end();)if(containsM(it->first,to))it=s.truth.erase(it);else ++it;
    for(auto it=s.mem.begin();it!=s.mem.end();)if(containsM(it->first.first,to))it=s.mem.erase(it);else ++it;
    // facts about the renamed symbol must not be transferred to the summary either
    for(auto it=s.truth.begin();it!=s.truth.end();)if(containsM(it->first,from))it=s.truth.erase(it);else ++it;
    for(auto it=s.mem.begin();it!=s.mem.end();)if(containsM(it->first.first,from))it=s.mem.erase(it);else ++it;
  }
  substState(s,{{from,to}});
}
Val Interp::get(State&s,const Value*v){
  if(auto*c=dyn_cast<ConstantInt>(v)){ if(c->getBitWidth()==1)return Val{0,(int64_t)c->getZExtValue()}; if(c->getBitWidth()<=64)return Val{0,c->getSExtValue()}; return Val{A.sym(SK_GLOBAL,v),0};}
  if(isa<ConstantPointerNull>(v))return Val{0,0};
  if(isa<UndefValue>(v))return Val{A.sym(SK_GLOBAL,v),0};
  if(auto*a=dyn_cast<Argument>(v)){ // a reference parameter denotes an object of its own, a bare pointer (an iterator) denotes some element
    return Val{A.sym(a->getType()->isPointerTy()&&!a->getDereferenceableBytes()?SK_NPARAM:SK_PARAM,a),0};}
  if(auto*ce=dyn_cast<ConstantExpr>(v)){
    if(ce->getOpcode()==Instruction::GetElementPtr){
      APInt off(64,0); if(cast<GEPOperator>(ce)->accumulateConstantOffset(DL,off)){Val b=get(s,ce->getOperand(0));b.o+=off.getSExtValue();return b;}}
    return Val{A.sym(SK_GLOBAL,v),0};
  }
  if(isa<Constant>(v)){ if(auto*cf=dyn_cast<ConstantAggregateZero>(v)){(void)cf; return Val{0,0};} return Val{A.sym(SK_GLOBAL,v),0};}
  auto it=vnum.find(v); if(it==vnum.end())return Val{A.sym(SK_GLOBAL,v),0};
  auto e=s.env.find(it->second);
  if(e==s.env.end()){ // dead or undefined on this path
    return Val{A.sym(SK_RES,v,99),0};}
  return e->second;
}
bool Interp::isDistinctObj(Ex e){SymKind k=A[e].k;return k==SK_ALLOCA||k==SK_FRESH||k==SK_PARAM||k==SK_GLOBAL;}
bool Interp::mayAlias(State&s,Ex a,Ex b){
  if(a==b)return true;
  bool da=isDistinctObj(a)&&!A.hasOld(a),db=isDistinctObj(b)&&!A.hasOld(b);
  if(da&&db)return false;                       // distinct driver arguments are distinct objects by construction
  if(da||db){
    Ex d=da?a:b,x=da?b:a; SymKind k=A[d].k;
    if(k==SK_PARAM||k==SK_GLOBAL)return false;  // container objects and caller data are not overlaid by nodes/arrays
    if(!s.escaped.count(d))return false;
    return s.late.count(x)>0;
  }
  return true;
}
bool Interp::nonNull(State&s,Ex b){
  SymKind k=A[b].k; if(k==SK_ALLOCA||k==SK_FRESH||k==SK_PARAM||k==SK_GLOBAL||k==SK_NPARAM)return true;
  if(k==SK_OLD){SymKind kk=A[A[b].aux].k; if(kk==SK_FRESH)return true;}
  auto it=s.truth.find(A.op(OP_NONNULL,{Val{b,0}})); if(it!=s.truth.end())return it->second;
  return false;
}
void Interp::assumeNonNull(State&s,Val p){
  if(!p.b||A.hasOld(p.b)||isDistinctObj(p.b))return; s.truth[A.op(OP_NONNULL,{Val{p.b,0}})]=true;}
static bool isBoolTerm(Ex e){
  const Term&t=A[e]; if(t.k==SK_OP)return (t.opc>=OP_CMP&&t.opc<OP_SELF)||t.opc==OP_NOT;
  if(t.k==SK_RES&&t.aux!=99&&t.key&&((const Value*)t.key)->getType()->isIntegerTy(1))return true;
  return false;
}
Val Interp::mkCmp(unsigned pred,Val a,Val b,bool&neg){
  neg=false;
  switch(pred){
    case CmpInst::ICMP_NE:neg=true;pred=CmpInst::ICMP_EQ;break;
    case CmpInst::ICMP_UGT:std::swap(a,b);pred=CmpInst::ICMP_ULT;break;
    case CmpInst::ICMP_ULE:std::swap(a,b);neg=true;pred=CmpInst::ICMP_ULT;break;
    case CmpInst::ICMP_UGE:neg=true;pred=CmpInst::ICMP_ULT;break;
    case CmpInst::ICMP_SGT:std::swap(a,b);pred=CmpInst::ICMP_SLT;break;
    case CmpInst::ICMP_SLE:std::swap(a,b);neg=true;pred=CmpInst::ICMP_SLT;break;
    case CmpInst::ICMP_SGE:neg=true;pred=CmpInst::ICMP_SLT;break;
    default:break;}
  if(pred==CmpInst::ICMP_EQ){
    if(b<a)std::swap(a,b);          // constants (base 0) first
    if(a.b){int64_t d=a.o; a.o=0; b.o-=d;}
    else {a.o-=b.o;b.o=0;}
  }
  return Val{A.op(OP_CMP+pred,{a,b}),0};
}
int Interp::evalCmp(State&s,unsigned pred,Val a,Val b){
  if(a.isConst()&&b.isConst()){
    int64_t x=a.o,y=b.o;uint64_t ux=x,uy=y;
    switch(pred){case CmpInst::ICMP_EQ:return x==y;case CmpInst::ICMP_NE:return x!=y;
      case CmpInst::ICMP_ULT:return ux<uy;case CmpInst::ICMP_ULE:return ux<=uy;case CmpInst::ICMP_UGT:return ux>uy;case CmpInst::ICMP_UGE:return ux>=uy;
      case CmpInst::ICMP_SLT:return x<y;case CmpInst::ICMP_SLE:return x<=y;case CmpInst::ICMP_SGT:return x>y;case CmpInst::ICMP_SGE:return x>=y;default:return -1;}}
  if(a.b&&a.b==b.b&&!A.hasOld(a.b)){
    int64_t x=a.o,y=b.o;
    switch(pred){case CmpInst::ICMP_EQ:return x==y;case CmpInst::ICMP_NE:return x!=y;
      case CmpInst::ICMP_ULT:case CmpInst::ICMP_SLT:return x<y;case CmpInst::ICMP_ULE:case CmpInst::ICMP_SLE:return x<=y;
      case CmpInst::ICMP_UGT:case CmpInst::ICMP_SGT:return x>y;case CmpInst::ICMP_UGE:case CmpInst::ICMP_SGE:return x>=y;default:return -1;}}
  if(pred==CmpInst::ICMP_ULT&&a.isNull()&&b.b&&(b.o==0)&&nonNull(s,b.b))return 1;
  if(pred==CmpInst::ICMP_UGT&&b.isNull()&&a.b&&(a.o==0)&&nonNull(s,a.b))return 1;
  if(pred==CmpInst::ICMP_EQ||pred==CmpInst::ICMP_NE){
    int eq=-1;
    if(a.isNull()&&b.b&&b.o==0&&nonNull(s,b.b))eq=0;
    else if(b.isNull()&&a.b&&a.o==0&&nonNull(s,a.b))eq=0;
    else if(a.isNull()&&b.b&&nonNull(s,b.b))eq=0;
    else if(b.isNull()&&a.b&&nonNull(s,a.b))eq=0;
    else if(a.b&&b.b&&a.b!=b.b&&!mayAlias(s,a.b,b.b)&&(isDistinctObj(a.b)||isDistinctObj(b.b))){
      // distinct objects (params are pointers to distinct objects only if pointers)
      auto isPtrSym=[&](Ex e){const Term&t=A[e]; if(t.k==SK_PARAM)return ((const Value*)t.key)->getType()->isPointerTy(); return true;};
      if(isPtrSym(a.b)&&isPtrSym(b.b))eq=0;
    }
    if(eq<0&&a.b!=b.b&&a.b&&b.b&&a.o==0&&b.o==0&&isHeader(s,a.b)&&isHeader(s,b.b)&&A[a.b].args[0].b!=A[b.b].args[0].b)eq=0; // headers of distinct containers
    // an element held by a node handle or by another container is none of the container's elements
    if(eq<0&&a.b&&b.b&&a.b!=b.b)for(Ex e:{a.b,b.b}){auto i=s.ts.objs.find(e); if(i!=s.ts.objs.end()&&i->second.pinned&&(i->second.role==R_HANDLE||i->second.role==R_OTHER)&&i->second.in.empty())eq=0;}
    if(eq>=0)return pred==CmpInst::ICMP_EQ?eq:!eq;
  }
  bool neg; Val c=mkCmp(pred,a,b,neg);
  auto it=s.truth.find(c.b); if(it!=s.truth.end())return it->second!=neg;
  return -1;
}
int Interp::evalBool(State&s,Val c){
  if(c.isConst())return c.o!=0;
  if(c.o==0){
    const Term&t=A[c.b];
    if(t.k==SK_OP&&t.opc==OP_NOT){int r=evalBool(s,t.args[0]);return r<0?-1:!r;}
    if(t.k==SK_OP&&t.opc>=OP_CMP&&t.opc<OP_FCMP){int r=evalCmp(s,t.opc-OP_CMP,t.args[0],t.args[1]); if(r>=0)return r;}
    if(t.k==SK_OP&&t.opc==OP_NONNULL){ if(t.args[0].isConst())return -1; return nonNull(s,t.args[0].b)?1:-1;}
    if(A.hasOld(c.b))return -1;
    auto it=s.truth.find(c.b); if(it!=s.truth.end())return it->second;
  }
  return -1;
}
bool Interp::assume(State&s,Val c,bool t){
  int r=evalBool(s,c); if(r>=0)return (r!=0)==t;
  if(c.o!=0)return true;
  const Term&tt=A[c.b];
  if(tt.k==SK_OP&&tt.opc==OP_NOT)return assume(s,tt.args[0],!t);
  if(!A.hasOld(c.b))s.truth[c.b]=t;
  // a==const: keep only the fact
  return true;
}
// ---------------------------------------------------------------- memory
void Interp::escape(State&s,Val v){
  if(!v.b)return; SymKind k=A[v.b].k;
  if((k==SK_ALLOCA||k==SK_FRESH)&&!s.escaped.count(v.b)){
    s.escaped.insert(v.b);
    // whatever it contains escapes as well
    std::vector<Val> in; for(auto it=s.mem.lower_bound(Loc(v.b,INT64_MIN));it!=s.mem.end()&&it->first.first==v.b;++it)in.push_back(it->second.v);
    for(auto&x:in)escape(s,x);
  }
}
// forget the part of a local that a callee was given a reference to
static uint64_t derefBytes(const CallBase&cb,unsigned i){ uint64_t n=cb.getParamDereferenceableBytes(i); if(!n&&cb.getCalledFunction())n=cb.getCalledFunction()->getParamDereferenceableBytes(i);
  if(!n){ if(Type*t=cb.getParamStructRetType(i))n=cb.getModule()->getDataLayout().getTypeAllocSize(t); } return n; }
static bool isAuxVal(State&s,Val v){ auto o=s.ts.objs.find(v.b); return v.b&&o!=s.ts.objs.end()&&o->second.kind==OK_AUX&&o->second.role==R_FRESH; }
static void forgetArg(Interp&in,State&s,Val a,const CallBase&cb,unsigned i){
  uint64_t n=derefBytes(cb,i); if(!n)n=1<<20;
  auto it=s.mem.lower_bound(Loc(a.b,a.o-16)); while(it!=s.mem.end()&&it->first.first==a.b&&it->first.second<a.o+(int64_t)n){ if(it->first.second+(int64_t)it->second.size>a.o&&!in.isHeaderVal(s,it->second.v,it->first.second)&&!isAuxVal(s,it->second.v))it=s.mem.erase(it); else ++it; }
}
void Interp::forgetBase(State&s,Ex b){
  auto it=s.mem.lower_bound(Loc(b,INT64_MIN)); while(it!=s.mem.end()&&it->first.first==b)it=s.mem.erase(it);
  if(A[b].k==SK_PARAM)s.dirtyParam.insert(b);
}
static bool isLocalBase(Ex b){SymKind k=A[b].k;return k==SK_ALLOCA;}
void Interp::storeTo(State&s,Val p,Val v,unsigned size){
  if(!p.b)return;
  if(!isLocalBase(p.b)||s.escaped.count(p.b))escape(s,v);
  bool heap=!isDistinctObj(p.b)||A.hasOld(p.b);
  if(heap)s.heapDirty=true;
  if(v.b&&v.o==0){ auto oi=s.ts.objs.find(v.b);
    if(oi!=s.ts.objs.end()&&oi->second.role==R_FRESH&&oi->second.kind==OK_NODE&&oi->second.alloc==1){
      Obj&o=oi->second; SymKind pk=A[p.b].k;
      if(o.vals.empty()&&p.o==opt.headerOff&&(pk==SK_PARAM||pk==SK_ALLOCA))o.header=true;
      Ex ab=p.b; while(ab&&A[ab].k==SK_OP&&A[ab].opc==OP_SELF+900)ab=A[ab].args[0].b;
      auto ai=s.ts.objs.find(ab); if(ai!=s.ts.objs.end()&&ai->second.kind==OK_AUX&&ai->second.role==R_FRESH){o.parked=true;o.parkAddr=p;}
    }}
  for(auto it=s.mem.begin();it!=s.mem.end();){
    Ex b=it->first.first;
    if(b==p.b){
      int64_t o=it->first.second; if(o<p.o+(int64_t)size&&p.o<o+(int64_t)it->second.size){ if(A[b].k==SK_PARAM&&(o<p.o||o+(int64_t)it->second.size>p.o+(int64_t)size))s.dirtyParam.insert(b); it=s.mem.erase(it);continue;}
    }else if(typedStore&&typedCells.count(it->first)){}
    else if(mayAlias(s,b,p.b)){it=s.mem.erase(it);continue;}
    ++it;
  }
  s.mem[Loc(p.b,p.o)]=Cell{v,size};
}
Val Interp::loadFrom(State&s,Val p,unsigned size,const Instruction*I){
  if(!p.b)return freshSym(s,I);
  auto it=s.mem.find(Loc(p.b,p.o));
  if(it!=s.mem.end()&&it->second.size==size)return it->second.v;
  bool overlap=false;
  if(it!=s.mem.end())overlap=true;
  else for(auto j=s.mem.lower_bound(Loc(p.b,p.o-16));j!=s.mem.end()&&j->first.first==p.b&&j->first.second<p.o+(int64_t)size;++j)
    if(j->first.second+(int64_t)j->second.size>p.o)overlap=true;
  Val v;
  SymKind k=A[p.b].k;
  bool clean=k==SK_PARAM?!s.dirtyParam.count(p.b):(k!=SK_ALLOCA&&k!=SK_FRESH&&!s.heapDirty);
  if(!overlap&&clean&&!A.hasOld(p.b)&&A.depth(p.b)<5){
    Ex e=A.op(OP_INITLD,{p,Val{0,(int64_t)size}});
    if(!s.escaped.empty()&&!refers(s,e)&&false)s.late.insert(e);
    v=Val{e,0};
  }else v=freshSym(s,I);
  if(!overlap&&A.depth(p.b)<4)s.mem[Loc(p.b,p.o)]=Cell{v,size};
  return v;
}
bool Interp::isHeaderVal(State&s,Val v,int64_t off){
  if(!v.b||v.o||off!=opt.headerOff)return false; if(isHeader(s,v.b))return true;
  auto i=s.ts.objs.find(v.b); return i!=s.ts.objs.end()&&i->second.header;}
void Interp::havocHeap(State&s,const std::vector<Val>&args,const CallBase&cb){
  s.heapDirty=true;
  { const Function*cf=cb.getCalledFunction(); Ev e=cf?finfo(cf).ev:EV_UNKNOWN; bool member=e==EV_REHASH||e==EV_DELTREE||e==EV_ATOM; // container operations do not make the container reachable from elements
    for(unsigned i=0;i<args.size();++i)if(!(member&&i==0))escape(s,args[i]); }
  for(auto it=s.mem.begin();it!=s.mem.end();){
    Ex b=it->first.first; SymKind k=A[b].k; bool rm=false;
    if(k==SK_ALLOCA)rm=s.escaped.count(b)>0;
    else if(k==SK_FRESH&&!A.hasOld(b))rm=s.escaped.count(b)>0;
    else if(k==SK_PARAM||k==SK_GLOBAL)rm=false;
    else rm=true;
    if(rm&&k==SK_ALLOCA&&isHeaderVal(s,it->second.v,it->first.second))rm=false;
    if(rm){it=s.mem.erase(it);continue;} ++it;
  }
  for(unsigned i=0;i<args.size();++i){
    Val a=args[i]; if(!a.b)continue; SymKind k=A[a.b].k;
    if(i==0&&cb.getCalledFunction()&&finfo(cb.getCalledFunction()).ev==EV_DELTREE)continue; // bulk deletion works on the nodes only
    if(k==SK_PARAM&&cb.getArgOperand(i)->getType()->isPointerTy()){
      uint64_t n=cb.getParamDereferenceableBytes(i); if(!n&&cb.getCalledFunction())n=cb.getCalledFunction()->getParamDereferenceableBytes(i);
      if(!n)n=8;
      s.dirtyParam.insert(a.b);
      for(auto it=s.mem.lower_bound(Loc(a.b,a.o));it!=s.mem.end()&&it->first.first==a.b&&it->first.second<a.o+(int64_t)n;){
        auto oi=s.ts.objs.find(it->second.v.b);
        if(oi!=s.ts.objs.end()&&oi->second.kind==OK_AUX&&oi->second.role==R_FRESH){++it;continue;} // primitives do not reassign the arrays they work on
        if(isHeaderVal(s,it->second.v,it->first.second)){++it;continue;} // no primitive replaces a container's header
        it=s.mem.erase(it);}
    }
    if(k==SK_ALLOCA)forgetArg(*this,s,a,cb,i);
  }
}
void Interp::doMemcpy(State&s,Val d,Val sr,uint64_t n,const Instruction*I){
  std::vector<std::pair<int64_t,Cell>> cs;
  if(sr.b&&n<=512){
    std::set<int64_t> covered;
    for(auto it=s.mem.lower_bound(Loc(sr.b,sr.o));it!=s.mem.end()&&it->first.first==sr.b&&it->first.second<sr.o+(int64_t)n;++it){
      cs.push_back({it->first.second-sr.o,it->second}); for(unsigned k=0;k<it->second.size;++k)covered.insert(it->first.second-sr.o+k);}
    for(int64_t o=0;o+8<=(int64_t)n;o+=8){bool any=false;for(int k=0;k<8;++k)if(covered.count(o+k))any=true;
      if(!any){Val v=loadFrom(s,Val{sr.b,sr.o+o},8,I); if(A[v.b].k==SK_RES){v=freshSym(s,I,1000+o);s.mem[Loc(sr.b,sr.o+o)]=Cell{v,8};} cs.push_back({o,Cell{v,8}});}}
  }
  if(!d.b)return;
  // clear destination
  if(A[d.b].k==SK_PARAM){ std::set<int64_t> cov; for(auto&c:cs)for(unsigned k=0;k<c.second.size;++k)cov.insert(c.first+k); bool full=true; for(int64_t o=0;o<(int64_t)n&&full;++o)if(!cov.count(o))full=false;
    for(auto&m:s.mem)if(m.first.first==d.b){int64_t o=m.first.second,e=o+(int64_t)m.second.size; if(o<d.o+(int64_t)n&&d.o<e&&(o<d.o||e>d.o+(int64_t)n))full=false;}
    if(!full||cs.empty())s.dirtyParam.insert(d.b); }
  for(auto it=s.mem.begin();it!=s.mem.end();){
    if(it->first.first==d.b){int64_t o=it->first.second; if(o<d.o+(int64_t)n&&d.o<o+(int64_t)it->second.size){it=s.mem.erase(it);continue;}}
    else if(mayAlias(s,it->first.first,d.b)){it=s.mem.erase(it);continue;}
    ++it;}
  for(auto&c:cs){ if(!isLocalBase(d.b))escape(s,c.second.v); s.mem[Loc(d.b,d.o+c.first)]=c.second;}
}
// ---------------------------------------------------------------- typestate
bool Interp::isHeader(State&s,Ex b){
  const Term&t=A[b]; if(t.k!=SK_OP||t.opc!=OP_INITLD||t.args[0].b==0||A[t.args[0].b].k!=SK_PARAM)return false;
  return opt.headerOff>=0&&t.args[0].o==opt.headerOff;
}
void Interp::ev(State&s,const std::string&e,const Instruction*at,const std::string&detail){
  ++res.events[e];
  std::string l=locOf(at);
  res.eventSites.insert(e+"@"+l);
  int n=s.trail?s.trail->n+1:1;
  s.trail=std::make_shared<Trail>(Trail{s.trail,e+(detail.empty()?"":" "+detail)+"  ["+l+"]",n});
}
void Interp::violate(State&s,const std::string&rule,const Instruction*at,const std::string&msg){
  std::string l=locOf(at);
  for(auto&v:res.viol)if(v.rule==rule&&v.where==l&&v.msg==msg)return;
  Violation v; v.rule=rule;v.where=l;v.driver=opt.driver;v.msg=msg;
  std::vector<std::string> t; for(TrailP p=s.trail;p&&t.size()<60;p=p->prev)t.push_back(p->msg);
  std::reverse(t.begin(),t.end()); v.trail=t; res.viol.push_back(v);
}
Obj& Interp::obj(State&s,Ex b,const Instruction*at){
  auto it=s.ts.objs.find(b); if(it!=s.ts.objs.end())return it->second;
  Obj o; o.role=R_ELEM; o.kind=OK_UNK; 
  return s.ts.objs[b]=o;
}
// membership of an element object is settled when it is linked everywhere and alive, or unlinked everywhere and gone
bool Interp::settled(const Obj&o,int&delta){
  delta=0;
  bool constructed=false; for(auto&v:o.vals)if(v.second)constructed=true;
  switch(o.role){
    case R_FRESH:
      if(o.kind==OK_AUX)return o.alloc==2;
      if(o.parked&&o.alloc==1)return constructed;
      if(o.alloc==2)return o.in.empty()&&!constructed;
      if((int)o.in.size()==opt.K&&constructed){delta=1;return true;}
      return false;
    case R_ELEM:
      if(o.kind==OK_AUX)return true;
      if(o.alloc==1&&o.out.empty()&&!(o.vals.size()&&!constructed)){return true;}
      if(o.alloc==2&&o.out.empty()&&o.vals.size()&&!constructed)return true; // bulk deletion: the whole structure is reset (checked at exit)
      if((int)o.out.size()>=opt.K){
        if(o.alloc==2&&!constructed&&o.vals.size()){delta=-1;return true;}
        if(o.handedOver&&o.alloc==1&&!(o.vals.size()&&!constructed)){delta=-1;return true;}
      }
      return false;
    case R_HANDLE:
      if(o.alloc==2)return o.in.empty()&&o.vals.size()&&!constructed;
      if(o.in.empty()&&!(o.vals.size()&&!constructed))return true;     // still owned by its handle
      if((int)o.in.size()==opt.K){delta=1;return true;}
      return false;
    case R_OTHER:{
      if(o.alloc==1&&o.out.empty()&&o.in.empty())return true;
      if((int)o.in.size()==opt.K&&o.out.empty()){return true;}          // transferred: net 0 over both containers
      if(o.alloc==2&&(int)o.out.size()>=opt.K&&o.in.empty()&&!constructed&&o.vals.size()){delta=-1;return true;}
      return false;}
    default:return o.alloc==2||o.vals.empty()||!constructed;
  }
}
void Interp::touch(State&s,Val p,const Instruction*at,const char*how){
  if(!p.b)return; auto it=s.ts.objs.find(p.b); if(it==s.ts.objs.end())return;
  if(it->second.alloc==2&&!A.hasOld(p.b))violate(s,"use-after-release",at,std::string(how)+" of released memory "+describe(p.b));
}
void Interp::link(State&s,Val p,const Instruction*at,const char*what){
  Obj&o=obj(s,p.b,at); ev(s,"LINK",at,std::string(what)+" "+valStr(p));
  if(o.alloc==2)violate(s,"link-released",at,"a released element is linked");
  bool in=(o.role==R_ELEM||o.role==R_OTHER)?!o.out.count(p.o):o.in.count(p.o)>0;
  if(o.role==R_OTHER&&o.in.count(p.o))in=true;
  if(in)violate(s,"double-link",at,"element linked twice in the same index (layer offset "+std::to_string(p.o)+")");
  if(o.role==R_ELEM)o.out.erase(p.o);
  else if(o.role==R_OTHER){o.out.erase(p.o);o.in.insert(p.o);}
  else o.in.insert(p.o);
  for(auto it=s.ts.undo.begin();it!=s.ts.undo.end();)if(it->second==Loc(p.b,p.o))it=s.ts.undo.erase(it);else ++it;
}
void Interp::unlink(State&s,Val p,const Instruction*at,const char*what){
  Obj&o=obj(s,p.b,at); ev(s,"UNLINK",at,std::string(what)+" "+valStr(p));
  if(o.alloc==2)violate(s,"unlink-released",at,"an element is unlinked after its memory was released");
  bool in=o.role==R_ELEM||(o.role==R_OTHER&&!o.in.count(p.o))?!o.out.count(p.o):o.in.count(p.o)>0;
  if(!in)violate(s,"double-unlink",at,"element unlinked from an index it is not linked in (layer offset "+std::to_string(p.o)+")");
  if(o.role==R_ELEM||o.role==R_OTHER){ if(o.role==R_OTHER&&o.in.count(p.o))o.in.erase(p.o); o.out.insert(p.o);} else o.in.erase(p.o);
}
void Interp::gc(State&s){
  if(opt.multi)for(auto it=s.ts.objs.begin();it!=s.ts.objs.end();){
    Obj&o=it->second; bool drop=false;
    if(o.kind==OK_AUX&&o.role==R_FRESH&&o.alloc==1)for(auto&m:s.mem)if(m.second.v.b==it->first&&m.second.v.o==0&&A[m.first.first].k==SK_PARAM)drop=true;
    if(drop)it=s.ts.objs.erase(it); else ++it;}
  // drop settled objects that nothing live refers to
  for(auto it=s.ts.objs.begin();it!=s.ts.objs.end();){
    int d; bool used=false;
    if(settled(it->second,d)){
      for(auto&e:s.env)if(e.second.b&&containsM(e.second.b,it->first)){used=true;break;}
      if(!used)for(auto&m:s.mem)if(isLocalBase(m.first.first)&&m.second.v.b&&containsM(m.second.v.b,it->first)){used=true;break;}
      if(!used&&s.ts.resultSet&&((s.ts.resPtr.b&&containsM(s.ts.resPtr.b,it->first))))used=true;
      if(A[it->first].k==SK_ALLOCA)used=false;
      if(!used&&!it->second.pinned&&!it->second.header&&!(it->second.parked&&it->second.alloc==2&&it->second.parkAddr.b)){
        if(it->second.role==R_ELEM&&it->second.alloc==2&&it->second.out.empty()&&it->second.kind!=OK_AUX)s.ts.flags["bulk"]=1;
        s.ts.pending[0]-=d; 
        if(d)s.ts.flags[d>0?"added":"removed"]=1;
        if(it->second.parked&&it->second.alloc==1)s.ts.flags["parked"]=1;
        if(opt.safeCont>=0)safeCheck(s,it->first,it->second,nullptr,"the point where it is no longer referred to");
        it=s.ts.objs.erase(it);continue;}
    }
    ++it;
  }
  // drop facts about vanished symbols (bounded state)
}
std::string Interp::keyOf(State&s,const BasicBlock*b){
  std::string k; auto n=[&](int64_t x){k+=std::to_string(x);k+=',';};
  for(auto&p:s.ts.objs){n(p.first);auto&o=p.second;n(o.role+(o.header?100:0)+(o.parked?200:0));n(o.kind);n(o.alloc);for(auto&v:o.vals){n(v.first);n(v.second);}k+='|';for(auto x:o.in)n(x);k+='/';for(auto x:o.out)n(x);k+='/';for(auto x:o.moved)n(x);n(o.assigned);if(opt.safeCont>=0){k+='s';for(auto&x:o.det){n(x.first);n(x.second);}k+='/';for(auto&x:o.tra){n(x.first);n(x.second);}};n(o.handedOver);n(o.pinned);k+=';';}
  k+='P';for(auto&p:s.ts.pending)if(p.second){n(p.first);n(std::max(-3,std::min(3,p.second)));}
  k+='F';for(auto&f:s.ts.flags)if(f.second){k+=f.first;n(f.second);}
  if(opt.safeCont>=0){k+='S';for(auto&x:s.ts.detAll){n(x.first);n(x.second);}k+='/';for(auto&x:s.ts.swp){n(x.first.first);n(x.first.second);n(x.second.first);n(x.second.second);}}
  if(lockMode){ bool ult=false; for(auto&t:s.truth){const Term&x=A[t.first]; if(x.k==SK_OP&&x.opc==OP_CMP+CmpInst::ICMP_ULT&&x.args[0].b&&x.args[1].b&&(x.args[0].o==lockOff[0]||x.args[1].o==lockOff[0]))ult=true;} if(ult){k+='V';for(auto&e:s.env){n(e.first);n(e.second.b);n(e.second.o);} for(auto&t:s.truth){const Term&x=A[t.first]; if(x.k==SK_OP&&x.opc>=OP_CMP&&x.opc<OP_FCMP&&x.args[0].b&&x.args[1].b){n(t.first);n(t.second);}} for(auto&m:s.mem)if(isLocalBase(m.first.first)){n(m.first.first);n(m.first.second);n(m.second.v.b);n(m.second.v.o);}}}
  if(s.ts.locks.size()){k+='K';for(auto&x:s.ts.locks){n(x.first);n(x.second);}}
  k+='U';for(auto&u:s.ts.undo){n(u.first.first);n(u.second.first);n(u.second.second);}
  k+='E';n(s.ts.exc);n(s.ts.userThrew); if(s.ts.resultSet){k+='R';n(s.ts.resFlag.b);n(s.ts.resFlag.o);n(s.ts.resPtr.b);n(s.ts.resX[0].b);n(s.ts.resX[1].b);}
  k+='L';
  auto sig=[&](Val v){ if(v.isConst()){n(v.o>3||v.o<-3?99:v.o);} else if(s.ts.objs.count(v.b)&&!(s.ts.objs[v.b].role==R_ELEM&&s.ts.objs[v.b].out.empty()&&s.ts.objs[v.b].alloc==1)){k+='o';n(v.b);} else k+='-';};
  for(auto&e:s.env){const Type*t=nullptr;(void)t; sig(e.second);}
  k+='M';
  for(auto&m:s.mem)if(isLocalBase(m.first.first)&&(m.second.v.isConst())){n(m.first.first);n(m.first.second);n(m.second.v.o>3||m.second.v.o<-3?99:m.second.v.o);}
  k+=extraKey(s);
  return k;
}
static const unsigned VNUM_TAG=0;
bool Interp::joinInto(State&d,State&s,const BasicBlock*b){
  (void)VNUM_TAG;
  std::map<std::pair<Ex,Ex>,Ex> pm; std::map<Ex,std::pair<Ex,Ex>> back; std::vector<std::pair<Ex,std::pair<Val,Val>>> mixed; std::map<Ex,Ex> r1,r2;
  std::map<Ex,Loc> reg;
  auto jn=[&](Val v1,Val v2,Ex name)->Val{
    if(lockMode&&!(v1==v2)){Loc a,b; if(regionOf(d,v1,a)&&regionOf(s,v2,b)&&a==b)reg[name]=a; else reg.erase(name);}
    if(v1==v2&&!A.hasOld(v1.b)){return v1;}
    if(v1==v2)return v1;
    auto isNull=[&](State&st,Val v){return v.isNull()||(v.b&&v.o==0&&evalCmp(st,CmpInst::ICMP_EQ,v,Val{0,0})==1);};
    if(isNull(d,v1)&&isNull(s,v2))return Val{0,0};
    if(v1.b&&v2.b&&v1.o==v2.o){
      if(v1.b==v2.b)return v1;
      auto k=std::make_pair(v1.b,v2.b);auto it=pm.find(k); if(it!=pm.end())return Val{it->second,v1.o};
      pm[k]=name; back[name]=k; if(!r1.count(v1.b))r1[v1.b]=name; if(!r2.count(v2.b))r2[v2.b]=name;
      return Val{name,v1.o};
    }
    back[name]={0,0}; mixed.push_back({name,{v1,v2}}); return Val{name,0};
  };
  bool ch=false;
  // a cell of an argument that only one side has written holds its initial value on the other side
  for(int k=0;k<2;++k){ State&x=k?s:d,&y=k?d:s; for(auto&m:x.mem)if(A[m.first.first].k==SK_PARAM&&!y.mem.count(m.first)&&!y.dirtyParam.count(m.first.first)){
      bool overlap=false; for(auto j=y.mem.lower_bound(Loc(m.first.first,m.first.second-16));j!=y.mem.end()&&j->first.first==m.first.first&&j->first.second<m.first.second+(int64_t)m.second.size;++j)if(j->first.second+(int64_t)j->second.size>m.first.second)overlap=true;
      if(overlap)continue; y.mem[m.first]=Cell{Val{A.op(OP_INITLD,{Val{m.first.first,m.first.second},Val{0,(int64_t)m.second.size}}),0},m.second.size}; } }
  std::map<unsigned,Val> env;
  for(auto&e:d.env){auto it=s.env.find(e.first); if(it==s.env.end()){ch=true;continue;}
    Val n=jn(e.second,it->second,A.sym(SK_JOINV,b,e.first)); if(n!=e.second)ch=true; env[e.first]=n;}
  std::map<Loc,Cell> mem;
  for(auto&m:d.mem){auto it=s.mem.find(m.first); if(it==s.mem.end()||it->second.size!=m.second.size){ch=true; if(A[m.first.first].k==SK_PARAM&&!d.dirtyParam.count(m.first.first))d.dirtyParam.insert(m.first.first); continue;}
    Val n=m.second.v;
    if(n!=it->second.v){
      if(A.depth(m.first.first)>2&&!isDistinctObj(m.first.first)){ch=true;continue;}
      n=jn(m.second.v,it->second.v,A.sym(SK_JOINC,b,((uint64_t)m.first.first<<32)|(uint32_t)(m.first.second+0x1000000)));
    }
    if(n!=m.second.v)ch=true; mem[m.first]=Cell{n,m.second.size};}
  for(auto&m:s.mem)if(A[m.first.first].k==SK_PARAM&&!mem.count(m.first)&&d.dirtyParam.insert(m.first.first).second)ch=true;
  // facts
  std::map<Ex,bool> truth;
  std::map<Ex,Ex> back1,back2; for(auto&p:back){ if(p.second.first){back1[p.first]=p.second.first;back2[p.first]=p.second.second;} }
  auto tryFact=[&](Ex f,bool t,std::map<Ex,Ex>&r,std::map<Ex,Ex>&bk,State&other){
    std::map<Ex,Ex> mm; Ex fm=r.empty()?f:subst(f,r,mm);
    std::map<Ex,Ex> m2; Ex fo=bk.empty()?fm:subst(fm,bk,m2);
    int v=evalBool(other,Val{fo,0}); if(v>=0&&(v!=0)==t)truth[fm]=t;
    if(fm!=f&&false){}
  };
  for(auto&f:d.truth){ tryFact(f.first,f.second,r1,back2,s);
    auto it=s.truth.find(f.first); if(it!=s.truth.end()&&it->second==f.second)truth[f.first]=f.second; }
  for(auto&f:s.truth)tryFact(f.first,f.second,r2,back1,d);
  for(auto&p:back)if(p.second.first&&!A.hasOld(p.first)&&nonNull(d,p.second.first)&&nonNull(s,p.second.second)&&!isDistinctObj(p.first))truth[A.op(OP_NONNULL,{Val{p.first,0}})]=true;
  for(auto&p:mixed){auto nn=[&](State&st,Val v){return v.b?nonNull(st,v.b):v.o!=0;}; if(nn(d,p.second.first)&&nn(s,p.second.second))truth[A.op(OP_NONNULL,{Val{p.first,0}})]=true;}
  // drop facts about merged names that mean something else now
  for(auto it=truth.begin();it!=truth.end();){ if(A.hasOld(it->first)){it=truth.erase(it);continue;} ++it;}
  if(env.size()!=d.env.size())ch=true;
  if(truth!=d.truth){ch=true;}
  size_t l0=d.late.size(),e0=d.escaped.size(),p0=d.dirtyParam.size();
  d.late.insert(s.late.begin(),s.late.end()); d.escaped.insert(s.escaped.begin(),s.escaped.end()); d.dirtyParam.insert(s.dirtyParam.begin(),s.dirtyParam.end());
  for(auto&p:back)if(p.second.first){ if((d.late.count(p.second.first)||s.late.count(p.second.second)||isDistinctObj(p.second.first)||isDistinctObj(p.second.second))&&!d.late.count(p.first)){d.late.insert(p.first);} }
  if(d.late.size()!=l0||d.escaped.size()!=e0||d.dirtyParam.size()!=p0)ch=true;
  if(s.heapDirty&&!d.heapDirty){d.heapDirty=true;ch=true;}
  if(lockMode){ std::map<Ex,Loc> r; for(auto&p:d.ts.region){auto i=s.ts.region.find(p.first); if(i!=s.ts.region.end()&&i->second==p.second)r[p.first]=p.second;} for(auto&p:reg)r[p.first]=p.second; if(r!=d.ts.region){ch=true;d.ts.region.swap(r);} }
  d.env.swap(env);d.mem.swap(mem);d.truth.swap(truth);
  return ch;
}
void Interp::flow(const BasicBlock*from,const BasicBlock*to,State s){
  // phis in parallel
  std::vector<std::pair<unsigned,Val>> ph;
  for(auto&I:*to){auto*p=dyn_cast<PHINode>(&I); if(!p)break; ph.push_back({vnum[p],get(s,p->getIncomingValueForBlock(from))});}
  for(auto&p:ph)s.env[p.first]=p.second;
  auto&li=liveIn[to];
  for(auto it=s.env.begin();it!=s.env.end();){
    bool isphi=false; for(auto&p:ph)if(p.first==it->first)isphi=true;
    if(!isphi&&!li.count(it->first))it=s.env.erase(it); else ++it;}
  gc(s);
  if(!joinBlocks.count(to)&&to!=&F.getEntryBlock()){runBlock(to,std::move(s));return;}
  // merged names of this block that change meaning are renamed first
  for(int guard=0;guard<50;++guard){
    Ex bad=0;
    auto chk=[&](Ex e)->void{
      std::function<void(Ex)> rec=[&](Ex x){ if(bad||!x)return; const Term&t=A[x];
        if((t.k==SK_JOINV||t.k==SK_JOINC)&&t.key==to){
          Val cur; bool have=false;
          if(t.k==SK_JOINV){auto i=s.env.find(t.aux); if(i!=s.env.end()){cur=i->second;have=true;}}
          else{Loc l((Ex)(t.aux>>32),(int64_t)(uint32_t)t.aux-0x1000000);auto i=s.mem.find(l); if(i!=s.mem.end()){cur=i->second.v;have=true;}}
          if(!(have&&cur==Val{x,0})){ bad=x;return; }
        }
        for(auto&a:t.args)rec(a.b); };
      rec(e);};
    for(auto&p:s.env){chk(p.second.b);if(bad)break;}
    if(!bad)for(auto&p:s.mem){chk(p.first.first);if(!bad)chk(p.second.v.b);if(bad)break;}
    if(!bad)for(auto&p:s.ts.objs){chk(p.first);if(bad)break;}
    if(!bad)for(auto&p:s.truth){chk(p.first);if(bad)break;}
    if(!bad)break;
    if(guard==49){res.error="rename guard";return;}
    renameSym(s,bad);
  }
  gc(s);
  // bound the depth of lazily named memory
  for(auto it=s.mem.begin();it!=s.mem.end();){ if(A.depth(it->first.first)>3||(A.hasOld(it->first.first)&&!s.ts.objs.count(it->first.first)))it=s.mem.erase(it);else ++it;}
  // forget cells and facts of unreachable symbols
  {
    std::set<Ex> live; std::vector<Ex> st; std::function<void(Ex)> add=[&](Ex e){ if(!e||!live.insert(e).second)return; const Term&t=A[e]; for(auto&a:t.args)add(a.b); if(t.k==SK_OLD){} };
    for(auto&p:s.env)add(p.second.b);
    for(auto&p:s.ts.objs)add(p.first);
    for(auto&p:s.ts.undo){add(p.first.first);add(p.second.first);}
    if(s.ts.resultSet){add(s.ts.resFlag.b);add(s.ts.resPtr.b);add(s.ts.resX[0].b);add(s.ts.resX[1].b);}
    bool ch=true; while(ch){ch=false; for(auto&m:s.mem){ if(isDistinctObj(m.first.first)||live.count(m.first.first)){ if(isLocalBase(m.first.first)&&!s.escaped.count(m.first.first)&&false)continue; if(m.second.v.b&&!live.count(m.second.v.b)){add(m.second.v.b);ch=true;} } } }
    for(auto it=s.mem.begin();it!=s.mem.end();){ if(!isDistinctObj(it->first.first)&&!live.count(it->first.first))it=s.mem.erase(it);else ++it;}
    for(auto it=s.truth.begin();it!=s.truth.end();){ bool ok=true; const Term&t=A[it->first]; if(t.args.empty())ok=live.count(it->first)>0; else for(auto&a:t.args)if(a.b&&!live.count(a.b)&&!isDistinctObj(a.b)){ok=false;} if(!ok&&live.count(it->first))ok=true; if(!ok)it=s.truth.erase(it);else ++it;}
    for(auto it=s.late.begin();it!=s.late.end();)if(!live.count(*it))it=s.late.erase(it);else ++it;
  }
  auto&bs=tbl[to]; std::string k=keyOf(s,to);
  auto it=bs.byKey.find(k);
  if(it==bs.byKey.end()){
    if(bs.byKey.size()>=opt.maxKeys){res.error="state limit at "+locOf(&to->front());return;}
    bs.byKey[k]=std::move(s);++res.states;
    work.insert({rpo[to],k});
  }else if(joinInto(it->second,s,to)){work.insert({rpo[to],k});}
}
void Interp::run(){
  State s; init(s);
  s.trail=nullptr;
  flow(nullptr,&F.getEntryBlock(),s);
  if(work.empty()&&res.steps==0)runBlock(&F.getEntryBlock(),s);
  while(!work.empty()&&res.error.empty()){
    auto w=*work.begin();work.erase(work.begin());
    const BasicBlock*b=byRpo[w.first];
    auto&bs=tbl[b]; auto it=bs.byKey.find(w.second); if(it==bs.byKey.end())continue;
    runBlock(b,it->second);
    if(res.steps>opt.maxSteps){res.error="step limit";}
  }
  for(auto&t:tbl)res.blocks+=1; 
}
void Interp::excExit(State s,const Instruction*at){
  ++res.exitsExc; exitCheck(s,true,at,nullptr);
}
void Interp::runBlock(const BasicBlock*b,State s0){
  std::vector<std::pair<const Instruction*,State>> st;
  const Instruction*f=&*b->getFirstNonPHIIt();
  st.push_back({f,std::move(s0)});
  while(!st.empty()){
    const Instruction*I=st.back().first; State s=std::move(st.back().second); st.pop_back();
    while(I){
      if(!res.error.empty())return;
      if(++res.steps>opt.maxSteps){res.error="step limit";return;}
      if(auto*br=dyn_cast<BranchInst>(I)){
        if(br->isUnconditional()){flow(b,br->getSuccessor(0),std::move(s));}
        else{
          Val c=get(s,br->getCondition()); int r=evalBool(s,c);
          if(r>=0){ onBranch(s,*I,c,r!=0); flow(b,br->getSuccessor(r?0:1),std::move(s));}
          else{
            State t=s; if(assume(t,c,true)){onBranch(t,*I,c,true);flow(b,br->getSuccessor(0),std::move(t));}
            if(assume(s,c,false)){onBranch(s,*I,c,false);flow(b,br->getSuccessor(1),std::move(s));}
          }
        }
        break;
      }
      if(auto*sw=dyn_cast<SwitchInst>(I)){
        Val c=get(s,sw->getCondition());
        if(c.isConst()){auto*ci=ConstantInt::get(cast<IntegerType>(sw->getCondition()->getType()),c.o); flow(b,sw->findCaseValue(ci)->getCaseSuccessor(),std::move(s));}
        else{
          for(auto&cs:sw->cases()){State t=s; bool neg;Val q=mkCmp(CmpInst::ICMP_EQ,c,Val{0,cs.getCaseValue()->getSExtValue()},neg); if(assume(t,q,true))flow(b,cs.getCaseSuccessor(),std::move(t));
            if(!assume(s,q,false))break;}
          flow(b,sw->getDefaultDest(),std::move(s));
        }
        break;
      }
      if(auto*ri=dyn_cast<ReturnInst>(I)){++res.exitsNormal; exitCheck(s,false,I,ri->getReturnValue()); break;}
      if(isa<ResumeInst>(I)){excExit(std::move(s),I);break;}
      if(isa<UnreachableInst>(I))break;
      if(auto*cb=dyn_cast<CallBase>(I)){
        CallOut o=call(std::move(s),*cb);
        if(auto*iv=dyn_cast<InvokeInst>(I)){
          for(auto&x:o.exc)flow(b,iv->getUnwindDest(),std::move(x));
          for(auto&x:o.norm)flow(b,iv->getNormalDest(),std::move(x));
          break;
        }
        for(auto&x:o.exc)excExit(std::move(x),I);
        if(o.norm.empty())break;
        for(size_t i=1;i<o.norm.size();++i)st.push_back({I->getNextNode(),std::move(o.norm[i])});
        s=std::move(o.norm[0]); I=I->getNextNode(); continue;
      }
      std::vector<std::pair<const Instruction*,State>> forks;
      bool cont=stepInst(s,*I,forks);
      for(auto&x:forks)st.push_back(std::move(x));
      if(!cont)break;
      I=I->getNextNode();
    }
  }
}
bool Interp::stepInst(State&s,const Instruction&I,std::vector<std::pair<const Instruction*,State>>&forks){
  unsigned id=vnum[&I];
  auto set=[&](Val v){s.env[id]=v;};
  if(auto*a=dyn_cast<AllocaInst>(&I)){Ex e=A.sym(SK_ALLOCA,a); set(Val{e,0});return true;}
  if(auto*l=dyn_cast<LoadInst>(&I)){
    Val p=get(s,l->getPointerOperand()); if(!p.b)return false; touch(s,p,&I,"read"); assumeNonNull(s,p);
    uint64_t sz=DL.getTypeStoreSize(l->getType());
    Val v=l->getType()->isAggregateType()?freshSym(s,&I):loadFrom(s,p,sz,&I);
    onLoad(s,*l,p,v); set(v);return true;}
  if(auto*st=dyn_cast<StoreInst>(&I)){
    Val p=get(s,st->getPointerOperand()),v=get(s,st->getValueOperand()); if(!p.b)return false; touch(s,p,&I,"write"); assumeNonNull(s,p);
    uint64_t sz=DL.getTypeStoreSize(st->getValueOperand()->getType());
    if(p.b&&A[p.b].k==SK_PARAM&&p.o==opt.countOff&&sz==8&&opt.countOff>=0&&((const Argument*)A[p.b].key)->getName().starts_with("c")){
      Val old=loadFrom(s,p,8,&I);
      if(v.b==old.b){int d=v.o-old.o; s.ts.pending[0]+=d; s.ts.pending[p.b]+=d; ev(s,"COUNT",&I,std::to_string(d));}
      else if(v.isConst()&&v.o==0){s.ts.flags["count0"]=1; ev(s,"COUNT",&I,"=0");}
      else{s.ts.flags["countAssigned"]=1; ev(s,"COUNT",&I,"="+valStr(v));}
    }
    onStore(s,I,p,v);
    storeTo(s,p,v,sz);typedStore=false;return true;}
  if(auto*g=dyn_cast<GetElementPtrInst>(&I)){
    Val b=get(s,g->getPointerOperand()); APInt off(64,0);
    if(g->accumulateConstantOffset(DL,off)){b.o+=off.getSExtValue();set(b);return true;}
    // variable index: base + sum
    Val r=b; bool ok=true; std::vector<Val> var;
    for(auto gi=gep_type_begin(g),ge=gep_type_end(g);gi!=ge;++gi){
      if(StructType*stt=gi.getStructTypeOrNull()){r.o+=DL.getStructLayout(stt)->getElementOffset(cast<ConstantInt>(gi.getOperand())->getZExtValue());}
      else{Val ix=get(s,gi.getOperand()); int64_t sz=DL.getTypeAllocSize(gi.getIndexedType());
        if(ix.isConst())r.o+=ix.o*sz; else{r.o+=ix.o*sz; var.push_back(Val{ix.b,sz});}}
    }
    (void)ok;
    if(var.empty()){set(r);return true;}
    std::vector<Val> args={Val{r.b,0}}; for(auto&v:var){args.push_back(Val{v.b,0});args.push_back(Val{0,v.o});}
    Ex e=A.op(OP_SELF+900,args); if(A.depth(e)>6)set(freshSym(s,&I)); else{ set(Val{e,r.o}); if(r.b&&(s.late.count(r.b)))s.late.insert(e);
      if(r.b&&(A[r.b].k==SK_FRESH||A[r.b].k==SK_ALLOCA)){} }
    return true;}
  if(auto*c=dyn_cast<ICmpInst>(&I)){
    Val a=get(s,c->getOperand(0)),b=get(s,c->getOperand(1)); unsigned pr=c->getPredicate();
    // comparisons of booleans with 0
    if(b.isConst()&&a.b&&a.o==0&&isBoolTerm(a.b)&&(pr==CmpInst::ICMP_EQ||pr==CmpInst::ICMP_NE)&&(b.o==0||b.o==1)){
      bool same=(pr==CmpInst::ICMP_NE)==(b.o==0);
      set(same?a:Val{A.op(OP_NOT,{a}),0});return true;}
    int r=evalCmp(s,pr,a,b); if(r>=0){set(Val{0,r});return true;}
    if(getenv("MIFLOW_DBG")&&locOf(&I).find(getenv("MIFLOW_DBG"))!=std::string::npos){ errs()<<"CMP "<<valStr(a)<<" ? "<<valStr(b)<<" @"<<locOf(&I).substr(0,120)<<"\n"; for(auto&f:s.truth)errs()<<"    "<<describe(f.first)<<"="<<f.second<<"\n"; }
    bool neg;Val v=mkCmp(pr,a,b,neg); set(neg?Val{A.op(OP_NOT,{v}),0}:v);return true;}
  if(auto*sel=dyn_cast<SelectInst>(&I)){
    Val c=get(s,sel->getCondition()); int r=evalBool(s,c);
    Val tv=get(s,sel->getTrueValue()),fv=get(s,sel->getFalseValue());
    if(r>=0){set(r?tv:fv);return true;}
    if(tv==fv){set(tv);return true;}
    State t=s; if(assume(t,c,true)){t.env[id]=tv;onBranch(t,I,c,true);forks.push_back({I.getNextNode(),std::move(t)});}
    if(!assume(s,c,false))return false; onBranch(s,I,c,false); set(fv);return true;}
  if(isa<BinaryOperator>(&I)){
    Val a=get(s,I.getOperand(0)),b=get(s,I.getOperand(1)); unsigned op=I.getOpcode();
    bool i1=I.getType()->isIntegerTy(1);
    if(a.isConst()&&b.isConst()&&I.getType()->isIntegerTy()){
      int64_t r;bool ok=true; switch(op){case Instruction::Add:r=a.o+b.o;break;case Instruction::Sub:r=a.o-b.o;break;case Instruction::Mul:r=a.o*b.o;break;case Instruction::And:r=a.o&b.o;break;case Instruction::Or:r=a.o|b.o;break;case Instruction::Xor:r=a.o^b.o;break;case Instruction::Shl:r=a.o<<b.o;break;
        case Instruction::LShr:r=(int64_t)((uint64_t)a.o>>b.o);break;default:ok=false;}
      if(ok){ if(I.getType()->isIntegerTy(32))r=(int32_t)r; set(Val{0,r});return true;}}
    if(op==Instruction::Add){ if(a.isConst()){set(Val{b.b,b.o+a.o});return true;} if(b.isConst()){set(Val{a.b,a.o+b.o});return true;} }
    if(op==Instruction::Sub){ if(b.isConst()){set(Val{a.b,a.o-b.o});return true;} if(a.b==b.b&&!A.hasOld(a.b)){set(Val{0,a.o-b.o});return true;} }
    if(op==Instruction::Or&&I.getType()->isIntegerTy()){ if(a.isConst()&&a.o==0){set(b);return true;} if(b.isConst()&&b.o==0){set(a);return true;} }
    if(op==Instruction::Xor&&b.isConst()&&b.o==1&&(i1||(a.o==0&&isBoolTerm(a.b)))){set(Val{A.op(OP_NOT,{a}),0});return true;}
    if(i1&&(op==Instruction::And||op==Instruction::Or)){
      int ra=evalBool(s,a),rb=evalBool(s,b);
      if(op==Instruction::And){ if(ra==0||rb==0){set(Val{0,0});return true;} if(ra==1){set(b);return true;} if(rb==1){set(a);return true;} 
        State t=s; if(assume(t,a,true)){t.env[id]=b;forks.push_back({I.getNextNode(),std::move(t)});} if(!assume(s,a,false))return false; set(Val{0,0});return true;}
      else{ if(ra==1||rb==1){set(Val{0,1});return true;} if(ra==0){set(b);return true;} if(rb==0){set(a);return true;}
        State t=s; if(assume(t,a,true)){t.env[id]=Val{0,1};forks.push_back({I.getNextNode(),std::move(t)});} if(!assume(s,a,false))return false; set(b);return true;}
    }
    if((op==Instruction::And||op==Instruction::Or||op==Instruction::Add||op==Instruction::Mul||op==Instruction::Xor)&&b<a)std::swap(a,b);
    Ex e=A.op(OP_SELF+op,{a,b}); if(A.depth(e)>8)set(freshSym(s,&I)); else set(Val{e,0}); return true;}
  if(auto*c=dyn_cast<CastInst>(&I)){
    Val a=get(s,c->getOperand(0)); unsigned op=c->getOpcode();
    if(op==Instruction::PtrToInt||op==Instruction::IntToPtr||op==Instruction::BitCast||op==Instruction::ZExt||op==Instruction::SExt||op==Instruction::AddrSpaceCast){
      if(op==Instruction::ZExt&&a.isConst()){unsigned w=c->getOperand(0)->getType()->getIntegerBitWidth(); if(w<64)a.o&=((1ll<<w)-1);}
      if(op==Instruction::SExt&&a.isConst()&&c->getOperand(0)->getType()->isIntegerTy(1)&&a.o)a.o=-1;
      set(a);return true;}
    if(op==Instruction::Trunc){ if(a.isConst()){unsigned w=c->getType()->getIntegerBitWidth(); if(w==1)a.o&=1; else if(w<64){a.o=(int64_t)((uint64_t)a.o<<(64-w))>>(64-w);} set(a);return true;}
      if(a.o==0&&isBoolTerm(a.b)){set(a);return true;}
      unsigned w=c->getType()->getIntegerBitWidth();
      Ex e=A.op(OP_SELF+op,{a,Val{0,(int64_t)w}}); if(A.depth(e)>8)set(freshSym(s,&I)); else set(Val{e,0});return true;}
    Ex e=A.op(OP_SELF+op,{a}); if(A.depth(e)>8)set(freshSym(s,&I)); else set(Val{e,0}); return true;}
  if(auto*c=dyn_cast<FCmpInst>(&I)){Val a=get(s,c->getOperand(0)),b=get(s,c->getOperand(1)); Ex e=A.op(OP_FCMP+c->getPredicate(),{a,b}); if(A.depth(e)>8)set(freshSym(s,&I)); else set(Val{e,0}); return true;}
  if(auto*lp=dyn_cast<LandingPadInst>(&I)){(void)lp; Val a=freshSym(s,&I,1),b=freshSym(s,&I,2); set(Val{A.op(OP_AGG,{a,b}),0});return true;}
  if(auto*x=dyn_cast<ExtractValueInst>(&I)){
    Val a=get(s,x->getAggregateOperand()); if(x->getNumIndices()==1&&a.b&&A[a.b].k==SK_OP&&A[a.b].opc==OP_AGG&&x->getIndices()[0]<A[a.b].args.size()){set(A[a.b].args[x->getIndices()[0]]);return true;}
    set(freshSym(s,&I));return true;}
  if(auto*x=dyn_cast<InsertValueInst>(&I)){
    Val a=get(s,x->getAggregateOperand()),v=get(s,x->getInsertedValueOperand());
    unsigned n=0; if(auto*stt=dyn_cast<StructType>(x->getType()))n=stt->getNumElements(); 
    if(n&&x->getNumIndices()==1){std::vector<Val> args(n,Val{0,0}); if(a.b&&A[a.b].k==SK_OP&&A[a.b].opc==OP_AGG)args=A[a.b].args; args[x->getIndices()[0]]=v; set(Val{A.op(OP_AGG,args),0});return true;}
    set(freshSym(s,&I));return true;}
  if(isa<FreezeInst>(&I)){set(get(s,I.getOperand(0)));return true;}
  if(!I.getType()->isVoidTy())set(freshSym(s,&I));
  return true;
}
static bool retPtrLike(const CallBase&cb){return !cb.getType()->isVoidTy();}
// the auxiliary arrays of a container may be replaced by an operation on it: stop tracking them
static void dropAux(State&s,Val a){
  if(!a.b)return;
  for(auto m=s.mem.lower_bound(Loc(a.b,INT64_MIN));m!=s.mem.end()&&m->first.first==a.b;){ auto o=s.ts.objs.find(m->second.v.b);
    if(m->second.v.o==0&&o!=s.ts.objs.end()&&o->second.kind==OK_AUX&&o->second.role==R_FRESH&&o->second.alloc==1){s.ts.objs.erase(o);m=s.mem.erase(m); if(A[a.b].k==SK_PARAM)s.dirtyParam.insert(a.b);} else ++m; }
}
// terms whose meaning is exact at the point of use (no unknown results, no merged or outdated names)
static bool known(Ex e){ if(!e)return true; const Term&t=A[e]; if(t.k==SK_RES||t.k==SK_JOINV||t.k==SK_JOINC||t.k==SK_OLD)return false; for(auto&a:t.args)if(!known(a.b))return false; return true; }
Interp::CallOut Interp::call(State s,const CallBase&cb){
  CallOut out; std::vector<Val> args; for(auto&a:cb.args())args.push_back(get(s,a.get()));
  unsigned id=vnum[&cb];
  auto setRes=[&](State&t){if(retPtrLike(cb))t.env[id]=freshSym(t,&cb);};
  if(auto*ii=dyn_cast<IntrinsicInst>(&cb)){
    switch(ii->getIntrinsicID()){
      case Intrinsic::memcpy:case Intrinsic::memmove:{
        touch(s,args[0],&cb,"write");touch(s,args[1],&cb,"read");
        onStore(s,cb,args[0],args[1]);
        if(args[2].isConst())doMemcpy(s,args[0],args[1],args[2].o,&cb);
        else{ if(args[0].b){ for(auto it=s.mem.begin();it!=s.mem.end();){ if(it->first.first==args[0].b||mayAlias(s,it->first.first,args[0].b))it=s.mem.erase(it);else ++it;} if(A[args[0].b].k==SK_PARAM)s.dirtyParam.insert(args[0].b); else s.heapDirty=true; escape(s,args[1]);} }
        break;}
      case Intrinsic::memset:{
        onStore(s,cb,args[0],args[1]);
        if(args[0].b){ if(A[args[0].b].k==SK_PARAM)s.dirtyParam.insert(args[0].b); else if(!isDistinctObj(args[0].b))s.heapDirty=true;
          for(auto it=s.mem.begin();it!=s.mem.end();){ if(it->first.first==args[0].b||mayAlias(s,it->first.first,args[0].b))it=s.mem.erase(it);else ++it;}
          if(args[1].isConst()&&args[1].o==0&&args[2].isConst()&&args[2].o<=256)for(int64_t o=0;o+8<=args[2].o;o+=8)s.mem[Loc(args[0].b,args[0].o+o)]=Cell{Val{0,0},8};}
        break;}
      case Intrinsic::lifetime_end:{ Val p=args.back(); if(p.b&&A[p.b].k==SK_ALLOCA&&p.o==0)forgetBase(s,p.b); break;}
      case Intrinsic::assume:{ if(!assume(s,args[0],true))return out; break;}
      case Intrinsic::eh_typeid_for: s.env[id]=Val{A.sym(SK_GLOBAL,cb.getArgOperand(0),7),0};break;
      case Intrinsic::umul_with_overflow:case Intrinsic::uadd_with_overflow: s.env[id]=Val{A.op(OP_AGG,{Val{A.op(OP_SELF+800,{args[0],args[1]}),0},Val{A.op(OP_SELF+801,{args[0],args[1]}),0}}),0};break;
      case Intrinsic::expect: s.env[id]=args[0];break;
      default: setRes(s);
    }
    out.norm.push_back(std::move(s));return out;
  }
  const Function*f=cb.getCalledFunction();
  if(!f){onOpaque(s,cb,"an indirect call");res.unknownCalls.insert("indirect@"+locOf(&cb)); State e=s; setRes(s); havocHeap(s,args,cb); e.ts.exc=1;e.ts.userThrew=1;e.ts.origin="indirect call"; out.norm.push_back(std::move(s)); if(!cb.doesNotThrow())out.exc.push_back(std::move(e)); return out;}
  const FInfo&fi=finfo(f);
  bool nothrow=cb.doesNotThrow()||f->doesNotThrow();
  auto thrown=[&](State t,const std::string&what,bool user)->State{
    if(t.ts.exc==2&&t.ts.userThrew)t.ts.flags["rethrown-other"]=1;
    if(t.ts.flags.count("backReturned"))t.ts.flags["throwAfterBack"]=1;
    t.ts.exc=1; t.ts.origin=what+" @ "+locOf(&cb); if(user)t.ts.userThrew=1; 
    res.throwPoints.insert(what+"@"+locOf(&cb)); ev(t,"THROW",&cb,what); return t;};
  for(auto&a:args)if(fi.ev!=EV_CXA_BEGIN&&fi.ev!=EV_DEALLOC&&fi.ev!=EV_UNKNOWN)touch(s,a,&cb,("use by "+fi.base).c_str());
  for(unsigned i=0;i<args.size();++i)if(cb.paramHasAttr(i,Attribute::NonNull)||f->hasParamAttribute(i,Attribute::NonNull)||cb.getParamDereferenceableBytes(i)||f->getParamDereferenceableBytes(i)){
    if(args[i].isConst()&&cb.getArgOperand(i)->getType()->isPointerTy())return out;   // a reference to nothing: undefined behaviour, path not feasible
    assumeNonNull(s,args[i]);}
  if(opt.modular&&fi.ev==EV_ATOM){ ev(s,"ATOM",&cb,fi.base); 
    if(fi.base=="transfer_")transferAllocCheck(s,&cb);
    State e=s; std::map<Loc,Cell> hd;
    for(auto&a:args){dropAux(s,a);dropAux(e,a);}
    havocHeap(s,args,cb); s.mem.insert(hd.begin(),hd.end()); for(auto&m:std::map<Loc,Cell>(s.mem))if(A[m.first.first].k==SK_PARAM&&m.first.second!=opt.headerOff&&!(s.ts.objs.count(m.second.v.b)))s.mem.erase(m.first);
    for(auto&a:args)if(a.b&&A[a.b].k==SK_PARAM)s.dirtyParam.insert(a.b);
    if(retPtrLike(cb))s.env[id]=freshSym(s,&cb);
    onAtom(s,cb,fi,args); out.norm.push_back(std::move(s));
    if(!nothrow&&fi.rvalue)out.exc.push_back(thrown(std::move(e),fi.base,true));
    return out; }
  switch(fi.ev){
    case EV_VP: onVp(s,cb,fi.name,args); if(retPtrLike(cb)&&!s.env.count(id))setRes(s); out.norm.push_back(std::move(s)); return out;
    case EV_CXA_BEGIN: s.ts.exc=2; setRes(s); ev(s,"CATCH",&cb); out.norm.push_back(std::move(s)); return out;
    case EV_CXA_END:
      if(s.ts.exc==2){s.ts.exc=0; s.ts.flags["swallowed"]=1; ev(s,"SWALLOW",&cb,s.ts.origin);}
      out.norm.push_back(std::move(s)); return out;
    case EV_RETHROW: s.ts.exc=1; ev(s,"RETHROW",&cb); out.exc.push_back(std::move(s)); return out;
    case EV_THROW: {State t=thrown(std::move(s),"library throw",false); out.exc.push_back(std::move(t)); return out;}
    case EV_LIBTHROW: {State t=thrown(std::move(s),"library "+fi.base,false); out.exc.push_back(std::move(t)); return out;}
    case EV_TERM: ev(s,"TERMINATE",&cb); if(s.ts.exc)violate(s,"terminate-on-exception",&cb,"exception from "+s.ts.origin+" reaches a noexcept boundary (std::terminate)"); return out;
    case EV_CHECKED: s.env[id]=Val{0,1}; s.ts.flags["checked"]=1; out.norm.push_back(std::move(s)); return out;
    case EV_PURE: {State e=s; setRes(s); out.norm.push_back(std::move(s)); if(!nothrow&&f->getName()=="_Znwm")out.exc.push_back(thrown(std::move(e),"operator new",true)); return out;}
    case EV_ALLOC:{
      State e=s; ev(s,"ALLOC",&cb,fi.tparam.substr(0,60));
      Val v=freshSym(s,&cb,0,SK_FRESH); s.escaped.erase(v.b); s.late.erase(v.b);
      Obj o; o.role=R_FRESH; o.alloc=1; o.kind=isNodeType(fi.tparam)?OK_NODE:OK_AUX;
      o.nalloc=args[1]; o.allocator=loadFrom(s,args[0],8,&cb); o.allocKnown=true; s.ts.objs[v.b]=o; s.env[id]=v;
      out.norm.push_back(std::move(s)); if(!nothrow)out.exc.push_back(thrown(std::move(e),"allocate",true)); return out;}
    case EV_DEALLOC:{
      ev(s,"DEALLOC",&cb,valStr(args[1]));
      Val p=args[1];
      if(p.b){
        if(isHeader(s,p.b)){ Obj&o=obj(s,p.b,&cb); o.header=true; o.kind=OK_NODE; s.ts.flags["headerReleased"]=1;
          if(o.alloc==2)violate(s,"double-release",&cb,"header node "+describe(p.b)+" released twice");
          bool c=false; for(auto&v:o.vals)if(v.second)c=true; if(c)violate(s,"release-undestroyed",&cb,"a header node holding an element is released");
          o.alloc=2; forgetBase(s,p.b); out.norm.push_back(std::move(s)); return out; }
        Obj&o=obj(s,p.b,&cb);
        bool aux=!isNodeType(fi.tparam);
        if(o.role==R_ELEM&&aux)o.kind=OK_AUX; if(!aux)o.kind=OK_NODE;
        if(o.alloc==2&&!A.hasOld(p.b))violate(s,"double-release",&cb,"memory "+describe(p.b)+" released twice");
        bool constructed=false; for(auto&v:o.vals)if(v.second)constructed=true;
        if(!aux&&(constructed||(o.role==R_ELEM&&o.vals.empty())||(o.role==R_HANDLE&&o.vals.empty())))violate(s,"release-undestroyed",&cb,"element memory released without destroying the element");
        if(o.allocKnown&&o.nalloc!=args[2]&&known(o.nalloc.b)&&known(args[2].b))violate(s,"size-mismatch",&cb,"released with size "+valStr(args[2])+" but allocated with "+valStr(o.nalloc));
        if(o.allocKnown){Val al=loadFrom(s,args[0],8,&cb); if(al!=o.allocator&&known(al.b)&&known(o.allocator.b)){ bool neg;Val q=mkCmp(CmpInst::ICMP_EQ,al,o.allocator,neg); if(evalBool(s,q)!=1)violate(s,"wrong-allocator",&cb,"released through allocator "+valStr(al)+" but allocated through "+valStr(o.allocator));}}
        if(!aux&&!o.in.empty()&&(o.role==R_FRESH||o.role==R_HANDLE))violate(s,"release-linked",&cb,"element released while still linked in an index");
        if(!aux&&o.role==R_ELEM&&!o.out.empty()&&(int)o.out.size()<opt.K)violate(s,"release-linked",&cb,"element released while still linked in "+std::to_string(opt.K-(int)o.out.size())+" of "+std::to_string(opt.K)+" indices");
        o.alloc=2;
        forgetBase(s,p.b);
      }
      out.norm.push_back(std::move(s)); return out;}
    case EV_ALSELECT:{ setRes(s); if(args.size()&&cb.paramHasAttr(0,Attribute::StructRet)){Val sv=freshSym(s,&cb,5); storeTo(s,args[0],sv,8); if(!s.ts.selOf.b)s.ts.selOf=sv;} out.norm.push_back(std::move(s)); return out;}
    case EV_V_CTOR:{
      State e=s; ev(s,fi.rvalue?"MOVE-CONSTRUCT":"CONSTRUCT",&cb,valStr(args[0]));
      if(args[0].b){Obj&o=obj(s,args[0].b,&cb); if(isLocalBase(args[0].b))o.role=R_LOCAL; 
        if(o.vals.count(args[0].o)?o.vals[args[0].o]==1:(o.role==R_ELEM||o.role==R_HANDLE))violate(s,"double-construct",&cb,"element constructed over a live element");
        o.vals[args[0].o]=1;}
      if(fi.rvalue){ s.ts.flags["movedfrom"]=1; if(args.size()>1)onVp(s,cb,"moved-from",args); }
      onUser(s,cb,fi,args);
      out.norm.push_back(std::move(s)); if(!nothrow)out.exc.push_back(thrown(std::move(e),"element constructor",true)); return out;}
    case EV_V_DTOR:{
      ev(s,"DESTROY",&cb,valStr(args[0]));
      if(args[0].b){Obj&o=obj(s,args[0].b,&cb); if(isLocalBase(args[0].b)){o.role=R_LOCAL;}
        if(o.vals.count(args[0].o)?o.vals[args[0].o]==0:o.role==R_FRESH)violate(s,"double-destroy",&cb,"element destroyed that is not alive ("+describe(args[0].b)+")");
        o.vals[args[0].o]=0;}
      onUser(s,cb,fi,args);
      out.norm.push_back(std::move(s)); return out;}
    case EV_V_ASSIGN:{
      State e=s; ev(s,"ASSIGN",&cb,valStr(args[0]));
      if(args[0].b){Obj&o=obj(s,args[0].b,&cb); o.assigned=true;}
      if(fi.rvalue)s.ts.flags["movedfrom"]=1;
      onUser(s,cb,fi,args);
      setRes(s);
      out.norm.push_back(std::move(s)); if(!nothrow){out.exc.push_back(thrown(std::move(e),"element assignment",true));} return out;}
    case EV_USER:{
      State e=s; ev(s,"USER",&cb,fi.name);
      setRes(s);
      // mutable element arguments: only the element may change; object results returned through sret
      if(cb.arg_size()&&cb.paramHasAttr(0,Attribute::StructRet)&&args[0].b)forgetBase(s,args[0].b);
      for(unsigned i=0;i<args.size();++i)if(args[i].b&&isLocalBase(args[i].b)&&!cb.paramHasAttr(i,Attribute::ReadOnly)){ if(fi.dem.find(") const")==std::string::npos||i>0)forgetArg(*this,s,args[i],cb,i);}
      onUser(s,cb,fi,args); onUserThrow(e,cb,fi,args);
      out.norm.push_back(std::move(s)); if(!nothrow)out.exc.push_back(thrown(std::move(e),fi.name,true)); return out;}
    case EV_LINK: link(s,args[fi.objArg],&cb,fi.name.c_str()); onUser(s,cb,fi,args); havocHeap(s,args,cb); setRes(s); out.norm.push_back(std::move(s)); return out;
    case EV_UNLINK: unlink(s,args[fi.objArg],&cb,fi.name.c_str()); onUser(s,cb,fi,args); havocHeap(s,args,cb); setRes(s); out.norm.push_back(std::move(s)); return out;
    case EV_UNLINK_UNDO: unlink(s,args[0],&cb,fi.name.c_str()); onUser(s,cb,fi,args); havocHeap(s,args,cb); if(args.size()>1&&args[1].b)s.ts.undo[Loc(args[1].b,args[1].o)]=Loc(args[0].b,args[0].o); out.norm.push_back(std::move(s)); return out;
    case EV_UNDO:{
      auto it=s.ts.undo.find(Loc(args[0].b,args[0].o));
      if(it==s.ts.undo.end())violate(s,"undo-without-unlink",&cb,"an unlink is undone that is not pending");
      else{Loc l=it->second; s.ts.undo.erase(it); link(s,Val{l.first,l.second},&cb,"undo");}
      onUser(s,cb,fi,args);
      havocHeap(s,args,cb); out.norm.push_back(std::move(s)); return out;}
    case EV_MOVE: ev(s,"MOVE",&cb,fi.name); onUser(s,cb,fi,args); havocHeap(s,args,cb); setRes(s); out.norm.push_back(std::move(s)); return out;
    case EV_PRIM: ev(s,"PRIM",&cb,fi.name); onUser(s,cb,fi,args); havocHeap(s,args,cb); setRes(s); out.norm.push_back(std::move(s)); return out;
    case EV_REHASH:{ dropAux(s,args[0]); State e=s; ev(s,"REHASH",&cb,fi.name); onUser(s,cb,fi,args); havocHeap(s,args,cb); out.norm.push_back(std::move(s)); if(!nothrow){havocHeap(e,args,cb);out.exc.push_back(thrown(std::move(e),"rehash",true));} return out;}
    case EV_LOCK:case EV_UNLOCK: ev(s,fi.ev==EV_LOCK?"LOCK":"UNLOCK",&cb,valStr(args[0])); onLock(s,cb,fi.ev==EV_LOCK,args[0]); setRes(s); out.norm.push_back(std::move(s)); return out;
    case EV_SAFE: safeEvent(s,cb,fi,args); out.norm.push_back(std::move(s)); return out;
    case EV_DELTREE: ev(s,"DELTREE",&cb,fi.name); s.ts.flags["bulk"]=1; onUser(s,cb,fi,args); havocHeap(s,args,cb); out.norm.push_back(std::move(s)); return out;
    default:{
      res.unknownCalls.insert(fi.name+"@"+locOf(&cb));
      State e=s; ev(s,"CALL",&cb,fi.name); havocHeap(s,args,cb); setRes(s); onUser(s,cb,fi,args); out.norm.push_back(std::move(s)); if(!nothrow)out.exc.push_back(thrown(std::move(e),fi.name,true)); return out;}
  }
}
