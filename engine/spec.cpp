#include "interp.hpp"
using namespace llvm;
void Interp::onVp(State&s,const CallBase&cb,const std::string&nm,std::vector<Val>&args){
  if(nm=="vp_result"){s.ts.resultSet=true;s.ts.resFlag=args[0];s.ts.resPtr=args.size()>1?args[1]:Val{0,0};s.ts.resX[0]=args.size()>2?args[2]:Val{0,0};s.ts.resX[1]=args.size()>3?args[3]:Val{0,0};ev(s,"RESULT",&cb,valStr(args[0])+","+(args.size()>1?valStr(args[1]):""));}
  else if(nm=="vp_elem"){Obj&o=obj(s,args[0].b);o.role=R_ELEM;o.kind=OK_NODE;o.pinned=true;s.ts.flags["elem"]=1;}
  else if(nm=="vp_handle"){Obj&o=obj(s,args[0].b);o.role=R_HANDLE;o.kind=OK_NODE;o.pinned=true;}
  else if(nm=="vp_other"){Obj&o=obj(s,args[0].b);o.role=R_OTHER;o.kind=OK_NODE;o.pinned=true;}
  else if(nm=="vp_handed_over"){ if(args[0].b){bool neg; Val q=mkCmp(CmpInst::ICMP_EQ,args[0],Val{0,0},neg); if(q.b){auto ob=s.ts.objs.find(args[0].b); if(ob!=s.ts.objs.end()&&ob->second.out.size()&&!s.truth.count(q.b))s.truth[q.b]=neg;}}
    auto it=s.ts.objs.find(args[0].b); if(it!=s.ts.objs.end())it->second.handedOver=true; else {Obj&o=obj(s,args[0].b);o.handedOver=true;}}
  else if(nm=="vp_al_ctor"||nm=="vp_al_dtor"){ // lifetime of allocator objects
    Loc l(args[0].b,args[0].o); int st=allocState(s,l); bool ct=nm=="vp_al_ctor";
    if(ct&&st==1)violate(s,"allocator-lifetime",&cb,"an allocator is constructed over a live one at "+valStr(args[0]));
    if(!ct&&st==2)violate(s,"allocator-lifetime",&cb,"an allocator is destroyed that is not alive at "+valStr(args[0]));
    if(st==0)s.ts.flags["al-unknown"]=1;
    s.ts.flags["al:"+std::to_string(l.first)+":"+std::to_string(l.second)]=ct?1:2; ++res.events[ct?"allocator-ctor":"allocator-dtor"]; }
  else if(nm=="vp_hal"){ s.ts.flags["hal:"+std::to_string(args[0].b)+":"+std::to_string(args[0].o)+":"+std::to_string(args[1].o)]=1; }
  else if(nm=="vp_halv"){ // handle whose allocator must be the given one
    Val nv=loadFrom(s,args[0],8,&cb),av=loadFrom(s,args[1],8,&cb); int st=allocState(s,Loc(args[1].b,args[1].o)); int z=evalCmp(s,CmpInst::ICMP_EQ,nv,Val{0,0});
    if(z==0){ if(st==2)violate(s,"allocator-lifetime",&cb,"a node handle owns an element but no allocator"); else if(!(av==args[2])&&evalCmp(s,CmpInst::ICMP_EQ,av,args[2])!=1)violate(s,"handle-allocator",&cb,"the allocator of the node handle is "+valStr(av)+" instead of the container's "+valStr(args[2])); }
    if(z==1&&st==1)violate(s,"allocator-lifetime",&cb,"an empty node handle keeps an allocator alive"); }
  else if(nm=="vp_flag"){s.ts.flags["u"+std::to_string(args[0].o)]=1;}
}
// Splicing moves nodes between containers only under equal allocators (merging requires that of its caller).
void Interp::transferAllocCheck(State&s,const Instruction*at){
  if(F.getName().find("splice")==StringRef::npos||opt.allocOff<0||(opt.altr&8))return;
  Ex c=0,c2=0; for(auto&a:F.args()){ if(a.getName()=="c")c=A.sym(SK_PARAM,&a); if(a.getName()=="c2")c2=A.sym(SK_PARAM,&a); } if(!c||!c2)return;
  auto init=[&](Ex b){return Val{A.op(OP_INITLD,{Val{b,opt.allocOff},Val{0,8}}),0};};
  if(s.ts.flags.count("alloc-eq"))return; // established before an earlier transfer
  if(evalCmp(s,CmpInst::ICMP_EQ,init(c),init(c2))==1){s.ts.flags["alloc-eq"]=1;return;}
  if(evalCmp(s,CmpInst::ICMP_EQ,Val{c,0},Val{c2,0})!=1)violate(s,"transfer-unequal",at,"a node is moved to a container whose allocator may be unequal");
}
// 0 unknown, 1 alive, 2 not alive
int Interp::allocState(State&s,const Loc&l){
  auto f=s.ts.flags.find("al:"+std::to_string(l.first)+":"+std::to_string(l.second)); if(f!=s.ts.flags.end()&&f->second)return f->second;
  if(A[l.first].k==SK_ALLOCA)return 2;
  for(auto&p:s.ts.flags)if(p.second&&p.first.compare(0,4,"hal:")==0){ long b,n,a; if(sscanf(p.first.c_str(),"hal:%ld:%ld:%ld",&b,&n,&a)==3&&(Ex)b==l.first&&a==l.second){ // alive exactly when the handle came in with an element
    int z=evalCmp(s,CmpInst::ICMP_EQ,Val{A.op(OP_INITLD,{Val{(Ex)b,n},Val{0,8}}),0},Val{0,0}); return z<0?0:z?2:1; } }
  return 0;
}
void Interp::handleAllocCheck(State&s,const Instruction*at,const std::string&how){
  struct H{Ex b;long n,a;}; std::vector<H> hs;
  for(auto&p:s.ts.flags)if(p.second&&p.first.compare(0,4,"hal:")==0){ long b,n,a; if(sscanf(p.first.c_str(),"hal:%ld:%ld:%ld",&b,&n,&a)==3)hs.push_back(H{(Ex)b,n,a}); }
  for(auto&p:s.ts.flags)if(p.second==1&&p.first.compare(0,3,"al:")==0){ long b,o; if(sscanf(p.first.c_str(),"al:%ld:%ld",&b,&o)==2&&A[(Ex)b].k==SK_ALLOCA)violate(s,"allocator-lifetime",at,"an allocator is constructed and never destroyed at "+how); }
  auto init=[&](Ex b,long o){return Val{A.op(OP_INITLD,{Val{b,o},Val{0,8}}),0};};
  for(auto&h:hs){ auto it=s.mem.find(Loc(h.b,h.n)); Val nv=it!=s.mem.end()?it->second.v:init(h.b,h.n); int z=evalCmp(s,CmpInst::ICMP_EQ,nv,Val{0,0}); int st=allocState(s,Loc(h.b,h.a));
    if(z<0||!st)continue; ++res.events["handles"];
    if(z==1&&st==1)violate(s,"allocator-lifetime",at,"an empty node handle keeps an allocator alive at "+how);
    if(z==0&&st==2)violate(s,"allocator-lifetime",at,"a node handle owns an element but no allocator at "+how);
    if(z==0&&st==1){ auto ia=s.mem.find(Loc(h.b,h.a)); Val av=ia!=s.mem.end()?ia->second.v:init(h.b,h.a);
      for(auto&g:hs)if(nv==init(g.b,g.n)){ bool ok=av==init(g.b,g.a)||evalCmp(s,CmpInst::ICMP_EQ,av,init(g.b,g.a))==1;
        bool mine=evalCmp(s,CmpInst::ICMP_EQ,init(h.b,h.n),Val{0,0})==0; bool prop=s.ts.flags.count("u9")?opt.altr&4:opt.altr&2; // u9: swap
        if(!ok&&mine&&!prop&&(av==init(h.b,h.a)))ok=true; // both handles own an element: the allocators are equal by precondition and need not travel
        if(!ok)violate(s,"handle-allocator",at,"a node handle holds an element with allocator "+valStr(av)+" instead of the one the element came with ("+valStr(init(g.b,g.a))+") at "+how); } } }
}
// Effect rules: an operation through a const object stores nowhere but in its own frame.
void Interp::onStore(State&s,const Instruction&si,Val p,Val v){
  if(opt.spec!="pure"&&opt.spec!="pnothr")return;
  if(!p.b||A[p.b].k==SK_ALLOCA)return;
  if(A[p.b].k==SK_RES&&A[p.b].key)if(auto*c2=dyn_cast<CallBase>((const Value*)A[p.b].key))if(c2->getCalledFunction()&&c2->getCalledFunction()->getName()=="__cxa_allocate_exception")return;
  violate(s,"const-writes",&si,"a const operation writes to "+valStr(p));
}
// Elements that stay in a container are never copied, moved or assigned by structural operations.
void Interp::onUser(State&s,const CallBase&cb,const FInfo&fi,std::vector<Val>&args){
  bool pure=opt.spec=="pure"||opt.spec=="pnothr";
  switch(fi.ev){
    case EV_LINK:case EV_UNLINK:case EV_UNLINK_UNDO:case EV_UNDO:case EV_MOVE:case EV_PRIM:case EV_REHASH:case EV_DELTREE:
      if(pure)violate(s,"const-writes",&cb,"a const operation restructures the container ("+fi.name+")"); break;
    case EV_USER:
      if(pure&&args.size()){ unsigned i=cb.paramHasAttr(0,Attribute::StructRet)?1:0; size_t q=fi.dem.rfind(')'); bool cst=q!=std::string::npos&&fi.dem.find("const",q)!=std::string::npos; if(fi.cls=="vp"||fi.cls.empty())cst=fi.dem.find("const&")!=std::string::npos; bool ctor=fi.base==fi.cls.substr(fi.cls.rfind(':')==std::string::npos?0:fi.cls.rfind(':')+1);
        if(i<args.size()&&!cst&&args[i].b&&A[args[i].b].k!=SK_ALLOCA&&cb.getArgOperand(i)->getType()->isPointerTy())violate(s,"const-writes",&cb,std::string("a const operation calls the non-const ")+(ctor?"constructor ":"")+fi.name+" on "+valStr(args[i])); } break;
    case EV_V_CTOR: if(opt.spec.compare(0,4,"ctor")&&opt.spec.compare(0,3,"tra")&&opt.spec[0]!='f'&&opt.spec!="asgn"&&args.size()==2&&args[1].b&&!isDistinctObj(args[1].b)){
        const Term&t=A[args[1].b]; bool fromUser=false; if(t.k==SK_RES&&t.key)if(auto*c2=dyn_cast<CallBase>((const Value*)t.key))if(c2->getCalledFunction()&&c2->getCalledFunction()->isDeclaration())fromUser=true;
        if(!fromUser)violate(s,"element-copied",&cb,"an element of the container is copied or moved ("+valStr(args[1])+")"); }
      if(pure)violate(s,"const-writes",&cb,"a const operation creates an element"); break;
    case EV_V_DTOR: if(pure)violate(s,"const-writes",&cb,"a const operation destroys an element"); break;
    case EV_V_ASSIGN: if(opt.spec!="rep"&&args[0].b&&A[args[0].b].k!=SK_ALLOCA)violate(s,"element-assigned",&cb,"an element of the container is assigned ("+valStr(args[0])+")"); break;
    default: break;
  }
}
// Field provenance: what every field of the operands holds after swap, move and copy.
void Interp::fieldCheck(State&s,bool exc,const Instruction*at,const std::string&how){
  const std::string&sp=opt.spec; Ex c=0,c2=0; for(auto&a:F.args()){ if(a.getName()=="c")c=A.sym(SK_PARAM,&a); if(a.getName()=="c2")c2=A.sym(SK_PARAM,&a); }
  auto init=[&](Ex b,const Leaf&l){return Val{A.op(OP_INITLD,{Val{b,l.off},Val{0,(int64_t)l.size}}),0};};
  auto cur=[&](Ex b,const Leaf&l,bool&known){known=true; auto m=s.mem.find(Loc(b,l.off)); if(m!=s.mem.end()&&m->second.size==l.size)return m->second.v; if(m!=s.mem.end()||s.dirtyParam.count(b)){known=false;return Val{0,0};} return init(b,l);};
  auto same=[&](Val a,Val b){return a==b||evalCmp(s,CmpInst::ICMP_EQ,a,b)==1;};
  auto want=[&](Ex b,const Leaf&l,Val w,const char*what){ bool k; Val v=cur(b,l,k); if(!k){violate(s,"imprecise",at,"value of field "+l.path+"+"+std::to_string(l.off)+" not tracked at "+how);return;}
    ++res.events["fields"]; if(l.alloc&&A[w.b].k==SK_OP&&opt.allocOff>=0){Leaf m=l;m.off=opt.allocOff; if(same(v,init(A[w.b].args[0].b,m)))return;} // all parts of a container hold equal allocators
    if(!same(v,w))violate(s,l.alloc?"allocator-not-propagated":"field-not-transferred",at,"field at offset "+std::to_string(l.off)+" ("+l.path+") of "+((const Argument*)A[b].key)->getName().str()+" holds "+valStr(v)+" instead of "+valStr(w)+" ("+what+") at "+how); };
  bool pocs=opt.altr&4,pocma=opt.altr&2,pocca=opt.altr&1;
  if(exc){ // strong guarantee: operands untouched
    if(sp=="fcopya"||sp=="fmovea"||sp=="fcopyc")for(auto&l:opt.leaves){ if(sp!="fcopyc")want(c,l,init(c,l),"unchanged"); if(sp!="fmovea")want(c2,l,init(c2,l),"unchanged"); } return; }
  if(sp=="fswap"){ for(auto&l:opt.leaves){ bool x=!l.alloc||pocs; want(c,l,x?init(c2,l):init(c,l),x?"the other operand's":"unchanged"); want(c2,l,x?init(c,l):init(c2,l),x?"the other operand's":"unchanged"); } }
  else if(sp=="fmovec"){ for(auto&l:opt.leaves){ want(c,l,init(c2,l),"the source's"); if(l.alloc||l.functor)want(c2,l,init(c2,l),"unchanged"); } 
    bool k; Leaf l; l.off=opt.countOff;l.size=8; Val v=cur(c2,l,k); if(!k||!v.isNull())violate(s,"moved-from-not-empty",at,"the size of the moved-from container is "+valStr(v)); }
  else if(sp=="fmovea"){ // equal or propagated allocators: full exchange; otherwise elements are moved one by one
    Leaf h; h.off=opt.headerOff; h.size=8; bool k; bool bulk=same(cur(c,h,k),init(c2,h));
    bool mustBulk=pocma; for(auto&l:opt.leaves)if(l.alloc&&l.off==opt.allocOff&&evalCmp(s,CmpInst::ICMP_EQ,init(c,l),init(c2,l))==1)mustBulk=true;
    if(mustBulk&&!bulk)violate(s,"field-not-transferred",at,"the elements are not taken over although the allocators allow it");
    if(bulk&&!pocma&&!(opt.altr&8)){ bool eq=false; for(auto&l:opt.leaves)if(l.alloc&&l.off==opt.allocOff&&evalCmp(s,CmpInst::ICMP_EQ,init(c,l),init(c2,l))==1)eq=true; if(!eq)violate(s,"transfer-unequal",at,"the elements are taken over although the allocators may be unequal"); }
    for(auto&l:opt.leaves){ if(bulk){ bool x=!l.alloc||pocma; want(c,l,x?init(c2,l):init(c,l),x?"the source's":"unchanged"); }
      else if(l.alloc)want(c,l,init(c,l),"unchanged"); else if(l.functor||l.flt)want(c,l,init(c2,l),"the source's"); }
    if(!bulk){ bool k2; Leaf l; l.off=opt.countOff;l.size=8; want(c,l,init(c2,l),"the source's"); Val v=cur(c2,l,k2); if(k2&&!v.isNull())violate(s,"moved-from-not-empty",at,"the size of the moved-from container is "+valStr(v)); } }
  else if(sp=="fcopyc"||sp=="fcopya"){ for(auto&l:opt.leaves){ want(c2,l,init(c2,l),"unchanged"); if(l.functor||l.flt||l.off==opt.countOff)want(c,l,init(c2,l),"the source's");
      if(l.alloc&&sp=="fcopyc"){ Val w{0,0}; bool have=false; for(auto&a:F.args())if(a.getName()=="a"){w=Val{A.op(OP_INITLD,{Val{A.sym(SK_PARAM,&a),0},Val{0,8}}),0};have=true;}
        if(have)want(c,l,w,"the allocator given"); else if(s.ts.selOf.b||s.ts.selOf.o)want(c,l,s.ts.selOf,"the allocator selected for the copy"); else violate(s,"allocator-not-propagated",at,"the copy is constructed without selecting its allocator (select_on_container_copy_construction)"); }
      if(l.alloc&&sp=="fcopya")want(c,l,pocca?init(c2,l):init(c,l),pocca?"the source's":"unchanged"); } }
}
// Safe mode: which iterators the operation invalidates or hands over.
void Interp::safeEvent(State&s,const CallBase&cb,const FInfo&fi,std::vector<Val>&args){
  auto drop=[&](Val p){ if(p.b&&isDistinctObj(p.b))for(auto it=s.mem.begin();it!=s.mem.end();){ if(it->first.first==p.b&&it->first.second>=p.o&&it->first.second<p.o+8)it=s.mem.erase(it);else ++it; } };
  if(fi.base=="attach"){ drop(args[0]); storeTo(s,args[0],args[1],8); return; }
  if(fi.base=="detach"){ drop(args[0]); storeTo(s,args[0],Val{0,0},8); return; }
  if(fi.base=="~safe_container_base"){ ev(s,"SAFE-DIE",&cb,valStr(args[0])); return; }
  if(fi.base=="swap"){ ev(s,"SAFE-SWAP",&cb,valStr(args[0])+","+valStr(args[1])); Loc a(args[0].b,args[0].o),b(args[1].b,args[1].o); auto k=a<b?std::make_pair(a,b):std::make_pair(b,a); if(!s.ts.swp.insert(k).second)s.ts.swp.erase(k); return; }
  if(fi.base=="detach_dereferenceable_iterators"){ ev(s,"SAFE-CLEAR",&cb,valStr(args[0])); s.ts.detAll.insert(Loc(args[0].b,args[0].o)); return; }
  bool tr=fi.base[0]=='t'; unsigned k=0; if(tr){ if(args.size()<2){violate(s,"iterators-unknown",&cb,"transfer without an iterator");return;} k=1; }
  Val it=args[k]; Val node=loadFrom(s,Val{it.b,it.o+opt.safeNode},8,&cb),cont=loadFrom(s,Val{it.b,it.o+opt.safeCont},8,&cb);
  ev(s,tr?"SAFE-TRANSFER":"SAFE-DETACH",&cb,valStr(node)+" in "+valStr(cont)+(tr?" to "+valStr(args[0]):std::string()));
  if(!tr){ drop(Val{it.b,it.o+opt.safeCont}); storeTo(s,Val{it.b,it.o+opt.safeCont},Val{0,0},8); }
  if(cont.isNull())return; if(!node.b||!cont.b){violate(s,"iterators-unknown",&cb,"the element whose iterators are invalidated is not known");return;}
  Obj&o=obj(s,node.b,&cb);
  if(tr){ bool dst=args[0].b&&A[args[0].b].k==SK_PARAM&&((const Argument*)A[args[0].b].key)->getName()=="c"; if(!dst)violate(s,"iterators-transferred",&cb,"iterators are transferred to "+valStr(args[0])+" rather than to the destination container"); o.tra.insert(Loc(cont.b,cont.o)); }
  else o.det.insert(Loc(cont.b,cont.o));
}
void Interp::safeCheck(State&s,Ex b,const Obj&o,const Instruction*at,const std::string&how){
  if(o.header||o.kind==OK_AUX||o.role==R_LOCAL||!opt.K)return;
  bool gone=(o.role==R_ELEM||o.role==R_OTHER)&&(int)o.out.size()==opt.K&&o.in.empty(),moved=o.role==R_OTHER&&(int)o.in.size()==opt.K;
  if(o.role==R_FRESH||o.role==R_HANDLE)return;
  std::set<Ex> bases; for(auto&l:o.det)bases.insert(l.first); for(auto&l:o.tra)bases.insert(l.first);
  if(bases.size()>1)violate(s,"iterators-kept",at,"iterators to one element are invalidated in several containers at "+how);
  if(gone&&(int)o.det.size()!=opt.K)violate(s,"iterators-kept",at,"element "+describe(b)+" leaves the container but its iterators are invalidated in "+std::to_string(o.det.size())+" of "+std::to_string(opt.K)+" indices at "+how);
  if(moved&&(int)o.tra.size()!=opt.K)violate(s,"iterators-transferred",at,"element "+describe(b)+" moves to the destination but its iterators follow in "+std::to_string(o.tra.size())+" of "+std::to_string(opt.K)+" indices at "+how);
  if(!gone&&o.det.size())violate(s,"iterators-invalidated",at,"element "+describe(b)+" stays but its iterators are invalidated in "+std::to_string(o.det.size())+" indices at "+how);
  if(!moved&&o.tra.size())violate(s,"iterators-transferred",at,"element "+describe(b)+" is not moved to the destination but its iterators are in "+std::to_string(o.tra.size())+" indices at "+how);
  res.events["safe-elements"]++;
}
void Interp::safeExit(State&s,bool exc,const Instruction*at,const std::string&how){
  const std::string&sp=opt.spec;
  for(auto&p:s.ts.objs)safeCheck(s,p.first,p.second,at,how);
  auto par=[&](Ex b){ return b&&A[b].k==SK_PARAM?((const Argument*)A[b].key)->getName().str():std::string(); };
  if(sp=="clr"&&!exc){ int n=0; for(auto&l:s.ts.detAll)if(par(l.first)=="c")++n; if(n!=opt.K)violate(s,"iterators-kept",at,"the container is cleared but its iterators are invalidated in "+std::to_string(n)+" of "+std::to_string(opt.K)+" indices at "+how); }
  else if(s.ts.detAll.size()&&sp[0]!='c'&&sp!="asgn"&&sp[0]!='f')violate(s,"iterators-invalidated",at,"all iterators of the container are invalidated at "+how);
  bool whole=sp=="fswap"||sp=="fmovea"||sp=="fmovec";
  if(whole&&!exc){ int n=0; for(auto&p:s.ts.swp){ std::string a=par(p.first.first),b=par(p.second.first); if(((a=="c"&&b=="c2")||(a=="c2"&&b=="c"))&&p.first.second==p.second.second)++n; else violate(s,"iterators-transferred",at,"the iterator lists of different indices or containers are exchanged at "+how); }
    if(n!=opt.K)violate(s,"iterators-transferred",at,"the elements change hands but their iterators follow in "+std::to_string(n)+" of "+std::to_string(opt.K)+" indices at "+how); res.events["safe-lists"]+=n; }
  else if(sp=="asgn"&&!exc){ int n=0; Ex o=0; bool ok=true; for(auto&p:s.ts.swp){ std::string a=par(p.first.first),b=par(p.second.first); Ex y=a=="c"?p.second.first:p.first.first; if((a=="c")==(b=="c")||p.first.second!=p.second.second)ok=false; if(o&&o!=y)ok=false; o=y; ++n; }
    if(n!=opt.K||!ok)violate(s,"iterators-kept",at,"the elements are replaced but the iterator lists of "+std::to_string(n)+" of "+std::to_string(opt.K)+" indices are given up at "+how); res.events["safe-lists"]+=n; }
  else if(s.ts.swp.size()&&sp!="asgn"&&sp[0]!='c'&&sp[0]!='f')violate(s,"iterators-transferred",at,"iterator lists are exchanged at "+how);
}
// Consistency of every exit + operation-specific obligations.
void Interp::exitCheck(State&s,bool exc,const Instruction*at,const Value*ret){
  std::string how=exc?"exceptional exit (exception from "+s.ts.origin+")":"normal exit";
  if(opt.safeCont>=0){safeExit(s,exc,at,how);if(opt.spec[0]=='f')return;}
  if(opt.spec.size()&&opt.spec[0]=='f'){fieldCheck(s,exc,at,how);return;}
  int otherRemoved=0,added=0,removed=0,transferred=0,pend=0; Ex addedObj=0;
  auto fl=[&](const char*f){auto i=s.ts.flags.find(f);return i==s.ts.flags.end()?0:i->second;};
  bool dtor=opt.spec=="dtor";
  bool ctor=opt.spec.compare(0,4,"ctor")==0;
  // headers: every constructed container owns a live header, no other header survives
  std::map<Ex,const Argument*> hdrOwner; std::vector<const Argument*> conts; bool hdrUnknown=false;
  if(opt.headerOff>=0&&(ctor||opt.spec=="asgn"||opt.spec=="swap"||opt.spec=="dtor"||fl("headerReleased"))){
    for(auto&a:F.args())if(a.getName()=="c"||a.getName()=="c2"){ if(a.getName()=="c"&&(opt.spec=="dtor"||(ctor&&exc)))continue; conts.push_back(&a); Ex b=A.sym(SK_PARAM,&a);
      auto m=s.mem.find(Loc(b,opt.headerOff)); Val h=m!=s.mem.end()?m->second.v:(s.dirtyParam.count(b)?Val{0,0}:Val{A.op(OP_INITLD,{Val{b,opt.headerOff},Val{0,8}}),0});
      if(!h.b){hdrUnknown=true;continue;} 
      if(hdrOwner.count(h.b))violate(s,"header-shared",at,"two containers own the same header node at "+how); hdrOwner[h.b]=&a;
      auto oi=s.ts.objs.find(h.b); if(oi!=s.ts.objs.end()&&oi->second.alloc==2)violate(s,"header-released",at,"the header node of a live container is released at "+how); }
    if(opt.spec=="asgn"||opt.spec=="swap"||opt.spec=="dtor"||ctor)for(auto&a:F.args())if(a.getName()=="c"||a.getName()=="c2"){ if(ctor&&a.getName()=="c")continue; Ex b=A.sym(SK_PARAM,&a); Ex h=A.op(OP_INITLD,{Val{b,opt.headerOff},Val{0,8}});
      auto oi=s.ts.objs.find(h); if(!hdrUnknown&&!hdrOwner.count(h)&&(oi==s.ts.objs.end()||oi->second.alloc!=2))violate(s,"leak-header",at,"the original header node of "+std::string(a.getName())+" is neither owned by a container nor released at "+how); }
  }
  if(exc&&ctor&&fl("parked")&&!fl("bulk"))violate(s,"leak-element",at,"elements created so far are not released at "+how);
  if(!exc&&opt.spec=="ctorc"&&fl("parked")&&fl("bulk"))violate(s,"released-copy",at,"elements of the new container are released at "+how);
  for(auto&p:s.ts.objs){
    Obj&o=p.second; int d;
    if(o.header){ if(o.alloc==1&&!hdrUnknown&&!hdrOwner.count(p.first))violate(s,"leak-memory",at,"header node "+describe(p.first)+" is neither owned by a container nor released at "+how); continue; }
    if(o.role==R_LOCAL){ bool c=false;for(auto&v:o.vals)if(v.second)c=true; if(c)violate(s,"leak-object",at,"a temporary element is not destroyed at "+how); continue;}
    if(o.kind==OK_AUX){
      if(o.alloc==2&&opt.spec!="dtor"&&!A.hasOld(p.first))for(auto&m:s.mem)if(A[m.first.first].k==SK_PARAM&&m.second.v.b==p.first&&m.second.v.o==0&&!(ctor&&exc&&((const Argument*)A[m.first.first].key)->getName()=="c")){
        violate(s,"dangling-array",at,"released auxiliary memory "+describe(p.first)+" is still referred to by "+valStr(Val{m.first.first,m.first.second})+" at "+how);}
      if(o.role==R_FRESH&&o.alloc==1){
        // must be reachable from an argument (owned by the container) at exit
        bool owned=false; for(auto&m:s.mem)if(!isDistinctObj(m.first.first)||A[m.first.first].k==SK_PARAM){ if(ctor&&exc&&A[m.first.first].k==SK_PARAM&&((const Argument*)A[m.first.first].key)->getName()=="c")continue; if(m.second.v.b==p.first)owned=true; }
        if(!owned)violate(s,"leak-memory",at,"auxiliary memory "+describe(p.first)+" is neither released nor owned at "+how);
      }
      continue;
    }
    if(!settled(o,d)){
      std::string st="alloc="+std::string(o.alloc==1?"live":"released")+", in "+std::to_string(o.role==R_ELEM||o.role==R_OTHER?opt.K-(int)o.out.size():(int)o.in.size())+" of "+std::to_string(opt.K)+" indices";
      for(auto&v:o.vals)st+=v.second?", constructed":", destroyed";
      violate(s,o.role==R_FRESH&&o.in.empty()&&o.alloc==1?"leak-element":"inconsistent-element",at,"element "+describe(p.first)+" left inconsistent ("+st+") at "+how);
      continue;
    }
    if(o.role==R_ELEM&&o.alloc==2&&o.out.empty())s.ts.flags["bulk"]=1;
    pend+=d; if(o.role==R_OTHER&&d<0){otherRemoved++;continue;} if(d>0){++added;addedObj=p.first;} if(d<0)++removed; if(o.role==R_OTHER&&(int)o.in.size()==opt.K&&opt.K)++transferred;
  }
  if(fl("merged-objects"))violate(s,"imprecise",at,"several unsettled elements could not be told apart");
  int diff=s.ts.pending[0]-pend;
  bool bulk=fl("bulk");
  if(bulk){ if(!(exc&&opt.spec=="asgn")&&!fl("count0")&&!dtor&&!fl("countAssigned"))violate(s,"bulk-without-reset",at,"elements destroyed in bulk but the size is not reset at "+how); }
  else if(diff!=0&&opt.countOff>=0&&!dtor)violate(s,"count-mismatch",at,"size is off by "+std::to_string(diff)+" with respect to the elements linked at "+how);
  added+=fl("added");removed+=fl("removed");
  if(!exc&&fl("swallowed"))violate(s,"exception-swallowed",at,"an exception raised by "+s.ts.origin+" is swallowed and the operation returns normally");
  const std::string&sp=opt.spec;
  int rf=-1; if(s.ts.resultSet)rf=evalBool(s,s.ts.resFlag);
  auto knownNull=[&](Val v){return v.isNull()||(v.b&&v.o==0&&evalCmp(s,CmpInst::ICMP_EQ,v,Val{0,0})==1);};
  if(s.ts.resultSet){ for(Val*v:{&s.ts.resPtr,&s.ts.resX[0],&s.ts.resX[1]})if(knownNull(*v))*v=Val{0,0}; }
  bool elemAssigned=false; for(auto&p:s.ts.objs)if(p.second.assigned&&p.second.role!=R_LOCAL)elemAssigned=true;
  if(sp=="ins"||sp=="insh"){
    if(exc){ if(added||removed||transferred)violate(s,"not-all-or-nothing",at,"insertion has an effect although it throws at "+how);
      if(fl("movedfrom"))violate(s,"moved-from-on-failure",at,"the source element has been moved from although the insertion throws"); }
    else{
      if(!s.ts.resultSet)violate(s,"no-result",at,"driver result missing");
      else if(sp=="insh"){
        if(added>1||removed)violate(s,"result-wrong",at,"more than one element added");
        if(added==1&&addedObj&&s.ts.resPtr.b!=addedObj)violate(s,"result-iterator",at,"returned iterator denotes "+valStr(s.ts.resPtr)+" instead of the new element");
        if(!added){ if(fl("movedfrom"))violate(s,"moved-from-on-failure",at,"the source element has been moved from although it was not inserted");
          for(auto&p:s.ts.objs)if(p.second.role==R_FRESH&&s.ts.resPtr.b==p.first)violate(s,"result-iterator",at,"returned iterator denotes a discarded element");}
      }
      else if(rf<0)violate(s,"result-unrelated",at,"the reported success flag is not determined by the outcome");
      else if(rf==1){ if(added+transferred!=1)violate(s,"result-wrong",at,"success reported but "+std::to_string(added)+" elements were added");
        else if(addedObj&&s.ts.resPtr.b!=addedObj)violate(s,"result-iterator",at,"returned iterator denotes "+valStr(s.ts.resPtr)+" instead of the new element"); }
      else { if(added||transferred||removed)violate(s,"result-wrong",at,"failure reported although an element was added or removed");
        if(fl("movedfrom"))violate(s,"moved-from-on-failure",at,"the source element has been moved from although it was not inserted");
        for(auto&p:s.ts.objs)if(p.second.role==R_FRESH&&s.ts.resPtr.b==p.first)violate(s,"result-iterator",at,"returned iterator denotes a discarded element"); }
    }
  }else if(sp=="tra"){
    int pc=0,p2=0; for(auto&p:s.ts.pending)if(p.first){ std::string n=((const Argument*)A[p.first].key)->getName().str(); (n=="c"?pc:p2)+=p.second; }
    if(exc){ if(added||removed||transferred||otherRemoved)violate(s,"not-all-or-nothing",at,"transfer has an effect although it throws at "+how);
      if(pc||p2)violate(s,"count-mismatch",at,"sizes change although the transfer throws at "+how); }
    else if(rf<0)violate(s,"result-unrelated",at,"the reported success flag is not determined by the outcome");
    else if(rf==1&&!s.ts.flags.count("same-container")){
      if(transferred)transferAllocCheck(s,at);
      bool ok=(transferred==1&&!added&&!otherRemoved)||(added==1&&otherRemoved==1&&!transferred);
      if(!ok)violate(s,"result-wrong",at,"success reported but the element has not moved to the destination");
      else if(pc!=1||p2!=-1)violate(s,"count-mismatch",at,"destination size changes by "+std::to_string(pc)+", source size by "+std::to_string(p2)+" after a transfer");
      Ex tgt=addedObj; if(!tgt)for(auto&p:s.ts.objs)if(p.second.role==R_OTHER&&p.second.in.size())tgt=p.first;
      if(ok&&s.ts.resPtr.b!=tgt)violate(s,"result-iterator",at,"returned iterator denotes "+valStr(s.ts.resPtr)+" instead of the transferred element");
    }else{ if(added||transferred||removed||otherRemoved||pc||p2)violate(s,"result-wrong",at,"failure reported although an element was moved"); }
  }else if(sp=="insn"||sp=="insnh"){
    Ex h=0; for(auto&p:s.ts.objs)if(p.second.role==R_HANDLE)h=p.first;
    if(h){ Obj&o=s.ts.objs[h]; bool in=o.in.size()>0; 
      int empty=knownNull(Val{h,0})?1:-1;
      if(empty!=1){
        Ex nhp=0; for(auto&a:F.args())if(a.getName()=="nh")nhp=A.sym(SK_PARAM,&a);
        auto c=s.mem.find(Loc(nhp,0)); Val cur=c!=s.mem.end()?c->second.v:(s.dirtyParam.count(nhp)?Val{A.sym(SK_RES,nullptr,7),0}:Val{h,0});
        if(exc){ if(in||o.alloc==2)violate(s,"not-all-or-nothing",at,"node insertion has an effect although it throws at "+how);
          if(cur.b!=h)violate(s,"handle-lost",at,"the node handle no longer owns its element although insertion throws at "+how); }
        else{
          if(!s.ts.resultSet)violate(s,"no-result",at,"driver result missing");
          if(sp=="insn"){
            if(rf<0)violate(s,"result-unrelated",at,"the reported success flag is not determined by the outcome");
            else if((rf==1)!=in)violate(s,"result-wrong",at,rf?"success reported but the node was not inserted":"failure reported but the node was inserted");
            Val n1=s.ts.resX[0],n2=s.ts.resX[1];
            if(!n1.isNull())violate(s,"handle-kept",at,"the source node handle is not emptied ("+valStr(n1)+")");
            if(in?!n2.isNull():n2.b!=h)violate(s,in?"handle-kept":"handle-lost",at,in?"the node is inserted and also owned by the returned handle":"the node is neither inserted nor returned to the caller");
            if(in&&s.ts.resPtr.b!=h)violate(s,"result-iterator",at,"returned iterator denotes "+valStr(s.ts.resPtr)+" instead of the inserted node");
          }else{
            Val n1=s.ts.resX[0];
            if(in?!n1.isNull():n1.b!=h)violate(s,in?"handle-kept":"handle-lost",at,in?"the node is inserted and still owned by the node handle":"the node is neither inserted nor left in its handle");
            if(in&&s.ts.resPtr.b!=h)violate(s,"result-iterator",at,"returned iterator denotes "+valStr(s.ts.resPtr)+" instead of the inserted node");
          }
        }
      }else if(in)violate(s,"result-wrong",at,"an empty node handle was inserted");
    }
    if(added>1||removed||(added&&!(h&&s.ts.objs[h].in.size())))violate(s,"result-wrong",at,"node insertion adds or removes other elements");
  }else if(sp=="ext"){
    if(exc){ if(removed||added)violate(s,"not-all-or-nothing",at,"extraction has an effect although it throws at "+how); if(fl("elem"))violate(s,"erase-throws",at,"extraction by position can exit by exception: "+how);}
    else{
      if(added)violate(s,"result-wrong",at,"extraction adds an element");
      if(fl("elem")&&removed!=1)violate(s,"not-removed",at,"the element is not removed exactly once");
      if(removed>1)violate(s,"not-removed",at,"more than one element removed");
      Ex h=0; for(auto&p:s.ts.objs)if(p.second.handedOver&&p.second.out.size())h=p.first;
      if(removed==1&&h){ if(s.ts.resPtr.b!=h||s.ts.resPtr.o)violate(s,"handle-lost",at,"the returned node handle does not own the extracted element"); if(s.ts.objs[h].alloc==2)violate(s,"handle-lost",at,"the extracted element has been released"); }
      if(removed==1&&!h)violate(s,"handle-lost",at,"the removed element is not handed to the caller");
      if(!removed&&!s.ts.resPtr.isNull()&&sp=="ext")violate(s,"handle-kept",at,"a node handle to "+valStr(s.ts.resPtr)+" is returned although nothing was extracted");
    }
  }else if(sp=="nh"){
    if(exc)violate(s,"handle-throws",at,"node handle operation can exit by exception: "+how);
    for(auto&p:s.ts.objs)if(p.second.role==R_HANDLE&&!exc){ Obj&o=p.second;
      bool null=false; { bool neg; Val q=mkCmp(CmpInst::ICMP_EQ,Val{p.first,0},Val{0,0},neg); auto f=s.truth.find(q.b); if(f!=s.truth.end()&&f->second)null=true; }
      if(null)continue;
      int owners=0; if(s.ts.resultSet){ if(s.ts.resPtr.b==p.first)++owners; if(s.ts.resX[0].b==p.first)++owners; }
      int want=o.alloc==2?0:1;
      if(owners!=want)violate(s,"handle-owners",at,"an element "+std::string(o.alloc==2?"already released":"alive")+" is owned by "+std::to_string(owners)+" node handles after the operation");
    }
  }else if(sp=="nha"){
    handleAllocCheck(s,at,how);
  }else if(sp=="nothr"||sp=="pnothr"){
    if(exc)violate(s,"nothrow-throws",at,"operation can exit by exception: "+how);
  }else if(sp=="clr"){
    if(exc)violate(s,"erase-throws",at,"clear can exit by exception: "+how);
    else if(!fl("count0"))violate(s,"not-removed",at,"size is not reset by clear");
  }else if(sp=="del1"){
    if(exc)violate(s,"erase-throws",at,"removal can exit by exception: "+how);
    else if(removed!=1)violate(s,"not-removed",at,std::to_string(removed)+" elements removed instead of one");
  }else if(sp=="noop"||sp=="noopt"){
    if(exc&&sp=="noop")violate(s,"noop-throws",at,"operation can exit by exception: "+how);
    if(added||removed||s.ts.flags.count("bulk"))violate(s,"rearrange-changes-elements",at,"a rearranging operation adds or removes elements");
    if(fl("count0")||fl("countAssigned"))violate(s,"rearrange-changes-elements",at,"a rearranging operation changes the size");
  }else if(sp=="del"){
    if(exc)violate(s,"erase-throws",at,"removal can exit by exception: "+how);
    else if(removed<1)violate(s,"not-removed",at,"the element is not removed");
  }else if(sp=="rep"){
    if(added||removed)violate(s,"replace-membership",at,"replacement adds or removes an element at "+how);
    if(exc){ if(elemAssigned)violate(s,"replace-assigned",at,"the element was assigned although replacement throws: "+how); }
    else if(rf<0)violate(s,"result-unrelated",at,"the reported success flag is not determined by the outcome");
    else if((rf==1)!=elemAssigned)violate(s,"replace-assigned",at,rf?"success reported but the element was not assigned":"failure reported but the element was assigned");
  }else if(sp=="mod"){
    if(added)violate(s,"modify-adds",at,"modification adds an element");
    if(exc){ if(removed!=1)violate(s,"modify-exception-keeps",at,"element kept although modification throws: "+how); }
    else if(rf<0)violate(s,"result-unrelated",at,"the reported success flag is not determined by the outcome");
    else if(rf==1?removed!=0:removed!=1)violate(s,"modify-result",at,rf?"success reported but the element was removed":"failure reported but the element was not removed");
  }else if(sp=="modrb"){
    if(added)violate(s,"modify-adds",at,"modification adds an element");
    bool called=fl("backCalled"),ret_=fl("backReturned");
    if(removed>1)violate(s,"modify-removes-twice",at,"element removed more than once");
    bool mt=fl("modThrew"); if(mt&&!removed)violate(s,"modify-exception-keeps",at,"element kept although the modifier itself threw");
    if(removed&&!called&&!mt)violate(s,"rollback-not-tried",at,"element removed without trying to roll back at "+how);
    if(!removed&&!mt){ if(exc){ if(!ret_)violate(s,"kept-without-rollback",at,"element kept although modification throws and was not rolled back: "+how);}
      else if(rf==0&&!ret_)violate(s,"kept-without-rollback",at,"element kept although modification failed and was not rolled back"); }
    if(anyChecked&&!removed&&ret_&&!fl("checked"))violate(s,"kept-unchecked",at,"element kept although not every index was asked to accept the rolled back value, at "+how);
    if(removed&&ret_&&!fl("cmpAfterBack")&&!fl("throwAfterBack"))violate(s,"removed-after-rollback",at,"element removed although the rollback succeeded and nothing rejected the restored value at "+how);
    if(!exc){ if(rf<0)violate(s,"result-unrelated",at,"the reported success flag is not determined by the outcome");
      else if(rf==1&&(called||removed))violate(s,"modify-result",at,"success reported although the modification was rolled back or the element removed"); }
  }
}
