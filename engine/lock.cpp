// Lock discipline of the safe-mode iterator lists (lockset analysis with ownership of list cells).
#include "interp.hpp"
#include <llvm/IR/Operator.h>
using namespace llvm;
extern bool lockMode; int64_t lockOff[2]={-1,-1};       // offsets of the mutex and of the list head in a safe container
struct LockInterp:Interp{
  using Interp::Interp;
  std::string par(Ex b){ return b&&(A[b].k==SK_PARAM||A[b].k==SK_NPARAM)?((const Argument*)A[b].key)->getName().str():std::string(); }
  // an iterator of the calling thread: a local, or the argument named i, j, ...
  bool own(Ex b){ if(!b)return false; if(A[b].k==SK_ALLOCA)return true; std::string p=par(b); return p.size()&&(p[0]=='i'||p[0]=='j'); }
  // the container's lock is held (under the same or a provably equal name); names the container as its lock does
  bool held(State&s,Loc&cont){ Loc m(cont.first,cont.second+lockOff[0]); if(s.ts.locks.count(m))return true;
    for(auto&l:s.ts.locks)if(evalCmp(s,CmpInst::ICMP_EQ,Val{l.first,l.second},Val{m.first,m.second})==1){cont=Loc(l.first,l.second-lockOff[0]);return true;}
    return false; }
  bool regionOf(State&s,Val v,Loc&r)override{
    if(!v.b)return false; auto i=s.ts.region.find(v.b); if(i!=s.ts.region.end()){r=i->second;return true;}
    for(auto&l:s.ts.locks)if(l.first==v.b){int64_t d=v.o-(l.second-lockOff[0]+lockOff[1]); if(d>=-16&&d<=16){r=Loc(l.first,l.second-lockOff[0]);return true;}}
    else for(int64_t d=-16;d<=16;d+=8)if(evalCmp(s,CmpInst::ICMP_EQ,Val{l.first,l.second},Val{v.b,v.o+d-lockOff[1]+lockOff[0]})==1){r=Loc(l.first,l.second-lockOff[0]);return true;}
    return ownRegion(s,v,r);
  }
  // an iterator of the calling thread attached to a locked container
  bool ownRegion(State&s,Val v,Loc&r){ if(!own(v.b))return false;
    for(auto&l:s.ts.locks)for(auto it=s.mem.lower_bound(Loc(v.b,v.o-8));it!=s.mem.end()&&it->first.first==v.b&&it->first.second<=v.o+32;++it)if(it->second.v==Val{l.first,l.second-lockOff[0]}){r=Loc(l.first,l.second-lockOff[0]);return true;}
    return false; }
  // field accessed: 0 owner, 1 link, 2 flag, -1 not a field of a list cell
  int field(const Value*p,const Value*&cell){
    auto*g=dyn_cast<GEPOperator>(p); if(!g)return -1; auto*st=dyn_cast<StructType>(g->getSourceElementType());
    if(!st||!st->hasName()||!st->getName().contains("safe_iterator_base")||g->getNumIndices()!=2)return -1;
    auto*c=dyn_cast<ConstantInt>((g->idx_begin()+1)->get()); if(!c)return -1; cell=g->getPointerOperand(); return (int)c->getZExtValue();
  }
  void access(State&s,const Instruction&I,const Value*ptr,Val p,bool write,Val*loaded){
    const Value*cell=nullptr; int f=field(ptr,cell); Loc owner; bool reg=false;
    if(f<0&&own(p.b))typedCells.insert(Loc(p.b,p.o)); // not a link field
    if(f<0){ if(!regionOf(s,p,owner)||own(p.b)||inMutex(s,p))
        { if(write&&!localStore(p))violate(s,"shared-write",&I,"an access meant to be safe concurrently writes to "+valStr(p)+" outside the iterator lists"); return; }
      reg=true; f=loaded&&I.getType()->isPointerTy()?1:3; }
    else{ Val c=get(s,cell); if(f==0&&own(c.b))typedCells.insert(Loc(p.b,p.o)); if(write&&f!=0)typedStore=true;
      if(own(c.b)){
        if(f!=1)return;                                       // a thread's own iterator
        const StructType*st=cast<StructType>(cast<GEPOperator>(ptr)->getSourceElementType());
        Val cv=loadFrom(s,Val{c.b,c.o+(int64_t)DL.getStructLayout(const_cast<StructType*>(st))->getElementOffset(0)},8,&I);
        if(cv.isNull()){++res.events["unattached"];return;}
        owner=Loc(cv.b,cv.o);
      }else{ owner=Loc(c.b,c.o-lockOff[1]); Loc r; if(regionOf(s,c,r)){owner=r;reg=true;} 
        if(f==0&&!write&&!reg&&own(c.b))return; }
    }
    ++res.events["guarded"]; ev(s,"ACCESS",&I,std::string(write?"write ":"read ")+valStr(p));
    if(!owner.first&&reg)violate(s,"unlocked-access",&I,std::string("the iterator list is ")+(write?"changed":"read")+" at "+valStr(p)+" after its lock was released");
    else if(!held(s,owner))violate(s,"unlocked-access",&I,std::string("the iterator list of ")+valStr(Val{owner.first,owner.second})+" is "+(write?"changed":"read")+" at "+valStr(p)+" without holding its lock"+(s.ts.locks.size()?" (another lock is held)":""));
    else if(f==1&&loaded&&loaded->b&&!own(loaded->b)&&A[loaded->b].k!=SK_PARAM)s.ts.region[loaded->b]=owner;
    if(write&&f==0&&stored&&reg&&stored->b){ Loc to(stored->b,stored->o); bool h=held(s,to); s.ts.region[p.b]=to; if(!h)violate(s,"unlocked-access",&I,"an iterator is handed to "+valStr(*stored)+" without holding its lock"); }
  }
  const Val*stored=nullptr;
  bool inMutex(State&s,Val p){ for(auto&l:s.ts.locks)if(l.first==p.b&&p.o>=l.second&&p.o<l.second+40)return true; return false; }
  bool localStore(Val p){ return own(p.b)||A[p.b].k==SK_GLOBAL; }
  void onLoad(State&s,const LoadInst&li,Val p,Val&v)override{ access(s,li,li.getPointerOperand(),p,false,&v); }
  void onStore(State&s,const Instruction&I,Val p,Val v)override{ if(!p.b)return; auto*st=dyn_cast<StoreInst>(&I); stored=&v; 
    if(st)access(s,I,st->getPointerOperand(),p,true,nullptr); else if(!localStore(p))violate(s,"shared-write",&I,"an access meant to be safe concurrently writes to "+valStr(p)); stored=nullptr; }
  void onOpaque(State&s,const CallBase&cb,const std::string&what)override{ if(s.ts.locks.size())violate(s,"calls-out-locked",&cb,what+" is made while an iterator list is locked"); }
  void onUser(State&s,const CallBase&cb,const FInfo&fi,std::vector<Val>&args)override{ onOpaque(s,cb,"a call to "+fi.name); Interp::onUser(s,cb,fi,args); }
  void onLock(State&s,const CallBase&cb,bool lock,Val m)override{
    Loc l(m.b,m.o);
    if(!lock){
      if(!s.ts.locks.erase(l))violate(s,"unlock-unheld",&cb,"a lock is released that is not held ("+valStr(m)+")");
      for(auto&r:s.ts.region)if(r.second==Loc(l.first,l.second-lockOff[0]))r.second=Loc(0,0);
      return; }
    for(auto&h:s.ts.locks){ Val hv{h.first,h.second};
      int e=evalCmp(s,CmpInst::ICMP_EQ,hv,m); if(hv==m)e=1;
      if(e!=0)violate(s,"locked-twice",&cb,"the lock "+valStr(m)+(e==1?" is taken twice":" may be the one already held")+" (self-deadlock)");
      int lt=evalCmp(s,CmpInst::ICMP_ULT,hv,m),gt=evalCmp(s,CmpInst::ICMP_ULT,m,hv);
      if(lt==1||gt==0){ ++res.events["asc"]; res.info["order"]=res.info["order"]=="descending"?"both":"ascending"; }
      else if(gt==1||lt==0){ ++res.events["desc"]; res.info["order"]=res.info["order"]=="ascending"?"both":"descending"; }
      else violate(s,"lock-order",&cb,"the locks "+valStr(hv)+" and "+valStr(m)+" are taken in no fixed order (deadlock with the opposite operation)");
      if(res.info["order"]=="both")violate(s,"lock-order",&cb,"two locks are taken in address order on one path and against it on another"); }
    s.ts.locks.insert(l);
  }
  void exitCheck(State&s,bool exc,const Instruction*at,const Value*)override{
    for(auto&l:s.ts.locks)violate(s,"lock-kept",at,"the lock "+valStr(Val{l.first,l.second})+" is still held at "+(exc?"exceptional":"normal")+" exit");
  }
};
std::unique_ptr<Interp> makeLock(Function&F,Options o){return std::make_unique<LockInterp>(F,o);}
