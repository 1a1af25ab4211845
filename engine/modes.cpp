#include "interp.hpp"
using namespace llvm;
struct LifeInterp:Interp{
  using Interp::Interp;
  void onUser(State&s,const CallBase&cb,const FInfo&fi,std::vector<Val>&args)override{
    Interp::onUser(s,cb,fi,args);
    if(fi.ev==EV_USER){
      // modifier / rollback bookkeeping
      if(fi.cls=="vp::Back"||fi.cls=="vp::KBack"){s.ts.flags["backCalled"]=1;s.ts.flags["backReturned"]=1;s.ts.flags.erase("checked");}
      else if(s.ts.flags.count("backReturned"))s.ts.flags["cmpAfterBack"]=1;
    }
  }
  void onUserThrow(State&s,const CallBase&cb,const FInfo&fi,std::vector<Val>&args)override{
    if(fi.cls=="vp::Back"||fi.cls=="vp::KBack")s.ts.flags["backCalled"]=1;
    if(fi.cls=="vp::Mod"||fi.cls=="vp::KMod")s.ts.flags["modThrew"]=1;
  }
};
extern bool lockMode; std::unique_ptr<Interp> makeLock(Function&F,Options o);
std::unique_ptr<Interp> makeInterp(Function&F,Options o){ if(lockMode)return makeLock(F,o); return std::make_unique<LifeInterp>(F,o);}
