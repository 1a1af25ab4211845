// miflow: the abstract interpreter.
#ifndef MIFLOW_INTERP_HPP
#define MIFLOW_INTERP_HPP
#include "core.hpp"

enum Ev{EV_NONE,EV_USER,EV_V_CTOR,EV_V_DTOR,EV_V_ASSIGN,EV_ALLOC,EV_DEALLOC,EV_ALSELECT,
  EV_LINK,EV_UNLINK,EV_UNLINK_UNDO,EV_UNDO,EV_MOVE,EV_PRIM,EV_REHASH,EV_DELTREE,
  EV_VP,EV_CXA_BEGIN,EV_CXA_END,EV_RETHROW,EV_THROW,EV_TERM,EV_PURE,EV_LIBTHROW,EV_LOCK,EV_UNLOCK,EV_SAFE,EV_ATOM,EV_CHECKED,EV_UNKNOWN};

struct FInfo{
  Ev ev=EV_UNKNOWN; std::string dem,name,cls,base; int objArg=0; bool rvalue=false; std::string tparam;
};

struct Violation{std::string rule,where,driver,msg;std::vector<std::string> trail;};

std::string demangleFn(const llvm::Function*f);
std::string stripTemplates(const std::string&);
const FInfo& finfo(const llvm::Function*f);
std::string locOf(const llvm::Instruction*I);

struct Leaf{int64_t off; unsigned size; std::string path; bool alloc=false,functor=false,flt=false;};
struct Options{
  int K=0; int64_t countOff=-1; uint64_t vsize=16; std::string spec,driver,cont;
  size_t maxKeys=30000; uint64_t maxSteps=40000000; bool verbose=false; bool modular=false,multi=false,headerOk=false; int64_t headerOff=-1; std::vector<Leaf> leaves; int64_t allocOff=-1; int altr=0; int64_t mutexOff=-1,safeCont=-1,safeNode=-1;
};

struct Result{
  std::vector<Violation> viol;
  uint64_t blocks=0,steps=0,states=0; uint64_t exitsNormal=0,exitsExc=0;
  std::set<std::string> throwPoints; std::map<std::string,uint64_t> events; std::set<std::string> eventSites;
  std::set<std::string> exitNotes; std::string error; std::set<std::string> unknownCalls;
  std::map<std::string,std::string> info;
};

class Interp{
public:
  llvm::Function&F; const llvm::DataLayout&DL; Options opt; Result res;
  Interp(llvm::Function&f,Options o);
  virtual ~Interp(){}
  void run();
  // spec hooks
  virtual void exitCheck(State&s,bool exc,const llvm::Instruction*at,const llvm::Value*ret);
  void fieldCheck(State&s,bool exc,const llvm::Instruction*at,const std::string&how);
  virtual void onUser(State&s,const llvm::CallBase&cb,const FInfo&fi,std::vector<Val>&args);
  virtual void onUserThrow(State&s,const llvm::CallBase&cb,const FInfo&fi,std::vector<Val>&args){}
  virtual void onLoad(State&s,const llvm::LoadInst&li,Val p,Val&v){}
  virtual void onStore(State&s,const llvm::Instruction&si,Val p,Val v);
  virtual void onVp(State&s,const llvm::CallBase&cb,const std::string&nm,std::vector<Val>&args);
  virtual std::string extraKey(State&s){return "";}
  virtual void init(State&s){}
  std::set<Loc> typedCells; bool typedStore=false; // cells that a store to a field of another type cannot change
  virtual void onLock(State&s,const llvm::CallBase&cb,bool lock,Val m){}
  virtual void onOpaque(State&s,const llvm::CallBase&cb,const std::string&what){}
  virtual bool regionOf(State&s,Val v,Loc&r){return false;}
  virtual void onAtom(State&s,const llvm::CallBase&cb,const FInfo&fi,std::vector<Val>&args){}
  bool isHeader(State&s,Ex b); bool isHeaderVal(State&s,Val v,int64_t off);
  virtual void onBranch(State&s,const llvm::Instruction&I,Val cond,bool taken){}

  void violate(State&s,const std::string&rule,const llvm::Instruction*at,const std::string&msg);
  void ev(State&s,const std::string&e,const llvm::Instruction*at,const std::string&detail="");
  Val get(State&s,const llvm::Value*v);
  int evalCmp(State&s,unsigned pred,Val a,Val b);
  int evalBool(State&s,Val c);
  bool assume(State&s,Val c,bool t);
  Val mkCmp(unsigned pred,Val a,Val b,bool&neg);
  bool mayAlias(State&s,Ex a,Ex b);
  bool isDistinctObj(Ex e);
  bool nonNull(State&s,Ex b);
  void assumeNonNull(State&s,Val p);
  void forgetBase(State&s,Ex b);
  void havocHeap(State&s,const std::vector<Val>&args,const llvm::CallBase&cb);
  void storeTo(State&s,Val p,Val v,unsigned size);
  void transferAllocCheck(State&s,const llvm::Instruction*at);
  int allocState(State&s,const Loc&l); void handleAllocCheck(State&s,const llvm::Instruction*at,const std::string&how);
  Val loadFrom(State&s,Val p,unsigned size,const llvm::Instruction*I);
  void escape(State&s,Val v);
  Val freshSym(State&s,const llvm::Instruction*I,uint64_t aux=0,SymKind k=SK_RES);
  void renameSym(State&s,Ex from);
  void substState(State&s,const std::map<Ex,Ex>&m);
  Ex subst(Ex e,const std::map<Ex,Ex>&m,std::map<Ex,Ex>&memo);
  bool refers(State&s,Ex e);
  Obj& obj(State&s,Ex b,const llvm::Instruction*at=nullptr);
  bool settled(const Obj&o,int&delta);
  void gc(State&s); void safeEvent(State&s,const llvm::CallBase&cb,const FInfo&fi,std::vector<Val>&args); void safeCheck(State&s,Ex b,const Obj&o,const llvm::Instruction*at,const std::string&how); void safeExit(State&s,bool exc,const llvm::Instruction*at,const std::string&how);
  void touch(State&s,Val p,const llvm::Instruction*at,const char*how);
  void link(State&s,Val p,const llvm::Instruction*at,const char*what);
  void unlink(State&s,Val p,const llvm::Instruction*at,const char*what);
  std::string describe(Ex b);
  std::string valStr(Val v);
protected:
  struct BlockStates{std::map<std::string,State> byKey;};
  std::map<const llvm::BasicBlock*,BlockStates> tbl;
  std::map<const llvm::BasicBlock*,int> rpo;
  std::map<const llvm::BasicBlock*,std::set<unsigned>> liveIn;
  std::vector<const llvm::BasicBlock*> byRpo;
  std::set<std::pair<int,std::string>> work;
  std::map<const llvm::Value*,unsigned> vnum;
  std::set<const llvm::BasicBlock*> joinBlocks;
  void computeLiveness();
  void flow(const llvm::BasicBlock*from,const llvm::BasicBlock*to,State s);
  bool joinInto(State&dst,State&src,const llvm::BasicBlock*b);
  std::string keyOf(State&s,const llvm::BasicBlock*b);
  void runBlock(const llvm::BasicBlock*b,State s);
  // returns false if path ends
  struct CallOut{std::vector<State> norm,exc; bool noNormal=false;};
  CallOut call(State s,const llvm::CallBase&cb);
  void doMemcpy(State&s,Val d,Val sr,uint64_t n,const llvm::Instruction*I);
  bool stepInst(State&s,const llvm::Instruction&I,std::vector<std::pair<const llvm::Instruction*,State>>&forks);
  void excExit(State s,const llvm::Instruction*at);
};
#endif

extern bool anyChecked;
