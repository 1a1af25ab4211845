// miflow: exception-precise typestate / dataflow analysis over LLVM IR.
// Core: abstract values, abstract state, join.
#ifndef MIFLOW_CORE_HPP
#define MIFLOW_CORE_HPP
#include <llvm/IR/Module.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/CFG.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/ADT/PostOrderIterator.h>
#include <map>
#include <set>
#include <string>
#include <vector>
#include <memory>
#include <functional>
#include <algorithm>
#include <unordered_map>
#include <cstdint>

typedef uint32_t Ex;            // hash-consed term; 0 = "no base" (pure constant)
struct Val{
  Ex b=0; int64_t o=0;
  bool operator==(const Val&v)const{return b==v.b&&o==v.o;}
  bool operator!=(const Val&v)const{return !(*this==v);}
  bool operator<(const Val&v)const{return b!=v.b?b<v.b:o<v.o;}
  bool isConst()const{return b==0;}
  bool isNull()const{return b==0&&o==0;}
};
enum SymKind:uint8_t{SK_PARAM,SK_ALLOCA,SK_FRESH,SK_RES,SK_JOINV,SK_JOINC,SK_OLD,SK_GLOBAL,SK_OP,SK_NPARAM};
enum:unsigned{OP_INITLD=1000,OP_CMP=2000,OP_FCMP=3000,OP_SELF=4000,OP_USER=5000};
struct Term{
  SymKind k; const void* key; uint64_t aux; unsigned opc; std::vector<Val> args;
  bool operator<(const Term&t)const{
    if(k!=t.k)return k<t.k; if(key!=t.key)return key<t.key; if(aux!=t.aux)return aux<t.aux;
    if(opc!=t.opc)return opc<t.opc; return args<t.args;}
};
struct Arena{
  std::vector<Term> terms; std::map<Term,Ex> idx; std::vector<uint8_t> depth_; std::vector<bool> old_;
  Arena(){terms.push_back(Term{SK_OP,nullptr,0,0,{}});depth_.push_back(0);old_.push_back(false);}
  Ex get(Term t){
    auto it=idx.find(t); if(it!=idx.end())return it->second;
    Ex e=terms.size(); uint8_t d=0; bool o=t.k==SK_OLD;
    for(auto&a:t.args)if(a.b){d=std::max<int>(d,depth_[a.b]+1); if(old_[a.b])o=true;}
    if((t.k==SK_JOINC)&&t.aux>>32){d=depth_[t.aux>>32]+1;}
    terms.push_back(t);depth_.push_back(d);old_.push_back(o);idx[t]=e;return e;}
  Ex sym(SymKind k,const void*key,uint64_t aux=0){return get(Term{k,key,aux,0,{}});}
  Ex op(unsigned opc,std::vector<Val> a){return get(Term{SK_OP,nullptr,0,opc,std::move(a)});}
  const Term& operator[](Ex e)const{return terms[e];}
  int depth(Ex e)const{return depth_[e];}
  bool hasOld(Ex e)const{return old_[e];}
};
extern Arena A;

struct Cell{Val v; unsigned size;};
typedef std::pair<Ex,int64_t> Loc;

struct Trail{std::shared_ptr<Trail> prev; std::string msg; int n;};
typedef std::shared_ptr<Trail> TrailP;

enum Role:uint8_t{R_ELEM,R_FRESH,R_HANDLE,R_OTHER,R_LOCAL};
enum OKind:uint8_t{OK_NODE,OK_AUX,OK_UNK};
struct Obj{
  Role role=R_ELEM; OKind kind=OK_UNK;
  uint8_t alloc=1;                  // 1 live, 2 freed
  Val nalloc; Val allocator; bool allocKnown=false;
  std::map<int64_t,int> vals;       // offset -> 1 constructed, 0 not constructed
  std::set<int64_t> in,out;         // explicit layer membership
  std::set<int64_t> moved;          // repositioned while in
  bool assigned=false;              // value assigned during this op
  std::set<std::pair<Ex,int64_t>> det,tra; // safe mode: iterator lists from which its iterators were detached / transferred
  bool handedOver=false; bool pinned=false; bool header=false; bool parked=false; Val parkAddr;
  bool operator==(const Obj&x)const{
    return header==x.header&&parked==x.parked&&role==x.role&&kind==x.kind&&alloc==x.alloc&&nalloc==x.nalloc&&allocator==x.allocator&&allocKnown==x.allocKnown&&vals==x.vals&&in==x.in&&out==x.out&&moved==x.moved&&det==x.det&&tra==x.tra&&assigned==x.assigned&&handedOver==x.handedOver&&pinned==x.pinned;}
};
struct TS{                          // typestate: the exact part of the state
  std::map<Ex,Obj> objs;
  std::map<Ex,int> pending;         // container base -> counter delta not yet matched
  std::map<std::string,int> flags; Val selOf{0,0};
  std::map<Loc,Loc> undo;           // undo object -> (node base, layer)
  int exc=0;                        // 0 none, 1 in flight, 2 being handled
  std::string origin;               // origin of last user exception
  int userThrew=0;
  std::set<Loc> detAll; std::set<std::pair<Loc,Loc>> swp; // safe mode: cleared / exchanged iterator lists
  std::set<Loc> locks; std::map<Ex,Loc> region; // lock mode: mutexes held, list cells -> owning container
  bool resultSet=false; Val resFlag,resPtr,resX[2];
};
struct State{
  std::map<unsigned,Val> env;
  std::map<Loc,Cell> mem;
  std::map<Ex,bool> truth;
  std::set<Ex> late;                // symbols that may denote an escaped local/fresh object
  std::set<Ex> escaped;
  std::set<Ex> dirtyParam; bool heapDirty=false;
  TS ts;
  TrailP trail;
};
#endif
