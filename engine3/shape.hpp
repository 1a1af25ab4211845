// mishape: shape analysis of the pointer surgery on index nodes, on LLVM IR.
// Abstract heaps: materialised nodes, subtrees (Tree), paths with a hole (Seg); see DESIGN.md.
#pragma once
#include "llvm/IR/Module.h"
#include "llvm/IR/Instructions.h"
#include "llvm/IR/IntrinsicInst.h"
#include "llvm/IR/InstIterator.h"
#include "llvm/IR/DebugInfoMetadata.h"
#include <map>
#include <set>
#include <string>
#include <vector>
#include <functional>
using namespace llvm;
typedef std::string Str;
struct Lin{ // linear expression over size symbols
  std::map<int,long> t; long c=0;
  Lin(long k=0):c(k){}
  static Lin sym(int s){Lin l;l.t[s]=1;return l;}
  Lin&operator+=(const Lin&o){for(auto&p:o.t){long&x=t[p.first];x+=p.second;if(!x)t.erase(p.first);}c+=o.c;return*this;}
  Lin&operator-=(const Lin&o){for(auto&p:o.t){long&x=t[p.first];x-=p.second;if(!x)t.erase(p.first);}c-=o.c;return*this;}
  friend Lin operator+(Lin a,const Lin&b){return a+=b;}
  friend Lin operator-(Lin a,const Lin&b){return a-=b;}
  bool operator==(const Lin&o)const{return c==o.c&&t==o.t;}
  bool isC()const{return t.empty();}
  void subst(int s,const Lin&e){auto i=t.find(s);if(i==t.end())return;long k=i->second;t.erase(i);for(auto&p:e.t){long&x=t[p.first];x+=k*p.second;if(!x)t.erase(p.first);}c+=k*e.c;}
};
struct Bh{int s=0;int c=0;bool operator==(const Bh&o)const{return s==o.s&&c==o.c;}}; // black height: symbol (0: none) plus constant
enum VK{UNK,BIT,INT,P,AGG};
enum PB{NODE,TREE,TOP,UP,NIL,FE,LE,MEM,FAR};
struct V{
  VK k=UNK;PB b=NIL;int id=0;long off=0;int c=0;Lin n;std::vector<V> agg;
  static V node(int i,long o=0){V v;v.k=P;v.b=NODE;v.id=i;v.off=o;return v;}
  static V ptr(PB b,int i){V v;v.k=P;v.b=b;v.id=i;return v;}
  static V nil(){V v;v.k=P;v.b=NIL;return v;}
  static V i(Lin l){V v;v.k=INT;v.n=l;return v;}
  bool isNode()const{return k==P&&b==NODE;}
  bool is(PB x)const{return k==P&&b==x;}
  bool same(const V&o)const{return k==P&&o.k==P&&b==o.b&&(b==NIL||id==o.id)&&off==o.off;} // colour bit ignored
};
struct Node{std::map<long,V> f;Str nm;bool ro=false;};
struct Tree{V par;Bh bh;int col=2;bool nn=false;Lin sz;};      // col: 0 red, 1 black (or null), 2 any
struct Seg{V par,hole;Bh hb,tb;int topc=2,botc=2;bool ne=false;Lin hs;int pre=1,post=1;Lin psz,qsz;}; // pre/post: 0 empty 1 unknown 2 nonempty
enum IK{INODE,ITREE,IPRE,IPOST};
struct Item{IK k;int id;bool operator==(const Item&o)const{return k==o.k&&id==o.id;}};
struct Infeasible{};
struct Viol{Str rule,msg;};
struct Fail{Str msg;};
struct State;
struct Split{std::vector<State> alts;Split(){}};
struct State{
  std::map<const Value*,V> env;
  std::map<int,Node> nodes;std::map<int,Tree> trees;std::map<int,Seg> segs;
  std::map<int,std::map<long,V>> mem;
  std::vector<Item> E;
  std::vector<Lin> cons,neq;
  BasicBlock*bb=nullptr,*prev=nullptr;BasicBlock::iterator it;
  std::vector<int> trail;
  int cfg=0,iters=0;
  template<class F> void eachV(F f){
    for(auto&p:env){f(p.second);for(auto&a:p.second.agg)f(a);}
    for(auto&p:nodes)for(auto&q:p.second.f)f(q.second);
    for(auto&p:mem)for(auto&q:p.second)f(q.second);
    for(auto&p:trees)f(p.second.par);
    for(auto&p:segs){f(p.second.par);f(p.second.hole);}
  }
  void substSz(int s,const Lin&e){
    eachV([&](V&v){if(v.k==INT)v.n.subst(s,e);});
    for(auto&p:segs){p.second.hs.subst(s,e);p.second.psz.subst(s,e);p.second.qsz.subst(s,e);}
    for(auto&p:trees)p.second.sz.subst(s,e);
    for(auto&l:cons)l.subst(s,e);
    for(auto&l:neq)l.subst(s,e);
  }
  void substBh(int s,Bh e){
    auto f=[&](Bh&b){if(b.s==s){b.s=e.s;b.c+=e.c;}};
    for(auto&p:trees)f(p.second.bh);
    for(auto&p:segs){f(p.second.hb);f(p.second.tb);}
  }
  void substP(PB b,int id,const V&to){ // pointer value replaced everywhere
    eachV([&](V&v){if(v.k==P&&v.b==b&&v.id==id){V w=to;w.off+=v.off;w.c=v.c;v=w;}});
  }
};
