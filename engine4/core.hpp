// miarr: analysis of loops over pointer arrays and element sequences on LLVM IR. Integers and indices are linear expressions
// over non-negative symbols; arrays are partitioned into segments with affine contents; loops are closed by affine acceleration
// (entry + k * step) with candidate invariants taken from the loop's own comparisons (see DESIGN.md).
#pragma once
#include "llvm/IR/Module.h"
#include "llvm/IR/Instructions.h"
#include "llvm/IR/IntrinsicInst.h"
#include "llvm/IR/InstIterator.h"
#include "llvm/IR/DebugInfoMetadata.h"
#include "llvm/IR/CFG.h"
#include "llvm/IR/Dominators.h"
#include "llvm/Demangle/Demangle.h"
#include "llvm/Analysis/ValueTracking.h"
#include <map>
#include <set>
#include <string>
#include <vector>
#include <functional>
#include <memory>
#include <numeric>
using namespace llvm;
typedef std::string Str;
struct Lin{
  std::map<int,long> t;long c=0;
  Lin(long k=0):c(k){}
  static Lin sym(int s){Lin l;l.t[s]=1;return l;}
  Lin&operator+=(const Lin&o){for(auto&p:o.t){long&x=t[p.first];x+=p.second;if(!x)t.erase(p.first);}c+=o.c;return*this;}
  Lin&operator-=(const Lin&o){for(auto&p:o.t){long&x=t[p.first];x-=p.second;if(!x)t.erase(p.first);}c-=o.c;return*this;}
  friend Lin operator+(Lin a,const Lin&b){return a+=b;}
  friend Lin operator-(Lin a,const Lin&b){return a-=b;}
  friend Lin operator*(Lin a,long k){if(!k)return Lin(0);for(auto&p:a.t)p.second*=k;a.c*=k;return a;}
  bool operator==(const Lin&o)const{return c==o.c&&t==o.t;}
  bool operator<(const Lin&o)const{return c!=o.c?c<o.c:t<o.t;}
  bool isC()const{return t.empty();}
  bool div(long k,Lin&r)const{r=Lin();for(auto&p:t){if(p.second%k)return false;r.t[p.first]=p.second/k;}if(c%k)return false;r.c=c/k;return true;}
  void subst(int s,const Lin&e){auto i=t.find(s);if(i==t.end())return;long k=i->second;t.erase(i);Lin x=e*k;*this+=x;}
  Str str()const{Str s;for(auto&p:t){s+=(p.second<0?"-":s.empty()?"":"+");if(labs(p.second)!=1)s+=std::to_string(labs(p.second));s+="s"+std::to_string(p.first);}if(c||s.empty())s+=(c>=0&&!s.empty()?"+":"")+std::to_string(c);return s;}
};
// linear constraints c>=0 over non-negative integers
struct Poly{
  static void tight(Lin&l){long g=0;for(auto&p:l.t)g=std::gcd(g,labs(p.second));if(g>1){for(auto&p:l.t)p.second/=g;l.c=l.c>=0?l.c/g:-((-l.c+g-1)/g);}}
  static bool trivial(const Lin&l){if(l.c<0)return false;for(auto&p:l.t)if(p.second<0)return false;return true;}
  static bool infeasible(std::vector<Lin> cs){
    std::set<Lin> s;for(auto&l:cs){tight(l);if(trivial(l))continue;bool pos=false;for(auto&p:l.t)if(p.second>0)pos=true;if(!pos&&l.c<0)return true;s.insert(l);}
    for(;;){
      if(s.empty())return false;
      std::map<int,std::pair<long,long>> cnt;for(auto&l:s)for(auto&p:l.t)(p.second>0?cnt[p.first].first:cnt[p.first].second)++;
      if(cnt.empty())return false;
      int best=-1;long bc=1L<<60;for(auto&p:cnt){long c=p.second.first*p.second.second-p.second.first-p.second.second;if(c<bc){bc=c;best=p.first;}}
      std::vector<Lin> up,lo,rest;for(auto&l:s){auto i=l.t.find(best);if(i==l.t.end())rest.push_back(l);else (i->second>0?lo:up).push_back(l);}
      lo.push_back(Lin::sym(best));
      std::set<Lin> n(rest.begin(),rest.end());
      for(auto&a:lo)for(auto&b:up){long x=a.t.at(best),y=-b.t.at(best);Lin r=a*y+b*x;tight(r);if(trivial(r))continue;bool pos=false;for(auto&p:r.t)if(p.second>0)pos=true;if(!pos&&r.c<0)return true;n.insert(r);}
      if(n.size()>400)return false;
      s.swap(n);
    }
  }
  static bool implies(const std::vector<Lin>&cs,const Lin&l){if(trivial(l))return true;std::vector<Lin> v=cs;v.push_back(Lin(-1)-l);return infeasible(v);}
};
enum K{UNK,INT,NIL,SLOT,EL,MEMP,HASH,BUCK,CELL,SAME,NBR,AGG};
// SLOT: array id, byte offset n. EL: element n of the original sequence (off: byte offset; id: 0 itself/last of its group, 1 first of its group).
// HASH: hash of element n. BUCK: position of that hash in table id. CELL: that bucket's cell. SAME: element n shares its bucket with element n+1 in the old table.
// NBR: link-path id from an element n of the new list.
struct V{K k=UNK;int id=0;Lin n;long off=0;bool neg=false;std::vector<V> agg;
  static V i(Lin l){V v;v.k=INT;v.n=l;return v;}
  static V nil(){V v;v.k=NIL;return v;}
  static V el(Lin n,int id=0){V v;v.k=EL;v.n=n;v.id=id;return v;}
  static V slot(int a,Lin idx){V v;v.k=SLOT;v.id=a;v.n=idx*8;return v;}
  static V mem(int o,long off=0){V v;v.k=MEMP;v.id=o;v.off=off;return v;}
};
struct Pc{Lin lo,hi;K k=UNK;int id=0,s=1;Lin c;}; // content at i: k(s*i+c); UNK: unspecified
struct Arr{std::vector<Pc> p;Lin cap;};
struct Infeasible{};struct Viol{Str rule,msg;};struct Fail{Str msg;};
struct Fact{int kind;Lin n;bool v;}; // 0: SAME(n); 1: slot content e_n is null
struct State;
typedef std::shared_ptr<State> SP;
struct State{
  std::map<const Value*,V> env;
  std::map<int,Arr> arr;Arr up;             // up: element index -> slot
  std::map<int,std::map<long,V>> mem;
  std::vector<Lin> cons;std::vector<Fact> facts;
  std::map<Str,Lin> gl;std::map<Str,int> gi;   // ghost state of a configuration
  BasicBlock*bb=nullptr;BasicBlock::iterator it;
  std::map<const BasicBlock*,int> depth;
  std::vector<int> trail;int cfg=0;bool sub=false;
  template<class F> void eachLin(F f){
    auto fv=[&](auto&self,V&v)->void{f(v.n);for(auto&a:v.agg)self(self,a);};
    for(auto&p:env)fv(fv,p.second);
    for(auto&p:arr){for(auto&q:p.second.p){f(q.lo);f(q.hi);f(q.c);}f(p.second.cap);}
    for(auto&q:up.p){f(q.lo);f(q.hi);f(q.c);}
    for(auto&p:mem)for(auto&q:p.second)fv(fv,q.second);
    for(auto&p:gl)f(p.second);
  }
  void subst(int s,const Lin&e){
    eachLin([&](Lin&l){l.subst(s,e);});for(auto&l:cons)l.subst(s,e);for(auto&x:facts)x.n.subst(s,e);
    cons.push_back(e);
  }
  bool ge(const Lin&l)const{return Poly::implies(cons,l);}
  bool eq0(const Lin&l)const{return l.isC()?l.c==0:ge(l)&&ge(Lin(0)-l);}
  bool bad()const{return Poly::infeasible(cons);}
};
struct Split{std::vector<State> alts;};
