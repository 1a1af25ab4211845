// miord: relational abstract interpreter (order / position / tree-interval domain) over LLVM IR.
// Values are linear expressions over hash-consed terms; user-supplied operations are uninterpreted functions.
#ifndef MIORD_CORE_HPP
#define MIORD_CORE_HPP
#include <llvm/IR/Module.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/CFG.h>
#include <llvm/IR/DataLayout.h>
#include <map>
#include <set>
#include <string>
#include <vector>
#include <memory>
#include <functional>
#include <algorithm>
#include <cstdint>
#include <unordered_map>
typedef int LE; typedef int TM;
enum Op{O_PARAM,O_ALLOCA,O_FRESH,O_GLOBAL,O_NODE,O_H,O_NEGINF,O_ROOT,O_LEFTMOST,O_RIGHTMOST,O_LEFT,O_RIGHT,O_PAR,O_LO,O_HI,O_SUCC,O_PRED,O_POS,O_INIT,O_UF,O_EQ,O_LT,O_JOIN,O_UNDEF,O_TUPLE,O_PART,O_CHAIN,O_HN};
struct Term{ Op op; int64_t k=0; std::string s; std::vector<LE> a; bool operator<(const Term&t)const{ if(op!=t.op)return op<t.op; if(k!=t.k)return k<t.k; if(s!=t.s)return s<t.s; return a<t.a; } };
struct LinE{ std::vector<std::pair<TM,int64_t>> v; int64_t c=0; bool operator<(const LinE&o)const{return c!=o.c?c<o.c:v<o.v;} };
struct HT{size_t operator()(const Term&t)const{size_t h=t.op*1315423911u+t.k*2654435761u; h^=std::hash<std::string>()(t.s)+0x9e3779b9+(h<<6); for(LE a:t.a)h=h*1000003u^a; return h;}};
struct ET{bool operator()(const Term&x,const Term&y)const{return x.op==y.op&&x.k==y.k&&x.a==y.a&&x.s==y.s;}};
struct HL{size_t operator()(const LinE&e)const{size_t h=e.c*0x9E3779B97F4A7C15ull; for(auto&p:e.v){h=h*1000003u^p.first;h=h*1000003u^p.second;} return h;}};
struct EL{bool operator()(const LinE&x,const LinE&y)const{return x.c==y.c&&x.v==y.v;}};
struct Tables{
  std::vector<Term> t; std::unordered_map<Term,TM,HT,ET> ti; std::vector<LinE> l; std::unordered_map<LinE,LE,HL,EL> li;
  TM term(const Term&x){auto it=ti.find(x);if(it!=ti.end())return it->second;TM r=t.size();t.push_back(x);ti[x]=r;return r;}
  LE lin(const LinE&x){auto it=li.find(x);if(it!=li.end())return it->second;LE r=l.size();l.push_back(x);li[x]=r;return r;}
};
extern Tables TB;
inline LE cst(int64_t c){LinE e;e.c=c;return TB.lin(e);}
inline LE var(TM t){LinE e;e.v.push_back({t,1});return TB.lin(e);}
inline bool isC(LE e){return TB.l[e].v.empty();}
inline int64_t cval(LE e){return TB.l[e].c;}
inline LE add(LE a,LE b,int64_t k=1){
  LinE r; const LinE x=TB.l[a],y=TB.l[b]; size_t i=0,j=0;
  while(i<x.v.size()||j<y.v.size()){ if(j>=y.v.size()||(i<x.v.size()&&x.v[i].first<y.v[j].first))r.v.push_back(x.v[i++]); else if(i>=x.v.size()||y.v[j].first<x.v[i].first){ if(k)r.v.push_back({y.v[j].first,(int64_t)((uint64_t)y.v[j].second*(uint64_t)k)});++j;} else{ int64_t c=x.v[i].second+y.v[j].second*k; if(c)r.v.push_back({x.v[i].first,c});++i;++j;} }
  r.c=(int64_t)((uint64_t)x.c+(uint64_t)y.c*(uint64_t)k); return TB.lin(r);}
inline LE addc(LE a,int64_t c){LinE r=TB.l[a];r.c+=c;return TB.lin(r);}
inline LE scale(LE a,int64_t k){return add(cst(0),a,k);}
inline TM single(LE e){auto&x=TB.l[e];return x.v.size()==1&&x.v[0].second==1?x.v[0].first:-1;}  // 1*t + c
inline TM pure(LE e){auto&x=TB.l[e];return x.v.size()==1&&x.v[0].second==1&&x.c==0?x.v[0].first:-1;}
std::string str(LE e);
std::string demangleFn(const llvm::Function*f);
#endif
