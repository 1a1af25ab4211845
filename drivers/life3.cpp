// Drivers: operations made of many single-element operations. Analysed with the container-level
// single-element operations (proved by the drivers of life.cpp) taken as atomic.
#include "cont.hpp"
#define OK1(p) vp_result(p.second,&*p.first)
#if KEYED
D(insr__C__range)(C& c,It first,It last){c.insert(first,last);}
D(insr__C__il)(C& c,std::initializer_list<V> l){c.insert(l);}

D(delr__C__key)(C& c,const Key<0>& k){c.erase(k);}
D(trar__C__mergerange)(C& c,C& c2,I i,I j){c.merge(c2,i,j);}
D(trar__C__merge)(C& c,C& c2){c.merge(c2);}
D(trar__C__selfmerge)(C& c){c.merge(c);}
#else
D(insr__C__count)(C& c,I h,std::size_t n,const V& v){c.insert(h,n,v);}
D(insr__C__range)(C& c,I h,It first,It last){c.insert(h,first,last);}
D(insr__C__il)(C& c,I h,std::initializer_list<V> l){c.insert(h,l);}
D(insr__C__resizev)(C& c,std::size_t n,const V& v){c.resize(n,v);}
D(insr__C__resize)(C& c,std::size_t n){c.resize(n);}
D(insr__C__assign)(C& c,It first,It last){c.assign(first,last);}
D(insr__C__assignil)(C& c,std::initializer_list<V> l){c.assign(l);}
D(insr__C__assignn)(C& c,std::size_t n,const V& v){c.assign(n,v);}
D(trar__C__splicerange)(C& c,C& c2,I h,I i,I j){c.splice(h,c2,i,j);}
D(trar__C__splice)(C& c,C& c2,I h){c.splice(h,c2);}
D(delp__C__removeif)(C& c){c.remove_if(Pred1());}
D(delp__C__unique)(C& c){c.unique(Pred2());}
D(trar__C__merge)(C& c,C& c2){c.merge(c2,Less());}
D(noop__C__selfmerge)(C& c){c.merge(c,Less());}
D(noopt__C__sort)(C& c){c.sort(Less());}
#endif
D(delr__C__range)(C& c,I i,I j){c.erase(i,j);}
#if HASHED
#endif
#if RND
#endif
