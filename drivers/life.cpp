// Drivers: every operation that changes a container, through the first index of C.
#include "cont.hpp"
// --- insertion of one element -------------------------------------------------
#define OK1(p) vp_result(p.second,&*p.first)
#if KEYED
D(ins__C__copy)(C& c,const V& v){auto p=c.insert(v);OK1(p);}
D(ins__C__move)(C& c,V& v){auto p=c.insert(std::move(v));OK1(p);}
D(ins__C__emplace)(C& c,const Arg& a,const Arg& b){auto p=c.emplace(a,b);OK1(p);}
D(insh__C__hintcopy)(C& c,I h,const V& v){I i=c.insert(h,v);vp_result(2,&*i);}
D(insh__C__hintmove)(C& c,I h,V& v){I i=c.insert(h,std::move(v));vp_result(2,&*i);}
D(insh__C__hintemplace)(C& c,I h,const Arg& a,const Arg& b){I i=c.emplace_hint(h,a,b);vp_result(2,&*i);}
D(insn__C__node)(C& c,NH& nh){vp_handle(nh.node);auto r=c.insert(std::move(nh));vp_result(r.inserted,&*r.position,nh.node,r.node.node);r.node.node=0;}
D(insnh__C__hintnode)(C& c,I h,NH& nh){vp_handle(nh.node);I i=c.insert(h,std::move(nh));vp_result(2,&*i,nh.node);}
D(ext__C__key)(C& c,const Key<0>& k){NH nh=c.extract(k);vp_handed_over(nh.node);vp_result(2,nh.node);nh.node=0;}
D(mod__C__modifykey)(C& c,I it){vp_elem(&*it);vp_result(c.modify_key(it,[](const Key<0>& k){KMod<0>()(const_cast<Key<0>&>(k));}));}
#ifdef KENX
D(modrb__C__modifykey)(C& c,I it){vp_elem(&*it);vp_result(c.modify_key(it,[](const Key<0>& k){KMod<0>()(const_cast<Key<0>&>(k));},[](const Key<0>& k){KBack<0>()(const_cast<Key<0>&>(k));}));}
#endif
#if ORDERED // a container with the same elements whose first index differs in uniqueness
#if PK==0
typedef ON<0> PX;
#elif PK==1
typedef OU<0> PX;
#elif PK==2
typedef RN<0> PX;
#else
typedef RU<0> PX;
#endif
template<class L> struct swap_first; template<class A,class...B> struct swap_first<indexed_by<A,B...>>{typedef indexed_by<PX,B...> type;};
typedef multi_index_container<V,swap_first<IL>::type,Al<V,ALTR>> CX;
D(tra__C__mergeother)(C& c,CX& c2,CX::iterator i){vp_other(&*i);auto r=c.merge(c2,i);vp_result(r.second,&*r.first);}
#endif
D(tra__C__mergeone)(C& c,C& c2,I i){vp_other(&*i);auto r=c.merge(c2,i);vp_result(r.second,&*r.first);}
#else
D(ins__C__pushback)(C& c,const V& v){auto p=c.push_back(v);OK1(p);}
D(ins__C__pushfront)(C& c,const V& v){auto p=c.push_front(v);OK1(p);}
D(ins__C__pushbackmv)(C& c,V& v){auto p=c.push_back(std::move(v));OK1(p);}
D(ins__C__pushfrontmv)(C& c,V& v){auto p=c.push_front(std::move(v));OK1(p);}
D(ins__C__emplback)(C& c,const Arg& a,const Arg& b){auto p=c.emplace_back(a,b);OK1(p);}
D(ins__C__emplfront)(C& c,const Arg& a,const Arg& b){auto p=c.emplace_front(a,b);OK1(p);}
D(ins__C__emplace)(C& c,I h,const Arg& a,const Arg& b){auto p=c.emplace(h,a,b);OK1(p);}
D(ins__C__copy)(C& c,I h,const V& v){auto p=c.insert(h,v);OK1(p);}
D(ins__C__move)(C& c,I h,V& v){auto p=c.insert(h,std::move(v));OK1(p);}
D(insn__C__node)(C& c,I h,NH& nh){vp_handle(nh.node);auto r=c.insert(h,std::move(nh));vp_result(r.inserted,&*r.position,nh.node,r.node.node);r.node.node=0;}
D(del1__C__popfront)(C& c){c.pop_front();}
D(del1__C__popback)(C& c){c.pop_back();}
D(tra__C__splice1)(C& c,C& c2,I h,I i){vp_other(&*i);auto r=c.splice(h,c2,i);vp_result(r.second,&*r.first);}
D(noop__C__selfsplice1)(C& c,I h,I i){auto r=c.splice(h,c,i);(void)r;}
D(noop__C__selfsplicerange)(C& c,I h,I i,I j){c.splice(h,c,i,j);}
D(noop__C__reverse)(C& c){c.reverse();}
D(noopt__C__rearrange)(C& c,RwIt f){c.rearrange(f);}
D(noop__C__relocate)(C& c,I h,I i){c.relocate(h,i);}
D(noop__C__relocaterange)(C& c,I h,I i,I j){c.relocate(h,i,j);}
#endif
// insertion from a dereferenced input iterator (ranges insert element by element through these)
#define OKR(e) auto p=e;vp_result(p.second,&p.first->value())
#define HINT static_cast<C::final_node_type*>(h.get_node())
D(ins__C__refconv)(C& c,Src& v){OKR(c.insert_ref_(v));}
D(ins__C__refc)(C& c,const V& v){OKR(c.insert_ref_(v));}
D(ins__C__refl)(C& c,V& v){OKR(c.insert_ref_(v));}
D(ins__C__refconvh)(C& c,I h,Src& v){OKR(c.insert_ref_(v,HINT));}
D(ins__C__refch)(C& c,I h,const V& v){OKR(c.insert_ref_(v,HINT));}
D(ins__C__reflh)(C& c,I h,V& v){OKR(c.insert_ref_(v,HINT));}
// --- removal ------------------------------------------------------------------
D(del__C__erase)(C& c,I it){vp_elem(&*it);c.erase(it);}
D(ext__C__pos)(C& c,I it){vp_elem(&*it);NH nh=c.extract(it);vp_handed_over(nh.node);vp_result(1,nh.node);nh.node=0;}
D(clr__C__clear)(C& c){c.clear();}
D(dtor__C__dtor)(C& c){c.~C();}
// --- update -------------------------------------------------------------------
D(rep__C__copy)(C& c,I it,const V& v){vp_elem(&*it);vp_result(c.replace(it,v));}
D(rep__C__move)(C& c,I it,V& v){vp_elem(&*it);vp_result(c.replace(it,std::move(v)));}
D(mod__C__modify)(C& c,I it){vp_elem(&*it);vp_result(c.modify(it,Mod()));}
D(modrb__C__modify)(C& c,I it){vp_elem(&*it);vp_result(c.modify(it,Mod(),Back()));}
// --- other rearrangements -------------------------------------------------------
#if HASHED
D(noopt__C__rehash)(C& c,std::size_t n){c.rehash(n);}
D(noopt__C__reserve)(C& c,std::size_t n){c.reserve(n);}
#endif
#if RND
D(noopt__C__reserve)(C& c,std::size_t n){c.reserve(n);}
D(noopt__C__shrink)(C& c){c.shrink_to_fit();}
#endif
