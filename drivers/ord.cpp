// Product programs for ordered and ranked indices: a library call followed by its specification, written with
// the container's own comparison object and key extractor. The analyser explores all paths over an abstract tree.
#define TRIVF
#define REST 0
#define BOOST_MULTI_INDEX_DISABLE_COMPRESSED_ORDERED_INDEX_NODES
#include "cont.hpp"
extern "C"{
void vp_prove(bool,const char*)noexcept; void vp_assume(bool)noexcept; void vp_tree()noexcept;
void* vp_pred(void*)noexcept; void* vp_succ(void*)noexcept; unsigned long vp_pos(void*)noexcept; unsigned long vp_count()noexcept;
void* vp_any()noexcept; void* vp_anyelem()noexcept; void* vp_ghost(const char*)noexcept; bool vp_hasghost(const char*)noexcept;
}
extern "C" void vp_absent(const long&,const char*)noexcept; extern "C" void* vp_witness(const long&)noexcept;
#define vp_absent(x,m) vp_absent((const long&)x,m)
extern "C" void* vp_bnd(const char*)noexcept; extern "C" void* vp_lb(const long&)noexcept; extern "C" void* vp_ub(const long&)noexcept;
#define vp_witness(x) vp_witness((const long&)x)
namespace vp{ struct Lo{bool operator()(const Key<0>&)const; long state;}; struct Up{bool operator()(const Key<0>&)const; long state;}; }
static_assert(sizeof(Key<0>)+sizeof(Key<1>)+sizeof(XKey)>0,"");
typedef C::index_node_type N;
typedef N::impl_type NI;
extern "C" void* probe_io(N*n){return n->impl();}
extern "C" void* probe_left(N*n){return &n->impl()->left();}
extern "C" void* probe_right(N*n){return &n->impl()->right();}
extern "C" void* probe_parent(N*n){return &n->impl()->parent();}
#if RANKED
extern "C" void* probe_nsize(N*n){return &n->impl()->size;}
#endif
extern "C" void* probe_hdr(const C&c){return c.header();}
extern "C" unsigned long probe_cnt(const C&c){return c.size();}
#define V_(p) (((N*)(p))->value())
#define P(x,m) vp_prove(x,m)
#define SPEC auto cmp=c.key_comp(); auto key=c.key_extractor(); (void)cmp;(void)key
#define LT(n,x) cmp(key(V_(n)),x)
#define GT(n,x) cmp(x,key(V_(n)))
#define TREE vp_tree()
D(lower_bound)(C&c,const Key<0>&x){ TREE; void*r=c.lower_bound(x).get_node(); SPEC; P(!LT(r,x),"lower_bound: the result is not less than the key"); P(LT(vp_pred(r),x),"lower_bound: the element before the result is less than the key"); }
D(upper_bound)(C&c,const Key<0>&x){ TREE; void*r=c.upper_bound(x).get_node(); SPEC; P(GT(r,x),"upper_bound: the result is greater than the key"); P(!GT(vp_pred(r),x),"upper_bound: the element before the result is not greater than the key"); }
D(equal_range)(C&c,const Key<0>&x){ TREE; auto q=c.equal_range(x); void*r=q.first.get_node(); void*t=q.second.get_node(); SPEC; P(!LT(r,x),"equal_range: the first bound is not less than the key"); P(LT(vp_pred(r),x),"equal_range: the element before the first bound is less than the key"); P(GT(t,x),"equal_range: the second bound is greater than the key"); P(!GT(vp_pred(t),x),"equal_range: the element before the second bound is not greater than the key"); }
D(find)(C&c,const Key<0>&x){ TREE; auto q=c.find(x); void*r=q.get_node(); SPEC; if(q==c.end())vp_absent(x,"find: end is returned only if no equivalent element exists"); else { P(!LT(r,x)&&!GT(r,x),"find: the result is equivalent to the key"); } }
// heterogeneous lookup with a compatible comparison object
namespace vp{ struct XC{ long state; bool operator()(const XKey&,const Key<0>&)const; bool operator()(const Key<0>&,const XKey&)const; }; }
#define XSPEC auto key=c.key_extractor(); (void)key
#define XLT(n,x) cmp(key(V_(n)),x)
#define XGT(n,x) cmp(x,key(V_(n)))
D(xlower_bound)(C&c,const XKey&x,const vp::XC&cmp){ TREE; void*r=c.lower_bound(x,cmp).get_node(); XSPEC; P(!XLT(r,x),"lower_bound: the result is not less than the key"); P(XLT(vp_pred(r),x),"lower_bound: the element before the result is less than the key"); }
D(xupper_bound)(C&c,const XKey&x,const vp::XC&cmp){ TREE; void*r=c.upper_bound(x,cmp).get_node(); XSPEC; P(XGT(r,x),"upper_bound: the result is greater than the key"); P(!XGT(vp_pred(r),x),"upper_bound: the element before the result is not greater than the key"); }
D(xequal_range)(C&c,const XKey&x,const vp::XC&cmp){ TREE; auto q=c.equal_range(x,cmp); void*r=q.first.get_node(); void*t=q.second.get_node(); XSPEC; P(!XLT(r,x),"equal_range: the first bound is not less than the key"); P(XLT(vp_pred(r),x),"equal_range: the element before the first bound is less than the key"); P(XGT(t,x),"equal_range: the second bound is greater than the key"); P(!XGT(vp_pred(t),x),"equal_range: the element before the second bound is not greater than the key"); }
D(xfind)(C&c,const XKey&x,const vp::XC&cmp){ TREE; auto q=c.find(x,cmp); void*r=q.get_node(); XSPEC; if(q==c.end())vp_absent(x,"find: end is returned only if no equivalent element exists"); else { P(!XLT(r,x)&&!XGT(r,x),"find: the result is equivalent to the key"); } }
D(contains)(C&c,const Key<0>&x){ TREE; bool b=c.contains(x); SPEC; if(!b)vp_absent(x,"contains: false only if no equivalent element exists"); else { void*r=vp_witness(x); P(!LT(r,x)&&!GT(r,x),"contains: true only if an equivalent element exists"); } }
D(xcontains)(C&c,const XKey&x,const vp::XC&cmp){ TREE; bool b=c.contains(x,cmp); XSPEC; if(!b)vp_absent(x,"contains: false only if no equivalent element exists"); else { void*r=vp_witness(x); P(!XLT(r,x)&&!XGT(r,x),"contains: true only if an equivalent element exists"); } }
// count: the number of elements between the two bounds
D(count)(C&c,const Key<0>&x){ TREE; unsigned long n=c.count(x); P(n==vp_pos(vp_ub((const long&)x))-vp_pos(vp_lb((const long&)x)),"count: equals the length of the equal range"); }
D(xcount)(C&c,const XKey&x,const vp::XC&cmp){ TREE; unsigned long n=c.count(x,cmp); P(n==vp_pos(vp_ub((const long&)x))-vp_pos(vp_lb((const long&)x)),"count: equals the length of the equal range"); }
// range queries
#define LOW(n) lo(key(V_(n)))
#define UPP(n) up(key(V_(n)))
#define RANGE(name,LOA,UPA,F1,F2,S1,S2) D(name)(C&c,const Lo&lo,const Up&up){ TREE; auto q=c.range(LOA,UPA); void*r=q.first.get_node(); void*t=q.second.get_node(); auto key=c.key_extractor(); F1;F2;S1;S2; }
#define RF1 P(LOW(r)||r==t,"range: the first element satisfies the lower bound, or the range is empty")
#define RF2 P(!LOW(vp_pred(r))||(r==t&&!UPP(r)),"range: the element before the range fails the lower bound")
#define RS1 P(!UPP(t),"range: the element after the range fails the upper bound")
#define RS2 P(r==t||UPP(vp_pred(t)),"range: the last element of the range satisfies the upper bound")
RANGE(range_nn,lo,up,RF1,RF2,RS1,RS2)
RANGE(range_un,unbounded,up,P(r==c.begin().get_node(),"range: unbounded below starts at begin"),(void)0,RS1,P(UPP(vp_pred(t)),"range: the last element of the range satisfies the upper bound"))
RANGE(range_nu,lo,unbounded,P(LOW(r),"range: the first element satisfies the lower bound"),P(!LOW(vp_pred(r)),"range: the element before the range fails the lower bound"),P(t==c.end().get_node(),"range: unbounded above ends at end"),(void)0)
RANGE(range_uu,unbounded,unbounded,P(r==c.begin().get_node(),"range: unbounded below starts at begin"),(void)0,P(t==c.end().get_node(),"range: unbounded above ends at end"),(void)0)
#if RANKED
// rank operations
D(nth)(C&c,unsigned long n){ TREE; void*r=c.nth(n).get_node(); if(n<vp_count())P(r!=c.end().get_node()&&vp_pos(r)==n,"nth: the result is preceded by exactly n elements"); else P(r==c.end().get_node(),"nth: past-the-end for out-of-range ranks"); }
D(rank)(C&c){ TREE; void*n=vp_any(); unsigned long r=c.rank(c.make_iterator((N*)n)); P(r==vp_pos(n),"rank: the number of elements preceding the position"); }
#define LB vp_lb((const long&)x)
#define UB vp_ub((const long&)x)
D(find_rank)(C&c,const Key<0>&x){ TREE; unsigned long r=c.find_rank(x); SPEC; if(r==vp_count())vp_absent(x,"find_rank: size() is returned only if no equivalent element exists"); else { void*w=vp_witness(x); P(!LT(w,x)&&!GT(w,x)&&r==vp_pos(w),"find_rank: the rank of an equivalent element"); } }
D(lower_bound_rank)(C&c,const Key<0>&x){ TREE; unsigned long r=c.lower_bound_rank(x); P(r==vp_pos(LB),"lower_bound_rank: the number of elements less than the key"); }
D(upper_bound_rank)(C&c,const Key<0>&x){ TREE; unsigned long r=c.upper_bound_rank(x); P(r==vp_pos(UB),"upper_bound_rank: the number of elements not greater than the key"); }
D(equal_range_rank)(C&c,const Key<0>&x){ TREE; auto r=c.equal_range_rank(x); P(r.first==vp_pos(LB),"equal_range_rank: first is the number of elements less than the key"); P(r.second==vp_pos(UB),"equal_range_rank: second is the number of elements not greater than the key"); }
// the same with a compatible key and comparison object
D(xfind_rank)(C&c,const XKey&x,const vp::XC&cmp){ TREE; unsigned long r=c.find_rank(x,cmp); XSPEC; if(r==vp_count())vp_absent(x,"find_rank: size() is returned only if no equivalent element exists"); else { void*w=vp_witness(x); P(!XLT(w,x)&&!XGT(w,x)&&r==vp_pos(w),"find_rank: the rank of an equivalent element"); } }
D(xlower_bound_rank)(C&c,const XKey&x,const vp::XC&cmp){ TREE; unsigned long r=c.lower_bound_rank(x,cmp); P(r==vp_pos(LB),"lower_bound_rank: the number of elements less than the key"); }
D(xupper_bound_rank)(C&c,const XKey&x,const vp::XC&cmp){ TREE; unsigned long r=c.upper_bound_rank(x,cmp); P(r==vp_pos(UB),"upper_bound_rank: the number of elements not greater than the key"); }
D(xequal_range_rank)(C&c,const XKey&x,const vp::XC&cmp){ TREE; auto r=c.equal_range_rank(x,cmp); P(r.first==vp_pos(LB),"equal_range_rank: first is the number of elements less than the key"); P(r.second==vp_pos(UB),"equal_range_rank: second is the number of elements not greater than the key"); }
#define RRANK(name,LOA,UPA,S1,S2) D(name)(C&c,const Lo&lo,const Up&up){ TREE; auto q=c.range_rank(LOA,UPA); void*a=vp_bnd("Lo"); void*b=vp_bnd("Up"); auto key=c.key_extractor(); (void)key; (void)a;(void)b; S1;S2; }
#define RK1 P(a&&q.first==vp_pos(a),"range_rank: first is the number of elements before the lower bound")
RRANK(range_rank_nn,lo,up,RK1,if(b)P(q.second==vp_pos(b),"range_rank: second is the number of elements up to the upper bound"); else P(a&&q.second==q.first&&!UPP(a),"range_rank: empty only if the element after the lower bound exceeds the upper bound"))
RRANK(range_rank_un,unbounded,up,P(q.first==0,"range_rank: unbounded below starts at rank 0"),P(b&&q.second==vp_pos(b),"range_rank: second is the number of elements up to the upper bound"))
RRANK(range_rank_nu,lo,unbounded,RK1,P(q.second==vp_count(),"range_rank: unbounded above ends at size()"))
RRANK(range_rank_uu,unbounded,unbounded,P(q.first==0,"range_rank: unbounded below starts at rank 0"),P(q.second==vp_count(),"range_rank: unbounded above ends at size()"))
#endif
// insertion and repositioning: the position chosen, uniqueness, in-place decisions
#define UNIQ (PK==0||PK==2)
#if UNIQ
#define BEFORE(n,k) cmp(key(V_(n)),k)
#define AFTER(n,k) cmp(k,key(V_(n)))
#define AFTERH(n,k) AFTER(n,k)
#else
#define BEFORE(n,k) !cmp(k,key(V_(n)))
#define AFTER(n,k) cmp(k,key(V_(n)))
#define AFTERH(n,k) !cmp(key(V_(n)),k)
#endif
#define LINKED(k,AFT) P(vp_hasghost("linked"),"the element is linked in the index"); if(vp_hasghost("linked")){ P(BEFORE(vp_ghost("prev"),k),"the element is placed after one that does not follow it"); P(AFT(vp_ghost("next"),k),"the element is placed before one that does not precede it"); }
#define REFUSED(k) P(UNIQ,"an element is refused only by unique indices"); { void*w=vp_witness(k); P(!LT(w,k)&&!GT(w,k),"an element is refused only if an equivalent one exists"); }
#define NOTLINKED P(!vp_hasghost("linked"),"a refused element is not linked")
D(insert)(C&c,const V&v){ TREE; auto p=c.insert(v); SPEC; const auto&k=key(v); if(p.second){ LINKED(k,AFTER); P(p.first.get_node()==vp_ghost("linked"),"the inserted element is returned"); } else { NOTLINKED; void*w=p.first.get_node(); P(!LT(w,k)&&!GT(w,k),"the element returned upon refusal is equivalent"); P(UNIQ,"an element is refused only by unique indices"); } }
D(insert_hint)(C&c,const V&v){ TREE; void*h=vp_any(); I r=c.insert(c.make_iterator((N*)h),v); SPEC; const auto&k=key(v); if(vp_hasghost("linked")){ LINKED(k,AFTERH); P(r.get_node()==vp_ghost("linked"),"the inserted element is returned"); } else { void*w=r.get_node(); P(!LT(w,k)&&!GT(w,k),"the element returned upon refusal is equivalent"); P(UNIQ,"an element is refused only by unique indices"); } }
#if !UNIQ
// a hint that is a correct position is honoured: insertion as close as possible to it
D(insert_hint_exact)(C&c,const V&v){ TREE; void*h=vp_any(); SPEC; const auto&k=key(v); if(cmp(key(V_(h)),k)||cmp(k,key(V_(vp_pred(h)))))return; void*a=vp_pred(h); c.insert(c.make_iterator((N*)h),v); P(vp_ghost("prev")==a&&vp_ghost("next")==h,"a hint that is a correct position is used"); }
D(insert_hint_close)(C&c,const V&v){ TREE; void*h=vp_any(); SPEC; const auto&k=key(v); void*a=vp_pred(h); bool gt=cmp(k,key(V_(a))), before=!gt&&cmp(key(V_(h)),k), after=gt&&!cmp(key(V_(h)),k); c.insert(c.make_iterator((N*)h),v);
  if(before)P(LT(vp_ghost("prev"),k)&&!LT(vp_ghost("next"),k),"with a hint preceding the element, insertion happens before all equivalent elements"); else if(after)P(!GT(vp_ghost("prev"),k)&&GT(vp_ghost("next"),k),"with a hint following the element, insertion happens after all equivalent elements"); }
#endif
#define INPLACE(n,k) P(BEFORE(vp_pred(n),k),"an element is left in place only if it does not precede the one before"); P(AFTERH(vp_succ(n),k),"an element is left in place only if it does not follow the one after")
D(replace)(C&c,const V&v){ TREE; void*n=vp_anyelem(); bool b=c.replace(c.make_iterator((N*)n),v); SPEC; const auto&k=key(v); if(b){ if(vp_hasghost("unlinked")){ P(vp_ghost("linked")==n,"the element is linked back"); LINKED(k,AFTER); } else { NOTLINKED; INPLACE(n,k); } } else { REFUSED(k); if(vp_hasghost("unlinked"))P(vp_ghost("linked")==n&&vp_ghost("unlinked")==n&&vp_ghost("next")==vp_ghost("unext"),"a refused replacement puts the element back where it was"); } }
D(modify)(C&c,const V&v){ TREE; void*n=vp_anyelem(); bool b=c.modify(c.make_iterator((N*)n),[&](V&e){e=v;}); SPEC; const auto&k=key(v); if(b){ if(vp_hasghost("unlinked")){ P(vp_ghost("linked")==n,"the element is linked back"); LINKED(k,AFTER); } else { NOTLINKED; INPLACE(n,k); } } else { REFUSED(k); NOTLINKED; P(vp_hasghost("unlinked")&&vp_ghost("unlinked")==n,"an element that cannot be repositioned is removed"); } }
D(modify_rb)(C&c,const V&v,const V&old){ TREE; void*n=vp_anyelem(); bool b=c.modify(c.make_iterator((N*)n),[&](V&e){e=v;},[&](V&e){e=old;}); SPEC; const auto&k=key(v); if(b){ if(vp_hasghost("unlinked")){ P(vp_ghost("linked")==n,"the element is linked back"); LINKED(k,AFTER); } else { NOTLINKED; INPLACE(n,k); } } }
D(insert_rv)(C&c,V&v){ TREE; auto p=c.insert(std::move(v)); SPEC; if(p.second){ const auto&k=key(V_(vp_ghost("linked"))); LINKED(k,AFTER); P(p.first.get_node()==vp_ghost("linked"),"the inserted element is returned"); } else { NOTLINKED; P(UNIQ,"an element is refused only by unique indices"); } }
D(insert_nh)(C&c,NH&h){ TREE; auto p=c.insert(std::move(h)); SPEC; if(p.inserted){ const auto&k=key(V_(vp_ghost("linked"))); LINKED(k,AFTER); P(p.position.get_node()==vp_ghost("linked"),"the inserted element is returned"); } else { NOTLINKED; } }
D(insert_hint_nh)(C&c,NH&h){ TREE; void*q=vp_any(); I r=c.insert(c.make_iterator((N*)q),std::move(h)); SPEC; if(vp_hasghost("linked")){ const auto&k=key(V_(vp_ghost("linked"))); LINKED(k,AFTERH); P(r.get_node()==vp_ghost("linked"),"the inserted element is returned"); } }
D(emplace)(C&c,const Arg&a){ TREE; auto p=c.emplace(a,a); SPEC; if(p.second){ const auto&k=key(V_(vp_ghost("linked"))); LINKED(k,AFTER); P(p.first.get_node()==vp_ghost("linked"),"the inserted element is returned"); } else { NOTLINKED; P(UNIQ,"an element is refused only by unique indices"); } }
D(emplace_hint)(C&c,const Arg&a){ TREE; void*q=vp_any(); I r=c.emplace_hint(c.make_iterator((N*)q),a,a); SPEC; if(vp_hasghost("linked")){ const auto&k=key(V_(vp_ghost("linked"))); LINKED(k,AFTERH); P(r.get_node()==vp_ghost("linked"),"the inserted element is returned"); } else P(UNIQ,"an element is refused only by unique indices"); }
D(replace_rv)(C&c,V&v){ TREE; void*n=vp_anyelem(); bool b=c.replace(c.make_iterator((N*)n),std::move(v)); SPEC; const auto&k=key(V_(n)); if(b){ if(vp_hasghost("unlinked")){ P(vp_ghost("linked")==n,"the element is linked back"); LINKED(k,AFTER); } else { NOTLINKED; INPLACE(n,k); } } else { if(vp_hasghost("unlinked"))P(vp_ghost("linked")==n&&vp_ghost("unlinked")==n&&vp_ghost("next")==vp_ghost("unext"),"a refused replacement puts the element back where it was"); } }
