// Safe mode: programs that violate exactly one documented precondition of one operation. Every path must report
// the documented code before the first effect. Programs with all preconditions satisfied must report nothing
// before the first effect.
#define TRIVF
#define REST 0
#define BOOST_MULTI_INDEX_ENABLE_SAFE_MODE
extern "C"{ [[noreturn]] void vp_fail(int); void vp_guard(int)noexcept; void vp_clean()noexcept; void vp_assume(bool)noexcept; }
#define BOOST_MULTI_INDEX_SAFE_MODE_ASSERT(expr,code) ((expr)?(void)0:vp_fail(boost::multi_index::code))
#define BOOST_MULTI_INDEX_DISABLE_COMPRESSED_ORDERED_INDEX_NODES
#include "cont.hpp"
typedef C::nth_index<0>::type X;
enum{INVALID,NODEREF,NOINC,NODEC,NOTOWNER,NOTSAME,BADRANGE,INSIDE,OOB,SAMECONT,UNEQALLOC};
extern "C" void* probe_itnode(const I&i){return (void*)i.get_node();}
extern "C" const void* probe_itcont(const I&i){return i.owner();}
extern "C" const void* probe_view(const std::remove_pointer<decltype(((const I*)0)->owner())>::type&c){return c.container();}
extern "C" bool probe_itunch(const I&i){return i.unchecked();}
extern "C" void* probe_hdr(const C&c){return c.header();}
namespace sm=boost::multi_index::safe_mode;
#define OWN(c) (c.end().owner())
#define A vp_assume
// a container and its safe-mode view
#define WF(c) { I e_=c.end(); A(e_.owner()->container()==(const void*)static_cast<const X*>(&c)); I v_=e_.owner()->end(); A(v_.get_node()==e_.get_node()); I b_=c.begin(),w_=e_.owner()->begin(); A(w_.get_node()==b_.get_node()); }
#define INV(i) A(!i.unchecked()); A(!i.valid())
#define VAL(i,c) A(!i.unchecked()); A(i.valid()); A(i.owner()==OWN(c))
#define POS(i,c) VAL(i,c)
#define ELEM(i,c) VAL(i,c); { I e_=c.end(); A(i.get_node()!=e_.get_node()); }
#define ENDIT(i,c) VAL(i,c); { I e_=c.end(); A(i.get_node()==e_.get_node()); }
#define FOREIGN(i,c) A(!i.unchecked()); A(i.valid()); A(i.owner()->container()!=(const void*)static_cast<const X*>(&c)); { I e_=i.owner()->end(); A(i.get_node()!=e_.get_node()); I f_=c.end(); A(e_.get_node()!=f_.get_node()); }
#define UNCHECKED(i) A(i.unchecked()); A(!i.valid())
#define PARAMS C&c,C&d,I&i,I&j,I&k,const V&x,V&xm,It&f,It&l,NH&nh,Mod&m,Back&b,KMod<0>&km,KBack<0>&kb,long n,Less&less,const Arg&a1,const Arg&a2
#define PRE(name) D(name)(PARAMS){ (void)c;(void)d;(void)i;(void)j;(void)k;(void)x;(void)xm;(void)f;(void)l;(void)nh;(void)m;(void)b;(void)km;(void)kb;(void)n;(void)less;(void)a1;(void)a2; WF(c) WF(d) { I e_=c.end(),f_=d.end(); A(e_.get_node()!=f_.get_node()); }
#define BAD(name,setup,code,op) PRE(name##__##code) setup; vp_guard(code); op; }
#define GOOD(name,setup,op) PRE(name##__ok) setup; vp_clean(); op; }
// operation with an element position i of container w
#define ELEMOP(name,w,pre,op) \
  BAD(name##_##inv,pre;INV(i),INVALID,op) BAD(name##_end,pre;ENDIT(i,w),NODEREF,op) BAD(name##_for,pre;FOREIGN(i,w),NOTOWNER,op) GOOD(name,pre;ELEM(i,w),op)
#define POSOP(name,w,pre,op) \
  BAD(name##_##inv,pre;INV(i),INVALID,op) BAD(name##_for,pre;FOREIGN(i,w),NOTOWNER,op) GOOD(name,pre;POS(i,w),op) GOOD(name##_un,pre;UNCHECKED(i),op)
#define NH_OK(c) if(!nh)return; A(nh.get_allocator()==c.get_allocator())
#define NH_BAD(c) A(!nh.empty()); A(nh.get_allocator()!=c.get_allocator())
#define EQAL A(c.get_allocator()==d.get_allocator())
#define NEAL A(c.get_allocator()!=d.get_allocator())
#define VR(p,q) A(sm::check_valid_range(p,q)); { I e_=p.owner()->end(); if(p.get_node()==e_.get_node())A(q.get_node()==e_.get_node()); A(sm::check_outside_range(e_,p,q)); } // nothing follows the end; the end is never inside a range
#define NVR(p,q) A(!sm::check_valid_range(p,q))
// range j,k of container w
#define RANGEBAD(name,w,pre,op) \
  BAD(name##_f_inv,pre;INV(j);POS(k,w),INVALID,op) BAD(name##_l_inv,pre;POS(j,w);INV(k),INVALID,op) BAD(name##_f_for,pre;FOREIGN(j,w);POS(k,w),NOTOWNER,op) \
  BAD(name##_l_for,pre;POS(j,w);FOREIGN(k,w),NOTOWNER,op) BAD(name##_rng,pre;POS(j,w);POS(k,w);NVR(j,k),BADRANGE,op)
#define RANGEOP(name,w,pre,op) RANGEBAD(name,w,pre,op) GOOD(name,pre;POS(j,w);POS(k,w);VR(j,k),op)
#define NONE (void)0
ELEMOP(erase,c,NONE,c.erase(i))
#if RND // (a range up to the end is erased element by element)
RANGEOP(erase_range,c,{I e_=c.end();A(k.get_node()!=e_.get_node());},c.erase(j,k))
#else
RANGEOP(erase_range,c,NONE,c.erase(j,k))
#endif
ELEMOP(extract,c,NONE,c.extract(i))
ELEMOP(replace,c,NONE,c.replace(i,x))
ELEMOP(replace_rv,c,NONE,c.replace(i,std::move(xm)))
ELEMOP(modify,c,NONE,c.modify(i,m))
ELEMOP(modify_rb,c,NONE,c.modify(i,m,b))
#if KEYED
typedef C::nth_index<0>::type::key_from_value KFV;
POSOP(insert_hint,c,NONE,c.insert(i,x))
POSOP(insert_hint_rv,c,NONE,c.insert(i,std::move(xm)))
POSOP(emplace_hint,c,NONE,c.emplace_hint(i,a1,a2))
POSOP(insert_hint_nh,c,NH_OK(c),c.insert(i,std::move(nh)))
BAD(insert_hint_nh_al,POS(i,c);NH_BAD(c),UNEQALLOC,c.insert(i,std::move(nh)))
BAD(insert_nh_al,NH_BAD(c),UNEQALLOC,c.insert(std::move(nh)))
GOOD(insert_nh,NH_OK(c),c.insert(std::move(nh)))
ELEMOP(merge_i,d,EQAL,c.merge(d,i))
ELEMOP(merge_i_self,c,NONE,c.merge(c,i))
BAD(merge_i_al,ELEM(i,d);NEAL,UNEQALLOC,c.merge(d,i))
RANGEOP(merge_r,d,EQAL,c.merge(d,j,k))
RANGEOP(merge_rrv,d,EQAL,c.merge(std::move(d),j,k))
RANGEOP(merge_r_self,c,NONE,c.merge(c,j,k))
BAD(merge_r_al,POS(j,d);POS(k,d);VR(j,k);NEAL,UNEQALLOC,c.merge(d,j,k))
ELEMOP(merge_irv,d,EQAL,c.merge(std::move(d),i))
#endif
#if KEYED
ELEMOP(modify_key,c,NONE,c.modify_key(i,[&](const Key<0>&q){km(const_cast<Key<0>&>(q));}))
ELEMOP(modify_key_rb,c,NONE,c.modify_key(i,[&](const Key<0>&q){km(const_cast<Key<0>&>(q));},[&](const Key<0>&q){kb(const_cast<Key<0>&>(q));}))
#endif
#if RANKED
POSOP(rank,c,NONE,c.rank(i))
#endif
#if SEQ || RND
POSOP(insert,c,NONE,c.insert(i,x))
POSOP(insert_rv,c,NONE,c.insert(i,std::move(xm)))
POSOP(insert_n,c,A(n>0),c.insert(i,(std::size_t)n,x))
POSOP(insert_r,c,NONE,c.insert(i,f,l))
POSOP(emplace,c,NONE,c.emplace(i,a1,a2))
POSOP(insert_nh,c,NH_OK(c),c.insert(i,std::move(nh)))
BAD(insert_nh_al,POS(i,c);NH_BAD(c),UNEQALLOC,c.insert(i,std::move(nh)))
BAD(push_back_nh_al,NH_BAD(c),UNEQALLOC,c.X::insert(c.end(),std::move(nh)))
// splice of everything
BAD(splice_inv,INV(i);EQAL,INVALID,c.splice(i,d)) BAD(splice_for,FOREIGN(i,c);EQAL,NOTOWNER,c.splice(i,d)) BAD(splice_self,ELEM(i,c),INSIDE,c.splice(i,c)) GOOD(splice_self,ENDIT(i,c),c.splice(i,c))
// splice of one element: position j, element i
ELEMOP(splice_i,d,EQAL;POS(j,c),c.splice(j,d,i)) ELEMOP(splice_i_self,c,POS(j,c),c.splice(j,c,i))
BAD(splice_i_p_inv,INV(j);ELEM(i,d);EQAL,INVALID,c.splice(j,d,i)) BAD(splice_i_p_for,FOREIGN(j,c);ELEM(i,d);EQAL,NOTOWNER,c.splice(j,d,i))
BAD(splice_i_p_inv_self,INV(j);ELEM(i,c),INVALID,c.splice(j,c,i)) BAD(splice_i_p_for_self,FOREIGN(j,c);ELEM(i,c),NOTOWNER,c.splice(j,c,i))
// splice of a range j,k at i
#if SEQ // (random access indices move the elements to their position afterwards, which checks again)
GOOD(splice,ENDIT(i,c);EQAL,c.splice(i,d))
RANGEOP(splice_r,d,EQAL;ENDIT(i,c),c.splice(i,d,j,k))
#else
RANGEBAD(splice_r,d,EQAL;POS(i,c),c.splice(i,d,j,k))
#endif
BAD(splice_r_p_inv,INV(i);POS(j,d);POS(k,d);VR(j,k),INVALID,c.splice(i,d,j,k)) BAD(splice_r_p_for,FOREIGN(i,c);POS(j,d);POS(k,d);VR(j,k),NOTOWNER,c.splice(i,d,j,k))
#define OUT A(sm::check_outside_range(i,j,k))
#define IN A(!sm::check_outside_range(i,j,k))
BAD(splice_r_self_in,POS(i,c);POS(j,c);POS(k,c);VR(j,k);IN,INSIDE,c.splice(i,c,j,k)) GOOD(splice_r_self,POS(i,c);POS(j,c);POS(k,c);VR(j,k);OUT,c.splice(i,c,j,k))
ELEMOP(relocate,c,POS(j,c),c.relocate(j,i))
BAD(relocate_p_inv,INV(j);ELEM(i,c),INVALID,c.relocate(j,i)) BAD(relocate_p_for,FOREIGN(j,c);ELEM(i,c),NOTOWNER,c.relocate(j,i))
RANGEOP(relocate_r,c,POS(i,c);OUT,c.relocate(i,j,k))
BAD(relocate_r_p_inv,INV(i);POS(j,c);POS(k,c);VR(j,k),INVALID,c.relocate(i,j,k)) BAD(relocate_r_p_for,FOREIGN(i,c);POS(j,c);POS(k,c);VR(j,k),NOTOWNER,c.relocate(i,j,k))
BAD(relocate_r_in,POS(i,c);POS(j,c);POS(k,c);VR(j,k);IN,INSIDE,c.relocate(i,j,k))
#endif
#if RND
BAD(index_oob,A((unsigned long)n>=c.size()),OOB,c[n]) GOOD(index,A((unsigned long)n<c.size()),c[n])
#endif
// projection
POSOP(project,c,NONE,(c.project<0>(i))) POSOP(cproject,c,NONE,(((const C&)c).project<0>(i))) POSOP(gproject,c,NONE,(mi::project<0>(c,i))) POSOP(gcproject,c,NONE,(mi::project<0>((const C&)c,i)))
// iterators
#define ITEROP(name,w,op) BAD(name##_inv,INV(i),INVALID,op)
ITEROP(it_deref,c,(void)*i) BAD(it_deref_end,ENDIT(i,c),NODEREF,(void)*i) GOOD(it_deref,ELEM(i,c),(void)*i)
ITEROP(it_arrow,c,(void)i->payload[0]) BAD(it_arrow_end,ENDIT(i,c),NODEREF,(void)i->payload[0])
ITEROP(it_inc,c,++i) BAD(it_inc_end,ENDIT(i,c),NOINC,++i) GOOD(it_inc,ELEM(i,c),++i)
ITEROP(it_pinc,c,i++) BAD(it_pinc_end,ENDIT(i,c),NOINC,i++)
#if !HASHED
#define BEGINIT(i,c) VAL(i,c); { I e_=c.begin(); A(i.get_node()==e_.get_node()); }
#define NOBEGIN(i,c) VAL(i,c); { I e_=c.begin(); A(i.get_node()!=e_.get_node()); }
ITEROP(it_dec,c,--i) BAD(it_dec_begin,BEGINIT(i,c),NODEC,--i) GOOD(it_dec,NOBEGIN(i,c),--i)
ITEROP(it_pdec,c,i--) BAD(it_pdec_begin,BEGINIT(i,c),NODEC,i--)
#endif
BAD(it_eq_l,INV(i);POS(j,c),INVALID,(void)(i==j)) BAD(it_eq_r,INV(j);POS(i,c),INVALID,(void)(i==j)) BAD(it_eq_for,POS(i,c);FOREIGN(j,c),NOTSAME,(void)(i==j)) GOOD(it_eq,POS(i,c);POS(j,c),(void)(i==j))
BAD(it_ne_l,INV(i);POS(j,c),INVALID,(void)(i!=j)) BAD(it_ne_r,INV(j);POS(i,c),INVALID,(void)(i!=j)) BAD(it_ne_for,POS(i,c);FOREIGN(j,c),NOTSAME,(void)(i!=j))
BAD(it_assign,INV(i),INVALID,(j=i)) GOOD(it_assign,POS(i,c),(j=i)) GOOD(it_assign_un,UNCHECKED(i),(j=i))
GOOD(it_copy,INV(i),I q(i);(void)q)
// the state of an iterator after copying, assignment, detaching and unchecking
BAD(it_reassign_un,UNCHECKED(j);ENDIT(i,c);I q(j);q=i,NODEREF,(void)*q) BAD(it_reassign_inv,INV(j);ENDIT(i,c);I q(j);q=i,NODEREF,(void)*q) GOOD(it_reassign_inv,INV(j);ELEM(i,c);I q(j);q=i,(void)*q)
BAD(it_reassign_for,FOREIGN(j,c);ENDIT(i,c);I q(j);q=i,NODEREF,(void)*q) GOOD(it_reassign_for,FOREIGN(j,c);ELEM(i,c);I q(j);q=i,c.erase(q)) BAD(it_reassign_to,ELEM(j,c);FOREIGN(i,c);I q(j);q=i,NOTOWNER,c.erase(q))
BAD(it_copy_end,ENDIT(i,c);I q(i),NODEREF,(void)*q) BAD(it_copy_inv,INV(i);I q(i),INVALID,(void)*q) GOOD(it_copy_ok,ELEM(i,c);I q(i),(void)*q) GOOD(it_copy_un,UNCHECKED(i);I q(i),(void)*q)
BAD(it_default,I q,INVALID,(void)*q) BAD(it_detach,ELEM(i,c);I q(i);q.detach(),INVALID,(void)*q) GOOD(it_uncheck,ELEM(i,c);I q(i);q.uncheck(),(void)*q) GOOD(it_reassign_un2,UNCHECKED(i);I q;q=i,(void)*q)
#if RND
#define DIST(t) { I e_=t; (void)e_; }
ITEROP(it_adv,c,(i+=n)) ITEROP(it_sub,c,(i-=n)) ITEROP(it_plus,c,(void)(i+n))
BAD(it_dist_l,INV(i);POS(j,c),INVALID,(void)(j-i)) BAD(it_dist_r,INV(j);POS(i,c),INVALID,(void)(j-i)) BAD(it_dist_for,POS(i,c);FOREIGN(j,c),NOTSAME,(void)(j-i)) GOOD(it_dist,POS(i,c);POS(j,c),(void)(j-i))
BAD(it_adv_hi,POS(i,c);A(n>0);A(c.end()-i<n),OOB,(i+=n)) BAD(it_adv_lo,POS(i,c);A(n<=0);A(c.begin()-i>n),OOB,(i+=n))
GOOD(it_adv_hi,POS(i,c);A(n>0);A(c.end()-i>=n),(i+=n)) GOOD(it_adv_lo,POS(i,c);A(n<=0);A(c.begin()-i<=n),(i+=n))
BAD(it_lt_l,INV(i);POS(j,c),INVALID,(void)(i<j)) BAD(it_lt_for,POS(i,c);FOREIGN(j,c),NOTSAME,(void)(i<j))
BAD(it_idx_hi,POS(i,c);A(n>0);A(c.end()-i<n),OOB,(void)i[n])
#endif
