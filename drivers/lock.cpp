// Drivers: bookkeeping of safe iterators under concurrent const access (lock discipline). The iterators named i, j belong to
// the calling thread; containers are passed as pointers so that any of them may be the same object.
#define BOOST_MULTI_INDEX_ENABLE_SAFE_MODE
#ifdef EVALASSERT // assertions evaluated (they create and destroy iterators of their own)
#define BOOST_MULTI_INDEX_SAFE_MODE_ASSERT(expr,code) ((expr)?(void)0:vp_flag((int)code))
#else
#define BOOST_MULTI_INDEX_SAFE_MODE_ASSERT(expr,code) ((void)0)
#endif
extern "C" void vp_flag(int) noexcept;
#include "cont.hpp"
namespace sm=boost::multi_index::safe_mode; typedef sm::safe_mode_detail::safe_iterator_base SI; typedef sm::safe_mode_detail::safe_container_base SC;
extern "C" int probe_lockmode(){return 1;}
extern "C" const void* probe_mutex(const SC&c){return &c.mutex;}
extern "C" const void* probe_listhead(const SC&c){return &c.header;}
#define L(name) extern "C" void drv_lock__C__##name
L(copy)(const I*i){I k(*i);vp_flag(k.unchecked());}
L(defctor)(){I k;vp_flag(k.unchecked());}
L(ctorcont)(sm::safe_container<I>*c,I::node_type*n){I k(n,c);vp_flag(k.unchecked());}
L(assign)(I*i,const I*j){*i=*j;}
L(dtor)(I*i){i->~I();}
L(detach)(I*i){static_cast<SI*>(i)->detach();}
L(uncheck)(I*i){i->uncheck();}
L(swapit)(I*i,I*j){std::swap(*i,*j);}
L(equal)(const I*i,const I*j){vp_flag(*i==*j);}
L(inc)(I*i){++*i;}
L(postinc)(I*i){vp_flag((*i)++.unchecked());}
L(deref)(const I*i){vp_flag(&**i!=0);}
L(begin)(const C*c){vp_flag(c->begin().unchecked());}
L(end)(const C*c){I k=c->end();vp_flag(k.unchecked());}
L(loop)(const C*c){int n=0;for(I k=c->begin(),e=c->end();k!=e;++k)++n;vp_flag(n);}
L(iterto)(const C*c,const I*i){vp_flag(c->iterator_to(**i).unchecked());}
L(project)(const C*c,const I*i){vp_flag(c->project<NLAYERS-1>(*i).unchecked());}
L(copyproj)(const C*c,const I*i){auto k=c->project<NLAYERS-1>(*i);auto k2=k;k2=k;vp_flag(k2.unchecked());}
L(copyback)(const C*c,C::nth_index<NLAYERS-1>::type::iterator*i){vp_flag(c->project<0>(*i).unchecked());}
L(detacheq)(I*i){sm::detach_equivalent_iterators(*i);}
L(transfer)(C*c,I*i){sm::transfer_equivalent_iterators(*c,*i);}
L(transferother)(C*c,C::nth_index<NLAYERS-1>::type::iterator*i){sm::transfer_equivalent_iterators(*c,*i);}
#if KEYED
L(find)(const C*c,const Key<0>&k){vp_flag(c->find(k).unchecked());}
L(erange)(const C*c,const Key<0>&k){auto p=c->equal_range(k);vp_flag(p.first.unchecked());}
#endif
#if ORDERED
L(range)(const C*c){auto p=c->range(LoBound(),LoBound());vp_flag(p.first.unchecked());}
L(lower)(const C*c,const Key<0>&k){vp_flag(c->lower_bound(k).unchecked());}
#endif
#if RND||ORDERED||SEQ
L(dec)(I*i){--*i;}
L(rbegin)(const C*c){C::const_reverse_iterator k=c->rbegin();vp_flag(k.base().unchecked());}
#endif
#if RANKED
L(nth)(const C*c,std::size_t n){vp_flag(c->nth(n).unchecked());}
#endif
#if RND
L(add)(I*i,std::ptrdiff_t n){*i+=n;}
L(diff)(const I*i,const I*j){vp_flag((int)(*i-*j));}
#endif
#if HASHED
#endif
