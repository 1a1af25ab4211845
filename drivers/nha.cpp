// Drivers: the allocator that travels with a node handle.
#define ALDT
#include "cont.hpp"
#include <new>
#define HAL(n) vp_hal(&n.node,&n.space)
D(nha__C__dtor)(NH& n){HAL(n);vp_handle(n.node);n.~NH();n.node=0;}
D(nha__C__mctor)(NH& m){HAL(m);vp_handle(m.node);NH n(std::move(m));vp_halv(&n.node,&n.space,reinterpret_cast<C::allocator_type*>(&m.space)->id);}
D(nha__C__massign)(NH& n,NH& m){HAL(n);HAL(m);vp_handle(n.node);vp_handle(m.node);n=std::move(m);}
D(nha__C__self)(NH& n){HAL(n);vp_handle(n.node);n=std::move(n);}
D(nha__C__swap)(NH& n,NH& m){vp_flag(9);HAL(n);HAL(m);vp_handle(n.node);vp_handle(m.node);n.swap(m);}
#if KEYED
D(nha__C__insnode)(C& c,NH& n){HAL(n);vp_handle(n.node);c.insert(std::move(n));}
D(nha__C__hintnode)(C& c,I h,NH& n){HAL(n);vp_handle(n.node);c.insert(h,std::move(n));}
D(nha__C__extkey)(C& c,const Key<0>& k){long a=c.bfm_allocator::member.id;NH n=c.extract(k);vp_handed_over(n.node);vp_halv(&n.node,&n.space,a);}
#else
D(nha__C__insnode)(C& c,I h,NH& n){HAL(n);vp_handle(n.node);c.insert(h,std::move(n));}
#endif
D(nha__C__ext)(C& c,I it){long a=c.bfm_allocator::member.id;vp_elem(&*it);NH n=c.extract(it);vp_handed_over(n.node);vp_halv(&n.node,&n.space,a);}
