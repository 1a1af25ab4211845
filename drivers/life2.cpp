// Drivers: whole-container operations and node handles.
#include "cont.hpp"
#include <new>
// construction (the new container is *c, raw memory owned by the caller)
D(ctor__C__alloc)(C& c,const C::allocator_type& a){new(&c) C(a);}
D(ctor__C__args)(C& c,const C::ctor_args_list& l,const C::allocator_type& a){new(&c) C(l,a);}
D(ctorn__C__range)(C& c,It first,It last,const C::ctor_args_list& l,const C::allocator_type& a){new(&c) C(first,last,l,a);}
D(ctorn__C__il)(C& c,std::initializer_list<V> il,const C::ctor_args_list& l,const C::allocator_type& a){new(&c) C(il,l,a);}
D(ctorc__C__copy)(C& c,const C& x){new(&c) C(x);}
D(ctorc__C__copyal)(C& c,const C& x,const C::allocator_type& a){new(&c) C(x,a);}
D(ctorm__C__move)(C& c,C& c2){new(&c) C(std::move(c2));}
D(ctorm__C__moveal)(C& c,C& c2,const C::allocator_type& a){new(&c) C(std::move(c2),a);}
D(asgn__C__copy)(C& c,const C& x){c=x;}
D(asgn__C__move)(C& c,C& c2){c=std::move(c2);}
D(asgn__C__il)(C& c,std::initializer_list<V> l){c=l;}
D(swap__C__swap)(C& c,C& c2){c.swap(c2);}
// node handles
D(nh__C__dtor)(NH& n){vp_handle(n.node);n.~NH();}
D(nh__C__mctor)(NH& n,NH& m){vp_handle(m.node);new(&n) NH(std::move(m));vp_result(1,n.node,m.node);}
D(nh__C__massign)(NH& n,NH& m){vp_handle(n.node);vp_handle(m.node);n=std::move(m);vp_result(1,n.node,m.node);}
D(nh__C__swap)(NH& n,NH& m){vp_handle(n.node);vp_handle(m.node);n.swap(m);vp_result(1,n.node,m.node);}
