// Drivers: what every field of the containers holds after swap, move, copy (compile with -DTRIVF).
#include "cont.hpp"
#include <new>
D(fswap__C__swap)(C& c,C& c2){c.swap(c2);}
D(fswap__C__stdswap)(C& c,C& c2){using std::swap;swap(c,c2);}
D(fmovec__C__move)(C& c,C& c2){new(&c) C(std::move(c2));}
D(fmovea__C__assign)(C& c,C& c2){c=std::move(c2);}
D(fcopyc__C__copy)(C& c,const C& c2){new(&c) C(c2);}
D(fcopyc__C__copyal)(C& c,const C& c2,const C::allocator_type& a){new(&c) C(c2,a);}
D(fcopya__C__assign)(C& c,const C& c2){c=c2;}
