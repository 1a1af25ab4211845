// Product programs for composite keys of ten components: a library comparison, equality or hash followed by its
// specification on the components. All component extractors, comparisons and hash functions are uninterpreted.
#include <boost/multi_index/composite_key.hpp>
#include <boost/tuple/tuple.hpp>
#include <boost/ref.hpp>
#include <boost/functional/hash.hpp>
#include <tuple>
#include <functional>
#define D(name) extern "C" void drv_##name
extern "C"{ void vp_prove(bool,const char*)noexcept; void vp_assume(bool)noexcept; }
#define P(x,m) vp_prove(x,m)
namespace vp{
struct V{long payload;};
template<int N> struct Key{long payload;};
template<int N> struct XK{long payload;};
template<int N> struct KE{ typedef Key<N> result_type; const Key<N>& operator()(const V&)const; long state; };
template<int N> struct Cm{ bool operator()(const Key<N>&,const Key<N>&)const; bool operator()(const Key<N>&,const XK<N>&)const; bool operator()(const XK<N>&,const Key<N>&)const; long state; };
template<int N> struct Eq{ bool operator()(const Key<N>&,const Key<N>&)const; bool operator()(const Key<N>&,const XK<N>&)const; bool operator()(const XK<N>&,const Key<N>&)const; long state; };
template<int N> struct Ha{ std::size_t operator()(const Key<N>&)const; long state; };
#define OPS(N) bool operator<(const Key<N>&,const Key<N>&); bool operator<(const Key<N>&,const XK<N>&); bool operator<(const XK<N>&,const Key<N>&); \
  bool operator==(const Key<N>&,const Key<N>&); bool operator==(const Key<N>&,const XK<N>&); bool operator==(const XK<N>&,const Key<N>&); \
  bool operator>(const Key<N>&,const Key<N>&); bool operator>(const Key<N>&,const XK<N>&); bool operator>(const XK<N>&,const Key<N>&); \
  std::size_t hash_value(const Key<N>&);
OPS(0) OPS(1) OPS(2) OPS(3) OPS(4) OPS(5) OPS(6) OPS(7) OPS(8) OPS(9)
}
using namespace vp; using namespace boost::multi_index;
#define TEN(T) T<0>,T<1>,T<2>,T<3>,T<4>,T<5>,T<6>,T<7>,T<8>,T<9>
#define FIVE(T) T<0>,T<1>,T<2>,T<3>,T<4>
typedef composite_key<V,TEN(KE)> CK; typedef CK::result_type R;
typedef composite_key<V,FIVE(KE)> CS; typedef CS::result_type RS;
typedef composite_key_compare<TEN(Cm)> CC; typedef composite_key_equal_to<TEN(Eq)> CE; typedef composite_key_hash<TEN(Ha)> CH;
typedef boost::tuple<TEN(XK)> BT; typedef std::tuple<TEN(XK)> ST; typedef boost::tuple<FIVE(XK)> BT5; typedef std::tuple<FIVE(XK)> ST5;
// the components of an operand
struct L10{enum{len=10};}; 
template<class C> struct El{ const C&c; const V&v; template<int I> const Key<I>& get()const{return boost::get<I>(c.key_extractors())(v);} };
template<class T> struct Tb{ const T&t; template<int I> auto get()const->decltype((boost::get<I>(t))){return boost::get<I>(t);} };
template<class T> struct Ts{ const T&t; template<int I> auto get()const->decltype((std::get<I>(t))){return std::get<I>(t);} };
// component functors: own functors or the operators of the component types
struct FC{ const CC&c; template<int I,class X,class Y> bool lt(const X&x,const Y&y)const{return boost::get<I>(c.key_comps())(x,y);} };
struct FO{ template<int I,class X,class Y> bool lt(const X&x,const Y&y)const{return x<y;} };
struct FG{ template<int I,class X,class Y> bool lt(const X&x,const Y&y)const{return x>y;} };
template<int I,int N> struct Pre{ // components before N are equivalent
  template<class F,class X,class Y> static void run(const F&f,const X&x,const Y&y){ vp_assume(!f.template lt<I>(x.template get<I>(),y.template get<I>())); vp_assume(!f.template lt<I>(y.template get<I>(),x.template get<I>())); Pre<I+1,N>::run(f,x,y); } };
template<int N> struct Pre<N,N>{ template<class F,class X,class Y> static void run(const F&,const X&,const Y&){} };
template<int N,int L> struct Lex{ template<class F,class X,class Y> static void run(const F&f,const X&x,const Y&y,bool less,bool greater,const char*m){
  if(f.template lt<N>(x.template get<N>(),y.template get<N>())){ vp_assume(!f.template lt<N>(y.template get<N>(),x.template get<N>())); P(less,m); P(!greater,m); }
  else if(f.template lt<N>(y.template get<N>(),x.template get<N>())){ P(!less,m); P(greater,m); } } };
template<int L> struct Lex<L,L>{ template<class F,class X,class Y> static void run(const F&f,const X&x,const Y&y,bool less,bool greater,const char*m){ P(!less,m); P(!greater,m); } };
#define LEX(N,L,f,x,y,less,greater,m) Lex<N,L>::run(f,x,y,less,greater,m)
#define FORN(M) M(0) M(1) M(2) M(3) M(4) M(5) M(6) M(7) M(8) M(9) M(10)
#define FORS(M) M(0) M(1) M(2) M(3) M(4) M(5)
#define MS(w) w ": lexicographic on the first differing component"
#define A2 const CK&a,const V&v,const CK&b,const V&w
#define EA El<CK> ea{a,v}; R x=a(v)
#define EB El<CK> eb{b,w}; R y=b(w)
#define DEF(N) \
D(cmp_cc_##N)(A2,const CC&c){ EA;EB; FC f{c}; Pre<0,N>::run(f,ea,eb); LEX(N,10,f,ea,eb,c(x,y),c(y,x),MS("composite_key_compare(key,key)")); } \
D(cmp_bt_##N)(const CK&a,const V&v,const BT&t,const CC&c){ EA; FC f{c}; Tb<BT> et{t}; Pre<0,N>::run(f,ea,et); LEX(N,10,f,ea,et,c(x,t),c(t,x),MS("composite_key_compare(key,tuple)")); } \
D(cmp_st_##N)(const CK&a,const V&v,const ST&t,const CC&c){ EA; FC f{c}; Ts<ST> et{t}; Pre<0,N>::run(f,ea,et); LEX(N,10,f,ea,et,c(x,t),c(t,x),MS("composite_key_compare(key,std::tuple)")); } \
D(op_cc_##N)(A2){ EA;EB; FO f; Pre<0,N>::run(f,ea,eb); LEX(N,10,f,ea,eb,x<y,y<x,MS("operator<(key,key)")); } \
D(opd_cc_##N)(A2){ EA;EB; FO f; Pre<0,N>::run(f,ea,eb); LEX(N,10,f,ea,eb,y>x,x>y,MS("operator>(key,key)")); LEX(N,10,f,ea,eb,!(x>=y),!(x<=y),MS("operator<=,>=(key,key)")); } \
D(op_bt_##N)(const CK&a,const V&v,const BT&y){ EA; FO f; Tb<BT> et{y}; Pre<0,N>::run(f,ea,et); LEX(N,10,f,ea,et,x<y,y<x,MS("operator<(key,tuple)")); } \
D(opd_bt_##N)(const CK&a,const V&v,const BT&y){ EA; FO f; Tb<BT> et{y}; Pre<0,N>::run(f,ea,et); LEX(N,10,f,ea,et,y>x,x>y,MS("operator>(key,tuple)")); LEX(N,10,f,ea,et,!(x>=y),!(y>=x),MS("operator>=(key,tuple)")); LEX(N,10,f,ea,et,!(y<=x),!(x<=y),MS("operator<=(key,tuple)")); } \
D(op_st_##N)(const CK&a,const V&v,const ST&y){ EA; FO f; Ts<ST> et{y}; Pre<0,N>::run(f,ea,et); LEX(N,10,f,ea,et,x<y,y<x,MS("operator<(key,std::tuple)")); } \
D(opd_st_##N)(const CK&a,const V&v,const ST&y){ EA; FO f; Ts<ST> et{y}; Pre<0,N>::run(f,ea,et); LEX(N,10,f,ea,et,y>x,x>y,MS("operator>(key,std::tuple)")); LEX(N,10,f,ea,et,!(x>=y),!(y>=x),MS("operator>=(key,std::tuple)")); LEX(N,10,f,ea,et,!(y<=x),!(x<=y),MS("operator<=(key,std::tuple)")); } \
D(less_##N)(A2){ EA;EB; FO f; std::less<R> c; Pre<0,N>::run(f,ea,eb); LEX(N,10,f,ea,eb,c(x,y),c(y,x),MS("std::less<composite_key_result>")); } \
D(greater_##N)(A2){ EA;EB; FG f; std::greater<R> c; Pre<0,N>::run(f,ea,eb); LEX(N,10,f,ea,eb,c(x,y),c(y,x),MS("std::greater<composite_key_result>")); }
FORN(DEF)
#define DEFS(N) \
D(cmp_short_##N)(const CK&a,const V&v,const CS&b,const V&w,const CC&c){ EA; El<CS> eb{b,w}; RS y=b(w); FC f{c}; Pre<0,N>::run(f,ea,eb); LEX(N,5,f,ea,eb,c(x,y),c(y,x),MS("composite_key_compare of different lengths")); } \
D(op_short_##N)(const CK&a,const V&v,const CS&b,const V&w){ EA; El<CS> eb{b,w}; RS y=b(w); FO f; Pre<0,N>::run(f,ea,eb); LEX(N,5,f,ea,eb,x<y,y<x,MS("operator< of different lengths")); LEX(N,5,f,ea,eb,y>x,x>y,MS("operator> of different lengths")); } \
D(cmp_bshort_##N)(const CK&a,const V&v,const BT5&t,const CC&c){ EA; FC f{c}; Tb<BT5> et{t}; Pre<0,N>::run(f,ea,et); LEX(N,5,f,ea,et,c(x,t),c(t,x),MS("composite_key_compare with a shorter tuple")); } \
D(cmp_sshort_##N)(const CK&a,const V&v,const ST5&t,const CC&c){ EA; FC f{c}; Ts<ST5> et{t}; Pre<0,N>::run(f,ea,et); LEX(N,5,f,ea,et,c(x,t),c(t,x),MS("composite_key_compare with a shorter std::tuple")); } \
D(op_bshort_##N)(const CK&a,const V&v,const BT5&t){ EA; FO f; Tb<BT5> et{t}; Pre<0,N>::run(f,ea,et); LEX(N,5,f,ea,et,x<t,t<x,MS("operator< with a shorter tuple")); LEX(N,5,f,ea,et,t>x,x>t,MS("operator> with a shorter tuple")); } \
D(op_sshort_##N)(const CK&a,const V&v,const ST5&t){ EA; FO f; Ts<ST5> et{t}; Pre<0,N>::run(f,ea,et); LEX(N,5,f,ea,et,x<t,t<x,MS("operator< with a shorter std::tuple")); LEX(N,5,f,ea,et,t>x,x>t,MS("operator> with a shorter std::tuple")); } \
D(cmp_blong_##N)(const CS&a,const V&v,const BT&t,const CC&c){ El<CS> ea{a,v}; RS x=a(v); FC f{c}; Tb<BT> et{t}; Pre<0,N>::run(f,ea,et); LEX(N,5,f,ea,et,c(x,t),c(t,x),MS("composite_key_compare with a longer tuple")); }
FORS(DEFS)
// a single key acts as a tuple of one
D(cmp_single)(const CK&a,const V&v,const XK<0>&k,const CC&c){ EA; const char*m="composite_key_compare with a single value: compares the first component"; if(boost::get<0>(c.key_comps())(ea.get<0>(),k)){ vp_assume(!boost::get<0>(c.key_comps())(k,ea.get<0>())); P(c(x,k),m); P(!c(k,x),m); } else { P(!c(x,k),m); if(boost::get<0>(c.key_comps())(k,ea.get<0>()))P(c(k,x),m); else P(!c(k,x),m); } }
// equality
struct EC{ const CE&c; template<int I,class X,class Y> bool eq(const X&x,const Y&y)const{return boost::get<I>(c.key_eqs())(x,y);} };
struct EO{ template<int I,class X,class Y> bool eq(const X&x,const Y&y)const{return x==y;} };
template<int I,int N> struct PreE{ template<class F,class X,class Y> static void run(const F&f,const X&x,const Y&y){ vp_assume(f.template eq<I>(x.template get<I>(),y.template get<I>())); PreE<I+1,N>::run(f,x,y); } };
template<int N> struct PreE<N,N>{ template<class F,class X,class Y> static void run(const F&,const X&,const Y&){} };
template<int N> struct Equ{ template<class F,class X,class Y> static void run(const F&f,const X&x,const Y&y,bool r,const char*m){ if(!f.template eq<N>(x.template get<N>(),y.template get<N>()))P(!r,m); } };
template<> struct Equ<10>{ template<class F,class X,class Y> static void run(const F&f,const X&x,const Y&y,bool r,const char*m){ P(r,m); } };
#define ME(w) w ": equal if and only if all components are equal"
#define DEQ(N) \
D(eq_cc_##N)(A2,const CE&c){ EA;EB; EC f{c}; PreE<0,N>::run(f,ea,eb); Equ<N>::run(f,ea,eb,c(x,y),ME("composite_key_equal_to(key,key)")); } \
D(eq_cb_##N)(const CK&a,const V&v,const BT&t,const CE&c){ EA; EC f{c}; Tb<BT> et{t}; PreE<0,N>::run(f,ea,et); Equ<N>::run(f,ea,et,c(x,t),ME("composite_key_equal_to(key,tuple)")); } \
D(eq_bc_##N)(const CK&a,const V&v,const BT&t,const CE&c){ EA; EC f{c}; Tb<BT> et{t}; PreE<0,N>::run(f,et,ea); Equ<N>::run(f,et,ea,c(t,x),ME("composite_key_equal_to(tuple,key)")); } \
D(eq_cs_##N)(const CK&a,const V&v,const ST&t,const CE&c){ EA; EC f{c}; Ts<ST> et{t}; PreE<0,N>::run(f,ea,et); Equ<N>::run(f,ea,et,c(x,t),ME("composite_key_equal_to(key,std::tuple)")); } \
D(eq_sc_##N)(const CK&a,const V&v,const ST&t,const CE&c){ EA; EC f{c}; Ts<ST> et{t}; PreE<0,N>::run(f,et,ea); Equ<N>::run(f,et,ea,c(t,x),ME("composite_key_equal_to(std::tuple,key)")); } \
D(oeq_cc_##N)(A2){ EA;EB; EO f; PreE<0,N>::run(f,ea,eb); Equ<N>::run(f,ea,eb,x==y,ME("operator==(key,key)")); Equ<N>::run(f,ea,eb,!(x!=y),ME("operator!=(key,key)")); } \
D(oeq_cb_##N)(const CK&a,const V&v,const BT&t){ EA; EO f; Tb<BT> et{t}; PreE<0,N>::run(f,ea,et); Equ<N>::run(f,ea,et,x==t,ME("operator==(key,tuple)")); Equ<N>::run(f,ea,et,!(x!=t),ME("operator!=(key,tuple)")); } \
D(oeq_bc_##N)(const CK&a,const V&v,const BT&t){ EA; EO f; Tb<BT> et{t}; PreE<0,N>::run(f,et,ea); Equ<N>::run(f,et,ea,t==x,ME("operator==(tuple,key)")); Equ<N>::run(f,et,ea,!(t!=x),ME("operator!=(tuple,key)")); } \
D(oeq_cs_##N)(const CK&a,const V&v,const ST&t){ EA; EO f; Ts<ST> et{t}; PreE<0,N>::run(f,ea,et); Equ<N>::run(f,ea,et,x==t,ME("operator==(key,std::tuple)")); Equ<N>::run(f,ea,et,!(x!=t),ME("operator!=(key,std::tuple)")); } \
D(oeq_sc_##N)(const CK&a,const V&v,const ST&t){ EA; EO f; Ts<ST> et{t}; PreE<0,N>::run(f,et,ea); Equ<N>::run(f,et,ea,t==x,ME("operator==(std::tuple,key)")); Equ<N>::run(f,et,ea,!(t!=x),ME("operator!=(std::tuple,key)")); } \
D(equal_to_##N)(A2){ EA;EB; EO f; std::equal_to<R> c; PreE<0,N>::run(f,ea,eb); Equ<N>::run(f,ea,eb,c(x,y),ME("std::equal_to<composite_key_result>")); }
FORN(DEQ)
// hashing
typedef boost::tuple<const Key<0>&,const Key<1>&,const Key<2>&,const Key<3>&,const Key<4>&,const Key<5>&,const Key<6>&,const Key<7>&,const Key<8>&,const Key<9>&> BK;
typedef std::tuple<const Key<0>&,const Key<1>&,const Key<2>&,const Key<3>&,const Key<4>&,const Key<5>&,const Key<6>&,const Key<7>&,const Key<8>&,const Key<9>&> SK;
#define GETS ea.get<0>(),ea.get<1>(),ea.get<2>(),ea.get<3>(),ea.get<4>(),ea.get<5>(),ea.get<6>(),ea.get<7>(),ea.get<8>(),ea.get<9>()
D(hash_b)(const CK&a,const V&v,const CH&h){ EA; P(h(x)==h(BK(GETS)),"composite_key_hash: the same for an element and for a tuple of its components"); }
D(hash_s)(const CK&a,const V&v,const CH&h){ EA; P(h(x)==h(SK(GETS)),"composite_key_hash: the same for an element and for a std::tuple of its components"); }
D(hash_db)(const CK&a,const V&v){ EA; boost::hash<R> h; P(h(x)==h(BK(GETS)),"boost::hash<composite_key_result>: the same for an element and for a tuple of its components"); }
D(hash_ds)(const CK&a,const V&v){ EA; boost::hash<R> h; P(h(x)==h(SK(GETS)),"boost::hash<composite_key_result>: the same for an element and for a std::tuple of its components"); }
