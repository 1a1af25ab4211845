// Product functions for the predefined key extractors: each returns whether the extractor designates exactly the
// specified object (or yields the specified value) for one form of argument. The element's copies are opaque functions,
// so a function that reduces to the constant true neither copies nor modifies anything.
#include <boost/multi_index/member.hpp>
#include <boost/multi_index/mem_fun.hpp>
#include <boost/multi_index/global_fun.hpp>
#include <boost/multi_index/identity.hpp>
#include <boost/multi_index/composite_key.hpp>
#include <boost/multi_index/key.hpp>
#include <boost/ref.hpp>
#include <memory>
#include <functional>
using namespace boost::multi_index;
struct Pad{ long q[3]; };
struct V{
  V(const V&); V(V&&); V& operator=(const V&); V& operator=(V&&); ~V()noexcept;
  int a; long b; const int c; volatile short d;
  int f[12]; long g[6]; bool operator==(const V&)const noexcept;
  int cget()const noexcept{return f[0];} const long& cref()const noexcept{return g[0];} long& mref()noexcept{return g[1];} int mget()noexcept{return f[1];}
  int cvget()const volatile noexcept{return const_cast<const V*>(this)->f[2];} int vget()volatile noexcept{return const_cast<const V*>(this)->f[3];}
  int crget()const& noexcept{return f[4];} int rget()& noexcept{return f[5];} int cvrget()const volatile& noexcept{return const_cast<const V*>(this)->f[6];} int vrget()volatile& noexcept{return const_cast<const V*>(this)->f[7];}
};
struct Dv: Pad, V { long z; };
struct W{ int x; W* next; };           // small copyable type for by-value global functions
inline const long& gcref(const V&v)noexcept{return v.g[2];} inline int gcval(const V&v)noexcept{return v.f[8];} inline long& gmref(V&v)noexcept{return v.g[3];} inline int gmval(V&v)noexcept{return v.f[9];}
inline int gval(W w)noexcept{return w.x;}
struct Sp{ V**p; V* operator*()const noexcept{return *p;} };        // smart pointer to pointer
struct Up{ V*p; V& operator*()const noexcept{return *p;} };         // smart pointer
struct Cp{ const V*p; const V& operator*()const noexcept{return *p;} };
#define CHK(name) extern "C" bool chk_##name
// forms of argument that reach a mutable V
#define MUT(NM,E,ACC) \
CHK(NM##_ref)(V&x){ return E(x)==ACC(x); } \
CHK(NM##_ptr)(V*const&x){ return E(x)==ACC(*x); } \
CHK(NM##_ptr2)(V**const&x){ return E(x)==ACC(**x); } \
CHK(NM##_ptr3)(V*const*const*const&x){ return E(x)==ACC(***x); } \
CHK(NM##_rw)(const boost::reference_wrapper<V>&x){ return E(x)==ACC(x.get()); } \
CHK(NM##_prw)(boost::reference_wrapper<V>*const&x){ return E(x)==ACC(x->get()); } \
CHK(NM##_up)(const Up&x){ return E(x)==ACC(*x); } \
CHK(NM##_pup)(const Up*const&x){ return E(x)==ACC(**x); } \
CHK(NM##_sp)(const Sp&x){ return E(x)==ACC(**x); } \
CHK(NM##_uq)(const std::unique_ptr<V>&x){ return E(x)==ACC(*x); } \
CHK(NM##_puq)(const std::unique_ptr<V>*const&x){ return E(x)==ACC(**x); } \
CHK(NM##_der)(Dv&x){ return E(x)==ACC(static_cast<V&>(x)); } \
CHK(NM##_pder)(Dv*const&x){ return E(x)==ACC(static_cast<V&>(*x)); } \
CHK(NM##_ppder)(Dv**const&x){ return E(x)==ACC(static_cast<V&>(**x)); }
// forms that reach a const V
#define CON(NM,E,ACC) \
CHK(NM##_cref)(const V&x){ return E(x)==ACC(x); } \
CHK(NM##_cder)(const Dv&x){ return E(x)==ACC(static_cast<const V&>(x)); }
#define CONP(NM,E,ACC) \
CHK(NM##_cptr)(const V*const&x){ return E(x)==ACC(*x); } \
CHK(NM##_cptr2)(const V*const*const&x){ return E(x)==ACC(**x); } \
CHK(NM##_ccp)(const Cp&x){ return E(x)==ACC(*x); } \
CHK(NM##_cuq)(const std::unique_ptr<const V>&x){ return E(x)==ACC(*x); } \
CHK(NM##_cpder)(const Dv*const&x){ return E(x)==ACC(static_cast<const V&>(*x)); }
#define CRW(NM,E,ACC) CHK(NM##_crw)(const boost::reference_wrapper<const V>&x){ return E(x)==ACC(x.get()); }
#define AD(e) std::addressof(e)
#define A_a(v) AD((v).a)
#define A_b(v) AD((v).b)
#define A_c(v) AD((v).c)
#define E_ma(x) AD((member<V,int,&V::a>()(x)))
#define E_mb(x) AD((member<V,long,&V::b>()(x)))
#define E_mc(x) AD((member<V,const int,&V::c>()(x)))
MUT(member_a,E_ma,A_a) CON(member_a,E_ma,A_a) CRW(member_a,E_ma,A_a)
MUT(member_b,E_mb,A_b) CON(member_b,E_mb,A_b) CRW(member_b,E_mb,A_b)
MUT(member_c,E_mc,A_c) CON(member_c,E_mc,A_c) CONP(member_c,E_mc,A_c) CRW(member_c,E_mc,A_c)
// member_offset (a standard-layout element)
struct S{ int a; long b; };
typedef member_offset<S,long,offsetof(S,b)> MO; typedef member_offset<S,const long,offsetof(S,b)> MOC;
CHK(offset_ref)(S&x){ return &MO()(x)==&x.b; } CHK(offset_cref)(const S&x){ return &MO()(x)==&x.b; } CHK(offset_ptr)(S*const&x){ return &MO()(x)==&x->b; } CHK(offset_ptr2)(S**const&x){ return &MO()(x)==&(*x)->b; }
CHK(offset_rw)(const boost::reference_wrapper<S>&x){ return &MO()(x)==&x.get().b; } CHK(offset_crw)(const boost::reference_wrapper<const S>&x){ return &MO()(x)==&x.get().b; }
CHK(coffset_ref)(S&x){ return &MOC()(x)==&x.b; } CHK(coffset_cref)(const S&x){ return &MOC()(x)==&x.b; } CHK(coffset_ptr)(const S*const&x){ return &MOC()(x)==&x->b; } CHK(coffset_ptr2)(const S*const*const&x){ return &MOC()(x)==&(*x)->b; }
CHK(coffset_rw)(const boost::reference_wrapper<S>&x){ return &MOC()(x)==&x.get().b; } CHK(coffset_crw)(const boost::reference_wrapper<const S>&x){ return &MOC()(x)==&x.get().b; }
// identity
#define A_i(v) AD(v)
#define E_i(x) AD((identity<V>()(x)))
#define E_ic(x) AD((identity<const V>()(x)))
MUT(identity,E_i,A_i) CON(identity,E_i,A_i) CRW(identity,E_i,A_i)
MUT(cidentity,E_ic,A_i) CON(cidentity,E_ic,A_i) CONP(cidentity,E_ic,A_i) CRW(cidentity,E_ic,A_i)
// member functions
#define MF(NM,T,M,MEMB) 
#define A_cget(v) (v).cget()
#define A_cref(v) AD((v).cref())
#define A_mref(v) AD((v).mref())
#define A_mget(v) (v).mget()
#define A_cvget(v) (v).cvget()
#define A_vget(v) (v).vget()
#define A_crget(v) (v).crget()
#define A_rget(v) (v).rget()
#define A_cvrget(v) (v).cvrget()
#define A_vrget(v) (v).vrget()
#define E_cget(x) (const_mem_fun<V,int,&V::cget>()(x))
#define E_cref(x) AD((const_mem_fun<V,const long&,&V::cref>()(x)))
#define E_mref(x) AD((mem_fun<V,long&,&V::mref>()(x)))
#define E_mget(x) (mem_fun<V,int,&V::mget>()(x))
#define E_cvget(x) (cv_mem_fun<V,int,&V::cvget>()(x))
#define E_vget(x) (volatile_mem_fun<V,int,&V::vget>()(x))
#define E_crget(x) (cref_mem_fun<V,int,&V::crget>()(x))
#define E_rget(x) (ref_mem_fun<V,int,&V::rget>()(x))
#define E_cvrget(x) (cvref_mem_fun<V,int,&V::cvrget>()(x))
#define E_vrget(x) (vref_mem_fun<V,int,&V::vrget>()(x))
#define ALLC(NM,E,A) MUT(NM,E,A) CON(NM,E,A) CONP(NM,E,A) CRW(NM,E,A)
ALLC(const_mem_fun,E_cget,A_cget) ALLC(const_mem_fun_ref,E_cref,A_cref) MUT(mem_fun_ref,E_mref,A_mref) MUT(mem_fun,E_mget,A_mget)
ALLC(cv_mem_fun,E_cvget,A_cvget) MUT(volatile_mem_fun,E_vget,A_vget) ALLC(cref_mem_fun,E_crget,A_crget) MUT(ref_mem_fun,E_rget,A_rget) ALLC(cvref_mem_fun,E_cvrget,A_cvrget) MUT(vref_mem_fun,E_vrget,A_vrget)
#define E_xc(x) (const_mem_fun_explicit<V,int,int(V::*)()const noexcept,&V::cget>()(x))
#define E_xm(x) (mem_fun_explicit<V,int,int(V::*)()noexcept,&V::mget>()(x))
ALLC(const_mem_fun_explicit,E_xc,A_cget) MUT(mem_fun_explicit,E_xm,A_mget)
// global functions
#define A_gcref(v) AD(gcref(v))
#define A_gcval(v) gcval(v)
#define A_gmref(v) AD(gmref(v))
#define A_gmval(v) gmval(v)
#define E_gcref(x) AD((global_fun<const V&,const long&,&gcref>()(x)))
#define E_gcval(x) (global_fun<const V&,int,&gcval>()(x))
#define E_gmref(x) AD((global_fun<V&,long&,&gmref>()(x)))
#define E_gmval(x) (global_fun<V&,int,&gmval>()(x))
ALLC(gcref,E_gcref,A_gcref) ALLC(gcval,E_gcval,A_gcval) MUT(gmref,E_gmref,A_gmref) MUT(gmval,E_gmval,A_gmval)
typedef global_fun<W,int,&gval> GW;
CHK(gval_ref)(W&x){ return GW()(x)==gval(x); } CHK(gval_cref)(const W&x){ return GW()(x)==gval(x); } CHK(gval_ptr)(W*const&x){ return GW()(x)==gval(*x); } CHK(gval_cptr)(const W*const&x){ return GW()(x)==gval(*x); } CHK(gval_ptr2)(W**const&x){ return GW()(x)==gval(**x); }
CHK(gval_rw)(const boost::reference_wrapper<W>&x){ return GW()(x)==gval(x.get()); } CHK(gval_crw)(const boost::reference_wrapper<const W>&x){ return GW()(x)==gval(x.get()); }
// key<>
#define E_ka(x) AD((key<&V::a>()(x)))
#define E_kb(x) AD((key<&V::b>()(x)))
#define E_kc(x) AD((key<&V::c>()(x)))
#define E_kcget(x) (key<&V::cget>()(x))
#define E_kcref(x) AD((key<&V::cref>()(x)))
#define E_kmref(x) AD((key<&V::mref>()(x)))
#define E_kcvget(x) (key<&V::cvget>()(x))
#define E_kvget(x) (key<&V::vget>()(x))
#define E_kcrget(x) (key<&V::crget>()(x))
#define E_krget(x) (key<&V::rget>()(x))
#define E_kgcref(x) AD((key<&gcref>()(x)))
#define E_kgcval(x) (key<&gcval>()(x))
#define E_kgmref(x) AD((key<&gmref>()(x)))
MUT(key_a,E_ka,A_a) CON(key_a,E_ka,A_a) MUT(key_b,E_kb,A_b) CON(key_b,E_kb,A_b) ALLC(key_c,E_kc,A_c) ALLC(key_cget,E_kcget,A_cget) ALLC(key_cref,E_kcref,A_cref) MUT(key_mref,E_kmref,A_mref)
ALLC(key_cvget,E_kcvget,A_cvget) MUT(key_vget,E_kvget,A_vget) ALLC(key_crget,E_kcrget,A_crget) MUT(key_rget,E_krget,A_rget) ALLC(key_gcref,E_kgcref,A_gcref) ALLC(key_gcval,E_kgcval,A_gcval) MUT(key_gmref,E_kgmref,A_gmref)
// composite_key designates the element at the end of the chain, and carries its own component extractors
struct K0{ typedef int result_type; const int& operator()(const V&v)const{return v.a;} long s; }; struct K1{ typedef long result_type; const long& operator()(const V&v)const{return v.b;} long s; }; 
typedef composite_key<V,K0,K1> CK;
#define CKF(NM,T,EL) CHK(composite_##NM)(const CK&k,T x){ CK::result_type r=k(x); return AD(r.value)==AD(EL) && boost::get<0>(r.composite_key.key_extractors()).s==boost::get<0>(k.key_extractors()).s && boost::get<1>(r.composite_key.key_extractors()).s==boost::get<1>(k.key_extractors()).s; }
CKF(ref,V&,x) CKF(cref,const V&,x) CKF(ptr,V*const&,*x) CKF(cptr,const V*const&,*x) CKF(ptr2,V**const&,**x) CKF(cptr2,const V*const*const&,**x) CKF(rw,const boost::reference_wrapper<V>&,x.get()) CKF(crw,const boost::reference_wrapper<const V>&,x.get())
CKF(up,const Up&,*x) CKF(sp,const Sp&,**x) CKF(uq,const std::unique_ptr<V>&,*x) CKF(der,Dv&,static_cast<V&>(x)) CKF(pder,Dv*const&,static_cast<V&>(*x))
CHK(composite_extractors)(const K0&a,const K1&b){ CK k(a,b); return boost::get<0>(k.key_extractors()).s==a.s && boost::get<1>(k.key_extractors()).s==b.s; }
// key<a,b> is the composite of its components, in order
typedef key<&V::a,&V::b> KAB; typedef key<&V::cget,&gcref,&V::c> KCG;
CHK(key2)(const V&x){ KAB k; auto r=k(x); return AD(r.value)==AD(x) && AD((boost::get<0>(k.key_extractors())(x)))==AD(x.a) && AD((boost::get<1>(k.key_extractors())(x)))==AD(x.b); }
CHK(key3)(const V&x){ KCG k; auto r=k(x); return AD(r.value)==AD(x) && boost::get<0>(k.key_extractors())(x)==x.cget() && AD((boost::get<1>(k.key_extractors())(x)))==AD(gcref(x)) && AD((boost::get<2>(k.key_extractors())(x)))==AD(x.c); }
