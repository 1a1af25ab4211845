// Serialization: what is written and what is read, as sequences of archive operations.
//  default: container, saver, loader, nodes; -DCHAIN: one index of every kind; -DITER: iterators; -DITER -DSAFEIT: safe iterators
#define TRIVF
#define PK 6
#define REST 0
#include "cont.hpp"
#include <boost/serialization/nvp.hpp>
#include <boost/serialization/version.hpp>
#include <boost/serialization/access.hpp>
#include <boost/serialization/split_member.hpp>
static_assert(sizeof(Key<0>)>0,"");
namespace bs=boost::serialization;
namespace det=boost::multi_index::detail;
extern "C"{
void vp_put_count(const char*,std::size_t); void vp_put_version(const char*,unsigned); void vp_put_item(const char*,const void*);
void vp_put_obj(const char*,const void*); void vp_put_ptr(const char*,const void*); void vp_put_cd(const void*,unsigned);
std::size_t vp_get_count(const char*); unsigned vp_get_version(const char*); void vp_get_item(const char*,void*);
void vp_get_obj(const char*,void*); void* vp_get_ptr(const char*); void vp_get_cd(void*,unsigned);
void vp_reset(const void*,const void*); void vp_rearr(void*,void*); void* vp_next(void*);
}
namespace vp{
struct SAr{
  struct is_saving{static constexpr bool value=true;}; struct is_loading{static constexpr bool value=false;};
  void put(const char*n,const std::size_t&x){vp_put_count(n,x);}
  void put(const char*n,const V&x){vp_put_item(n,&x);}
  template<class T> void put(const char*n,const det::serialization_version<T>&){vp_put_version(n,bs::version<det::serialization_version<T>>::value);}
  template<class T> void put(const char*n,T*const&x){vp_put_ptr(n,x);}
  template<class T> void put(const char*n,const T&x){vp_put_obj(n,&x);}
  template<class T> SAr& operator<<(const bs::nvp<T>&x){put(x.name(),x.const_value());return *this;}
  template<class T> SAr& operator<<(const T&x){put(0,x);return *this;}
};
struct LAr{
  struct is_saving{static constexpr bool value=false;}; struct is_loading{static constexpr bool value=true;};
  void get(const char*n,std::size_t&x){x=vp_get_count(n);}
  void get(const char*n,V&x){vp_get_item(n,&x);}
  template<class T> void get(const char*n,det::serialization_version<T>&x){bs::access::serialize(*this,x,vp_get_version(n));}
  template<class T> void get(const char*n,T*&x){x=static_cast<T*>(vp_get_ptr(n));}
  template<class T> void get(const char*n,T&x){vp_get_obj(n,&x);}
  template<class T> LAr& operator>>(const bs::nvp<T>&x){get(x.name(),x.value());return *this;}
  template<class T> LAr& operator>>(T&x){get(0,x);return *this;}
  void reset_object_address(const void*a,const void*b){vp_reset(a,b);}
};
template<class A> void save_construct_data(A&,const V*p,unsigned v){vp_put_cd(p,v);}
template<class A> void load_construct_data(A&,V*p,unsigned v){vp_get_cd(p,v);}
}
namespace boost{namespace serialization{template<> struct version<vp::V>{static constexpr int value=7;};}}
typedef C::index_node_type N;
extern "C"{ int probe_ser(){return 1;} }
#if !defined(CHAIN)&&!defined(ITER)
extern "C"{
unsigned long probe_cnt(const C&c){return c.size();}
void* probe_hdr(const C&c){return c.header();}
const void* probe_val(N*n){return &n->value();}
}
D(save)(const C&c,SAr&ar){c.save(ar,bs::version<C>::value);}
D(load_current)(C&c,LAr&ar){c.load(ar,bs::version<C>::value);}
D(load_version)(C&c,LAr&ar,unsigned v){c.load(ar,v);}
struct SIt{N*n; N* get_node()const{return n;} SIt& operator++(){n=(N*)vp_next(n);return *this;} SIt operator++(int){SIt r=*this;n=(N*)vp_next(n);return r;}
  friend bool operator==(SIt a,SIt b){return a.n==b.n;} friend bool operator!=(SIt a,SIt b){return a.n!=b.n;}};
typedef C::index_saver_type SV; typedef C::index_loader_type LD;
D(saver)(SV&s,N*f,N*l,SAr&ar){SIt a={f},b={l};s.save(a,b,ar,4);}
struct Rearr{template<class A,class B> void operator()(A*a,B*b){vp_rearr(a,b);}};
D(loader)(const Al<V,0>&al,std::size_t s,LAr&ar){LD l(al,s);l.load(Rearr(),ar,4);}
D(loader_twice)(const Al<V,0>&al,std::size_t s,LAr&ar){LD l(al,s);l.load(Rearr(),ar,4);l.load(Rearr(),ar,4);}
D(constructed)(LAr&ar,unsigned v){det::archive_constructed<V> x(ar,v);}
D(constructed_named)(LAr&ar,unsigned v){det::archive_constructed<V> x("item",ar,v);}
typedef det::index_node_base<V,Al<V,0>> NB; typedef det::bucket_array<Al<V,0>> BA;
D(forged_node)(LAr&ar,NB*p,unsigned v){load_construct_data(ar,p,v);}
D(forged_table)(LAr&ar,BA*p,unsigned v){load_construct_data(ar,p,v);}
#endif
#ifdef CHAIN
template<class... I> struct Chain{
  typedef multi_index_container<V,indexed_by<I...>,Al<V,0>> T;
  static void save(const T&c,SAr&ar,const typename T::index_saver_type&s){c.T::super::save_(ar,4,s);}
  static void load(T&c,LAr&ar,const typename T::index_loader_type&l){c.T::super::load_(ar,4,l);}
};
typedef Chain<sequenced<>,ON<0>,HU<1>,random_access<>,OU<2>,HN<3>,RN<4>,RU<5>> C1;
typedef Chain<RN<0>,random_access<>,HN<1>,RU<2>,sequenced<>,HU<3>,ON<4>,OU<5>> C2;
extern "C" unsigned long probe_cnt_chain1(const C1::T&c){return c.size();} extern "C" unsigned long probe_cnt_chain2(const C2::T&c){return c.size();}
D(chain1_save)(const C1::T&c,SAr&ar,const C1::T::index_saver_type&s){C1::save(c,ar,s);}
D(chain1_load)(C1::T&c,LAr&ar,const C1::T::index_loader_type&l){C1::load(c,ar,l);}
D(chain2_save)(const C2::T&c,SAr&ar,const C2::T::index_saver_type&s){C2::save(c,ar,s);}
D(chain2_load)(C2::T&c,LAr&ar,const C2::T::index_loader_type&l){C2::load(c,ar,l);}
#endif
#ifdef ITER
typedef multi_index_container<V,indexed_by<random_access<>>,Al<V,0>> CR;
typedef multi_index_container<V,indexed_by<ON<0>>,Al<V,0>> CO;
typedef multi_index_container<V,indexed_by<HU<0>>,Al<V,0>> CU;
typedef multi_index_container<V,indexed_by<HN<0>>,Al<V,0>> CN;
#define IT(n,T) \
  extern "C" void* probe_node_##n(const T&i){typedef decltype(i.get_node()) P;return const_cast<void*>((const void*)i.get_node());} \
  extern "C" void* probe_base_##n(std::remove_reference_t<decltype(*std::declval<T>().get_node())>*p){typename std::remove_reference_t<decltype(*p)>::base_type*b=p;return b;} \
  D(it_save_##n)(const T&i,SAr&ar){i.save(ar,bs::version<T>::value);} \
  D(it_load_##n)(T&i,LAr&ar){i.load(ar,bs::version<T>::value);} \
  D(it_load0_##n)(T&i,LAr&ar){i.load(ar,0);}
IT(seq,C::iterator) IT(rnd,CR::iterator) IT(ord,CO::iterator) IT(hu,CU::iterator) IT(hn,CN::iterator) IT(hul,CU::local_iterator) IT(hnl,CN::local_iterator)
#ifdef SAFEIT
extern "C" bool drv_version_seq(){return bs::version<C::iterator>::value==bs::version<std::remove_reference_t<decltype(std::declval<C::iterator&>().base_reference())>>::value;}
extern "C" bool drv_version_hu(){return bs::version<CU::iterator>::value==bs::version<std::remove_reference_t<decltype(std::declval<CU::iterator&>().base_reference())>>::value;}
#endif
#endif
