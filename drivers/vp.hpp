// User-side types for the analysis drivers: every operation a user can supply is an *undefined* function,
// so the analysis treats it as opaque: it may return anything and (unless noexcept) may throw at any call.
#ifndef VP_HPP
#define VP_HPP
#include <cstddef>
#include <utility>
#include <initializer_list>
#include <memory>
#include <boost/multi_index_container.hpp>
#include <boost/multi_index/ordered_index.hpp>
#include <boost/multi_index/ranked_index.hpp>
#include <boost/multi_index/hashed_index.hpp>
#include <boost/multi_index/sequenced_index.hpp>
#include <boost/multi_index/random_access_index.hpp>

#ifdef NTF // functors whose copy, assignment and construction cannot throw
#define FNOEXC noexcept
#else
#define FNOEXC
#endif
namespace vp{
struct Arg{};
struct Src{long payload;};
struct V{
  V(const V&);
  V(V&&);
  V();
  V(const Arg&,const Arg&);
  explicit V(const Src&);
  V& operator=(const V&);
  V& operator=(V&&);
  ~V()noexcept;
  long payload[2];
};
template<int N> struct Key{
  Key(const Key&); Key& operator=(const Key&); ~Key()noexcept;
  long payload;
};
#ifdef KENX // key extraction does not throw
#define KENOEXC noexcept
#else
#define KENOEXC
#endif
#ifdef TRIVF // functors with state and compiler-generated copies: their values can be followed field by field
template<int N> struct KE{ typedef Key<N> result_type; const Key<N>& operator()(const V&)const; long state; };
template<int N> struct Cmp{ bool operator()(const Key<N>&,const Key<N>&)const; long state; };
template<int N> struct Hash{ std::size_t operator()(const Key<N>&)const; long state; };
template<int N> struct Eq{ bool operator()(const Key<N>&,const Key<N>&)const; long state; };
#else
template<int N> struct KE{ // key extractor
  typedef Key<N> result_type;
  const Key<N>& operator()(const V&)const KENOEXC;
};
#endif
template<int N> struct KEm{ // mutable key extractor (for modify_key)
  typedef Key<N> result_type;
  Key<N>& operator()(V&)const;
  const Key<N>& operator()(const V&)const;
};
#ifndef TRIVF
template<int N> struct Cmp{
  Cmp()FNOEXC;
  Cmp(const Cmp&)FNOEXC;
  Cmp& operator=(const Cmp&)FNOEXC;
  bool operator()(const Key<N>&,const Key<N>&)const;
  long state;
};
template<int N> struct Hash{
  Hash()FNOEXC; Hash(const Hash&)FNOEXC; Hash& operator=(const Hash&)FNOEXC;
  std::size_t operator()(const Key<N>&)const;
  long state;
};
template<int N> struct Eq{
  Eq()FNOEXC; Eq(const Eq&)FNOEXC; Eq& operator=(const Eq&)FNOEXC;
  bool operator()(const Key<N>&,const Key<N>&)const;
  long state;
};
#endif
bool operator==(const V&,const V&); bool operator<(const V&,const V&);
// compatible comparison objects for heterogeneous lookup
struct XKey{long payload;};
struct XCmp{
  bool operator()(const XKey&,const Key<0>&)const;
  bool operator()(const Key<0>&,const XKey&)const;
};
struct Mod{ void operator()(V&); };
struct Back{ void operator()(V&); };
struct Less{ bool operator()(const V&,const V&)const; };
template<int N> struct KMod{ void operator()(Key<N>&); };
template<int N> struct KBack{ void operator()(Key<N>&); };
struct Pred1{ bool operator()(const V&)const; };
struct Pred2{ bool operator()(const V&,const V&)const; };
struct LoBound{ template<class K> bool operator()(const K&)const; };
struct It{ // input iterator over elements
  typedef std::forward_iterator_tag iterator_category;
  typedef V value_type; typedef std::ptrdiff_t difference_type;
  typedef const V* pointer; typedef const V& reference;
  const V* p;
  const V& operator*()const; It& operator++(); It operator++(int);
  bool operator==(const It&)const; bool operator!=(const It&)const;
};
struct RwIt{ // input iterator over references to elements (rearrange)
  typedef std::forward_iterator_tag iterator_category;
  typedef const V value_type; typedef std::ptrdiff_t difference_type;
  typedef const V* pointer; typedef const V& reference;
  const V* p;
  const V& operator*()const; RwIt& operator++(); RwIt operator++(int);
  bool operator==(const RwIt&)const; bool operator!=(const RwIt&)const;
};
#ifdef ALDT // lifetimes of allocator objects are reported
extern "C" void vp_al_ctor(const void*)noexcept; extern "C" void vp_al_dtor(const void*)noexcept;
#define VP_AL_CTOR vp_al_ctor(this);
#else
#define VP_AL_CTOR
#endif
// POCCA, POCMA, POCS, always_equal
template<class T,int Traits=0> struct Al{
  typedef T value_type;
  typedef std::integral_constant<bool,(Traits&1)!=0> propagate_on_container_copy_assignment;
  typedef std::integral_constant<bool,(Traits&2)!=0> propagate_on_container_move_assignment;
  typedef std::integral_constant<bool,(Traits&4)!=0> propagate_on_container_swap;
  typedef std::integral_constant<bool,(Traits&8)!=0> is_always_equal;
  template<class U> struct rebind{typedef Al<U,Traits> other;};
#ifdef ALDT
  Al()noexcept:id(0){VP_AL_CTOR} ~Al(){vp_al_dtor(this);}
#endif
  Al(long i)noexcept:id(i){VP_AL_CTOR}
  Al(const Al& x)noexcept:id(x.id){VP_AL_CTOR}
  Al& operator=(const Al& x)noexcept{id=x.id;return *this;}
  template<class U> Al(const Al<U,Traits>& x)noexcept:id(x.id){VP_AL_CTOR}
  T* allocate(std::size_t);
  void deallocate(T*,std::size_t)noexcept;
  Al select_on_container_copy_construction()const;
  friend bool operator==(const Al& a,const Al& b)noexcept{return a.id==b.id;}
  friend bool operator!=(const Al& a,const Al& b)noexcept{return a.id!=b.id;}
  long id;
};
} // namespace vp
// reporting functions understood by the analyser (never defined)
extern "C"{
void vp_result(int ok,const void* elem=0,const void* nh1=0,const void* nh2=0)noexcept; // reported outcome, element denoted, node handles' contents
void vp_elem(const void*)noexcept;        // this address denotes an element of the container
void vp_hal(const void*,const void*)noexcept;   // addresses of the node pointer and the allocator of a node handle
void vp_halv(const void*,const void*,long)noexcept; // the same, with the allocator it must hold
void vp_handle(const void*)noexcept;      // this address denotes an element owned by a node handle
void vp_other(const void*)noexcept;       // this address denotes an element of another container
void vp_handed_over(const void*)noexcept; // the element is now owned by the caller (node handle)
void vp_flag(int)noexcept;
}
namespace mi=boost::multi_index;
#endif
