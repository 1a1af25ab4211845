// Container instantiations analysed. -DCONT=<name> selects one.
// PK: kind of the first index (0 ordered unique,1 ordered non-unique,2 ranked unique,3 ranked non-unique,
//     4 hashed unique,5 hashed non-unique,6 sequenced,7 random access)
#ifndef CONT_HPP
#define CONT_HPP
#ifdef SAFEIT // safe mode, assertions aside: only the bookkeeping of iterators
#define BOOST_MULTI_INDEX_ENABLE_SAFE_MODE
#define BOOST_MULTI_INDEX_SAFE_MODE_ASSERT(expr,code) ((void)0)
#endif
#include "vp.hpp"
using namespace vp; using namespace mi;
#ifndef PK
#define PK 0
#endif
#ifndef ALTR
#define ALTR 0
#endif
#ifndef REST
#define REST 1
#endif
template<int N> using OU=ordered_unique<KE<N>,Cmp<N>>;
template<int N> using ON=ordered_non_unique<KE<N>,Cmp<N>>;
template<int N> using RU=ranked_unique<KE<N>,Cmp<N>>;
template<int N> using RN=ranked_non_unique<KE<N>,Cmp<N>>;
template<int N> using HU=hashed_unique<KE<N>,Hash<N>,Eq<N>>;
template<int N> using HN=hashed_non_unique<KE<N>,Hash<N>,Eq<N>>;
#if PK==0
typedef OU<0> P0; 
#elif PK==1
typedef ON<0> P0;
#elif PK==2
typedef RU<0> P0;
#elif PK==3
typedef RN<0> P0;
#elif PK==4
typedef HU<0> P0;
#elif PK==5
typedef HN<0> P0;
#elif PK==6
typedef sequenced<> P0;
#elif PK==7
typedef random_access<> P0;
#endif
#define KEYED (PK<6)
#define HASHED (PK==4||PK==5)
#define ORDERED (PK<4)
#define RANKED (PK==2||PK==3)
#define SEQ (PK==6)
#define RND (PK==7)
#if REST==0
typedef indexed_by<P0> IL;
#define NLAYERS 1
#elif REST==1
typedef indexed_by<P0,HN<1>,sequenced<>,OU<2>> IL;
#define NLAYERS 4
#elif REST==2
typedef indexed_by<P0,random_access<>,HU<1>,RN<2>> IL;
#define NLAYERS 4
#elif REST==3
typedef indexed_by<P0,RU<1>,HU<2>,random_access<>,sequenced<>,ON<3>,HN<4>> IL;
#define NLAYERS 7
#endif
typedef multi_index_container<V,IL,Al<V,ALTR>> C;
typedef C::iterator I;
typedef C::node_type NH;
#define D(name) extern "C" void drv_##name
extern "C" std::size_t probe_size__C(const C&c){return c.size();}
extern "C" void* probe_header__C(const C&c){return c.header();}
extern "C" long probe_alloc__C(const C&c){return c.get_allocator().id;}
extern "C" int probe_altr__C(){return ALTR;}
extern C vp_type__C;
extern "C" const void* probe_type__C(){return &vp_type__C;}
extern "C" int probe_layers__C(){return NLAYERS;}
#ifdef SAFEIT
extern "C" const void* probe_safecont(const I&i){return i.owner();}
extern "C" const void* probe_safenode(const I&i){return i.get_node();}
#endif
#endif
