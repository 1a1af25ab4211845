// Copying the structure of an index: every link of every copy is the copy of the link of the original.
#define BOOST_MULTI_INDEX_DISABLE_COMPRESSED_ORDERED_INDEX_NODES
#define TRIVF
#define REST 0
#include "cont.hpp"
namespace det=boost::multi_index::detail;
typedef C::index_node_type N;
typedef N::impl_type NI;
extern "C"{
int probe_copy(){return 1;}
void* probe_io(N*n){return n->impl();}
void* probe_hdr(const C&c){return c.header();}
unsigned long probe_cnt(const C&c){return c.size();}
#if ORDERED
NI::pointer probe_parent(const NI*p){return p->parent_;}
NI::pointer probe_left(const NI*p){return p->left_;}
NI::pointer probe_right(const NI*p){return p->right_;}
int probe_color(const NI*p){return p->color_;}
#if RANKED
unsigned long probe_sub(const NI*p){return p->size;}
#endif
#elif HASHED
NI::pointer probe_prior(const NI*p){return p->prior();}
NI::base_pointer probe_next(const NI*p){return p->next();}
#if PK==5
int probe_nonuniq(){return 1;}
#endif
typedef det::bucket_array<Al<V,0>> BA;
void* probe_bdata(const BA&b){return b.spc.data_;}
void* probe_tab(C&c){return &c.buckets;}
#elif SEQ
NI::pointer probe_prior(const NI*p){return p->prior();}
NI::pointer probe_next(const NI*p){return p->next();}
#else
void* probe_ptrs(C&c){return &c.ptrs;}
NI::ptr_pointer probe_up(const NI*p){return p->up();}
std::size_t probe_size(const C&c){return c.ptrs.size_;}
std::size_t probe_cap(const C&c){return c.ptrs.capacity_;}
NI::ptr_pointer probe_data(const C&c){return c.ptrs.spc.data_;}
std::size_t probe_n(const C&c){return c.ptrs.spc.n_;}
#endif
}
D(copy_structure)(C&c,const C&x,const C::copy_map_type&m){ c.C::super::copy_(x,m); }
typedef C::super SUP;
D(clear_structure)(C&c){ c.SUP::clear_(); }
D(ctor_args)(C&c,const SUP::ctor_args_list&a,const Al<V,0>&al){ new((void*)static_cast<SUP*>(&c)) SUP(a,al); }
D(ctor_nocopy)(C&c,const C&x){ new((void*)static_cast<SUP*>(&c)) SUP(x,det::do_not_copy_elements_tag()); }
D(ctor_copy)(C&c,const C&x){ new((void*)static_cast<SUP*>(&c)) SUP(x); }
#if HASHED
D(bucket_clear)(BA&b,NI::pointer end){ b.clear(end); }
D(bucket_construct)(BA&b,const Al<V,0>&al,NI::pointer end,unsigned long n){ new((void*)&b) BA(al,end,n); }
#endif
