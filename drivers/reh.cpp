// Rehashing of hashed indices: every element leaves the old table and enters the new one under its own hash; a hash function
// that throws finds every element put back in its place.
#define TRIVF
#define REST 0
#include "cont.hpp"
static_assert(sizeof(Key<0>)>0,"");
typedef C::index_node_type N;
typedef N::impl_type NI;
extern "C"{
#if PK==4
int probe_hash_unique(){return 1;}
#endif
int probe_rehash(){return 1;}
void* probe_io(N*n){return n->impl();}
void* probe_hdr(const C&c){return c.header();}
unsigned long probe_cnt(const C&c){return c.size();}
unsigned long probe_maxload(const C&c){return c.max_load;}
void* probe_tab(C&c){return &c.buckets;}
NI::pointer probe_prior(const NI*p){return p->prior();}
NI::base_pointer probe_next(const NI*p){return p->next();}
}
D(rehash)(C&c,unsigned long n){ c.unchecked_rehash(n); }
D(reserve_for_insert)(C&c,unsigned long n){ c.reserve_for_insert(n); }
