// Safe mode: reachability predicates over an arbitrary container.
#define TRIVF
#define REST 0
#define BOOST_MULTI_INDEX_ENABLE_SAFE_MODE
extern "C"{ [[noreturn]] void vp_fail(int); void vp_assume(bool)noexcept; void vp_tree()noexcept; void vp_prove(bool,const char*)noexcept; void* vp_any()noexcept; void* vp_anyelem()noexcept; unsigned long vp_pos(void*)noexcept; }
#define BOOST_MULTI_INDEX_SAFE_MODE_ASSERT(expr,code) ((expr)?(void)0:vp_fail(boost::multi_index::code))
#define BOOST_MULTI_INDEX_DISABLE_COMPRESSED_ORDERED_INDEX_NODES
#include "cont.hpp"
typedef C::nth_index<0>::type X; typedef C::index_node_type N; typedef N::impl_type NI;
extern "C" int probe_rng(){return 1;}
extern "C" void* probe_io(N*n){return n->impl();}
extern "C" void* probe_left(N*n){return &n->impl()->left();}
extern "C" void* probe_right(N*n){return &n->impl()->right();}
extern "C" void* probe_parent(N*n){return &n->impl()->parent();}
extern "C" void* probe_itnode(const I&i){return (void*)i.get_node();}
extern "C" const void* probe_itcont(const I&i){return i.owner();}
extern "C" bool probe_itunch(const I&i){return i.unchecked();}
extern "C" const void* probe_view(const std::remove_pointer<decltype(((const I*)0)->owner())>::type&c){return c.container();}
extern "C" void* probe_hdr(const C&c){return c.header();}
namespace sm=boost::multi_index::safe_mode;
#define A vp_assume
#define WF(c) { I e_=c.end(); A(e_.owner()->container()==(const void*)static_cast<const X*>(&c)); I v_=e_.owner()->end(); A(v_.get_node()==e_.get_node()); }
#define POS(n) vp_pos(n)
// the second position is reachable from the first exactly if it does not come earlier
D(rng_fwd)(C&c){ vp_tree(); WF(c) N*p=(N*)vp_any(); N*q=(N*)vp_any(); A(POS(p)<=POS(q)); I i=c.make_iterator(p),j=c.make_iterator(q); vp_prove(sm::check_valid_range(i,j),"check_valid_range accepts a range whose end is reachable"); }
D(rng_bwd)(C&c){ vp_tree(); WF(c) N*p=(N*)vp_any(); N*q=(N*)vp_any(); A(POS(p)>POS(q)); I i=c.make_iterator(p),j=c.make_iterator(q); vp_prove(!sm::check_valid_range(i,j),"check_valid_range rejects a range whose end is not reachable"); }
D(rng_out)(C&c){ vp_tree(); WF(c) N*p=(N*)vp_any(); N*q=(N*)vp_any(); N*r=(N*)vp_any(); A(POS(p)<=POS(q)); I i=c.make_iterator(p),j=c.make_iterator(q),k=c.make_iterator(r); if(POS(r)>=POS(p)&&POS(r)<POS(q))vp_prove(!sm::check_outside_range(k,i,j),"check_outside_range rejects a position within the range"); else vp_prove(sm::check_outside_range(k,i,j),"check_outside_range accepts a position outside the range"); }
D(rng_outrev)(C&c){ vp_tree(); WF(c) N*p=(N*)vp_any(); N*q=(N*)vp_any(); N*r=(N*)vp_any(); A(POS(p)>POS(q)); I i=c.make_iterator(p),j=c.make_iterator(q),k=c.make_iterator(r); vp_prove(!sm::check_outside_range(k,i,j),"check_outside_range rejects a reversed range"); }
