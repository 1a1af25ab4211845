// sorting of sequenced indices at the level of lists
#include "vp.hpp"
#include <boost/multi_index/sequenced_index.hpp>
namespace D=boost::multi_index::detail;
typedef std::allocator<char> A_;
typedef D::sequenced_index_node<D::index_node_base<vp::V,A_>> SN;
typedef SN::impl_type NI;
namespace vp{struct SLess{bool operator()(const V&,const V&)const;};}
extern "C"{
NI::pointer probe_prior(const NI*p){return p->prior();}
NI::pointer probe_next(const NI*p){return p->next();}
NI::pointer probe_impl(SN*p){return p->impl();}
void drv_seq_sort(SN*h){D::sequenced_index_sort(h,vp::SLess());}
void drv_seq_collate(NI*x,NI*y){D::sequenced_index_collate<SN>(x,y,vp::SLess());}
}
