// whole-list operations of sequenced rings
#include <boost/multi_index_container.hpp>
#include <boost/multi_index/sequenced_index.hpp>
namespace D=boost::multi_index::detail;
typedef D::sequenced_index_node_impl<std::allocator<char>> N;
typedef N::pointer PT;
extern "C"{
PT probe_prior(const N*p){return p->prior();}
PT probe_next(const N*p){return p->next();}
void drv_seq_reverse(PT h){N::reverse(h);}
}
