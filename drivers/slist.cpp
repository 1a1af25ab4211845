// link surgery of sequenced rings
#include <boost/multi_index_container.hpp>
#include <boost/multi_index/sequenced_index.hpp>
namespace D=boost::multi_index::detail;
typedef D::sequenced_index_node_impl<std::allocator<char>> N;
typedef N::pointer PT;
extern "C"{
PT probe_prior(const N*p){return p->prior();}
PT probe_next(const N*p){return p->next();}
void drv_seq_link(PT x,PT h){N::link(x,h);}
void drv_seq_unlink(PT x){N::unlink(x);}
void drv_seq_relink(PT p,PT x){N::relink(p,x);}
void drv_seq_relink_range(PT p,PT x,PT y){N::relink(p,x,y);}

void drv_seq_swap(PT x,PT y){N::swap(x,y);}
PT drv_seq_increment(PT x){N::increment(x);return x;}
PT drv_seq_decrement(PT x){N::decrement(x);return x;}
}
