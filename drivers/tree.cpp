// red-black tree operations of ordered and ranked indices
#ifdef UNCOMP
#define BOOST_MULTI_INDEX_DISABLE_COMPRESSED_ORDERED_INDEX_NODES
#endif
#include <boost/multi_index_container.hpp>
#include <boost/multi_index/ordered_index.hpp>
#include <boost/multi_index/ranked_index.hpp>
namespace D=boost::multi_index::detail;
#ifdef RANK
typedef D::rank_policy AP;
#else
typedef D::null_augment_policy AP;
#endif
typedef D::ordered_index_node_impl<AP,std::allocator<char>> N;
typedef N::pointer PT;
extern "C"{
const void* probe_left(const N*p){return p->left();}
const void* probe_right(const N*p){return p->right();}
const void* probe_parent(const N*p){return p->parent();}
int probe_color(const N*p){return p->color();}
#ifdef RANK
std::size_t probe_size(const N*p){return p->size;}
#endif
void drv_link_left(PT x,PT pos,PT h){N::link(x,D::to_left,pos,h);}
void drv_link_right(PT x,PT pos,PT h){N::link(x,D::to_right,pos,h);}
PT drv_extract(PT z,PT h){return N::rebalance_for_extract(z,h->parent(),h->left(),h->right());}
void drv_restore(PT x,PT pos,PT h){N::restore(x,pos,h);}
PT drv_increment(PT x){N::increment(x);return x;}
PT drv_decrement(PT x){N::decrement(x);return x;}
#ifdef RANK
PT drv_nth(std::size_t n,PT h){return D::ranked_index_nth(n,h);}
std::size_t drv_rank(PT x,PT h){return D::ranked_index_rank(x,h);}
#endif
}
