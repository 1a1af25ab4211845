// pointer arrays of random access indices
#include <boost/multi_index_container.hpp>
#include <boost/multi_index/random_access_index.hpp>
namespace D=boost::multi_index::detail;
typedef std::allocator<char> AL;
typedef D::random_access_index_node_impl<AL> N;
typedef N::pointer PT; typedef N::ptr_pointer PP;
typedef D::random_access_index_ptr_array<AL> PA;
extern "C"{
PP probe_up(const N*p){return p->up();}
std::size_t probe_size(const PA&a){return a.size_;}
std::size_t probe_cap(const PA&a){return a.capacity_;}
PP probe_data(const PA&a){return a.spc.data_;}
std::size_t probe_n(const PA&a){return a.spc.n_;}
void drv_extract(PP x,PP e){N::extract(x,e);}
void drv_relocate(PP p,PP x){N::relocate(p,x);}
void drv_transfer(PP b,PP e,PP d){N::transfer(b,e,d);}
void drv_reverse(PP b,PP e){N::reverse(b,e);}
PP drv_gather_nulls(PP b,PP e,PP x){return N::gather_nulls(b,e,x);}
PT drv_increment(PT x){N::increment(x);return x;}
PT drv_decrement(PT x){N::decrement(x);return x;}
PT drv_advance(PT x,std::ptrdiff_t n){N::advance(x,n);return x;}
std::ptrdiff_t drv_distance(PT x,PT y){return N::distance(x,y);}
void drv_construct(PA&a,const AL&al,PT e,std::size_t n){new((void*)&a) PA(al,e,n);}
void drv_push_back(PA&a,PT x){a.push_back(x);}
void drv_erase(PA&a,PT x){a.erase(x);}
void drv_clear(PA&a){a.clear();}
void drv_room_for_one(PA&a){a.room_for_one();}
void drv_reserve(PA&a,std::size_t n){a.reserve(n);}
void drv_shrink(PA&a){a.shrink_to_fit();}
void drv_swap(PA&a,PA&b){a.swap(b);}
}
