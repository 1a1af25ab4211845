// link surgery of hashed bucket lists: node_alg for unique and non-unique indices
#include <boost/multi_index_container.hpp>
#include <boost/multi_index/hashed_index.hpp>
#include <boost/multi_index/identity.hpp>
namespace D=boost::multi_index::detail;
struct V{ long a,b,c; };
extern "C" bool vp_eq(const V&,const V&); 
struct H{ std::size_t operator()(const V&)const; };
struct E{ bool operator()(const V&a,const V&b)const{ return vp_eq(a,b); } };
#ifdef UNIQ
typedef boost::multi_index_container<V,boost::multi_index::indexed_by<boost::multi_index::hashed_unique<boost::multi_index::identity<V>,H,E>>> MC;
#else
typedef boost::multi_index_container<V,boost::multi_index::indexed_by<boost::multi_index::hashed_non_unique<boost::multi_index::identity<V>,H,E>>> MC;
#endif
typedef boost::multi_index::nth_index<MC,0>::type C;
typedef C::index_node_type XN;
typedef XN::impl_type N;
typedef C::node_alg A;
typedef N::pointer PT;
typedef N::base_pointer BP;
struct R{ PT f; bool e; };
extern "C"{
#ifdef UNIQ
int probe_unique(){return 1;}
#endif
PT probe_prior(const N*p){return p->prior();}
BP probe_next(const N*p){return p->next();}
void drv_link(PT x,BP b,PT end){A::link(x,b,end);}
void drv_unlink(PT x){A::unlink(x);}
void drv_undo(PT x){A::unlink_undo u;A::unlink(x,u);u();}
PT drv_after(PT x){return A::after(x);}
PT drv_after_local(PT x){return A::after_local(x);}
PT drv_next_to_inspect(PT x){return A::next_to_inspect(x);}
bool drv_is_first_of_bucket(PT x){return A::is_first_of_bucket(x);}
PT drv_last_of_range(const C&c,PT x){return c.last_of_range(x);}
PT drv_end_of_range(const C&c,PT x){return c.end_of_range(x);}
#ifdef UNIQ
void drv_append(PT x,PT end){A::append(x,end);}
bool drv_unlink_last(PT end){return A::unlink_last(end);}
#else
void drv_link_group(PT x,PT f,PT l){A::link(x,f,l);}
void drv_link_range(PT f,PT l,BP b,PT end){A::link_range(f,l,b,end);}
void drv_append_range(PT f,PT l,PT end){A::append_range(f,l,end);}
void drv_unlink_last_group(PT end,R&r){std::pair<PT,bool> p=A::unlink_last_group(end);r.f=p.first;r.e=p.second;}
void drv_unlink_range(PT f,PT l){A::unlink_range(f,l);}
#endif
}
