// The bucket of a hash value: for every table size, position() is the remainder by that size, and sizes grow.
#include <boost/multi_index_container.hpp>
#include <boost/multi_index/hashed_index.hpp>
#include <boost/preprocessor/repetition/repeat.hpp>
struct B:boost::multi_index::detail::bucket_array_base<>{
  static constexpr std::size_t N=sizeof(sizes)/sizeof(sizes[0]);
  template<std::size_t I> static bool pos(std::size_t h){
    if constexpr(I<N)return position(h,I)==h%sizes[I]&&position(h,I)<sizes[I]; else return true;
  }
  template<std::size_t I> static bool grow(){ if constexpr(I+1<N)return sizes[I]<sizes[I+1]; else return true; }
};
static_assert(B::N<=80,"");
extern "C"{
#define P(z,n,_) bool chk_position_##n(std::size_t h){return B::pos<n>(h);} bool chk_growth_##n(){return B::grow<n>();}
BOOST_PP_REPEAT(80,P,~)
}
