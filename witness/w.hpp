// Shared definitions of the compile-time witnesses.
#include <boost/multi_index_container.hpp>
#include <boost/multi_index/ordered_index.hpp>
#include <boost/multi_index/ranked_index.hpp>
#include <boost/multi_index/hashed_index.hpp>
#include <boost/multi_index/sequenced_index.hpp>
#include <boost/multi_index/random_access_index.hpp>
#include <boost/multi_index/identity.hpp>
#include <boost/multi_index/member.hpp>
#include <boost/multi_index/mem_fun.hpp>
#include <boost/multi_index/global_fun.hpp>
#include <boost/multi_index/composite_key.hpp>
#include <boost/multi_index/key.hpp>
#include <type_traits>
#include <functional>
#include <utility>
#include <memory>
#include <string>
#include <iterator>
#include <initializer_list>
#include <boost/tuple/tuple.hpp>
#include <tuple>
using namespace boost::multi_index;
struct Val { int a; int b; int geta() const { return a; } int& refa() { return a; }
  friend bool operator<(const Val& x, const Val& y) { return x.a < y.a; }
  friend bool operator==(const Val& x, const Val& y) { return x.a == y.a; }
  friend std::size_t hash_value(const Val& x) { return (std::size_t)x.a; } };
struct Other { int q; };
inline int gfun(const Val& v) { return v.a; }
inline int& gref(Val& v) { return v.a; }
struct t0{}; struct t1{}; struct t2{}; struct t3{}; struct t4{}; struct t5{}; struct t6{}; struct t7{}; struct tx{};
typedef member<Val, int, &Val::a> KA;
typedef member<Val, int, &Val::b> KB;
typedef multi_index_container<Val, indexed_by<
  ordered_unique<tag<t0>, KA>, ordered_non_unique<tag<t1>, KB>, hashed_unique<tag<t2>, KA>, hashed_non_unique<tag<t3>, KB>,
  sequenced<tag<t4> >, random_access<tag<t5> >, ranked_unique<tag<t6>, KA>, ranked_non_unique<tag<t7>, KB> > > MIC;
template<class Spec> struct one { typedef multi_index_container<Val, indexed_by<Spec> > type; };
typedef one<ordered_unique<KA> >::type OU; typedef one<ordered_non_unique<KA> >::type ON;
typedef one<hashed_unique<KA> >::type HU;  typedef one<hashed_non_unique<KA> >::type HN;
typedef one<sequenced<> >::type SQ;        typedef one<random_access<> >::type RA;
typedef one<ranked_unique<KA> >::type RU;  typedef one<ranked_non_unique<KA> >::type RN;
template<class T> T& lv() noexcept;
template<class T> const T& clv() noexcept;
