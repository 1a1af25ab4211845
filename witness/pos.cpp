// Type-level obligations: every line is decided by the compiler. Rule ids after '//@' are reported on failure.
#include "w.hpp"
// an expression type gives no write access to an element
template<class T> struct mut_ref : std::integral_constant<bool,
  (std::is_reference<T>::value && !std::is_const<typename std::remove_reference<T>::type>::value &&
     std::is_same<typename std::remove_cv<typename std::remove_reference<T>::type>::type, Val>::value) ||
  (std::is_pointer<typename std::remove_reference<T>::type>::value &&
     std::is_same<typename std::remove_pointer<typename std::remove_reference<T>::type>::type, Val>::value)> {};
template<class T> struct no_write { static const bool value = !mut_ref<T>::value && !std::is_assignable<T, Val>::value; };
template<class It0> struct ro_iter {
  typedef typename std::remove_cv<typename std::remove_reference<It0>::type>::type It;
  typedef std::iterator_traits<It> tr;
  static_assert(no_write<decltype(*std::declval<It&>())>::value, "immutable: *iterator");
  static_assert(no_write<decltype(*std::declval<const It&>())>::value, "immutable: *const iterator");
  static_assert(no_write<decltype(*std::declval<It&>()++)>::value, "immutable: *iterator++");
  static_assert(no_write<decltype(*++std::declval<It&>())>::value, "immutable: *++iterator");
  static_assert(!mut_ref<decltype(std::declval<It&>().operator->())>::value, "immutable: iterator->");
  static_assert(!mut_ref<decltype(std::declval<const It&>().operator->())>::value, "immutable: const iterator->");
  static_assert(!mut_ref<typename tr::reference>::value && !mut_ref<typename tr::pointer>::value, "immutable: iterator_traits");
  static_assert(!mut_ref<typename It::reference>::value && !mut_ref<typename It::pointer>::value, "immutable: iterator typedefs");
  static_assert(std::is_same<typename tr::value_type, Val>::value, "iterator value_type");
  static_assert(std::is_copy_constructible<It>::value && std::is_copy_assignable<It>::value && std::is_default_constructible<It>::value, "iterator regular");
  static const bool value = true;
};
template<class X> struct ro_iter_pair { static const bool value = ro_iter<decltype(X().first)>::value && ro_iter<decltype(X().second)>::value; };
template<class I> struct common {
  typedef typename I::iterator It; typedef typename I::const_iterator CIt;
  static_assert(ro_iter<It>::value, ""); static_assert(ro_iter<CIt>::value, "");
  static_assert(std::is_convertible<It, CIt>::value, "iterator converts to const_iterator");
  static_assert(!mut_ref<typename I::const_reference>::value, "immutable: index typedefs");
  static_assert(!mut_ref<typename I::const_pointer>::value, "immutable: index pointer typedefs");
  static_assert(std::is_same<typename I::value_type, Val>::value, "value_type");
  static_assert(ro_iter<decltype(lv<I>().begin())>::value && ro_iter<decltype(clv<I>().begin())>::value, "immutable: begin");
  static_assert(ro_iter<decltype(lv<I>().end())>::value && ro_iter<decltype(clv<I>().end())>::value, "immutable: end");
  static_assert(ro_iter<decltype(clv<I>().cbegin())>::value && ro_iter<decltype(clv<I>().cend())>::value, "immutable: cbegin");
  static_assert(std::is_same<decltype(clv<I>().begin()), CIt>::value && std::is_same<decltype(lv<I>().begin()), It>::value, "begin type");
  static_assert(ro_iter<decltype(lv<I>().iterator_to(clv<Val>()))>::value && ro_iter<decltype(clv<I>().iterator_to(clv<Val>()))>::value, "immutable: iterator_to");
  static_assert(ro_iter<decltype(lv<I>().erase(lv<It>()))>::value, "immutable: erase(it)");
  static_assert(ro_iter<decltype(lv<I>().erase(lv<It>(), lv<It>()))>::value, "immutable: erase range");
  static_assert(std::is_same<decltype(lv<I>().replace(lv<It>(), clv<Val>())), bool>::value, "replace");
  static_assert(std::is_same<decltype(lv<I>().extract(lv<It>())), typename I::node_type>::value, "extract");
  // node handles own their element: write access is documented
  static_assert(std::is_same<decltype(clv<typename I::node_type>().value()), Val&>::value, "node_handle value access");
  static_assert(!std::is_copy_constructible<typename I::node_type>::value && !std::is_copy_assignable<typename I::node_type>::value, "node_handle is move only");
  static_assert(std::is_nothrow_move_constructible<typename I::node_type>::value && std::is_nothrow_default_constructible<typename I::node_type>::value, "noexcept: node_handle");
  static_assert(noexcept(clv<typename I::node_type>().empty()) && noexcept((bool)clv<typename I::node_type>()), "noexcept: node_handle observers");
  static_assert(noexcept(lv<typename I::node_type>().swap(lv<typename I::node_type>())), "noexcept: node_handle swap");
  static_assert(!mut_ref<decltype(clv<typename I::insert_return_type>().position.operator*())>::value, "immutable: insert_return_type");
  // documented noexcept members
  static_assert(noexcept(clv<I>().get_allocator()), "noexcept: get_allocator");
  static_assert(noexcept(clv<I>().empty()) && noexcept(clv<I>().size()) && noexcept(clv<I>().max_size()), "noexcept: capacity");
  static_assert(noexcept(lv<I>().begin()) && noexcept(clv<I>().begin()) && noexcept(lv<I>().end()) && noexcept(clv<I>().end()) &&
                noexcept(clv<I>().cbegin()) && noexcept(clv<I>().cend()), "noexcept: begin/end");
  static_assert(noexcept(lv<I>().clear()), "noexcept: clear");
  // an index of a const container offers no modification
  static const bool value = true;
};
template<class I> struct rev {
  static_assert(ro_iter<decltype(lv<I>().rbegin().base())>::value, "");
  static_assert(no_write<decltype(*lv<I>().rbegin())>::value && no_write<decltype(*clv<I>().rbegin())>::value && no_write<decltype(*lv<I>().rend())>::value &&
                no_write<decltype(*clv<I>().rend())>::value && no_write<decltype(*clv<I>().crbegin())>::value && no_write<decltype(*clv<I>().crend())>::value, "immutable: reverse iterators");
  static_assert(noexcept(lv<I>().rbegin()) && noexcept(clv<I>().rbegin()) && noexcept(lv<I>().rend()) && noexcept(clv<I>().rend()) &&
                noexcept(clv<I>().crbegin()) && noexcept(clv<I>().crend()), "noexcept: reverse iterators");
  static const bool value = true;
};
template<class P> struct keyb { static const bool value = true; };
template<class I> struct keyed {
  static_assert(ro_iter<decltype(clv<I>().find(1))>::value && ro_iter<decltype(lv<I>().find(1))>::value, "immutable: find");
  static_assert(ro_iter_pair<decltype(clv<I>().equal_range(1))>::value, "immutable: equal_range");
  static_assert(ro_iter<decltype(lv<I>().insert(lv<typename I::iterator>(), clv<Val>()))>::value, "immutable: insert hint");
  static_assert(ro_iter<decltype(lv<I>().insert(clv<Val>()).first)>::value, "immutable: insert");
  static_assert(ro_iter<decltype(lv<I>().emplace(clv<Val>()).first)>::value, "immutable: emplace");
  static_assert(ro_iter<decltype(lv<I>().emplace_hint(lv<typename I::iterator>(), clv<Val>()))>::value, "immutable: emplace_hint");
  static const bool value = true;
};
template<class I> struct ordered {
  static_assert(ro_iter<decltype(clv<I>().lower_bound(1))>::value && ro_iter<decltype(clv<I>().upper_bound(1))>::value, "immutable: bounds");
  static_assert(ro_iter_pair<decltype(clv<I>().range(unbounded, unbounded))>::value, "immutable: range");
  static const bool value = true;
};
template<class I> struct hashed {
  static_assert(ro_iter<typename I::local_iterator>::value && ro_iter<typename I::const_local_iterator>::value, "immutable: local_iterator");
  static_assert(ro_iter<decltype(lv<I>().begin(0u))>::value && ro_iter<decltype(clv<I>().begin(0u))>::value && ro_iter<decltype(clv<I>().cbegin(0u))>::value, "immutable: begin(n)");
  static_assert(ro_iter<decltype(lv<I>().end(0u))>::value && ro_iter<decltype(clv<I>().end(0u))>::value && ro_iter<decltype(clv<I>().cend(0u))>::value, "immutable: end(n)");
  static_assert(ro_iter<decltype(lv<I>().local_iterator_to(clv<Val>()))>::value && ro_iter<decltype(clv<I>().local_iterator_to(clv<Val>()))>::value, "immutable: local_iterator_to");
  static_assert(noexcept(clv<I>().bucket_count()) && noexcept(clv<I>().max_bucket_count()) && noexcept(clv<I>().load_factor()) && noexcept(clv<I>().max_load_factor()), "noexcept: hashed observers");
  static const bool value = true;
};
template<class I> struct listlike {
  static_assert(no_write<decltype(lv<I>().front())>::value && no_write<decltype(clv<I>().front())>::value, "immutable: front");
  static_assert(no_write<decltype(lv<I>().back())>::value && no_write<decltype(clv<I>().back())>::value, "immutable: back");
  static_assert(ro_iter<decltype(lv<I>().push_back(clv<Val>()).first)>::value && ro_iter<decltype(lv<I>().push_front(clv<Val>()).first)>::value, "immutable: push");
  static_assert(ro_iter<decltype(lv<I>().insert(lv<typename I::iterator>(), clv<Val>()).first)>::value, "immutable: insert");
  static_assert(noexcept(lv<I>().reverse()), "noexcept: reverse");
  static const bool value = true;
};
template<class I> struct rnd {
  static_assert(no_write<decltype(lv<I>()[0])>::value && no_write<decltype(clv<I>()[0])>::value, "immutable: operator[]");
  static_assert(no_write<decltype(lv<I>().at(0))>::value && no_write<decltype(clv<I>().at(0))>::value, "immutable: at");
  static_assert(no_write<decltype(lv<typename I::iterator>()[0])>::value, "immutable: iterator[]");
  static_assert(noexcept(clv<I>().capacity()), "noexcept: capacity()");
  static const bool value = true;
};
template<class I> struct ranked {
  static_assert(ro_iter<decltype(clv<I>().nth(0))>::value, "immutable: nth");
  static const bool value = true;
};
template<class C> struct container {
  static_assert(std::is_copy_constructible<C>::value && std::is_copy_assignable<C>::value, "copyable");
  static_assert(std::is_move_constructible<C>::value && std::is_move_assignable<C>::value, "movable");
  static_assert(std::is_default_constructible<C>::value && std::is_swappable<C&>::value, "regular");
  static_assert(std::is_constructible<C, const typename C::ctor_args_list&>::value && std::is_constructible<C, const typename C::allocator_type&>::value, "constructors");
  static_assert(std::is_constructible<C, const C&, const typename C::allocator_type&>::value && std::is_constructible<C, C&&, const typename C::allocator_type&>::value, "allocator-extended constructors");
  static_assert(std::is_constructible<C, std::initializer_list<Val> >::value && std::is_assignable<C&, std::initializer_list<Val> >::value, "initializer lists");
  static_assert(noexcept(clv<C>().get_allocator()) && noexcept(lv<C>().template get<0>()) && noexcept(clv<C>().template get<0>()) &&
                noexcept(boost::multi_index::get<0>(lv<C>())) && noexcept(boost::multi_index::get<0>(clv<C>())), "noexcept: get");
  static_assert(std::is_const<typename std::remove_reference<decltype(clv<C>().template get<0>())>::type>::value, "const get gives const index");
  static const bool value = true;
};
template<class C> struct all_indices {
  static_assert(container<C>::value, "");
  template<int N> using idx = typename nth_index<C, N>::type;
  static_assert(common<idx<0> >::value && rev<idx<0> >::value && keyed<idx<0> >::value && ordered<idx<0> >::value, "");
  static_assert(common<idx<1> >::value && rev<idx<1> >::value && keyed<idx<1> >::value && ordered<idx<1> >::value, "");
  static_assert(common<idx<2> >::value && keyed<idx<2> >::value && hashed<idx<2> >::value, "");
  static_assert(common<idx<3> >::value && keyed<idx<3> >::value && hashed<idx<3> >::value, "");
  static_assert(common<idx<4> >::value && rev<idx<4> >::value && listlike<idx<4> >::value, "");
  static_assert(common<idx<5> >::value && rev<idx<5> >::value && listlike<idx<5> >::value && rnd<idx<5> >::value, "");
  static_assert(common<idx<6> >::value && rev<idx<6> >::value && keyed<idx<6> >::value && ordered<idx<6> >::value && ranked<idx<6> >::value, "");
  static_assert(common<idx<7> >::value && rev<idx<7> >::value && keyed<idx<7> >::value && ordered<idx<7> >::value && ranked<idx<7> >::value, "");
  // indices are not copyable or movable on their own, only the container is
  static const bool value = true;
};
static_assert(all_indices<MIC>::value, "");
static_assert(container<OU>::value && container<ON>::value && container<HU>::value && container<HN>::value && container<SQ>::value && container<RA>::value && container<RU>::value && container<RN>::value, "");
static_assert(common<OU>::value && common<ON>::value && common<HU>::value && common<HN>::value && common<SQ>::value && common<RA>::value && common<RU>::value && common<RN>::value, "");
static_assert(noexcept(lv<MIC>().get<t3>()) && noexcept(clv<MIC>().get<t3>()) && noexcept(boost::multi_index::get<t3>(lv<MIC>())) && noexcept(boost::multi_index::get<t3>(clv<MIC>())), "noexcept: get<Tag>");
// projection keeps const-ness
static_assert(std::is_same<decltype(lv<MIC>().project<3>(lv<MIC>().begin())), nth_index<MIC, 3>::type::iterator>::value, "project<N>");
static_assert(std::is_same<decltype(clv<MIC>().project<3>(lv<MIC>().begin())), nth_index<MIC, 3>::type::const_iterator>::value, "const project<N>");
static_assert(std::is_same<decltype(lv<MIC>().project<t5>(lv<MIC>().get<2>().begin())), boost::multi_index::index<MIC, t5>::type::iterator>::value, "project<Tag>");
static_assert(std::is_same<decltype(clv<MIC>().project<t5>(clv<MIC>().get<2>().begin())), boost::multi_index::index<MIC, t5>::type::const_iterator>::value, "const project<Tag>");
static_assert(std::is_same<decltype(boost::multi_index::project<3>(lv<MIC>(), lv<MIC>().begin())), nth_index<MIC, 3>::type::iterator>::value, "global project<N>");
static_assert(std::is_same<decltype(boost::multi_index::project<t3>(lv<MIC>(), lv<MIC>().begin())), nth_index<MIC, 3>::type::iterator>::value, "global project<Tag>");
static_assert(std::is_same<decltype(boost::multi_index::project<3>(clv<MIC>(), lv<MIC>().begin())), nth_index<MIC, 3>::type::const_iterator>::value, "global const project<N>");
static_assert(std::is_same<decltype(boost::multi_index::project<t3>(clv<MIC>(), lv<MIC>().begin())), nth_index<MIC, 3>::type::const_iterator>::value, "global const project<Tag>");
// tags select the index that carries them
static_assert(std::is_same<boost::multi_index::index<MIC, t0>::type, nth_index<MIC, 0>::type>::value && std::is_same<boost::multi_index::index<MIC, t7>::type, nth_index<MIC, 7>::type>::value, "tags");
static_assert(std::is_same<decltype(lv<MIC>().get<t4>()), nth_index<MIC, 4>::type&>::value && std::is_same<decltype(lv<MIC>().get<4>()), nth_index<MIC, 4>::type&>::value, "get");
static_assert(std::is_same<nth_index_iterator<MIC, 2>::type, nth_index<MIC, 2>::type::iterator>::value && std::is_same<nth_index_const_iterator<MIC, 2>::type, nth_index<MIC, 2>::type::const_iterator>::value &&
  std::is_same<index_iterator<MIC, t2>::type, nth_index<MIC, 2>::type::iterator>::value && std::is_same<index_const_iterator<MIC, t2>::type, nth_index<MIC, 2>::type::const_iterator>::value, "iterator metafunctions");
// key extractors read const elements without giving write access
template<class E> using kres = decltype(clv<E>()(clv<Val>()));
template<class E> using kresm = decltype(clv<E>()(lv<Val>()));
template<class T> struct ro_int { static const bool value = !(std::is_reference<T>::value && !std::is_const<typename std::remove_reference<T>::type>::value); };
static_assert(no_write<kres<identity<Val> > >::value && no_write<kres<identity<const Val> > >::value && no_write<kresm<identity<const Val> > >::value, "extractor: identity");
static_assert(std::is_same<kresm<identity<Val> >, Val&>::value, "extractor: identity gives write access to non-const");
static_assert(ro_int<kres<KA> >::value && ro_int<kres<member<Val, const int, &Val::a> > >::value && ro_int<kresm<member<Val, const int, &Val::a> > >::value, "extractor: member");
static_assert(std::is_same<kresm<KA>, int&>::value, "extractor: member gives write access to non-const");
static_assert(ro_int<kres<const_mem_fun<Val, int, &Val::geta> > >::value && ro_int<kres<global_fun<const Val&, int, &gfun> > >::value, "extractor: functions");
static_assert(!std::is_invocable<const mem_fun<Val, int&, &Val::refa>&, const Val&>::value, "extractor: mem_fun needs a non-const element");
static_assert(!std::is_invocable<const global_fun<Val&, int&, &gref>&, const Val&>::value, "extractor: global_fun needs a non-const element");
#if __cplusplus >= 201703L
static_assert(ro_int<kres<key<&Val::a> > >::value && ro_int<kres<key<&Val::geta> > >::value && ro_int<kres<key<&gfun> > >::value, "extractor: key<>");
#endif
typedef composite_key<Val, KA, KB> CK;
static_assert(std::is_same<kres<CK>, composite_key_result<CK> >::value, "extractor: composite_key");
static_assert(no_write<decltype((clv<composite_key_result<CK> >().value))>::value && no_write<decltype((lv<composite_key_result<CK> >().value))>::value, "immutable: composite_key_result");
// through a pointer chain
static_assert(ro_int<decltype(clv<member<Val, const int, &Val::a> >()(clv<const Val*>()))>::value && ro_int<decltype(clv<member<Val, const int, &Val::a> >()(clv<Val*>()))>::value, "extractor: chain to const");
static_assert(no_write<decltype(clv<identity<Val> >()(clv<std::reference_wrapper<const Val> >()))>::value, "extractor: reference_wrapper to const");
// modifying functors
struct MV { void operator()(Val&) const; }; struct MK { void operator()(int&) const; };
static_assert(std::is_same<decltype(lv<OU>().modify(lv<OU::iterator>(), MV())), bool>::value && std::is_same<decltype(lv<OU>().modify(lv<OU::iterator>(), MV(), MV())), bool>::value, "modify");
static_assert(std::is_same<decltype(lv<HU>().modify_key(lv<HU::iterator>(), MK())), bool>::value && std::is_same<decltype(lv<HU>().modify_key(lv<HU::iterator>(), MK(), MK())), bool>::value, "modify_key");
