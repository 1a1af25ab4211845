// Drivers: effect rules. "pure": operations through const containers, indices and iterators write nothing;
// "nothr": operations that never throw; "pnothr": both.
#include "cont.hpp"
#include <boost/multi_index/composite_key.hpp>
typedef C::const_iterator CI;
#define RES(x) do{auto r_=(x);vp_flag((int)sizeof(r_));}while(0)
D(pnothr__C__begin)(const C& c){RES(c.begin());}
D(pnothr__C__end)(const C& c){RES(c.end());}
D(pnothr__C__cbegin)(const C& c){RES(c.cbegin());}
D(pnothr__C__cend)(const C& c){RES(c.cend());}
D(pnothr__C__size)(const C& c){RES(c.size());}
D(pnothr__C__empty)(const C& c){RES(c.empty());}
D(pnothr__C__maxsize)(const C& c){RES(c.max_size());}
D(pnothr__C__getalloc)(const C& c){RES(c.get_allocator());}
D(pnothr__C__iterto)(const C& c,CI i){RES(c.iterator_to(*i));}
D(pnothr__C__inc)(const C& c,CI i){++i;RES(i);}
D(pnothr__C__postinc)(const C& c,CI i){i++;RES(i);}
D(pnothr__C__deref)(const C& c,CI i){const V& v=*i;vp_elem(&v);}
D(pnothr__C__eqit)(const C& c,CI i,CI j){RES(i==j);RES(i!=j);}
D(pnothr__C__get)(const C& c){RES(&c.get<0>());}
D(pnothr__C__project)(const C& c,CI i){RES(c.project<NLAYERS-1>(i));}
D(pure__C__copyit)(const C& c,const CI& i){CI j(i);RES(j);}
D(pure__C__ctorargs)(const C& c,const CI& i){CI j;j=i;RES(j);}
#if !HASHED
D(pnothr__C__rbegin)(const C& c){RES(c.rbegin());}
D(pnothr__C__rend)(const C& c){RES(c.rend());}
D(pnothr__C__dec)(const C& c,CI i){--i;RES(i);}
D(pnothr__C__postdec)(const C& c,CI i){i--;RES(i);}
#endif
#if KEYED
D(pure__C__find)(const C& c,const Key<0>& k){RES(c.find(k));}
D(pure__C__count)(const C& c,const Key<0>& k){RES(c.count(k));}
D(pure__C__contains)(const C& c,const Key<0>& k){RES(c.contains(k));}
D(pure__C__equalrange)(const C& c,const Key<0>& k){RES(c.equal_range(k));}
D(pure__C__keyextractor)(const C& c){RES(c.key_extractor());}
#endif
#if ORDERED
D(pure__C__lowerbound)(const C& c,const Key<0>& k){RES(c.lower_bound(k));}
D(pure__C__upperbound)(const C& c,const Key<0>& k){RES(c.upper_bound(k));}
D(pure__C__findx)(const C& c,const XKey& k){RES(c.find(k,XCmp()));}
D(pure__C__countx)(const C& c,const XKey& k){RES(c.count(k,XCmp()));}
D(pure__C__lowerboundx)(const C& c,const XKey& k){RES(c.lower_bound(k,XCmp()));}
D(pure__C__upperboundx)(const C& c,const XKey& k){RES(c.upper_bound(k,XCmp()));}
D(pure__C__equalrangex)(const C& c,const XKey& k){RES(c.equal_range(k,XCmp()));}
D(pure__C__range)(const C& c){RES(c.range(LoBound(),LoBound()));}
D(pure__C__rangelu)(const C& c){RES(c.range(mi::unbounded,LoBound()));}
D(pure__C__rangeul)(const C& c){RES(c.range(LoBound(),mi::unbounded));}
D(pure__C__rangeuu)(const C& c){RES(c.range(mi::unbounded,mi::unbounded));}
D(pure__C__keycomp)(const C& c){RES(c.key_comp());}
D(pure__C__valuecomp)(const C& c){RES(c.value_comp());}
D(pure__C__cmpeq)(const C& c,const C& x){RES(c==x);}
D(pure__C__cmplt)(const C& c,const C& x){RES(c<x);}
#endif
#if RANKED
D(pnothr__C__nth)(const C& c,std::size_t n){RES(c.nth(n));}
D(pnothr__C__rank)(const C& c,CI i){RES(c.rank(i));}
D(pure__C__findrank)(const C& c,const Key<0>& k){RES(c.find_rank(k));}
D(pure__C__lbrank)(const C& c,const Key<0>& k){RES(c.lower_bound_rank(k));}
D(pure__C__ubrank)(const C& c,const Key<0>& k){RES(c.upper_bound_rank(k));}
D(pure__C__eqrank)(const C& c,const Key<0>& k){RES(c.equal_range_rank(k));}
D(pure__C__rangerank)(const C& c){RES(c.range_rank(LoBound(),LoBound()));}
#endif
#if HASHED
D(pure__C__hashf)(const C& c){RES(c.hash_function());}
D(pure__C__keyeq)(const C& c){RES(c.key_eq());}
D(pnothr__C__bucketcount)(const C& c){RES(c.bucket_count());}
D(pnothr__C__maxbucketcount)(const C& c){RES(c.max_bucket_count());}
D(pnothr__C__bucketsize)(const C& c,std::size_t n){RES(c.bucket_size(n));}
D(pure__C__bucket)(const C& c,const Key<0>& k){RES(c.bucket(k));}
D(pnothr__C__lbegin)(const C& c,std::size_t n){RES(c.begin(n));}
D(pnothr__C__lend)(const C& c,std::size_t n){RES(c.end(n));}
D(pnothr__C__linc)(const C& c,C::const_local_iterator i){++i;RES(i);}
D(pnothr__C__literto)(const C& c,CI i){RES(c.local_iterator_to(*i));}
D(pnothr__C__loadfactor)(const C& c){RES(c.load_factor());}
D(pnothr__C__maxloadfactor)(const C& c){RES(c.max_load_factor());}
D(pure__C__findh)(const C& c,const XKey& k){struct XH{std::size_t operator()(const XKey&)const{return 1;}};RES(c.find(k,XH(),XCmp()));}
D(pure__C__cmpeq)(const C& c,const C& x){RES(c==x);}
#endif
#if SEQ||RND
D(pnothr__C__front)(const C& c){RES(&c.front());}
D(pnothr__C__back)(const C& c){RES(&c.back());}
D(pure__C__cmpeq)(const C& c,const C& x){RES(c==x);}
D(pure__C__cmplt)(const C& c,const C& x){RES(c<x);}
D(nothr__C__popfront)(C& c){c.pop_front();}
D(nothr__C__popback)(C& c){c.pop_back();}
D(nothr__C__reverse)(C& c){c.reverse();}
D(nothr__C__relocate)(C& c,I i,I j){c.relocate(i,j);}
D(nothr__C__relocater)(C& c,I i,I j,I k){c.relocate(i,j,k);}
#endif
#if RND
D(pnothr__C__index)(const C& c,std::size_t n){RES(&c[n]);}
D(pnothr__C__cap)(const C& c){RES(c.capacity());}
D(pnothr__C__itadd)(const C& c,CI i,std::ptrdiff_t n){i+=n;RES(i);}
D(pnothr__C__itdiff)(const C& c,CI i,CI j){RES(i-j);}
D(pnothr__C__itlt)(const C& c,CI i,CI j){RES(i<j);}
D(pure__C__at)(const C& c,std::size_t n){RES(&c.at(n));}
#endif
D(nothr__C__erase)(C& c,I i){c.erase(i);}
D(nothr__C__eraser)(C& c,I i,I j){c.erase(i,j);}
D(nothr__C__clear)(C& c){c.clear();}
D(nothr__C__extract)(C& c,I i){NH n=c.extract(i);n.node=0;}
D(nothr__C__dtor)(C& c){c.~C();}
D(nothr__C__nhdtor)(NH& n){n.~NH();}
D(nothr__C__nhmctor)(NH& n,NH& m){new(&n) NH(std::move(m));}
D(nothr__C__nhmassign)(NH& n,NH& m){n=std::move(m);}
D(nothr__C__nhswap)(NH& n,NH& m){n.swap(m);}
D(pnothr__C__nhempty)(const NH& n){RES(n.empty());RES((bool)n);RES(n.get_allocator());}
D(pnothr__C__nhvalue)(const NH& n){RES(&n.value());}
#ifdef NTF
D(nothr__C__swap)(C& c,C& c2){c.swap(c2);}
#endif
