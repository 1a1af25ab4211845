// Product programs for hashed indices: a library call followed by its specification. The chain of a bucket is visited
// through the node operations (whose link structure is the subject of C26); keys, hashes and equality are uninterpreted.
#define TRIVF
#define REST 0
#include "cont.hpp"
extern "C"{
void vp_prove(bool,const char*)noexcept; void* vp_ghost(const char*)noexcept; void* vp_ghostraw(const char*)noexcept; bool vp_hasghost(const char*)noexcept;
unsigned long vp_pos(void*)noexcept; void vp_eqf(const long&)noexcept; void vp_clear(void*,void*,const long&,const char*)noexcept; void* vp_anyelem()noexcept; void* vp_heq(const long&)noexcept; void vp_self(void*)noexcept; bool vp_isclear(void*,void*,const long&)noexcept; bool vp_clearself(void*,void*)noexcept;
}
static_assert(sizeof(Key<0>)+sizeof(Key<1>)+sizeof(XKey)>0,"");
typedef C::index_node_type N;
typedef N::impl_type NI;
extern "C" int probe_hash(){return 1;}
#if PK==4
extern "C" int probe_hash_unique(){return 1;}
#endif
extern "C" void* probe_io(N*n){return n->impl();}
extern "C" void* probe_hdr(const C&c){return c.header();}
extern "C" unsigned long probe_cnt(const C&c){return c.size();}
namespace vp{ struct XH{ long state; std::size_t operator()(const XKey&)const; }; struct XE{ long state; bool operator()(const XKey&,const Key<0>&)const; bool operator()(const Key<0>&,const XKey&)const; }; }
#define UNIQ (PK==4)
#define V_(p) (((N*)(p))->value())
#define P(x,m) vp_prove(x,m)
#define OWN auto eq=c.key_eq(); auto hash=c.hash_function(); auto key=c.key_extractor(); vp_eqf((const long&)eq); (void)hash;(void)key
#define XOWN auto key=c.key_extractor(); vp_eqf((const long&)eq); (void)key
#define BUC(h) c.buckets.at(c.buckets.position(h))
#define CLEAR(B,n,k,m) vp_clear((void*)(B),(void*)(n),(const long&)k,m)
#define ABSENT(B,k) CLEAR(B,0,k,"no element is reported only after every group of the key's bucket compared unequal")
#define FOUND(B,r,k) do{ P(eq(k,key(V_(r))),"a reported element is equal to the key"); CLEAR(B,r,k,"a reported element is the first of its group in the key's bucket"); }while(0)
#if UNIQ
#define ENDR(r) N::from_impl(C::node_alg::after(((N*)(r))->impl()))
#else
#define ENDR(r) N::from_impl(c.end_of_range(((N*)(r))->impl()))
#endif
D(find)(const C&c,const Key<0>&x){ OWN; auto q=c.find(x); void*r=q.get_node(); auto B=BUC(hash(x)); if(q==c.end())ABSENT(B,x); else FOUND(B,r,x); }
D(xfind)(const C&c,const XKey&x,const vp::XH&hash,const vp::XE&eq){ XOWN; auto q=c.find(x,hash,eq); void*r=q.get_node(); auto B=BUC(hash(x)); if(q==c.end())ABSENT(B,x); else FOUND(B,r,x); }
D(contains)(const C&c,const Key<0>&x){ OWN; bool b=c.contains(x); auto B=BUC(hash(x)); if(!b)ABSENT(B,x); else { void*r=vp_heq((const long&)x); P(r!=0,"contains: true only if an equal element was found in the key's bucket"); } }
D(xcontains)(const C&c,const XKey&x,const vp::XH&hash,const vp::XE&eq){ XOWN; bool b=c.contains(x,hash,eq); auto B=BUC(hash(x)); if(!b)ABSENT(B,x); else { void*r=vp_heq((const long&)x); P(r!=0,"contains: true only if an equal element was found in the key's bucket"); } }
D(equal_range)(const C&c,const Key<0>&x){ OWN; auto q=c.equal_range(x); void*r=q.first.get_node(); void*t=q.second.get_node(); auto B=BUC(hash(x)); if(q.first==q.second&&r==c.end().get_node())ABSENT(B,x); else { FOUND(B,r,x); P(t==ENDR(r),"equal_range: ends after the last element of the group"); } }
D(xequal_range)(const C&c,const XKey&x,const vp::XH&hash,const vp::XE&eq){ XOWN; auto q=c.equal_range(x,hash,eq); void*r=q.first.get_node(); void*t=q.second.get_node(); auto B=BUC(hash(x)); if(q.first==q.second&&r==c.end().get_node())ABSENT(B,x); else { FOUND(B,r,x); P(t==ENDR(r),"equal_range: ends after the last element of the group"); } }
#define COUNT if(n==0)ABSENT(B,x); else { void*r=vp_heq((const long&)x); P(r!=0,"count: nonzero only if an equal element was found in the key's bucket"); if(r){ P(n==vp_pos(ENDR(r))-vp_pos(r),"count: the number of elements of the group"); } }
D(count)(const C&c,const Key<0>&x){ OWN; unsigned long n=c.count(x); auto B=BUC(hash(x)); COUNT }
D(xcount)(const C&c,const XKey&x,const vp::XH&hash,const vp::XE&eq){ XOWN; unsigned long n=c.count(x,hash,eq); auto B=BUC(hash(x)); COUNT }
// insertion
#if UNIQ
#define LINKED(k) do{ P(vp_hasghost("hlinked"),"the element is linked in the index"); if(vp_hasghost("hlinked")){ auto B=BUC(hash(k)); P(vp_ghostraw("hbuc")==(void*)B,"the element is linked in the bucket of its hash in the current table"); ABSENT(B,k); } }while(0)
#define REFUSED(r,k) do{ P(!vp_hasghost("hlinked"),"a refused element is not linked"); auto B=BUC(hash(k)); FOUND(B,r,k); }while(0)
#else
#define LINKED(k) do{ P(vp_hasghost("hlinked"),"the element is linked in the index"); auto B=BUC(hash(k)); if(vp_hasghost("hbuc")){ P(vp_ghostraw("hbuc")==(void*)B,"the element is linked in the bucket of its hash in the current table"); ABSENT(B,k); } else { void*f=vp_ghost("hfirst"); FOUND(B,f,k); P(vp_ghost("hlast")==(void*)N::from_impl(c.last_of_range(((N*)f)->impl())),"the element joins the whole group of its equivalent elements"); } }while(0)
#define REFUSED(r,k) P(false,"non-unique indices refuse no element")
#endif
D(insert)(C&c,const V&v){ OWN; auto p=c.insert(v); const auto&k=key(v); if(p.second){ LINKED(k); P(p.first.get_node()==vp_ghost("hlinked"),"the inserted element is returned"); } else REFUSED(p.first.get_node(),k); }
#define IN(r) ((void*)(r).first.get_node())
D(insert_hint)(C&c,const V&v,const I&h){ OWN; I r=c.insert(h,v); const auto&k=key(v); if(vp_hasghost("hlinked")){ LINKED(k); P((void*)r.get_node()==vp_ghost("hlinked"),"the inserted element is returned"); } else REFUSED(r.get_node(),k); }
D(insert_rv)(C&c,V&v){ OWN; const auto&k=key(v); auto p=c.insert(std::move(v)); if(p.second){ LINKED(k); P(IN(p)==vp_ghost("hlinked"),"the inserted element is returned"); } else REFUSED(IN(p),k); }
D(emplace)(C&c,const Arg&a){ OWN; auto p=c.emplace(a,a); if(p.second){ const auto&k=key(V_(vp_ghost("hlinked"))); LINKED(k); P(IN(p)==vp_ghost("hlinked"),"the inserted element is returned"); } else { P(UNIQ&&!vp_hasghost("hlinked"),"an element is refused only by unique indices, and not linked"); } }
D(insert_nh)(C&c,NH&h){ OWN; auto p=c.insert(std::move(h)); if(p.inserted){ const auto&k=key(V_(vp_ghost("hlinked"))); LINKED(k); P((void*)p.position.get_node()==vp_ghost("hlinked"),"the inserted element is returned"); } else P(!vp_hasghost("hlinked"),"an element that is not inserted is not linked"); }
#define INPLC(n,k) P(c.in_place(((N*)(n))->impl(),k,c.buckets.position(hash(k))),"an element is left in place only if it is in the bucket and group of its key")
#define RELINKED(n,k) if(vp_hasghost("hunlinked")){ P(vp_ghost("hlinked")==(void*)(n),"the element is linked back"); LINKED(k); } else P(!vp_hasghost("hlinked"),"an element left in place is not linked again")
D(replace)(C&c,const V&v){ OWN; void*n=vp_anyelem(); I i=c.make_iterator((N*)n); bool same=false; if(eq(key(v),key(V_(n))))same=true; else if(eq(key(V_(n)),key(v)))same=true; bool b=c.replace(i,v); const auto&k=key(v); if(b){ RELINKED(n,k); if(!vp_hasghost("hunlinked"))P(same,"an element is replaced in place only by an equivalent one"); } else P(!vp_hasghost("hlinked")&&!vp_hasghost("hunlinked"),"a refused replacement leaves the element where it was"); }
D(modify)(C&c,const V&v){ OWN; void*n=vp_anyelem(); I i=c.make_iterator((N*)n); bool b=c.modify(i,[&](V&e){e=v;}); const auto&k=key(V_(n)); if(b){ RELINKED(n,k); if(!vp_hasghost("hunlinked"))INPLC(n,k); } else P(vp_hasghost("hunlinked")&&!vp_hasghost("hlinked"),"an element that conflicts is unlinked"); }
D(modify_rb)(C&c,const V&v,const V&old){ OWN; void*n=vp_anyelem(); I i=c.make_iterator((N*)n); bool b=c.modify(i,[&](V&e){e=v;},[&](V&e){e=old;}); const auto&k=key(V_(n)); if(b){ RELINKED(n,k); if(!vp_hasghost("hunlinked"))INPLC(n,k); } else P(!vp_hasghost("hlinked"),"a rolled back modification is not linked"); }
// bucket interface
D(bucket)(const C&c,const Key<0>&x){ OWN; auto b=c.bucket(x); P(c.buckets.at(b)==BUC(hash(x)),"bucket: the position of the key's hash in the current table"); }
D(bucket_size)(const C&c,unsigned long n){ unsigned long r=c.bucket_size(n); void*f=c.buckets.at(n)->prior(); P(r==vp_pos(0)-vp_pos(f?(void*)N::from_impl((NI*)f):f),"bucket_size: the number of elements of the bucket"); }
D(bucket_begin)(const C&c,unsigned long n){ auto it=c.begin(n); auto f=c.buckets.at(n)->prior(); if(f==0)P(it==c.end(n),"begin(n): end(n) for an empty bucket"); else P((void*)it.get_node()==(void*)N::from_impl(f),"begin(n): the first element of the bucket"); }
#if defined(INPL)
extern "C" int probe_inplace(){return 1;}
// the in-place decision: the element is in its bucket and no other element of the bucket is equal to the key
D(in_place)(const C&c,const Key<0>&x){ OWN; unsigned long b=hash(x); auto B=BUC(b); N*n=(N*)vp_anyelem(); vp_self(n); if(c.in_place(n->impl(),x,c.buckets.position(b))){ CLEAR(B,0,x,"in place only if every other element of the bucket differs from the key"); CLEAR(B,n,x,"in place only if the element is in the bucket"); } else { void*r=vp_heq((const long&)x); if(r)P(r!=(void*)n,"not in place only if some other element is equal"); else P(vp_clearself(B,0),"not in place only if another element is equal or the element is not in the bucket"); } }
#endif
