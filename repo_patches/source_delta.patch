From c75abddb4282b77676db79b636952c6896a7b257 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:37:06 +0000
Subject: [PATCH 1/4] fix: keep the element when rollback succeeds after a
 throwing modify

modify(position,mod,back) rethrew the original exception from inside the
try block guarding back/check_rollback_, so the handler meant for
exceptions thrown by those operations was always run: the element was
erased even if it had been successfully rolled back, and erased twice if
it had not.
---
 include/boost/multi_index_container.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/boost/multi_index_container.hpp b/include/boost/multi_index_container.hpp
index 8ac43fc..6a1d248 100644
--- a/include/boost/multi_index_container.hpp
+++ b/include/boost/multi_index_container.hpp
@@ -1077,13 +1077,13 @@ BOOST_MULTI_INDEX_PROTECTED_IF_MEMBER_TEMPLATE_FRIENDS:
       BOOST_TRY{
         back_(const_cast<value_type&>(x->value()));
         if(!super::check_rollback_(x))this->erase_(x);
-        BOOST_RETHROW;
       }
       BOOST_CATCH(...){
         this->erase_(x);
         BOOST_RETHROW;
       }
       BOOST_CATCH_END
+      BOOST_RETHROW;
     }
     BOOST_CATCH_END
 
-- 
2.43.0


From 779bcc3333f8b5e683cc7f093220510b996cc5e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:37:07 +0000
Subject: [PATCH 2/4] fix: rethrow from range splice in sequenced indices

The handler for exceptions thrown while transferring elements swallowed the
exception and, execution continuing past it, relinked the transferred
elements a second time with position inside the relinked range, which
corrupted the sequence.
---
 include/boost/multi_index/sequenced_index.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/boost/multi_index/sequenced_index.hpp b/include/boost/multi_index/sequenced_index.hpp
index 770a6ce..3ea6f5f 100644
--- a/include/boost/multi_index/sequenced_index.hpp
+++ b/include/boost/multi_index/sequenced_index.hpp
@@ -1110,6 +1110,7 @@ private:
       BOOST_CATCH(...){
         ++first_to_relink;
         relink(position.get_node(),first_to_relink.get_node(),header());
+        BOOST_RETHROW;
       }
       BOOST_CATCH_END
       ++first_to_relink;
-- 
2.43.0


From efe87e0ff7c6e96af086e4d3bab910ef9213ed6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:37:29 +0000
Subject: [PATCH 3/4] fix: allocate auxiliary arrays with the container's own
 allocator

The copy and element-less copy constructors of hashed_index and
random_access_index built the bucket/pointer array with the allocator of
the source container, even if a different one was specified for (or
selected by) the new container. Later reallocations exchange arrays without
exchanging allocators, so memory ended up returned to the wrong allocator.
---
 include/boost/multi_index/hashed_index.hpp        | 4 ++--
 include/boost/multi_index/random_access_index.hpp | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/boost/multi_index/hashed_index.hpp b/include/boost/multi_index/hashed_index.hpp
index 5100d3c..e9820b5 100644
--- a/include/boost/multi_index/hashed_index.hpp
+++ b/include/boost/multi_index/hashed_index.hpp
@@ -770,7 +770,7 @@ BOOST_MULTI_INDEX_PROTECTED_IF_MEMBER_TEMPLATE_FRIENDS:
     key(x.key),
     hash_(x.hash_),
     eq_(x.eq_),
-    buckets(x.get_allocator(),header()->impl(),x.buckets.size()),
+    buckets(get_allocator(),header()->impl(),x.buckets.size()),
     mlf(x.mlf),
     max_load(x.max_load)
 
@@ -791,7 +791,7 @@ BOOST_MULTI_INDEX_PROTECTED_IF_MEMBER_TEMPLATE_FRIENDS:
     key(x.key),
     hash_(x.hash_),
     eq_(x.eq_),
-    buckets(x.get_allocator(),header()->impl(),0),
+    buckets(get_allocator(),header()->impl(),0),
     mlf(1.0f)
 
 #if defined(BOOST_MULTI_INDEX_ENABLE_SAFE_MODE)
diff --git a/include/boost/multi_index/random_access_index.hpp b/include/boost/multi_index/random_access_index.hpp
index 96b4565..a8d0b8f 100644
--- a/include/boost/multi_index/random_access_index.hpp
+++ b/include/boost/multi_index/random_access_index.hpp
@@ -766,7 +766,7 @@ BOOST_MULTI_INDEX_PROTECTED_IF_MEMBER_TEMPLATE_FRIENDS:
 
   random_access_index(const random_access_index<SuperMeta,TagList>& x):
     super(x),
-    ptrs(x.get_allocator(),header()->impl(),x.size())
+    ptrs(get_allocator(),header()->impl(),x.size())
 
 #if defined(BOOST_MULTI_INDEX_ENABLE_SAFE_MODE)
     ,safe(*this)
@@ -780,7 +780,7 @@ BOOST_MULTI_INDEX_PROTECTED_IF_MEMBER_TEMPLATE_FRIENDS:
   random_access_index(
     const random_access_index<SuperMeta,TagList>& x,do_not_copy_elements_tag):
     super(x,do_not_copy_elements_tag()),
-    ptrs(x.get_allocator(),header()->impl(),0)
+    ptrs(get_allocator(),header()->impl(),0)
 
 #if defined(BOOST_MULTI_INDEX_ENABLE_SAFE_MODE)
     ,safe(*this)
-- 
2.43.0


From 07a7f4a8695078ffc89a0016fdfe1d496c38a33c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:37:40 +0000
Subject: [PATCH 4/4] fix: check position in range insertion in safe mode

insert(position,first,last) of sequenced and random access indices used
position without checking its validity and ownership, unlike the rest of
the insertion memfuns: an iterator from another container would have the
new elements linked into the wrong sequence.
---
 include/boost/multi_index/random_access_index.hpp | 2 ++
 include/boost/multi_index/sequenced_index.hpp     | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/include/boost/multi_index/random_access_index.hpp b/include/boost/multi_index/random_access_index.hpp
index a8d0b8f..edd24b3 100644
--- a/include/boost/multi_index/random_access_index.hpp
+++ b/include/boost/multi_index/random_access_index.hpp
@@ -1045,6 +1045,8 @@ private:
   void insert_iter(
     iterator position,InputIterator first,InputIterator last,mpl::true_)
   {
+    BOOST_MULTI_INDEX_CHECK_VALID_ITERATOR(position);
+    BOOST_MULTI_INDEX_CHECK_IS_OWNER(position,*this);
     BOOST_MULTI_INDEX_RND_INDEX_CHECK_INVARIANT;
     size_type s=0;
     BOOST_TRY{
diff --git a/include/boost/multi_index/sequenced_index.hpp b/include/boost/multi_index/sequenced_index.hpp
index 3ea6f5f..41bf2ae 100644
--- a/include/boost/multi_index/sequenced_index.hpp
+++ b/include/boost/multi_index/sequenced_index.hpp
@@ -973,6 +973,8 @@ private:
   void insert_iter(
     iterator position,InputIterator first,InputIterator last,mpl::true_)
   {
+    BOOST_MULTI_INDEX_CHECK_VALID_ITERATOR(position);
+    BOOST_MULTI_INDEX_CHECK_IS_OWNER(position,*this);
     BOOST_MULTI_INDEX_SEQ_INDEX_CHECK_INVARIANT;
     for(;first!=last;++first){
       std::pair<final_node_type*,bool> p=
-- 
2.43.0

