From b9d9bda832b3d84dd55bbeced14283aa93f7e284 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:58:33 +0000
Subject: [PATCH 1/7] fix: restitute the previous element across segments in
 adjacent_find, unique_copy

---
 include/boost/poly_collection/algorithm.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/boost/poly_collection/algorithm.hpp b/include/boost/poly_collection/algorithm.hpp
index 67c4fc3..ab737b7 100644
--- a/include/boost/poly_collection/algorithm.hpp
+++ b/include/boost/poly_collection/algorithm.hpp
@@ -244,7 +244,7 @@ struct adjacent_find_alg
   >
   LocalBaseIterator operator()(
     LocalIterator first,LocalIterator last,BinaryPredicate pred,
-    bool& carry,const std::type_info* prev_info, /* note the &s */
+    bool& carry,const std::type_info*& prev_info, /* note the &s */
     LocalBaseIterator& prev)const
   {
     if(first==last)return LocalBaseIterator{last};
@@ -955,7 +955,7 @@ struct unique_copy_alg
   OutputIterator operator()(
     LocalIterator first,LocalIterator last,
     OutputIterator res, BinaryPredicate pred,
-    bool& carry,const std::type_info* prev_info, /* note the &s */
+    bool& carry,const std::type_info*& prev_info, /* note the &s */
     LocalBaseIterator& prev)const
   {
     if(carry){
-- 
2.43.0


From cb418ef2f98d3d004cef133c1f69e1eece128425 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:00:07 +0000
Subject: [PATCH 2/7] fix: construct new element before expansion in
 split_segment (aliased arguments)

---
 .../poly_collection/detail/split_segment.hpp  | 63 ++++++++++---------
 1 file changed, 32 insertions(+), 31 deletions(-)

diff --git a/include/boost/poly_collection/detail/split_segment.hpp b/include/boost/poly_collection/detail/split_segment.hpp
index 4c18788..056ecdd 100644
--- a/include/boost/poly_collection/detail/split_segment.hpp
+++ b/include/boost/poly_collection/detail/split_segment.hpp
@@ -15,6 +15,7 @@
 
 #include <boost/poly_collection/detail/segment_backend.hpp>
 #include <boost/poly_collection/detail/value_holder.hpp>
+#include <cstddef>
 #include <iterator>
 #include <memory>
 #include <new>
@@ -164,21 +165,16 @@ public:
   template<typename Iterator,typename... Args>
   range nv_emplace(Iterator p,Args&&... args)
   {
-    auto q=prereserve(p);
-    auto it=s.emplace(
-      iterator_from(q),
+    return emplace_at(
+      iterator_from(p)-s.begin(),
       value_holder_emplacing_ctor,std::forward<Args>(args)...);
-    push_index_entry();
-    return range_from(it);
   }
 
   template<typename... Args>
   range nv_emplace_back(Args&&... args)
   {
-    prereserve();
-    s.emplace_back(value_holder_emplacing_ctor,std::forward<Args>(args)...);
-    push_index_entry();
-    return range_from(s.size()-1);
+    return emplace_at_end(
+      value_holder_emplacing_ctor,std::forward<Args>(args)...);
   }
 
   virtual range push_back(const_value_pointer x)
@@ -186,10 +182,7 @@ public:
 
   range nv_push_back(const Concrete& x)
   {
-    prereserve();
-    s.emplace_back(x);
-    push_index_entry();
-    return range_from(s.size()-1);
+    return emplace_at_end(x);
   }
 
   virtual range push_back_move(value_pointer x)
@@ -197,10 +190,7 @@ public:
 
   range nv_push_back(Concrete&& x)
   {
-    prereserve();
-    s.emplace_back(std::move(x));
-    push_index_entry();
-    return range_from(s.size()-1);
+    return emplace_at_end(std::move(x));
   }
 
   virtual range insert(const_base_iterator p,const_value_pointer x)
@@ -208,10 +198,7 @@ public:
 
   range nv_insert(const_iterator p,const Concrete& x)
   {
-    p=prereserve(p);
-    auto it=s.emplace(iterator_from(p),x);
-    push_index_entry();
-    return range_from(it);
+    return emplace_at(iterator_from(p)-s.begin(),x);
   }
 
   virtual range insert_move(const_base_iterator p,value_pointer x)
@@ -219,10 +206,7 @@ public:
 
   range nv_insert(const_iterator p,Concrete&& x)
   {
-    p=prereserve(p);
-    auto it=s.emplace(iterator_from(p),std::move(x));
-    push_index_entry();
-    return range_from(it);
+    return emplace_at(iterator_from(p)-s.begin(),std::move(x));
   }
 
   template<typename InputIterator>
@@ -324,19 +308,36 @@ private:
     build_index();
   }
 
-  void prereserve()
+  /* args may refer to elements of the segment itself: if expansion is needed,
+   * the new element is constructed beforehand.
+   */
+
+  template<typename... Args>
+  range emplace_at_end(Args&&... args)
   {
-    if(s.size()==s.capacity())expand();
+    if(s.size()==s.capacity()){
+      store ss{s.get_allocator()};
+      ss.emplace_back(std::forward<Args>(args)...);
+      expand();
+      s.emplace_back(std::move(ss.front()));
+    }
+    else s.emplace_back(std::forward<Args>(args)...);
+    push_index_entry();
+    return range_from(s.size()-1);
   }
 
-  const_base_iterator prereserve(const_base_iterator p)
+  template<typename... Args>
+  range emplace_at(std::ptrdiff_t n,Args&&... args)
   {
     if(s.size()==s.capacity()){
-      auto n=p-i.data();
+      store ss{s.get_allocator()};
+      ss.emplace_back(std::forward<Args>(args)...);
       expand();
-      return const_base_iterator{i.data()+n};
+      s.emplace(s.begin()+n,std::move(ss.front()));
     }
-    else return p;
+    else s.emplace(s.begin()+n,std::forward<Args>(args)...);
+    push_index_entry();
+    return range_from(static_cast<std::size_t>(n));
   }
 
   const_iterator prereserve(const_iterator p)
-- 
2.43.0


From 40ab9935130a72f8332d19a4b96be69bbce8f27b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:00:07 +0000
Subject: [PATCH 3/7] fix: reserve throws length_error for n>max_size() in
 function/any collections

---
 include/boost/poly_collection/detail/split_segment.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/boost/poly_collection/detail/split_segment.hpp b/include/boost/poly_collection/detail/split_segment.hpp
index 056ecdd..e8bd15d 100644
--- a/include/boost/poly_collection/detail/split_segment.hpp
+++ b/include/boost/poly_collection/detail/split_segment.hpp
@@ -19,6 +19,7 @@
 #include <iterator>
 #include <memory>
 #include <new>
+#include <stdexcept>
 #include <utility>
 #include <vector>
 
@@ -129,6 +130,9 @@ public:
 
   base_sentinel nv_reserve(std::size_t n)
   {
+    if(n>nv_max_size()){
+      throw std::length_error("split_segment::nv_reserve");
+    }
     bool rebuild=n>s.capacity();
     i.reserve(n+1);
     s.reserve(n);
-- 
2.43.0


From 2222f1e7ba3139283c184c82f5c0307b778b15a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:02:56 +0000
Subject: [PATCH 4/7] fix: keep sentinel and index in sync when a modifier
 throws

---
 .../boost/poly_collection/detail/segment.hpp  | 91 ++++++++++++++-----
 .../poly_collection/detail/split_segment.hpp  | 25 ++++-
 2 files changed, 91 insertions(+), 25 deletions(-)

diff --git a/include/boost/poly_collection/detail/segment.hpp b/include/boost/poly_collection/detail/segment.hpp
index a080839..1e1926c 100644
--- a/include/boost/poly_collection/detail/segment.hpp
+++ b/include/boost/poly_collection/detail/segment.hpp
@@ -115,33 +115,52 @@ public:
   template<typename U>
   std::size_t          max_size()const noexcept
                          {return impl<U>().nv_max_size();}
-  void                 reserve(std::size_t n){filter(impl().reserve(n));}
+  void                 reserve(std::size_t n)
+  {
+    sentinel_guard g{*this};
+    filter(g,impl().reserve(n));
+  }
   template<typename U>
-  void                 reserve(std::size_t n){filter(impl<U>().nv_reserve(n));}
+  void                 reserve(std::size_t n)
+  {
+    sentinel_guard g{*this};
+    filter(g,impl<U>().nv_reserve(n));
+  }
   std::size_t          capacity()const noexcept{return impl().capacity();}
   template<typename U>
   std::size_t          capacity()const noexcept
                          {return impl<U>().nv_capacity();}
-  void                 shrink_to_fit(){filter(impl().shrink_to_fit());}
+  void                 shrink_to_fit()
+  {
+    sentinel_guard g{*this};
+    filter(g,impl().shrink_to_fit());
+  }
   template<typename U>
-  void                 shrink_to_fit(){filter(impl<U>().nv_shrink_to_fit());}
+  void                 shrink_to_fit()
+  {
+    sentinel_guard g{*this};
+    filter(g,impl<U>().nv_shrink_to_fit());
+  }
 
   template<typename U,typename Iterator,typename... Args>
   base_iterator emplace(Iterator it,Args&&... args)
   {
-    return filter(impl<U>().nv_emplace(it,std::forward<Args>(args)...));
+    sentinel_guard g{*this};
+    return filter(g,impl<U>().nv_emplace(it,std::forward<Args>(args)...));
   }
 
   template<typename U,typename... Args>
   base_iterator emplace_back(Args&&... args)
   {
-    return filter(impl<U>().nv_emplace_back(std::forward<Args>(args)...));
+    sentinel_guard g{*this};
+    return filter(g,impl<U>().nv_emplace_back(std::forward<Args>(args)...));
   }
 
   template<typename T>
   base_iterator push_back(const T& x)
   {
-    return filter(impl().push_back(subaddress(x)));
+    sentinel_guard g{*this};
+    return filter(g,impl().push_back(subaddress(x)));
   }
 
   template<
@@ -152,26 +171,30 @@ public:
   >
   base_iterator push_back(T&& x)
   {
-    return filter(impl().push_back_move(subaddress(x)));
+    sentinel_guard g{*this};
+    return filter(g,impl().push_back_move(subaddress(x)));
   }
 
   template<typename U>
   base_iterator push_back_terminal(U&& x)
   {
-    return filter(
+    sentinel_guard g{*this};
+    return filter(g,
       impl<typename std::decay<U>::type>().nv_push_back(std::forward<U>(x)));
   }
 
   template<typename T>
   base_iterator insert(const_base_iterator it,const T& x)
   {
-    return filter(impl().insert(it,subaddress(x)));
+    sentinel_guard g{*this};
+    return filter(g,impl().insert(it,subaddress(x)));
   }
 
   template<typename U,typename T>
   base_iterator insert(const_iterator<U> it,const T& x)
   {
-    return filter(
+    sentinel_guard g{*this};
+    return filter(g,
       impl<U>().nv_insert(it,*static_cast<const U*>(subaddress(x))));
   }
 
@@ -183,7 +206,8 @@ public:
   >
   base_iterator insert(const_base_iterator it,T&& x)
   {
-    return filter(impl().insert_move(it,subaddress(x)));
+    sentinel_guard g{*this};
+    return filter(g,impl().insert_move(it,subaddress(x)));
   }
 
   template<
@@ -194,14 +218,16 @@ public:
   >
   base_iterator insert(const_iterator<U> it,T&& x)
   {
-    return filter(
+    sentinel_guard g{*this};
+    return filter(g,
       impl<U>().nv_insert(it,std::move(*static_cast<U*>(subaddress(x)))));
   }
 
   template<typename InputIterator>
   base_iterator insert(InputIterator first,InputIterator last)
   {
-    return filter(
+    sentinel_guard g{*this};
+    return filter(g,
       impl<typename std::iterator_traits<InputIterator>::value_type>().
         nv_insert(first,last));
   }
@@ -220,41 +246,48 @@ public:
   base_iterator insert(
     const_iterator<U> it,InputIterator first,InputIterator last)
   {
-    return filter(impl<U>().nv_insert(it,first,last));
+    sentinel_guard g{*this};
+    return filter(g,impl<U>().nv_insert(it,first,last));
   }
 
   base_iterator erase(const_base_iterator it)
   {
-    return filter(impl().erase(it));
+    sentinel_guard g{*this};
+    return filter(g,impl().erase(it));
   }
 
   template<typename U>
   base_iterator erase(const_iterator<U> it)
   {
-    return filter(impl<U>().nv_erase(it));
+    sentinel_guard g{*this};
+    return filter(g,impl<U>().nv_erase(it));
   }
 
   base_iterator erase(const_base_iterator f,const_base_iterator l)
   {
-    return filter(impl().erase(f,l));
+    sentinel_guard g{*this};
+    return filter(g,impl().erase(f,l));
   }
 
   template<typename U>
   base_iterator erase(const_iterator<U> f,const_iterator<U> l)
   {
-    return filter(impl<U>().nv_erase(f,l));
+    sentinel_guard g{*this};
+    return filter(g,impl<U>().nv_erase(f,l));
   }
 
   template<typename Iterator>
   base_iterator erase_till_end(Iterator f)
   {
-    return filter(impl().erase_till_end(f));
+    sentinel_guard g{*this};
+    return filter(g,impl().erase_till_end(f));
   }
 
   template<typename Iterator>
   base_iterator erase_from_begin(Iterator l)
   {
-    return filter(impl().erase_from_begin(l));
+    sentinel_guard g{*this};
+    return filter(g,impl().erase_from_begin(l));
   }
   
   void                 clear()noexcept{filter(impl().clear());}
@@ -299,9 +332,25 @@ private:
   template<typename T>
   static const void*   subaddress(const T& x){return Model::subaddress(x);}
 
+  /* resyncs the sentinel if a modifier exits via an exception */
+
+  struct sentinel_guard
+  {
+    sentinel_guard(segment& x)noexcept:px{&x}{}
+    sentinel_guard(const sentinel_guard&)=delete;
+    sentinel_guard& operator=(const sentinel_guard&)=delete;
+    ~sentinel_guard(){if(px)px->set_sentinel();}
+
+    segment* px;
+  };
+
   void          set_sentinel(){filter(impl().end());}
   void          filter(base_sentinel x){snt=x;}
   base_iterator filter(const range& x){snt=x.second;return x.first;}
+  void          filter(sentinel_guard& g,base_sentinel x)
+                  {g.px=nullptr;filter(x);}
+  base_iterator filter(sentinel_guard& g,const range& x)
+                  {g.px=nullptr;return filter(x);}
 
   segment_backend_unique_ptr pimpl;
   base_sentinel              snt;
diff --git a/include/boost/poly_collection/detail/split_segment.hpp b/include/boost/poly_collection/detail/split_segment.hpp
index e8bd15d..6a05e5d 100644
--- a/include/boost/poly_collection/detail/split_segment.hpp
+++ b/include/boost/poly_collection/detail/split_segment.hpp
@@ -233,8 +233,9 @@ public:
 
   range nv_erase(const_iterator p)
   {
+    auto it=s.erase(iterator_from(p));
     pop_index_entry();
-    return range_from(s.erase(iterator_from(p)));
+    return range_from(it);
   }
     
   virtual range erase(const_base_iterator first,const_base_iterator last)
@@ -302,6 +303,7 @@ private:
     i{{},typename index::allocator_type{al}}
   {
     s.reserve(1); /* --> s.data()!=nullptr */
+    i.reserve(s.capacity()+1);
     build_index();
   }
 
@@ -309,6 +311,7 @@ private:
     s{std::move(s_)},i{{},typename index::allocator_type{s.get_allocator()}}
   {
     s.reserve(1); /* --> s.data()!=nullptr */
+    i.reserve(s.capacity()+1);
     build_index();
   }
 
@@ -337,9 +340,9 @@ private:
       store ss{s.get_allocator()};
       ss.emplace_back(std::forward<Args>(args)...);
       expand();
-      s.emplace(s.begin()+n,std::move(ss.front()));
+      store_emplace(s.begin()+n,std::move(ss.front()));
     }
-    else s.emplace(s.begin()+n,std::forward<Args>(args)...);
+    else store_emplace(s.begin()+n,std::forward<Args>(args)...);
     push_index_entry();
     return range_from(static_cast<std::size_t>(n));
   }
@@ -364,6 +367,20 @@ private:
     else return p;
   }
 
+  /* s.emplace may change s even if it throws: the index must follow */
+
+  template<typename... Args>
+  void store_emplace(store_iterator p,Args&&... args)
+  {
+    try{
+      s.emplace(p,std::forward<Args>(args)...);
+    }
+    catch(...){
+      rebuild_index();
+      throw;
+    }
+  }
+
   void expand()
   {
     std::size_t c=
@@ -475,7 +492,7 @@ private:
     std::size_t n=0;
     for(;first!=last;++first,++n,++p){
       p=prereserve(p);
-      s.emplace(iterator_from(p),*first);
+      store_emplace(iterator_from(p),*first);
       push_index_entry();
     }
     return range_from(iterator_from(p-n));
-- 
2.43.0


From 1d8d1eea732baba0b49a90ee7db9e4891793026b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:22:57 +0000
Subject: [PATCH 5/7] fix: leave source valid when allocator-extended move
 construction throws

---
 include/boost/poly_collection/detail/type_info_map.hpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/include/boost/poly_collection/detail/type_info_map.hpp b/include/boost/poly_collection/detail/type_info_map.hpp
index f983b82..46eac58 100644
--- a/include/boost/poly_collection/detail/type_info_map.hpp
+++ b/include/boost/poly_collection/detail/type_info_map.hpp
@@ -81,7 +81,8 @@ public:
   type_info_map(const type_info_map& x,const allocator_type& al):
     map{make(x.map,al)},cache{make<cache_type>(al)}
     {build_cache(x.cache);}
-  type_info_map(type_info_map&& x,const allocator_type& al):
+  type_info_map(type_info_map&& x,const allocator_type& al)
+  try:
     map{make(std::move(x.map),al)},
     cache{
       al==allocator_type{x.map.get_allocator()}&&x.map.empty()?
@@ -95,6 +96,11 @@ public:
     x.map.clear();
     x.cache.clear();
   }
+  catch(...){
+    x.map.clear();
+    x.cache.clear();
+    throw;
+  }
 
   type_info_map& operator=(const type_info_map& x)
   {
-- 
2.43.0


From 1820256fa1eac3e1267e5a060fb74af23eadb13e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:19:26 +0000
Subject: [PATCH 6/7] fix: copy assignment leaves the type lookup cache with
 the old allocator

The cache was replaced through a move assignment, which does not propagate
the allocator when only propagate_on_container_copy_assignment holds: memory
of the assigned collection kept coming from (and depending on) its former
allocator.
---
 include/boost/poly_collection/detail/type_info_map.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/boost/poly_collection/detail/type_info_map.hpp b/include/boost/poly_collection/detail/type_info_map.hpp
index 46eac58..1b1fb65 100644
--- a/include/boost/poly_collection/detail/type_info_map.hpp
+++ b/include/boost/poly_collection/detail/type_info_map.hpp
@@ -106,8 +106,8 @@ public:
   {
     if(this!=&x)try{
       map=x.map;
-      cache=make<cache_type>(map.get_allocator());
-      build_cache(x.cache);
+      cache=x.cache; /* allocator propagated (or not) as with map */
+      rebuild_cache();
     }
     catch(...){
       map.clear();
-- 
2.43.0


From e7fcf2e3386cd83b6d7bc4ede7f855fc6a083289 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:52:29 +0000
Subject: [PATCH 7/7] fix: function_collection uses the callable's own unary
 operator&

A callable overloading unary & (as expression-template functors do) was not
referred to by its address. Use boost::addressof as elsewhere.
---
 include/boost/poly_collection/detail/callable_wrapper.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/boost/poly_collection/detail/callable_wrapper.hpp b/include/boost/poly_collection/detail/callable_wrapper.hpp
index 9b339db..111674b 100644
--- a/include/boost/poly_collection/detail/callable_wrapper.hpp
+++ b/include/boost/poly_collection/detail/callable_wrapper.hpp
@@ -13,6 +13,7 @@
 #pragma once
 #endif
 
+#include <boost/core/addressof.hpp>
 #include <boost/poly_collection/detail/is_invocable.hpp>
 #include <functional>
 #include <type_traits>
@@ -41,7 +42,8 @@ public:
       is_invocable_r<R,Callable,Args...>::value
     >::type* =nullptr
   >
-  explicit callable_wrapper(Callable& x)noexcept:pt{info(x)},px{&x}{}
+  explicit callable_wrapper(Callable& x)noexcept:
+    pt{info(x)},px{boost::addressof(x)}{}
   callable_wrapper(const callable_wrapper&)=default;
   callable_wrapper& operator=(const callable_wrapper&)=default;
 
-- 
2.43.0

