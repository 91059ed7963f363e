From 371e431a159102664b74c5ce003a38a86c16cd0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:42 +0000
Subject: [PATCH 01/48] fix: huge_page_allocator keeps its free list intact and
 survives a missing pool

Returning a block behind the last free block dropped the rest of the free list,
merging with the preceding free block recorded the wrong size, the list was left
unterminated when it had been empty, pools of 2 GB and more overflowed int, and a
pool that could not be opened was dereferenced.  The file did not compile since
OVXX_THROW is gone.
---
 src/ovxx/huge_page_allocator.cpp | 20 +++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/src/ovxx/huge_page_allocator.cpp b/src/ovxx/huge_page_allocator.cpp
index f3b4d01..8a2c983 100644
--- a/src/ovxx/huge_page_allocator.cpp
+++ b/src/ovxx/huge_page_allocator.cpp
@@ -48,7 +48,7 @@ char *open_huge_pages(char const* mem_file, int pages)
   // Delete file so that huge pages will get freed on program termination.
   remove(mem_file);
 	
-  mem_addr = (char *)mmap(0, pages * 0x1000000,
+  mem_addr = (char *)mmap(0, pages * std::size_t(0x1000000),
 			  PROT_READ | PROT_WRITE, MAP_SHARED, fmem, 0);
 
   if (mem_addr == MAP_FAILED)
@@ -61,17 +61,18 @@ char *open_huge_pages(char const* mem_file, int pages)
 
     // Touch each of the large pages.
     for (int i=0; i<pages; ++i)
-      mem_addr[i*0x1000000 + 0x0800000] = (char) 0;
+      mem_addr[i*std::size_t(0x1000000) + 0x0800000] = (char) 0;
 
   return mem_addr;
 }
 
 huge_page_allocator::huge_page_allocator(char const*file, int pages)
   : pool_(open_huge_pages(file, pages)),
-    size_(pages * 0x1000000),
+    size_(pool_ ? pages * std::size_t(0x1000000) : 0),
     free_(pool_),
     total_avail_(size_)
 {
+  if (!pool_) return; // No memory: any attempt to allocate will fail.
   *(char**)free_ = 0; // next block
   ((std::size_t*)free_)[1] = size_;
 }
@@ -98,7 +99,7 @@ void *huge_page_allocator::allocate(std::size_t size)
   }
 
   if (ptr == 0)
-    OVXX_THROW(std::bad_alloc());
+    OVXX_DO_THROW(std::bad_alloc());
 
   total_avail_ -= size;
 
@@ -147,9 +148,10 @@ void huge_page_allocator::deallocate(void *return_ptr, std::size_t size)
     ptr   = *(char**)ptr;
   }
 
-  if (ptr == 0)
+  if (ptr == 0 && prev == 0)
   {
     // Free list empty.
+    *(char**)(return_ptr) = 0;
     ((std::size_t*)(return_ptr))[1] = size;
     free_ = (char*)return_ptr;
   }
@@ -174,8 +176,8 @@ void huge_page_allocator::deallocate(void *return_ptr, std::size_t size)
   }
   else
   {
-    assert(ptr-(char*)return_ptr >= (ptrdiff_t)size);
-    if ((ptrdiff_t)size == ptr - (char*)return_ptr)
+    assert(ptr == 0 || ptr-(char*)return_ptr >= (ptrdiff_t)size);
+    if (ptr && (ptrdiff_t)size == ptr - (char*)return_ptr)
     {
       // Insert in middle of free list, merge
       *(char**)(return_ptr)      = *(char**)ptr;
@@ -183,7 +185,7 @@ void huge_page_allocator::deallocate(void *return_ptr, std::size_t size)
     }
     else
     {
-      // Insert in middle of free list, no merge
+      // Insert in middle or at end of free list, no merge
       *(char**)(return_ptr)      = ptr;
       ((std::size_t*)(return_ptr))[1] = size;
     }
@@ -194,7 +196,7 @@ void huge_page_allocator::deallocate(void *return_ptr, std::size_t size)
     {
       // Merge with prev.
       *(char**)(prev) = *(char**)return_ptr;
-      ((std::size_t*)(prev))[1] = size + ((std::size_t*)(return_ptr))[1];
+      ((std::size_t*)(prev))[1] = prev_size + ((std::size_t*)(return_ptr))[1];
     }
     else
       // No merge with prev.
-- 
2.43.0


From e9c64abeef86aaa0f753b346171d8f72713e990b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:42 +0000
Subject: [PATCH 02/48] fix: sub-domains with a negative stride intersect with
 distributed patches

---
 src/ovxx/domain_utils.hpp | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/ovxx/domain_utils.hpp b/src/ovxx/domain_utils.hpp
index 6850044..70383f2 100644
--- a/src/ovxx/domain_utils.hpp
+++ b/src/ovxx/domain_utils.hpp
@@ -145,6 +145,15 @@ intersect(Domain<1> const &dom1,
     }
     else return false;
   }
+  else if (dom2.stride() < 0)
+  {
+    // Intersect the same indices in ascending order, then turn the
+    // result around.
+    Domain<1> ascending(dom2.impl_last(), -dom2.stride(), dom2.size());
+    if (!intersect(dom1, ascending, res)) return false;
+    res = Domain<1>(res.impl_last(), dom2.stride(), res.size());
+    return true;
+  }
   else
   {
     index_type first1  = dom1.first();
@@ -272,7 +281,8 @@ inline Domain<1>
 subset_from_intr(Domain<1> const &dom,
 		 Domain<1> const &intr)
 {
-  return Domain<1>((intr.first() - dom.first()) / dom.stride(),
+  stride_type offset = intr.first() - dom.first();
+  return Domain<1>(offset / dom.stride(),
 		   1,
 		   intr.size());
 }
-- 
2.43.0


From 4c7f8497b4e9dd2ac0a2786187766fbe1c6bd955 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:43 +0000
Subject: [PATCH 03/48] fix: maps of slices keep their distributions and
 processors, patch and index queries reach the map

---
 src/ovxx/expr/sliced.hpp                 | 6 ++++--
 src/ovxx/parallel/map_utils.hpp          | 8 ++++----
 src/ovxx/parallel/support.hpp            | 2 +-
 src/ovxx/parallel/transpose_map_decl.hpp | 2 +-
 src/vsip/impl/parallel.hpp               | 2 +-
 src/vsip/impl/replicated_map.hpp         | 5 +++++
 6 files changed, 16 insertions(+), 9 deletions(-)

diff --git a/src/ovxx/expr/sliced.hpp b/src/ovxx/expr/sliced.hpp
index cad73b4..f0899ee 100644
--- a/src/ovxx/expr/sliced.hpp
+++ b/src/ovxx/expr/sliced.hpp
@@ -30,7 +30,8 @@ template <dimension_type D, dimension_type S>
 struct sliced_map<Replicated_map<D>, S>
 {
   typedef Replicated_map<D - 1> type;
-  static type convert_map(Replicated_map<D> const&, index_type) { return type();}
+  static type convert_map(Replicated_map<D> const &map, index_type)
+  { return type(map.processor_set());}
 }; 
 
 template <dimension_type D, dimension_type S>
@@ -78,7 +79,8 @@ template <dimension_type D, dimension_type S1, dimension_type S2>
 struct sliced2_map<Replicated_map<D>, S1, S2>
 {
   typedef Replicated_map<D - 2> type;
-  static type convert_map(Replicated_map<D> const&, index_type, index_type) { return type();}
+  static type convert_map(Replicated_map<D> const &map, index_type, index_type)
+  { return type(map.processor_set());}
 }; 
 
 template <dimension_type S1, dimension_type S2>
diff --git a/src/ovxx/parallel/map_utils.hpp b/src/ovxx/parallel/map_utils.hpp
index 203b1fa..054d5da 100644
--- a/src/ovxx/parallel/map_utils.hpp
+++ b/src/ovxx/parallel/map_utils.hpp
@@ -92,7 +92,7 @@ struct map_project_1<1, Map<D0, D1, D2> >
 					 fix_sb_1*num_sb_2      + sb_2);
     }
 
-    return type(pvec, copy_dist<D1>(map, 0), copy_dist<D2>(map, 2));
+    return type(pvec, copy_dist<D0>(map, 0), copy_dist<D2>(map, 2));
   }
 };
 
@@ -136,7 +136,7 @@ struct map_project_1<2, Map<D0, D1, D2> >
 					 fix_sb_2);
     }
 
-    return type(pvec, copy_dist<D1>(map, 0), copy_dist<D2>(map, 1));
+    return type(pvec, copy_dist<D0>(map, 0), copy_dist<D1>(map, 1));
   }
 };
 
@@ -185,7 +185,7 @@ struct map_project_2<0, 1, Map<D0, D1, D2> >
 template <typename D0, typename D1, typename D2>
 struct map_project_2<0, 2, Map<D0, D1, D2> >
 {
-  typedef Map<D2> type;
+  typedef Map<D1> type;
 
   static type project(Map<D0, D1, D2> const& map,
 		      index_type idx0,
@@ -227,7 +227,7 @@ struct map_project_2<0, 2, Map<D0, D1, D2> >
 template <typename D0, typename D1, typename D2>
 struct map_project_2<1, 2, Map<D0, D1, D2> >
 {
-  typedef Map<D2> type;
+  typedef Map<D0> type;
 
   static type project(Map<D0, D1, D2> const& map,
 		      index_type idx1,
diff --git a/src/ovxx/parallel/support.hpp b/src/ovxx/parallel/support.hpp
index 4526ec5..0eee988 100644
--- a/src/ovxx/parallel/support.hpp
+++ b/src/ovxx/parallel/support.hpp
@@ -159,7 +159,7 @@ block_patch_from_global_index(B const &block, Index<D> const &idx)
   for (dimension_type d = 0; d < D; ++d)
     OVXX_PRECONDITION(idx[d] < block.size(D, d));
 
-  return block.map().template impl_subblock_from_global_index<D>(idx);
+  return block.map().template impl_patch_from_global_index<D>(idx);
 }
 
 template <typename B>
diff --git a/src/ovxx/parallel/transpose_map_decl.hpp b/src/ovxx/parallel/transpose_map_decl.hpp
index 558eec9..26a6802 100644
--- a/src/ovxx/parallel/transpose_map_decl.hpp
+++ b/src/ovxx/parallel/transpose_map_decl.hpp
@@ -43,7 +43,7 @@ public:
   { return map_.distribution(parent_dim(dim));}
 
   length_type num_subblocks(dimension_type dim) const VSIP_NOTHROW
-  { return map_.num_subblock(parent_dim(dim));}
+  { return map_.num_subblocks(parent_dim(dim));}
 
   length_type cyclic_contiguity(dimension_type dim) const VSIP_NOTHROW
   { return map_.cyclic_contiguity(parent_dim(dim));}
diff --git a/src/vsip/impl/parallel.hpp b/src/vsip/impl/parallel.hpp
index ee91bde..8aa460f 100644
--- a/src/vsip/impl/parallel.hpp
+++ b/src/vsip/impl/parallel.hpp
@@ -276,7 +276,7 @@ typename ovxx::enable_if<ovxx::is_view_type<V>::value, index_type>::type
 global_from_local_index(V const &view, dimension_type dim,
 			index_type sb, index_type idx)
 {
-  return ovxx::parallel::block_global_from_local_index(view, dim, sb, idx);
+  return ovxx::parallel::block_global_from_local_index(view.block(), dim, sb, idx);
 }
 
 /// Determine VIEW's global index corresponding to local index L_IDX
diff --git a/src/vsip/impl/replicated_map.hpp b/src/vsip/impl/replicated_map.hpp
index e919d59..4a0ec44 100644
--- a/src/vsip/impl/replicated_map.hpp
+++ b/src/vsip/impl/replicated_map.hpp
@@ -180,6 +180,11 @@ public:
     const VSIP_NOTHROW
   { return 0;}
 
+  template <dimension_type D1>
+  index_type impl_patch_from_global_index(Index<D1> const& /*idx*/)
+    const VSIP_NOTHROW
+  { return 0;}
+
   template <dimension_type D1>
   Domain<D> impl_local_from_global_domain(index_type /*sb*/,
 					  Domain<D1> const& dom)
-- 
2.43.0


From 7f9d930ef886733010c7ecc71bbff591abcb4af2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:40 +0000
Subject: [PATCH 04/48] fix: the subblock domain of a distributed sub-view is
 that of its local view

---
 src/ovxx/parallel/subset_map_decl.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ovxx/parallel/subset_map_decl.hpp b/src/ovxx/parallel/subset_map_decl.hpp
index a1f5f7b..cd6bf88 100644
--- a/src/ovxx/parallel/subset_map_decl.hpp
+++ b/src/ovxx/parallel/subset_map_decl.hpp
@@ -255,7 +255,7 @@ subset_map<D>::subset_map(M const &map, Domain<D> const &dom)
       pvec_.push_back(map.impl_proc_from_rank(sb));
 
       Length<D> par_sb_ext = map.template impl_subblock_extent<D>(sb);
-      Length<D> sb_ext     = par_sb_ext;
+      Length<D> sb_ext     = extent(l_vec[0]);
       parent_sdom_.push_back(domain(par_sb_ext));
       sb_ext_.push_back(sb_ext);
       parent_sb_.push_back(sb);
-- 
2.43.0


From 5390a78f55b754c4d375d82ae4920644d6081812 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:34 +0000
Subject: [PATCH 05/48] fix: processors without a subblock get empty domains
 from every map

---
 src/ovxx/parallel/subset_map_decl.hpp    |  9 ++++++++-
 src/ovxx/parallel/transpose_map_decl.hpp | 12 ++++++------
 src/vsip/impl/replicated_map.hpp         | 20 ++++++++++++++++----
 3 files changed, 30 insertions(+), 11 deletions(-)

diff --git a/src/ovxx/parallel/subset_map_decl.hpp b/src/ovxx/parallel/subset_map_decl.hpp
index cd6bf88..336119d 100644
--- a/src/ovxx/parallel/subset_map_decl.hpp
+++ b/src/ovxx/parallel/subset_map_decl.hpp
@@ -80,6 +80,7 @@ public:
 
   length_type impl_num_patches(index_type sb) const VSIP_NOTHROW
   {
+    if (sb == no_subblock) return 0;
     OVXX_PRECONDITION(sb < this->num_subblocks());
     return sb_patch_gd_[sb].size();
   }
@@ -92,7 +93,11 @@ public:
 
   template <dimension_type D1>
   Domain<D1> impl_subblock_domain(index_type sb) const VSIP_NOTHROW
-  { OVXX_PRECONDITION(sb < this->num_subblocks()); return domain(sb_ext_[sb]);}
+  {
+    if (sb == no_subblock) return empty_domain<D1>();
+    OVXX_PRECONDITION(sb < this->num_subblocks());
+    return domain(sb_ext_[sb]);
+  }
 
   template <dimension_type D1>
   Length<D1> impl_subblock_extent(index_type sb) const VSIP_NOTHROW
@@ -102,6 +107,7 @@ public:
   Domain<D1> impl_global_domain(index_type sb, index_type p)
     const VSIP_NOTHROW
   {
+    if (sb == no_subblock) return empty_domain<D1>();
     OVXX_PRECONDITION(sb < this->num_subblocks());
     OVXX_PRECONDITION(p < this->impl_num_patches(sb));
     return sb_patch_gd_[sb][p];
@@ -111,6 +117,7 @@ public:
   Domain<D1> impl_local_domain (index_type sb, index_type p)
     const VSIP_NOTHROW
   {
+    if (sb == no_subblock) return empty_domain<D1>();
     OVXX_PRECONDITION(sb < this->num_subblocks());
     OVXX_PRECONDITION(p < this->impl_num_patches(sb));
     return sb_patch_ld_[sb][p];
diff --git a/src/ovxx/parallel/transpose_map_decl.hpp b/src/ovxx/parallel/transpose_map_decl.hpp
index 26a6802..4512a2c 100644
--- a/src/ovxx/parallel/transpose_map_decl.hpp
+++ b/src/ovxx/parallel/transpose_map_decl.hpp
@@ -79,7 +79,7 @@ public:
   template <dimension_type D>
   Domain<D> impl_subblock_domain(index_type sb) const VSIP_NOTHROW
   {
-    OVXX_PRECONDITION(sb < this->num_subblocks());
+    OVXX_PRECONDITION(sb < this->num_subblocks() || sb == no_subblock);
     Domain<D> p_dom = map_.template impl_subblock_domain<D>(sb);
     return Domain<D>(p_dom[1], p_dom[0]);
   }
@@ -87,7 +87,7 @@ public:
   template <dimension_type D>
   Length<D> impl_subblock_extent(index_type sb) const VSIP_NOTHROW
   {
-    OVXX_PRECONDITION(sb < this->num_subblocks());
+    OVXX_PRECONDITION(sb < this->num_subblocks() || sb == no_subblock);
     Length<D> p_ext = map_.template impl_subblock_extent<D>(sb);
     return Length<D>(p_ext[1], p_ext[0]);
   }
@@ -96,8 +96,8 @@ public:
   Domain<D> impl_global_domain(index_type sb, index_type p)
     const VSIP_NOTHROW
   {
-    OVXX_PRECONDITION(sb < this->num_subblocks());
-    OVXX_PRECONDITION(p  < this->impl_num_patches(sb));
+    OVXX_PRECONDITION(sb < this->num_subblocks() || sb == no_subblock);
+    OVXX_PRECONDITION(sb == no_subblock || p < this->impl_num_patches(sb));
     Domain<D> p_dom = map_.template impl_global_domain<D>(sb, p);
     return Domain<D>(p_dom[1], p_dom[0]);
   }
@@ -106,8 +106,8 @@ public:
   Domain<D> impl_local_domain (index_type sb, index_type p)
     const VSIP_NOTHROW
   {
-    OVXX_PRECONDITION(sb < this->num_subblocks());
-    OVXX_PRECONDITION(p  < this->impl_num_patches(sb));
+    OVXX_PRECONDITION(sb < this->num_subblocks() || sb == no_subblock);
+    OVXX_PRECONDITION(sb == no_subblock || p < this->impl_num_patches(sb));
     Domain<D> p_dom = map_.template impl_local_domain<D>(sb, p);
     return Domain<D>(p_dom[1], p_dom[0]);
   }
diff --git a/src/vsip/impl/replicated_map.hpp b/src/vsip/impl/replicated_map.hpp
index 4a0ec44..59c5e67 100644
--- a/src/vsip/impl/replicated_map.hpp
+++ b/src/vsip/impl/replicated_map.hpp
@@ -143,14 +143,20 @@ public:
   }
 
   length_type impl_num_patches(index_type sb) const VSIP_NOTHROW
-  { OVXX_PRECONDITION(sb == 0); return 1;}
+  {
+    OVXX_PRECONDITION(sb == 0 || sb == no_subblock);
+    return sb == 0 ? 1 : 0;
+  }
 
   void impl_apply(Domain<D> const& dom) VSIP_NOTHROW
   { dom_ = dom;}
 
   template <dimension_type D1>
   Domain<D1> impl_subblock_domain(index_type sb) const VSIP_NOTHROW
-  { OVXX_PRECONDITION(sb == 0); return dom_;}
+  {
+    OVXX_PRECONDITION(sb == 0 || sb == no_subblock);
+    return sb == 0 ? dom_ : ovxx::empty_domain<D1>();
+  }
 
   template <dimension_type D1>
   ovxx::Length<D1> impl_subblock_extent(index_type sb) const VSIP_NOTHROW
@@ -159,12 +165,18 @@ public:
   template <dimension_type D1>
   Domain<D1> impl_global_domain(index_type sb, index_type patch)
     const VSIP_NOTHROW
-  { OVXX_PRECONDITION(sb == 0 && patch == 0); return dom_;}
+  {
+    OVXX_PRECONDITION((sb == 0 && patch == 0) || sb == no_subblock);
+    return sb == 0 ? dom_ : ovxx::empty_domain<D1>();
+  }
 
   template <dimension_type D1>
   Domain<D1> impl_local_domain (index_type sb, index_type patch)
     const VSIP_NOTHROW
-  { OVXX_PRECONDITION(sb == 0 && patch == 0); return dom_;}
+  {
+    OVXX_PRECONDITION((sb == 0 && patch == 0) || sb == no_subblock);
+    return sb == 0 ? dom_ : ovxx::empty_domain<D1>();
+  }
 
   index_type impl_global_from_local_index(dimension_type /*d*/, index_type sb,
 					  index_type idx)
-- 
2.43.0


From fc076d4d97b4f8bd6800b4c65043c3f550b7d172 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:20 +0000
Subject: [PATCH 06/48] fix: local views of tensor lines are empty on
 processors that do not hold them

---
 src/ovxx/expr/sliced.hpp | 22 ++++++++++++++++------
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/src/ovxx/expr/sliced.hpp b/src/ovxx/expr/sliced.hpp
index f0899ee..ed01164 100644
--- a/src/ovxx/expr/sliced.hpp
+++ b/src/ovxx/expr/sliced.hpp
@@ -320,9 +320,12 @@ public:
   // The total size of a sliced block is the total size of the underlying
   // block, divided by the size of the bound index.
   length_type size() const VSIP_NOTHROW
-  { return block_->size() / block_->size(Block::dim, D1) / block_->size(Block::dim, D2);}
+  {
+    return index1_ == no_index ? 0 :
+      block_->size() / block_->size(Block::dim, D1) / block_->size(Block::dim, D2);
+  }
   length_type size(dimension_type block_d, dimension_type d) const VSIP_NOTHROW
-  { return block_->size(block_d + 2,
+  { return index1_ == no_index ? 0 : block_->size(block_d + 2,
 		      ovxx::detail::compare<dimension_type, D1>() > d     ? d   :
 		      ovxx::detail::compare<dimension_type, D2>() > (d+1) ? d+1 : d+2);
   }
@@ -558,10 +561,17 @@ get_local_block(expr::Sliced2<B, D1, D2> const &block)
   typedef expr::Sliced2<typename distributed_local_block<B>::type, D1, D2>
     local_block_type;
 
-  index_type idx1 = block.block().map().
-    impl_local_from_global_index(D1, block.index1());
-  index_type idx2 = block.block().map().
-    impl_local_from_global_index(D2, block.index2());
+  // This conversion is only valid if the local processor holds
+  // the subblock containing the slice.
+
+  index_type idx1 = no_index, idx2 = no_index;
+  if (block.map().subblock() != no_subblock)
+  {
+    idx1 = block.block().map().
+      impl_local_from_global_index(D1, block.index1());
+    idx2 = block.block().map().
+      impl_local_from_global_index(D2, block.index2());
+  }
 
   return local_block_type(get_local_block(block.block()), idx1, idx2);
 }
-- 
2.43.0


From 993354c3a9604a58b3336726a97cd80602b51cd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:35 +0000
Subject: [PATCH 07/48] fix: 2-D copy from column- to row-major order swapped
 rows and columns

The non-unit-stride branch of the row-major = column-major copy passed the
sizes in the wrong order, so that non-square copies read and wrote outside
of the views and left elements unassigned.
---
 src/ovxx/assign/copy.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ovxx/assign/copy.hpp b/src/ovxx/assign/copy.hpp
index 24bc4bd..f09a850 100644
--- a/src/ovxx/assign/copy.hpp
+++ b/src/ovxx/assign/copy.hpp
@@ -210,7 +210,7 @@ void copy(LHS &lhs, RHS const &rhs, row2_type, col2_type)
   {
     copy(lhs_data.ptr(), lhs_data.stride(0), lhs_data.stride(1),
 	 rhs_data.ptr(), rhs_data.stride(0), rhs_data.stride(1),
-	 lhs.size(2, 1), lhs.size(2, 0));
+	 lhs.size(2, 0), lhs.size(2, 1));
   }
 }
 
-- 
2.43.0


From 21678c97d4766dcc5b8239e071816e467c53ad31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:47 +0000
Subject: [PATCH 08/48] fix: assignment between split-complex matrices of
 different dimension order

---
 src/ovxx/assign/copy.hpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/ovxx/assign/copy.hpp b/src/ovxx/assign/copy.hpp
index f09a850..ee4e07c 100644
--- a/src/ovxx/assign/copy.hpp
+++ b/src/ovxx/assign/copy.hpp
@@ -58,6 +58,18 @@ transpose(T1 *lhs, stride_type lhs_col_stride,
       lhs[r+c*lhs_col_stride] = rhs[r*rhs_row_stride+c];
 }
 
+template <typename T1, typename T2>
+void
+transpose(std::pair<T1*, T1*> const &lhs, stride_type lhs_col_stride,
+	  std::pair<T2 const*, T2 const*> const &rhs, stride_type rhs_row_stride,
+	  length_type lhs_rows, length_type lhs_cols)
+{
+  transpose(lhs.first, lhs_col_stride, rhs.first, rhs_row_stride,
+	    lhs_rows, lhs_cols);
+  transpose(lhs.second, lhs_col_stride, rhs.second, rhs_row_stride,
+	    lhs_rows, lhs_cols);
+}
+
 template <typename T>
 void
 copy(T *lhs, stride_type lhs_stride,
-- 
2.43.0


From 5eed83f0385177189ee55add9e6331495922726a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:26 +0000
Subject: [PATCH 09/48] fix: direct data access with 512-byte alignment was
 taken for unaligned

---
 src/ovxx/layout.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/ovxx/layout.hpp b/src/ovxx/layout.hpp
index b77e075..81f1dfc 100644
--- a/src/ovxx/layout.hpp
+++ b/src/ovxx/layout.hpp
@@ -93,6 +93,7 @@ OVXX_ALIGNED(aligned_32)
 OVXX_ALIGNED(aligned_64)
 OVXX_ALIGNED(aligned_128)
 OVXX_ALIGNED(aligned_256)
+OVXX_ALIGNED(aligned_512)
 OVXX_ALIGNED(aligned_1024)
 
 #undef OVXX_ALIGNED
-- 
2.43.0


From 38e8393c2c0e45870c682f37d9f1036b3e9dcf37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:55 +0000
Subject: [PATCH 10/48] fix: persistent data access wrote nothing back when it
 worked on a copy

---
 src/ovxx/dda/persistent.hpp | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/ovxx/dda/persistent.hpp b/src/ovxx/dda/persistent.hpp
index 6890140..d69a819 100644
--- a/src/ovxx/dda/persistent.hpp
+++ b/src/ovxx/dda/persistent.hpp
@@ -49,7 +49,12 @@ public:
 
   ~Persistent_data() {}
   void sync_in() { if (sync_ & dda::in) backend_.sync_in();}
-  void sync_out() { if (sync_ & dda::out) backend_.sync_out();}
+  void sync_out()
+  {
+    // The backend only copies in (it must not write back when it goes away).
+    if (sync_ & dda::out && backend_.cost())
+      copy_out(integral_constant<bool, is_modifiable_block<B>::value && ct_cost != 0>());
+  }
 
   ptr_type ptr() { return backend_.ptr();}
   const_ptr_type ptr() const { return backend_.ptr();}
@@ -61,6 +66,13 @@ public:
   int cost() const { return backend_.cost();}
 
 private:
+  void copy_out(true_type)
+  {
+    Applied_layout<typename backend_type::layout_type> layout(extent<B::dim>(*block_));
+    block_copy(non_const_ptr(), layout, *block_);
+  }
+  void copy_out(false_type) {}
+
   typename block_traits<B>::ptr_type block_;
   non_const_ptr_type buffer_;
   dda::sync_policy sync_;
-- 
2.43.0


From f0e409d049857fb440c2f7155b2cc5d8dd3e10c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:34 +0000
Subject: [PATCH 11/48] fix: aligned direct access to split-complex data used
 the size of a whole complex element

---
 src/ovxx/dda/accessor.hpp | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/src/ovxx/dda/accessor.hpp b/src/ovxx/dda/accessor.hpp
index 6c97dc3..af8f13f 100644
--- a/src/ovxx/dda/accessor.hpp
+++ b/src/ovxx/dda/accessor.hpp
@@ -93,6 +93,10 @@ is_compatible(B const &block)
   else if (is_packing_aligned<L::packing>::value)
   {
     unsigned alignment = is_packing_aligned<L::packing>::alignment;
+    // the parts of split-complex data are aligned separately
+    std::size_t const element_size =
+      is_complex<value_type>::value && is_split_block<B>::value ?
+      sizeof(value_type) / 2 : sizeof(value_type);
 
     if (!is_aligned_to(block.ptr(), alignment)) return false;
 
@@ -100,12 +104,12 @@ is_compatible(B const &block)
       return block.stride(1, 0) == 1;
     else if (L::dim == 2)
       return block.stride(2, dim1) == 1 &&
-	((block.stride(2, dim0) * sizeof(value_type)) % alignment == 0);
+	((block.stride(2, dim0) * element_size) % alignment == 0);
     else // L::dim == 3
       return 
 	block.stride(3, dim2) == 1 &&
-	(block.stride(3, dim1) * sizeof(value_type)) % alignment == 0 &&
-	(block.stride(3, dim0) * sizeof(value_type)) % alignment == 0;
+	(block.stride(3, dim1) * element_size) % alignment == 0 &&
+	(block.stride(3, dim0) * element_size) % alignment == 0;
   }
   else // any_packing
   {
@@ -170,6 +174,10 @@ is_compatible(B const &block, L const &layout)
   else if (is_aligned(layout_packing(layout)))
   {
     unsigned alignment = layout_alignment(layout);
+    // the parts of split-complex data are aligned separately
+    std::size_t const element_size =
+      is_complex<value_type>::value && is_split_block<B>::value ?
+      sizeof(value_type) / 2 : sizeof(value_type);
 
     if (!is_aligned_to(block.ptr(), alignment))
       return false;
@@ -178,12 +186,12 @@ is_compatible(B const &block, L const &layout)
       return block.stride(1, 0) == 1;
     else if (dim == 2)
       return block.stride(2, dim1) == 1 &&
-	((block.stride(2, dim0) * sizeof(value_type)) % alignment == 0);
+	((block.stride(2, dim0) * element_size) % alignment == 0);
     else // L::dim == 3
       return 
 	block.stride(3, dim2) == 1 &&
-	(block.stride(3, dim1) * sizeof(value_type)) % alignment == 0 &&
-	(block.stride(3, dim0) * sizeof(value_type)) % alignment == 0;
+	(block.stride(3, dim1) * element_size) % alignment == 0 &&
+	(block.stride(3, dim0) * element_size) % alignment == 0;
   }
   else // any_packing
   {
-- 
2.43.0


From ab9f2131dd78608df3be3c3cd9472c2bab732309 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:17 +0000
Subject: [PATCH 12/48] fix: direct access to distributed data in a padded
 layout overran its storage

---
 src/ovxx/dda/accessor.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ovxx/dda/accessor.hpp b/src/ovxx/dda/accessor.hpp
index af8f13f..b0af6e5 100644
--- a/src/ovxx/dda/accessor.hpp
+++ b/src/ovxx/dda/accessor.hpp
@@ -508,7 +508,7 @@ public:
 
   Accessor(B &b, non_const_ptr_type buffer = non_const_ptr_type())
     : block_(b),
-      storage_(b.size(), buffer),
+      storage_(required_buffer_size(b), buffer),
       lblock_(block_domain<B::dim>(b), storage_.ptr()),
       assigner_(lblock_, block_),
       local_access_(lblock_)
-- 
2.43.0


From 4e0db15019ca273b4b3ae9e28b15957e7c982b85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:12 +0000
Subject: [PATCH 13/48] fix: domains of the same single index are equal
 whatever their strides

---
 src/vsip/domain.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/vsip/domain.hpp b/src/vsip/domain.hpp
index 683f6ba..26d59fe 100644
--- a/src/vsip/domain.hpp
+++ b/src/vsip/domain.hpp
@@ -219,8 +219,10 @@ Domain<1>::element_conformant(Domain<1> const& d) const VSIP_NOTHROW
 inline bool 
 Domain<1>::impl_equals(Domain const& d) const VSIP_NOTHROW
 {
+  // The stride of a single index is meaningless.
   return this->length() == d.length() &&
-    ((this->stride() == d.stride() && this->first() == d.first()) ||
+    (((this->stride() == d.stride() || this->length() == 1) &&
+      this->first() == d.first()) ||
      (this->stride() == -d.stride() && 
       this->first() == d.first() + (d.length() - 1) * d.stride()));
 }
-- 
2.43.0


From f1892cf78f8bb5a9e1ba45689c76e662375c903d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:12 +0000
Subject: [PATCH 14/48] fix: division of a domain with negative stride

---
 src/vsip/domain.hpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/vsip/domain.hpp b/src/vsip/domain.hpp
index 26d59fe..149dca7 100644
--- a/src/vsip/domain.hpp
+++ b/src/vsip/domain.hpp
@@ -207,10 +207,17 @@ Domain<1>::Mem(Arg const a) VSIP_NOTHROW	      \
 OVXX_DEF_DOM1_MEMBER(impl_add_in, index_difference_type, index_, +=)
 OVXX_DEF_DOM1_MEMBER(impl_sub_out, index_difference_type, index_, -=)
 OVXX_DEF_DOM1_MEMBER(impl_mul_by, stride_scalar_type, stride_, *=)
-OVXX_DEF_DOM1_MEMBER(impl_div_by, stride_scalar_type, stride_, /=)
 
 #undef OVXX_DEF_DOM1_MEMBER
 
+inline void
+Domain<1>::impl_div_by(stride_scalar_type s) VSIP_NOTHROW
+{
+  // The stride may be negative, so divide in signed arithmetic.
+  this->stride_ /= static_cast<stride_type>(s);
+  assert(this->impl_is_valid());
+}
+
 
 inline bool 
 Domain<1>::element_conformant(Domain<1> const& d) const VSIP_NOTHROW
-- 
2.43.0


From ae9296d1980b31dc71e4c43bda9ba8e70650cf08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:12 +0000
Subject: [PATCH 15/48] fix: the intersection with an empty domain is empty

---
 src/ovxx/domain_utils.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/ovxx/domain_utils.hpp b/src/ovxx/domain_utils.hpp
index 70383f2..4254e9b 100644
--- a/src/ovxx/domain_utils.hpp
+++ b/src/ovxx/domain_utils.hpp
@@ -133,6 +133,9 @@ intersect(Domain<1> const &dom1,
 {
   OVXX_PRECONDITION(dom1.stride() == 1);
 
+  // The last index of an empty domain is not defined.
+  if (dom1.size() == 0 || dom2.size() == 0) return false;
+
   if (dom2.stride() == 1)
   {
     index_type first   = std::max(dom1.first(),     dom2.first());
-- 
2.43.0


From 13a505a53340283ce08d5d81fc66b6a148361dbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:33 +0000
Subject: [PATCH 16/48] fix: line stride of a column-major aligned layout
 constructed from two sizes

---
 src/ovxx/layout.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ovxx/layout.hpp b/src/ovxx/layout.hpp
index 81f1dfc..a4a4b82 100644
--- a/src/ovxx/layout.hpp
+++ b/src/ovxx/layout.hpp
@@ -385,7 +385,7 @@ public:							   \
   {							   \
     size_[0] = size0;					   \
     size_[1] = size1;					   \
-    stride_ = size_[1];					   \
+    stride_ = size_[0];					   \
     if (stride_ % A != 0) stride_ += (A - stride_%A);	   \
   }							   \
 							   \
-- 
2.43.0


From b685706bab2e5b542f9f9685d16de1e4f98839e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:33 +0000
Subject: [PATCH 17/48] fix: total size of an aligned layout without lines

---
 src/ovxx/layout.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/ovxx/layout.hpp b/src/ovxx/layout.hpp
index a4a4b82..cbe72e3 100644
--- a/src/ovxx/layout.hpp
+++ b/src/ovxx/layout.hpp
@@ -353,7 +353,8 @@ public:							   \
   length_type size(dimension_type d) const		   \
   { return size_[d];}					   \
   length_type total_size() const			   \
-  { return stride_ * size_[0] - (stride_-size_[1]);}	   \
+  { return size_[0] == 0 ? 0 :				   \
+      stride_ * size_[0] - (stride_-size_[1]);}		   \
 							   \
 private:						   \
   length_type size_[2];					   \
@@ -410,7 +411,8 @@ public:							   \
   length_type size(dimension_type d) const		   \
   { return size_[d];}					   \
   length_type total_size() const			   \
-  { return stride_ * size_[1] - (stride_-size_[0]);}	   \
+  { return size_[1] == 0 ? 0 :				   \
+      stride_ * size_[1] - (stride_-size_[0]);}		   \
 							   \
 private:						   \
   length_type size_[2];					   \
-- 
2.43.0


From 8e97864cdd6cddf729fa690d06c3a727f3bc46f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:34 +0000
Subject: [PATCH 18/48] fix: sums of 4096 or more single-precision elements
 ignored strides and imaginary parts

---
 src/ovxx/reductions/reductions.hpp | 89 +++---------------------------
 1 file changed, 9 insertions(+), 80 deletions(-)

diff --git a/src/ovxx/reductions/reductions.hpp b/src/ovxx/reductions/reductions.hpp
index b61caf2..e08e3f3 100644
--- a/src/ovxx/reductions/reductions.hpp
+++ b/src/ovxx/reductions/reductions.hpp
@@ -131,66 +131,6 @@ template<> struct is_summation<Sum_sq_value> { static bool const value = true;};
 template<> struct is_summation<Mean_value> { static bool const value = true;};
 template<> struct is_summation<Mean_magsq_value> { static bool const value = true;};
 
-// Are intermediate values squared before summing?
-template <template <typename> class R>
-struct is_sum_squared_based { static bool const value = false;};
-
-template<> struct is_sum_squared_based<Sum_sq_value> { static bool const value = true;};
-template<> struct is_sum_squared_based<Mean_magsq_value> { static bool const value = true;};
-
-// Is the result averaged after summing?
-template <template <typename> class R>
-struct is_mean_based { static bool const value = false;};
-
-template<> struct is_mean_based<Mean_value> { static bool const value = true;};
-template<> struct is_mean_based<Mean_magsq_value> { static bool const value = true;};
-
-// Get either only the real part, or both real and imaginary parts, depending
-// on the destination value type.
-template <typename T1, typename T2>
-struct extract
-{
-  static void apply(T1 const& src, T2& dst) { dst = src;}
-};
-
-template <typename T1, typename T2>
-struct extract<complex<T1>, T2>
-{
-  static void apply(complex<T1> const& src, T2& dst) { dst = src.real();}
-};
-
-template <template <typename> class R, typename T>
-T partial_sum(T const *data, std::ptrdiff_t offset, length_type len)
-{
-  T result = T();
-  data += offset;
-  if (is_sum_squared_based<R>::value)
-    for (index_type i = 0; i < len; ++i)
-      result += data[i]*data[i];
-  else
-    for (index_type i = 0; i < len; ++i)
-      result += data[i];
-  return result;
-}
-
-template <template <typename> class R, typename T>
-complex<T> partial_sum(std::pair<T const*, T const*> const &data, std::ptrdiff_t offset, length_type len)
-{
-  complex<T> result = complex<T>();
-  if (is_sum_squared_based<R>::value)
-    for (index_type i = 0; i < len; ++i)
-    {
-      complex<T> val = 
-        complex<T>(data.first[i + offset], data.second[i + offset]);
-      result += val*val;
-    }
-  else
-    for (index_type i = 0; i < len; ++i)
-      result += complex<T>(data.first[i + offset], data.second[i + offset]);
-
-  return result;
-}
-
 } // namespace ovxx::reduction
 
 template <template <typename> class R, typename V>
@@ -275,29 +215,18 @@ struct Evaluator<op::reduce<R>, be::generic,
       // them into smaller blocks and saving intermediate results.  This avoids
       // accuracy issues related to round-off error when single-precision
       // is used.
-      length_type const subblocks = length % max_length ?
-        length / max_length + 1 : length / max_length;
-      length_type const last_subblock_size = length % max_length ?
-        length % max_length : max_length;
-
-      vsip::dda::Data<B, vsip::dda::in> data(a);
+      typedef typename B::value_type V;
+      typename R<V>::accum_type state = R<V>::initial();
 
-      typename B::value_type result = 0;
-      index_type sb = 0;
-      for (; sb < subblocks - 1; ++sb)
+      for (index_type first = 0; first < length; first += max_length)
       {
-        result += partial_sum<R>(data.ptr(), sb * max_length, max_length);
+	index_type const last = std::min(first + max_length, length);
+	typename R<V>::accum_type partial = R<V>::initial();
+	for (index_type i = first; i < last; ++i)
+	  partial = R<V>::update(partial, a.get(i));
+	state += partial;
       }
-      result += partial_sum<R>(data.ptr(), sb * max_length, last_subblock_size);
-
-      // Partial sums are accumlated in the view's natural type, even
-      // for magnitude-of-squared values where the imaginary part is zero.
-      // The result type is real in those cases, so we extract the desired
-      // part depending on the type being returned.
-      extract<typename B::value_type, T>::apply(result, r);
-
-      if (is_mean_based<R>::value)
-        r /= length;
+      r = R<V>::value(state, length);
     }
   }
 };
-- 
2.43.0


From 48877e365f30c52cded0fdd5027f0f3990b003cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:21 +0000
Subject: [PATCH 19/48] fix: complex<double> dot products were rounded to
 single precision

---
 src/ovxx/lapack/blas.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ovxx/lapack/blas.hpp b/src/ovxx/lapack/blas.hpp
index 8e9ba34..d0cacb9 100644
--- a/src/ovxx/lapack/blas.hpp
+++ b/src/ovxx/lapack/blas.hpp
@@ -70,7 +70,7 @@ F(int n,					\
 {						\
   if (incx < 0) x += incx * (n-1);		\
   if (incy < 0) y += incy * (n-1);		\
-  float __complex__ retn =			\
+  T __complex__ retn =				\
     B(&n,					\
       const_cast<complex<T>*>(x), &incx,	\
       const_cast<complex<T>*>(y), &incy); 	\
-- 
2.43.0


From e9f67520112b3d0d1904d0cad6efba00ee06288c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:21 +0000
Subject: [PATCH 20/48] fix: matrix-vector products via BLAS ignored the
 strides of sub-matrices and reversed vectors

---
 src/ovxx/lapack/blas.hpp | 62 +++++++++++++++++++++++-----------------
 1 file changed, 35 insertions(+), 27 deletions(-)

diff --git a/src/ovxx/lapack/blas.hpp b/src/ovxx/lapack/blas.hpp
index d0cacb9..5086361 100644
--- a/src/ovxx/lapack/blas.hpp
+++ b/src/ovxx/lapack/blas.hpp
@@ -115,6 +115,10 @@ gemv(char transa,				\
      T const *x, int incx,			\
      T beta, T *y, int incy)			\
 {						\
+  int const lenx = transa == 'n' ? n : m;	\
+  int const leny = transa == 'n' ? m : n;	\
+  if (incx < 0) x += incx * (lenx-1);		\
+  if (incy < 0) y += incy * (leny-1);		\
   B(&transa,					\
     &m, &n,					\
     &alpha,					\
@@ -215,6 +219,15 @@ struct traits<complex<double> >
   static char const trans = 'c';
 };
 
+/// Return true if a matrix with stride `minor` in its minor and `major` in
+/// its major dimension, whose minor dimension has `size` elements, is one
+/// that BLAS can address.
+inline bool
+is_valid_matrix(stride_type minor, stride_type major, length_type size)
+{
+  return minor == 1 && major > 0 && static_cast<length_type>(major) >= size;
+}
+
 } // namespace ovxx::blas
 
 namespace dispatcher
@@ -428,11 +441,11 @@ struct Evaluator<op::prod, be::blas,
     dda::Data<B1, dda::in> data_a(a);
     dda::Data<B2, dda::in> data_b(b);
 
-    // Note: gemm is used for row type and b is restricted to unit stride.
-    // gemv is used for col type and can handle any stride for b.
+    // Note: gemv can handle any non-zero stride for b.
     bool is_a_row = is_same<order1_type, row2_type>::value;
-    return is_a_row ? ((data_a.stride(1) == 1) && (data_b.stride(0) == 1))
-                    : (data_a.stride(0) == 1);
+    return data_b.stride(0) != 0 &&
+      (is_a_row ? blas::is_valid_matrix(data_a.stride(1), data_a.stride(0), a.size(2, 1))
+                : blas::is_valid_matrix(data_a.stride(0), data_a.stride(1), a.size(2, 0)));
   }
 
   static void exec(B0 &r, B1 const &a, B2 const &b)
@@ -449,15 +462,13 @@ struct Evaluator<op::prod, be::blas,
 
     if (is_same<order1_type, row2_type>::value)
     {
-      blas::gemm('n', 'n',           // no trans
-		 1,                  // M
-		 a.size(2, 0),       // N
-		 a.size(2, 1),       // K
-		 1.0,                // alpha
-		 data_b.ptr(), data_b.stride(0),
-		 data_a.ptr(), a.size(2, 1),
-		 0.0,                // beta
-		 data_r.ptr(), data_r.stride(0));
+      blas::gemv('t',                            // trans,
+		 a.size(2, 1), a.size(2, 0),     // int m, int n,
+		 1.0,                            // T alpha,
+		 data_a.ptr(), data_a.stride(0), // T *a, int lda,
+		 data_b.ptr(), data_b.stride(0), // T *x, int incx,
+		 0.0,                            // T beta,
+		 data_r.ptr(), data_r.stride(0));// T *y, int incy)
     }
     else if (is_same<order1_type, col2_type>::value)
     {
@@ -497,12 +508,11 @@ struct Evaluator<op::prod, be::blas,
     dda::Data<B1, dda::in> data_a(a);
     dda::Data<B2, dda::in> data_b(b);
 
-    // Note: gemv is used for row type and can handle any stride for a.
-    // gemm is used for col type and a is restricted to unit stride.
-    // 
+    // Note: gemv can handle any non-zero stride for a.
     bool is_b_row = is_same<order2_type, row2_type>::value;
-    return is_b_row ? (data_b.stride(1) == 1) 
-                    : ((data_b.stride(0) == 1) && (data_a.stride(0) == 1));
+    return data_a.stride(0) != 0 &&
+      (is_b_row ? blas::is_valid_matrix(data_b.stride(1), data_b.stride(0), b.size(2, 1))
+                : blas::is_valid_matrix(data_b.stride(0), data_b.stride(1), b.size(2, 0)));
   }
 
   static void exec(B0 &r, B1 const &a, B2 const &b)
@@ -529,15 +539,13 @@ struct Evaluator<op::prod, be::blas,
     }
     else if (is_same<order2_type, col2_type>::value)
     {
-      blas::gemm('n', 'n',           // no trans
-		 1,                  // M
-		 b.size(2, 1),       // N
-		 b.size(2, 0),       // K
-		 1.0,                // alpha
-		 data_a.ptr(), data_a.stride(0),
-		 data_b.ptr(), b.size(2, 0),
-		 0.0,                // beta
-		 data_r.ptr(), data_r.stride(0));
+      blas::gemv('t',                             // trans,
+		 b.size(2, 0), b.size(2, 1),      // int m, int n,
+		 1.0,                             // T alpha,
+		 data_b.ptr(), data_b.stride(1),  // T *a, int lda,
+		 data_a.ptr(), data_a.stride(0),  // T *x, int incx,
+		 0.0,                             // T beta,
+		 data_r.ptr(), data_r.stride(0)); // T *y, int incy)
     }
     else assert(0);
   }
-- 
2.43.0


From 69437b6284e39216e4e41b509f712ee7de179597 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:21 +0000
Subject: [PATCH 21/48] fix: BLAS matrix products were used for operands and
 results BLAS can not address

---
 src/ovxx/lapack/blas.hpp | 36 ++++++++++++++++++++++++++++++------
 1 file changed, 30 insertions(+), 6 deletions(-)

diff --git a/src/ovxx/lapack/blas.hpp b/src/ovxx/lapack/blas.hpp
index 5086361..407ac80 100644
--- a/src/ovxx/lapack/blas.hpp
+++ b/src/ovxx/lapack/blas.hpp
@@ -571,19 +571,31 @@ struct Evaluator<op::prod, be::blas,
     dda::Data<B1, dda::in>::ct_cost == 0 &&
     dda::Data<B2, dda::in>::ct_cost == 0;
 
-  static bool rt_valid(B0 &, B1 const &a, B2 const &b)
+  static bool rt_valid(B0 &r, B1 const &a, B2 const &b)
   {
+    typedef typename get_block_layout<B0>::order_type order0_type;
     typedef typename get_block_layout<B1>::order_type order1_type;
     typedef typename get_block_layout<B2>::order_type order2_type;
 
+    dda::Data<B0, dda::out> data_r(r);
     dda::Data<B1, dda::in> data_a(a);
     dda::Data<B2, dda::in> data_b(b);
 
     bool is_a_row = is_same<order1_type, row2_type>::value;
     bool is_b_row = is_same<order2_type, row2_type>::value;
 
-    return (data_a.stride(is_a_row ? 1 : 0) == 1 &&
-            data_b.stride(is_b_row ? 1 : 0) == 1 );
+    bool is_r_row = is_same<order0_type, row2_type>::value;
+
+    return
+      blas::is_valid_matrix(data_r.stride(is_r_row ? 1 : 0),
+			    data_r.stride(is_r_row ? 0 : 1),
+			    r.size(2, is_r_row ? 1 : 0)) &&
+      blas::is_valid_matrix(data_a.stride(is_a_row ? 1 : 0),
+			    data_a.stride(is_a_row ? 0 : 1),
+			    a.size(2, is_a_row ? 1 : 0)) &&
+      blas::is_valid_matrix(data_b.stride(is_b_row ? 1 : 0),
+			    data_b.stride(is_b_row ? 0 : 1),
+			    b.size(2, is_b_row ? 1 : 0));
   }
 
   static void exec(B0 &r, B1 const &a, B2 const &b)
@@ -657,19 +669,31 @@ struct Evaluator<op::gemp, be::blas,
     !is_split_block<B1>::value &&
     !is_split_block<B2>::value;
 
-  static bool rt_valid(B0 &, T1, B1 const &a, B2 const &b, T2)
+  static bool rt_valid(B0 &r, T1, B1 const &a, B2 const &b, T2)
   {
+    typedef typename get_block_layout<B0>::order_type order0_type;
     typedef typename get_block_layout<B1>::order_type order1_type;
     typedef typename get_block_layout<B2>::order_type order2_type;
 
+    dda::Data<B0, dda::out> data_r(r);
     dda::Data<B1, dda::in> data_a(a);
     dda::Data<B2, dda::in> data_b(b);
 
     bool is_a_row = is_same<order1_type, row2_type>::value;
     bool is_b_row = is_same<order2_type, row2_type>::value;
 
-    return (data_a.stride(is_a_row ? 1 : 0) == 1 &&
-            data_b.stride(is_b_row ? 1 : 0) == 1 );
+    bool is_r_row = is_same<order0_type, row2_type>::value;
+
+    return
+      blas::is_valid_matrix(data_r.stride(is_r_row ? 1 : 0),
+			    data_r.stride(is_r_row ? 0 : 1),
+			    r.size(2, is_r_row ? 1 : 0)) &&
+      blas::is_valid_matrix(data_a.stride(is_a_row ? 1 : 0),
+			    data_a.stride(is_a_row ? 0 : 1),
+			    a.size(2, is_a_row ? 1 : 0)) &&
+      blas::is_valid_matrix(data_b.stride(is_b_row ? 1 : 0),
+			    data_b.stride(is_b_row ? 0 : 1),
+			    b.size(2, is_b_row ? 1 : 0));
   }
 
   static void exec(B0 &r, T1 alpha, B1 const &a, B2 const &b, T2 beta)
-- 
2.43.0


From 2339aee05ba848db6844c2f5342932eab3e2d61c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:20 +0000
Subject: [PATCH 22/48] fix: jmul of mixed-precision values ignored the wider
 type

---
 src/ovxx/math/scalar.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ovxx/math/scalar.hpp b/src/ovxx/math/scalar.hpp
index bb8b48b..b6e467c 100644
--- a/src/ovxx/math/scalar.hpp
+++ b/src/ovxx/math/scalar.hpp
@@ -368,8 +368,8 @@ inline typename Promotion<complex<T1>, complex<T2> >::type
 jmul(complex<T1> t1, complex<T2> t2) VSIP_NOTHROW 
 {
   typename Promotion<complex<T1>, complex<T2> >::type retn(t1);
-  t1 *= conj(t2);
-  return t1;
+  retn *= conj(t2);
+  return retn;
 }
 
 template <typename T1, typename T2>
-- 
2.43.0


From 567e2a3ab8f9786de343f50a56048d713d4d93a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:27 +0000
Subject: [PATCH 23/48] fix: swap of matrices and tensors exchanged elements by
 storage position, not by index

---
 src/vsip/selgen.hpp | 40 +++++++++++++++++++++++++++++++++++++++-
 1 file changed, 39 insertions(+), 1 deletion(-)

diff --git a/src/vsip/selgen.hpp b/src/vsip/selgen.hpp
index 3682879..275008f 100644
--- a/src/vsip/selgen.hpp
+++ b/src/vsip/selgen.hpp
@@ -256,8 +256,11 @@ invclip(const_View<Tin0, Block> v,
 namespace impl
 {
 /// Generic swapping of the content of two blocks.
+template <typename Block1, typename Block2, dimension_type D = Block1::dim>
+struct Swap;
+
 template <typename Block1, typename Block2>
-struct Swap
+struct Swap<Block1, Block2, 1>
 {
   static void apply(Block1 &block1, Block2 &block2)
   {
@@ -268,7 +271,42 @@ struct Swap
       block1.put(i, block2.get(i));
       block2.put(i, tmp);
     }
+  }
+};
+
+template <typename Block1, typename Block2>
+struct Swap<Block1, Block2, 2>
+{
+  static void apply(Block1 &block1, Block2 &block2)
+  {
+    assert(block1.size(2, 0) == block2.size(2, 0));
+    assert(block1.size(2, 1) == block2.size(2, 1));
+    for (index_type i = 0; i != block1.size(2, 0); ++i)
+      for (index_type j = 0; j != block1.size(2, 1); ++j)
+      {
+	typename Block1::value_type tmp = block1.get(i, j);
+	block1.put(i, j, block2.get(i, j));
+	block2.put(i, j, tmp);
+      }
+  }
+};
 
+template <typename Block1, typename Block2>
+struct Swap<Block1, Block2, 3>
+{
+  static void apply(Block1 &block1, Block2 &block2)
+  {
+    assert(block1.size(3, 0) == block2.size(3, 0));
+    assert(block1.size(3, 1) == block2.size(3, 1));
+    assert(block1.size(3, 2) == block2.size(3, 2));
+    for (index_type i = 0; i != block1.size(3, 0); ++i)
+      for (index_type j = 0; j != block1.size(3, 1); ++j)
+	for (index_type k = 0; k != block1.size(3, 2); ++k)
+	{
+	  typename Block1::value_type tmp = block1.get(i, j, k);
+	  block1.put(i, j, k, block2.get(i, j, k));
+	  block2.put(i, j, k, tmp);
+	}
   }
 };
 }
-- 
2.43.0


From 90bfe8a92f8eb2425e5ed51d58c0e43128c7e154 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:27 +0000
Subject: [PATCH 24/48] fix: freqswap along columns of a non-square matrix used
 its number of rows

---
 src/vsip/impl/signal/freqswap.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/vsip/impl/signal/freqswap.hpp b/src/vsip/impl/signal/freqswap.hpp
index 3a58388..53bc6fc 100644
--- a/src/vsip/impl/signal/freqswap.hpp
+++ b/src/vsip/impl/signal/freqswap.hpp
@@ -62,7 +62,7 @@ freqswap(const_Matrix<T1, B1> in, Matrix<T2, B2> out)
   }
   else
   {
-    for (index_type c = 0; c != rows; ++c)
+    for (index_type c = 0; c != cols; ++c)
       freqswap(in.col(c), out.col(c));
   }
   return out;
-- 
2.43.0


From cf281001649cc73766e3b0b9b36bca37bb3ca7f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:27 +0000
Subject: [PATCH 25/48] fix: histograms of integers whose bins are no whole
 number wide

---
 src/vsip/impl/signal/histo.hpp | 36 ++++++++++++++++++++++++++--------
 1 file changed, 28 insertions(+), 8 deletions(-)

diff --git a/src/vsip/impl/signal/histo.hpp b/src/vsip/impl/signal/histo.hpp
index b5660df..6e54b13 100644
--- a/src/vsip/impl/signal/histo.hpp
+++ b/src/vsip/impl/signal/histo.hpp
@@ -13,18 +13,42 @@
 #include <vsip/vector.hpp>
 #include <vsip/matrix.hpp>
 #include <ovxx/dispatch.hpp>
+#include <limits>
 
 namespace vsip
 {
 namespace impl
 {
+/// The number of the bin, not counting the one for values below `min`,
+/// a value in `[min, max)` belongs to.
+template <typename T, bool Integer = std::numeric_limits<T>::is_integer>
+struct Hist_bin
+{
+  static index_type find(T min, T max, length_type num, T value)
+  {
+    T delta = (max - min) / num;
+    return (index_type)((value - min) / delta);
+  }
+};
+
+/// The width of the bins may not be an integer.
+template <typename T>
+struct Hist_bin<T, true>
+{
+  static index_type find(T min, T max, length_type num, T value)
+  {
+    return ((index_type)value - (index_type)min) * num /
+      ((index_type)max - (index_type)min);
+  }
+};
+
 template <typename T>
 inline index_type
-hist_bin(T min, T max, T delta, length_type num, T value)
+hist_bin(T min, T max, length_type num, T value)
 {
   if (value < min) return 0;
   else if (value >= max) return num - 1;
-  else return (index_type)(((value - min) / delta) + 1);
+  else return Hist_bin<T>::find(min, max, num - 2, value) + 1;
 } 
 
 template <dimension_type D>
@@ -37,11 +61,9 @@ struct Histogram_accumulator<1>
   static void exec(T min, T max, HBlock &hist, DBlock const &input)
   {
     length_type num = hist.size();
-    T delta = (max - min) / (num - 2);
-
     for (index_type i = 0; i < input.size(1, 0); ++i)
     {
-      index_type n = hist_bin(min, max, delta, num, input.get(i));
+      index_type n = hist_bin(min, max, num, input.get(i));
       hist.put(n, hist.get(n) + 1);
     }
   }
@@ -54,12 +76,10 @@ struct Histogram_accumulator<2>
   static void exec(T min, T max, HBlock &hist, DBlock const &input)
   {
     length_type num = hist.size();
-    T delta = (max - min) / (num - 2);
-
     for (index_type i = 0; i < input.size(2, 0); ++i)
       for (index_type j = 0; j < input.size(2, 1); ++j)
       {
-	index_type n = hist_bin(min, max, delta, num, input.get(i, j));
+	index_type n = hist_bin(min, max, num, input.get(i, j));
 	hist.put(n, hist.get(n) + 1);
       }
   }
-- 
2.43.0


From 630bbec82df5a5a23fbb5f351e35d22ac08187cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:37 +0000
Subject: [PATCH 26/48] fix: Fftm compares the distribution of the rows or
 columns, not whole domains

---
 src/ovxx/signal/fft.hpp | 20 +++++++++++++++++++-
 1 file changed, 19 insertions(+), 1 deletion(-)

diff --git a/src/ovxx/signal/fft.hpp b/src/ovxx/signal/fft.hpp
index 76deb69..5222bb1 100644
--- a/src/ovxx/signal/fft.hpp
+++ b/src/ovxx/signal/fft.hpp
@@ -130,6 +130,23 @@ protected:
   scalar_type scale_;
 };
 
+/// Return true if the local subblocks of the given blocks cover
+/// the same indices of dimension :literal:`d`.
+template <typename B1, typename B2>
+bool
+same_distribution(B1 const &b1, B2 const &b2, dimension_type d)
+{
+  length_type const length = parallel::subblock_domain<2>(b1)[d].size();
+  if (length != parallel::subblock_domain<2>(b2)[d].size()) return false;
+  if (length == 0) return true;
+  length_type const patches = parallel::block_num_patches(b1);
+  if (patches != parallel::block_num_patches(b2)) return false;
+  for (index_type p = 0; p != patches; ++p)
+    if (parallel::global_domain<2>(b1, p)[d] != parallel::global_domain<2>(b2, p)[d])
+      return false;
+  return true;
+}
+
 } // namespace ovxx::signal::fft
 
 template <dimension_type D,                 //< Dimension
@@ -408,7 +425,8 @@ public:
 	  out.block().map().num_subblocks(axis) != 1)
 	OVXX_DO_THROW(unimplemented(
 	  "Fftm requires dimension along FFT to not be distributed"));
-      if (global_domain(in) != global_domain(out))
+      // (The transformed dimension may have a different length.)
+      if (!fft::same_distribution(in.block(), out.block(), 1 - axis))
 	OVXX_DO_THROW(unimplemented(
 	  "Fftm requires input and output to have same mapping"));
     }
-- 
2.43.0


From b6373c2ce35d3077ef6f21d1462ebd12ff0900b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:48 +0000
Subject: [PATCH 27/48] fix: assignment operators of lu, qr and cholesky solver
 back ends return nothing

---
 src/ovxx/lapack/cholesky.hpp | 1 +
 src/ovxx/lapack/lu.hpp       | 4 +++-
 src/ovxx/lapack/qr.hpp       | 1 +
 3 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/ovxx/lapack/cholesky.hpp b/src/ovxx/lapack/cholesky.hpp
index 6542708..8b3a55f 100644
--- a/src/ovxx/lapack/cholesky.hpp
+++ b/src/ovxx/lapack/cholesky.hpp
@@ -50,6 +50,7 @@ public:
     OVXX_PRECONDITION(length_ == other.length_);
     uplo_ = other.uplo_;
     data_ = other.data_;
+    return *this;
   }
 
   length_type length() const { return length_;}
diff --git a/src/ovxx/lapack/lu.hpp b/src/ovxx/lapack/lu.hpp
index 992057f..2b0c57a 100644
--- a/src/ovxx/lapack/lu.hpp
+++ b/src/ovxx/lapack/lu.hpp
@@ -49,8 +49,10 @@ public:
     // TODO: At present assignment requires dimensions to match,
     //       as views aren't resizable.
     OVXX_PRECONDITION(length_ == other.length_);
-    ipiv_ = other.ipiv_;
     data_ = other.data_;
+    for (index_type i = 0; i < length_; ++i)
+      ipiv_[i] = other.ipiv_[i];
+    return *this;
   }
 
   length_type length()const VSIP_NOTHROW { return length_;}
diff --git a/src/ovxx/lapack/qr.hpp b/src/ovxx/lapack/qr.hpp
index ffe7bb9..5a2b2b8 100644
--- a/src/ovxx/lapack/qr.hpp
+++ b/src/ovxx/lapack/qr.hpp
@@ -73,6 +73,7 @@ public:
       tau_[i] = other.tau_[i];
     for (index_type i = 0; i != work_.size(); ++i)
       work_[i] = other.work_[i];
+    return *this;
   }
 
   length_type rows() const VSIP_NOTHROW { return rows_;}
-- 
2.43.0


From 409c6c786932defb7ed7c0678d4625737588a033 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:57 +0000
Subject: [PATCH 28/48] fix: skinny Q products of QR decompositions of
 rectangular matrices

---
 src/ovxx/lapack/qr.hpp | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/src/ovxx/lapack/qr.hpp b/src/ovxx/lapack/qr.hpp
index 5a2b2b8..accd567 100644
--- a/src/ovxx/lapack/qr.hpp
+++ b/src/ovxx/lapack/qr.hpp
@@ -153,11 +153,16 @@ public:
       mqr_lwork = b.size(0);
     }
 
-    Matrix<T, data_block_type> b_int(b.size(0), b.size(1));
-    parallel::assign_local(b_int, b);
+    // The reflectors make up the full Q (rows, rows). The skinny Q (rows, cols)
+    // consists of its first columns: extend 'b' by zeros where those are the
+    // ones summed over, and drop the excess part of the product otherwise.
+    length_type c_rows = (ps == mat_lside) ? rows_ : b.size(0);
+    length_type c_cols = (ps == mat_lside) ? b.size(1) : rows_;
+    Matrix<T, data_block_type> b_int(c_rows, c_cols, T());
+    parallel::assign_local(b_int(Domain<2>(b.size(0), b.size(1))), b);
 
     int work = lapack::mqr_work<T>(side, trans,
-				   b.size(0), b.size(1), k_reflectors);
+				   c_rows, c_cols, k_reflectors);
     mqr_lwork *= work;
     aligned_array<T> mqr_work(mqr_lwork);
     {
@@ -165,15 +170,15 @@ public:
       dda::Data<data_block_type, dda::in> a_data(data_.block());
       lapack::mqr(side,
 		  trans,
-		  b.size(0), b.size(1),
+		  c_rows, c_cols,
 		  k_reflectors,
 		  a_data.ptr(), rows_,
 		  tau_.get(),
-		  b_data.ptr(), b.size(0),
+		  b_data.ptr(), c_rows,
 		  mqr_work.get(), mqr_lwork);
 		
     }
-    parallel::assign_local(x, b_int);
+    parallel::assign_local(x, b_int(Domain<2>(x.size(0), x.size(1))));
     return true;
   }
 
-- 
2.43.0


From 38d5499d8da71f990c449de6923b438839c2f61e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:57 +0000
Subject: [PATCH 29/48] fix: SVD assignment operator is declared, but never
 defined

---
 src/ovxx/lapack/svd.hpp | 21 +++++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/src/ovxx/lapack/svd.hpp b/src/ovxx/lapack/svd.hpp
index cee3a65..be1fa57 100644
--- a/src/ovxx/lapack/svd.hpp
+++ b/src/ovxx/lapack/svd.hpp
@@ -275,6 +275,27 @@ svd<T>::svd(svd const &other) VSIP_THROW((std::bad_alloc))
   }
 }
 
+template <typename T>
+svd<T> &
+svd<T>::operator=(svd const &other) VSIP_THROW((std::bad_alloc))
+{
+  // TODO: At present assignment requires dimensions to match,
+  //       as views aren't resizable.
+  OVXX_PRECONDITION(m_ == other.m_ && n_ == other.n_);
+  OVXX_PRECONDITION(ust_ == other.ust_ && vst_ == other.vst_);
+  data_ = other.data_;
+  q_ = other.q_;
+  pt_ = other.pt_;
+  for (index_type i = 0; i < p_; ++i)
+  {
+    b_d_[i]  = other.b_d_[i];
+    b_e_[i]  = other.b_e_[i];
+    tauq_[i] = other.tauq_[i];
+    taup_[i] = other.taup_[i];
+  }
+  return *this;
+}
+
 template <typename T>
 template <typename B0, typename B1>
 bool
-- 
2.43.0


From 0995c283df4d25599552ad534bef56904149a5ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:57 +0000
Subject: [PATCH 30/48] fix: ilaenv called without the lengths of its string
 arguments

---
 src/ovxx/lapack/flapack.hpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/ovxx/lapack/flapack.hpp b/src/ovxx/lapack/flapack.hpp
index 6374564..dbed862 100644
--- a/src/ovxx/lapack/flapack.hpp
+++ b/src/ovxx/lapack/flapack.hpp
@@ -9,6 +9,7 @@
 #define ovxx_lapack_flapack_hpp_
 
 #include <vsip/support.hpp>
+#include <cstring>
 
 namespace ovxx
 {
@@ -69,13 +70,16 @@ extern "C"
   void dgetrs_(char*, int*, int*, double*, int*, int*, double*, int*, int*);
   void cgetrs_(char*, int*, int*, std::complex<float>*, int*, int*, std::complex<float>*, int*, int*);
   void zgetrs_(char*, int*, int*, std::complex<double>*, int*, int*, std::complex<double>*, int*, int*);
-  int ilaenv_(int*, char const *, char const *, int*, int*, int*, int*);
+  // Character arguments are accompanied by their lengths.
+  int ilaenv_(int*, char const *, char const *, int*, int*, int*, int*,
+	      std::size_t, std::size_t);
 }
 
 inline int
 ilaenv(int ispec, char const *name, char const *opts, int n1, int n2, int n3, int n4)
 {
-  return ilaenv_(&ispec, name, opts, &n1, &n2, &n3, &n4);
+  return ilaenv_(&ispec, name, opts, &n1, &n2, &n3, &n4,
+		 std::strlen(name), std::strlen(opts));
 }
 
 #define OVXX_LAPACK_INVALID_ARG abort()
-- 
2.43.0


From c1939bf11f1a2b9b5f0590f54b03d59f48731128 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:57 +0000
Subject: [PATCH 31/48] fix: Toeplitz solver reads past the end for systems of
 size 1

---
 src/vsip/impl/solver/toepsol.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/vsip/impl/solver/toepsol.hpp b/src/vsip/impl/solver/toepsol.hpp
index bac4900..c3162ac 100644
--- a/src/vsip/impl/solver/toepsol.hpp
+++ b/src/vsip/impl/solver/toepsol.hpp
@@ -58,6 +58,11 @@ VSIP_THROW((std::bad_alloc, computation_error))
 
   length_type n = t.size();
 
+  if (n == 1)
+  {
+    x.put(0, b.get(0) / ovxx::math::impl_real(t.get(0)));
+    return x;
+  }
 
   typename const_Vector<T, Block0>::subview_type r = t(Domain<1>(1, 1, n-1));
   Vector<T> tmpv(n);
-- 
2.43.0


From 3bdf2847727352ca2899923b9ffc644beddffe5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:57 +0000
Subject: [PATCH 32/48] fix: admit and release of blocks without user storage
 dereference null

---
 src/ovxx/storage/manager.hpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/ovxx/storage/manager.hpp b/src/ovxx/storage/manager.hpp
index 455d71a..b2e54ee 100644
--- a/src/ovxx/storage/manager.hpp
+++ b/src/ovxx/storage/manager.hpp
@@ -206,7 +206,7 @@ public:
   }
   void admit(bool update=true)
   {
-    if (!admitted_ && !use_user_storage_ && update)
+    if (!admitted_ && copies_user_storage() && update)
       for (index_type i = 0; i < host_storage_.size(); ++i)
 	host_storage_.put(i, user_storage_.get(i));
     admitted_ = true;
@@ -214,7 +214,7 @@ public:
   void release(bool update = true)
   {
     if (!admitted_) return;
-    if (!use_user_storage_ && update)
+    if (copies_user_storage() && update)
       for (index_type i = 0; i < host_storage_.size(); ++i)
 	user_storage_.put(i, host_storage_.get(i));
     admitted_ = false;
@@ -315,6 +315,10 @@ public:
   }
 
 private:
+  // Report whether there is user-storage distinct from the host storage.
+  bool copies_user_storage() const
+  { return !use_user_storage_ && user_storage_.format() != no_user_format;}
+
   // Make sure storage is available in the given location,
   // and data is valid.
   void sync(location where) const
-- 
2.43.0


From 312a7cbc1a00575c70c4e6f91365b3ed7a0fffca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:05 +0000
Subject: [PATCH 33/48] fix: is_compatible ignores the second stride of
 three-dimensional descriptors

---
 src/vsip/serialization.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/vsip/serialization.hpp b/src/vsip/serialization.hpp
index 5f71220..3f30b08 100644
--- a/src/vsip/serialization.hpp
+++ b/src/vsip/serialization.hpp
@@ -125,7 +125,9 @@ struct ordering_compatibility<tuple<D0, D1, D2> >
 	 static_cast<length_type>(info.stride[D0]) != info.size[D1])) return false;
     else if (info.dimensions == 3 && 
 	     (info.stride[D0] < 0 ||
-	      static_cast<length_type>(info.stride[D0]) != info.size[D2] * info.size[D1])) return false;
+	      static_cast<length_type>(info.stride[D0]) != info.size[D2] * info.size[D1] ||
+	      info.stride[D1] < 0 ||
+	      static_cast<length_type>(info.stride[D1]) != info.size[D2])) return false;
     return true;
   }
 };
-- 
2.43.0


From 27e8d82f1e12951b4852ed7061c249f11a87c773 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:06 +0000
Subject: [PATCH 34/48] fix: is_compatible ignores the dimension of integral
 descriptors

---
 src/vsip/serialization.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/vsip/serialization.hpp b/src/vsip/serialization.hpp
index 3f30b08..54ce6c3 100644
--- a/src/vsip/serialization.hpp
+++ b/src/vsip/serialization.hpp
@@ -147,7 +147,8 @@ struct block_compatibility<ovxx::Strided<D, T, Layout<D, O, dense, S>, Local_map
     // ...else we require strict type equality
     else if (type_info<T>::value != info.value_type)
       return false;
-    else if (D != info.dimensions)
+
+    if (D != info.dimensions)
       return false; // dimension mismatch
     
     // TODO: support non-dense layouts
-- 
2.43.0


From 84455d56c57444fb417796debf26652430d347a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:06 +0000
Subject: [PATCH 35/48] fix: storage size reported for direct data access
 misses strides and origins

---
 src/ovxx/dda/accessor.hpp | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/src/ovxx/dda/accessor.hpp b/src/ovxx/dda/accessor.hpp
index b0af6e5..ba501aa 100644
--- a/src/ovxx/dda/accessor.hpp
+++ b/src/ovxx/dda/accessor.hpp
@@ -215,6 +215,21 @@ template <> struct cost<copy_access> { static int const value = 2;};
 template <> struct cost<maybe_direct_access> { static int const value = 2;};
 template <> struct cost<remote_access> { static int const value = 10;};
 
+/// Return the number of elements between the first and the last element
+/// of a block, according to its strides.
+template <dimension_type D, typename B>
+length_type spanned_size(B const &block)
+{
+  if (block.size() == 0) return 0;
+  length_type size = 1;
+  for (dimension_type d = 0; d != D; ++d)
+  {
+    stride_type const stride = block.stride(D, d);
+    size += (block.size(D, d) - 1) * (stride < 0 ? -stride : stride);
+  }
+  return size;
+}
+
 /// Return access type for a given block and desired layout.
 template <typename Block, typename L, sync_policy S, typename E = void>
 struct get_block_access
@@ -308,7 +323,7 @@ public:
   stride_type stride(dimension_type d) const { return block_.stride(dim, d);}
   length_type size(dimension_type d) const { return block_.size(dim, d);}
   length_type size() const { return block_.size();}
-  length_type storage_size() const { return block_.size();}
+  length_type storage_size() const { return spanned_size<dim>(block_);}
 
 private:
   B &block_;
@@ -614,7 +629,8 @@ public:
   length_type size(dimension_type d) const
   { return use_direct_ ? block_.size(dim, d) : block_.size(B::dim, d);}
   length_type	size  () const { return block_.size();}
-  length_type storage_size() const { return layout_.total_size();}
+  length_type storage_size() const
+  { return use_direct_ ? spanned_size<dim>(block_) : layout_.total_size();}
 
 private:
   B &block_;
-- 
2.43.0


From 9f05d7d5264580eae9893f639e6fb18f6309bcdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:06 +0000
Subject: [PATCH 36/48] fix: library initialization and finalization not atomic
 among threads

---
 src/ovxx/library.cpp | 24 +++++++++++++++---------
 1 file changed, 15 insertions(+), 9 deletions(-)

diff --git a/src/ovxx/library.cpp b/src/ovxx/library.cpp
index 09338e5..92532d9 100644
--- a/src/ovxx/library.cpp
+++ b/src/ovxx/library.cpp
@@ -50,12 +50,16 @@ unsigned int thread_local_count = 0;
 
 void initialize(int &argc, char **&argv)
 {
+#ifdef OVXX_ENABLE_OMP
+  bool first;
+#endif
   {
+  // The guard is held until everything is initialized, so no other
+  // thread can see (or tear down) a partially initialized library.
 #if defined(OVXX_ENABLE_THREADING)
-    std::lock_guard<std::mutex> lock(global_count_guard);
+  std::lock_guard<std::mutex> lock(global_count_guard);
 #endif
-    ++global_count;
-  }
+  ++global_count;
   if (thread_local_count++) return;
 
   if (global_count == 1)
@@ -93,7 +97,11 @@ void initialize(int &argc, char **&argv)
 #endif
   }
 #ifdef OVXX_ENABLE_OMP
-  if (global_count == 1)
+  first = global_count == 1;
+#endif
+  }
+#ifdef OVXX_ENABLE_OMP
+  if (first)
   {
     // Initialize OpenMP threads
 #pragma omp parallel
@@ -120,19 +128,17 @@ void finalize()
     omp_library = 0;
   }
 #endif
-  {
 #if OVXX_ENABLE_THREADING
-    std::lock_guard<std::mutex> lock(global_count_guard);
+  std::lock_guard<std::mutex> lock(global_count_guard);
 #endif
-    --global_count;
-  }
+  --global_count;
   --thread_local_count;
   if (!thread_local_count)
   {
 #if OVXX_HAVE_MPI
     mpi::finalize(global_count == 0);
-    allocator::finalize();
 #endif
+    allocator::finalize();
   }
   if (!global_count)
   {
-- 
2.43.0


From e27712a81a2934557a59df03839114e906e58672 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:06 +0000
Subject: [PATCH 37/48] fix: default allocator deleted while blocks of other
 threads refer to it

---
 src/ovxx/allocator.cpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/ovxx/allocator.cpp b/src/ovxx/allocator.cpp
index dac4faf..fef1aa7 100644
--- a/src/ovxx/allocator.cpp
+++ b/src/ovxx/allocator.cpp
@@ -11,6 +11,13 @@
 #include <limits>
 #include <cstdlib>
 
+namespace
+{
+// Shared by all threads, as blocks may outlive the thread (or rather, its
+// library object) that allocated their storage.
+ovxx::aligned_allocator shared;
+}
+
 namespace ovxx
 {
 
@@ -22,12 +29,11 @@ allocator *allocator::default_ = 0;
 
 void allocator::initialize(int &/*argc*/, char **&/*argv*/)
 {
-  default_ = new aligned_allocator();
+  default_ = &shared;
 }
 
 void allocator::finalize()
 {
-  delete default_;
   default_ = 0;
 }
 
-- 
2.43.0


From a6dfc781e57ac9ddb79ff4e2af20a0ad93f8e97e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:06 +0000
Subject: [PATCH 38/48] fix: MPI buffer deleted while attached, and twice, when
 the library is finalized

---
 src/ovxx/mpi/service.cpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/ovxx/mpi/service.cpp b/src/ovxx/mpi/service.cpp
index 733f3de..131d051 100644
--- a/src/ovxx/mpi/service.cpp
+++ b/src/ovxx/mpi/service.cpp
@@ -59,9 +59,19 @@ void finalize(bool final)
   communicator = 0;
   if (final)
   {
+    int finalized;
+    MPI_Finalized(&finalized);
+    if (!finalized)
+    {
+      char *attached;
+      int size;
+      MPI_Buffer_detach(&attached, &size);
+    }
     if (finalize_mpi)
       MPI_Finalize();
+    finalize_mpi = false;
     delete[] buffer;
+    buffer = 0;
   }
 }
 
-- 
2.43.0


From 5768fdea753e14075ad222a1d8e59e310d0bd4cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:06 +0000
Subject: [PATCH 39/48] fix: first use of MPI datatypes races among threads

---
 src/ovxx/mpi/datatype.hpp | 62 ++++++++++++++++++---------------------
 1 file changed, 29 insertions(+), 33 deletions(-)

diff --git a/src/ovxx/mpi/datatype.hpp b/src/ovxx/mpi/datatype.hpp
index a6e7da9..057a90a 100644
--- a/src/ovxx/mpi/datatype.hpp
+++ b/src/ovxx/mpi/datatype.hpp
@@ -46,16 +46,16 @@ struct Datatype<Index<D> >
 {
   static MPI_Datatype value()
   {
-    static bool first = true;
-    static MPI_Datatype datatype;
-
-    if (first)
-    {
-      first = false;
-      MPI_Type_contiguous(D, Datatype<index_type>::value(), &datatype);
-      MPI_Type_commit(&datatype);
-    }
+    static MPI_Datatype const datatype = create();
+    return datatype;
+  }
 
+private:
+  static MPI_Datatype create()
+  {
+    MPI_Datatype datatype;
+    MPI_Type_contiguous(D, Datatype<index_type>::value(), &datatype);
+    MPI_Type_commit(&datatype);
     return datatype;
   }
 };
@@ -65,16 +65,16 @@ struct Datatype<std::complex<T> >
 {
   static MPI_Datatype value()
   {
-    static bool first = true;
-    static MPI_Datatype datatype;
-
-    if (first)
-    {
-      first = false;
-      MPI_Type_contiguous(2, Datatype<T>::value(), &datatype);
-      MPI_Type_commit(&datatype);
-    }
+    static MPI_Datatype const datatype = create();
+    return datatype;
+  }
 
+private:
+  static MPI_Datatype create()
+  {
+    MPI_Datatype datatype;
+    MPI_Type_contiguous(2, Datatype<T>::value(), &datatype);
+    MPI_Type_commit(&datatype);
     return datatype;
   }
 };
@@ -84,22 +84,18 @@ struct Datatype<bool>
 {
   static MPI_Datatype value()
   {
-    static bool first = true;
-    static MPI_Datatype datatype;
-
-    if (first)
-    {
-      first = false;
-
-      if (sizeof(bool) == 1)
-	datatype = MPI_BYTE;
-      else
-      {
-	MPI_Type_contiguous(sizeof(bool), MPI_BYTE, &datatype);
-	MPI_Type_commit(&datatype);
-      }
-    }
+    static MPI_Datatype const datatype = create();
+    return datatype;
+  }
 
+private:
+  static MPI_Datatype create()
+  {
+    if (sizeof(bool) == 1)
+      return MPI_BYTE;
+    MPI_Datatype datatype;
+    MPI_Type_contiguous(sizeof(bool), MPI_BYTE, &datatype);
+    MPI_Type_commit(&datatype);
     return datatype;
   }
 };
-- 
2.43.0


From 78803a5fdde4a358990b6d86d8c99670b2a56d98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:06 +0000
Subject: [PATCH 40/48] fix: first use of processor_set races among threads

---
 src/vsip/impl/parallel.hpp | 31 ++++++++++++++++++-------------
 1 file changed, 18 insertions(+), 13 deletions(-)

diff --git a/src/vsip/impl/parallel.hpp b/src/vsip/impl/parallel.hpp
index 8aa460f..1bef708 100644
--- a/src/vsip/impl/parallel.hpp
+++ b/src/vsip/impl/parallel.hpp
@@ -17,23 +17,28 @@
 namespace vsip
 {
 
-inline const_Vector<processor_type> processor_set()
+namespace impl
+{
+inline Dense<1, processor_type> *create_processor_set()
 {
-  static Dense<1, processor_type> *pset_block_ = 0;
-
-  if (pset_block_ == 0)
-  {
 #if OVXX_PARALLEL
-    namespace p = ovxx::parallel;
-    p::Communicator::pvec_type const &pvec = p::default_communicator().pvec();
-    pset_block_ = new Dense<1, processor_type>(Domain<1>(pvec.size()));
-    for (index_type i=0; i<pvec.size(); ++i)
-      pset_block_->put(i, pvec[i]);
+  namespace p = ovxx::parallel;
+  p::Communicator::pvec_type const &pvec = p::default_communicator().pvec();
+  Dense<1, processor_type> *block =
+    new Dense<1, processor_type>(Domain<1>(pvec.size()));
+  for (index_type i=0; i<pvec.size(); ++i)
+    block->put(i, pvec[i]);
 #else
-    pset_block_ = new Dense<1, processor_type>(1);
-    pset_block_->put(0, 0);
+  Dense<1, processor_type> *block = new Dense<1, processor_type>(1);
+  block->put(0, 0);
 #endif
-  }
+  return block;
+}
+} // namespace vsip::impl
+
+inline const_Vector<processor_type> processor_set()
+{
+  static Dense<1, processor_type> *pset_block_ = impl::create_processor_set();
 
   return Vector<processor_type>(*pset_block_);
 }
-- 
2.43.0


From 46d846eccea49a4cc5c4335b1736f1f15aef9067 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:06 +0000
Subject: [PATCH 41/48] fix: refcounted_ptr assignment from null, and from a
 member of the old object

---
 src/ovxx/refcounted.hpp | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/ovxx/refcounted.hpp b/src/ovxx/refcounted.hpp
index 1ce0dc0..a89f9b4 100644
--- a/src/ovxx/refcounted.hpp
+++ b/src/ovxx/refcounted.hpp
@@ -79,19 +79,22 @@ public:
   {
     if (ptr_ != from.ptr_)
     {
-      if (ptr_) ptr_->decrement_count();
+      // Dropping the old object may destroy 'from'.
+      T *old = ptr_;
       ptr_ = from.ptr_;
-      ptr_->increment_count();
+      if (ptr_) ptr_->increment_count();
+      if (old) old->decrement_count();
     }
     return *this;
   }
 
   void reset(T *p, bool increment = false)
   {
-    if (ptr_) ptr_->decrement_count();
+    OVXX_PRECONDITION(p || !increment);
+    T *old = ptr_;
     ptr_ = p;
-    OVXX_PRECONDITION(ptr_ || !increment);
     if (increment) ptr_->increment_count();
+    if (old) old->decrement_count();
   }
 
   T &operator*() const { return *ptr_;}
-- 
2.43.0


From 4d974dbf1f22f36523dab67a43207cb721b689b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:01:40 +0000
Subject: [PATCH 42/48] fix: nested operators in expressions of distributed
 views

transform::combine and transform::apply of the operator nodes were declared
after their callers, so a unary (or vmmul) node below another operator was
treated as a leaf and the expression failed to compile.
---
 src/ovxx/expr/transform.hpp | 43 +++++++++++++++++++++++++++++++++----
 1 file changed, 39 insertions(+), 4 deletions(-)

diff --git a/src/ovxx/expr/transform.hpp b/src/ovxx/expr/transform.hpp
index b2985c1..7934cbf 100644
--- a/src/ovxx/expr/transform.hpp
+++ b/src/ovxx/expr/transform.hpp
@@ -18,10 +18,31 @@ namespace transform
 {
 template <typename F, typename B> struct return_type;
 
-// FIXME: For some reason this forward-declaration is required
-//        for overload resolution to work a little later in this file.
-//        Without it, the parallel/expr.cpp test fails with a compile-time
-//        failure.
+// The overloads for the operator nodes call each other recursively. As the
+// namespace of this file is not associated with the argument types, all of
+// them need to be declared before any of them is defined.
+template <typename F,
+	  template <typename> class O, typename B, bool E>
+typename return_type<F, Unary<O, B, E> const>::type
+combine(F const &, Unary<O, B, E> const &);
+
+template <typename F,
+	  template <typename> class O, typename B, bool E>
+void
+apply(F const &, Unary<O, B, E> const &);
+
+template <typename F,
+	  template <typename, typename> class O,
+	  typename B1, typename B2, bool E>
+typename return_type<F, Binary<O, B1, B2, E> const>::type
+combine(F const &, Binary<O, B1, B2, E> const &);
+
+template <typename F,
+	  template <typename, typename> class O,
+	  typename B1, typename B2, bool E>
+void
+apply(F const &, Binary<O, B1, B2, E> const &);
+
 template <typename F,
 	  template <typename, typename, typename> class O,
 	  typename B1, typename B2, typename B3, bool E>
@@ -34,6 +55,20 @@ template <typename F,
 void
 apply(F const &, Ternary<O, B1, B2, B3, E> const &);
 
+template <typename F,
+	  dimension_type D, typename B1, typename B2>
+typename return_type<F, Vmmul<D, B1, B2> const>::type
+combine(F const &, Vmmul<D, B1, B2> const &);
+
+template <typename F,
+	  dimension_type D, typename B1, typename B2>
+void
+apply(F const &, Vmmul<D, B1, B2> const &);
+
+template <typename F, dimension_type D, typename G>
+void
+apply(F const &, Generator<D, G> const &);
+
 template <typename F, typename B>
 struct return_type
 {
-- 
2.43.0


From 0234e660d9b194f618eef1742de39dd84936fcb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:30 +0000
Subject: [PATCH 43/48] fix: keep the operation of expression blocks on
 distributed operands

The local and the patch-wise forms of an element-wise operator block were
built without its operation object, so user-defined functions of distributed
views failed to compile.
---
 src/ovxx/expr/binary.hpp    | 3 ++-
 src/ovxx/expr/ternary.hpp   | 3 ++-
 src/ovxx/expr/transform.hpp | 8 +++++---
 src/ovxx/expr/unary.hpp     | 2 +-
 4 files changed, 10 insertions(+), 6 deletions(-)

diff --git a/src/ovxx/expr/binary.hpp b/src/ovxx/expr/binary.hpp
index bb4b930..3bfd954 100644
--- a/src/ovxx/expr/binary.hpp
+++ b/src/ovxx/expr/binary.hpp
@@ -289,7 +289,8 @@ get_local_block(expr::Binary<Operation, Arg1, Arg2, true> const &block)
 		       typename distributed_local_block<Arg2>::type, true>
     block_type;
 
-  return block_type(get_local_block(block.arg1()),
+  return block_type(block.operation(),
+		    get_local_block(block.arg1()),
 		    get_local_block(block.arg2()));
 }
 
diff --git a/src/ovxx/expr/ternary.hpp b/src/ovxx/expr/ternary.hpp
index fef5ce6..57386fd 100644
--- a/src/ovxx/expr/ternary.hpp
+++ b/src/ovxx/expr/ternary.hpp
@@ -288,7 +288,8 @@ get_local_block(Ternary<O, B1, B2, B3, true> const &block)
 		  true>
     block_type;
 
-  return block_type(get_local_block(block.arg1()),
+  return block_type(block.operation(),
+		    get_local_block(block.arg1()),
 		    get_local_block(block.arg2()),
 		    get_local_block(block.arg3()));
 }
diff --git a/src/ovxx/expr/transform.hpp b/src/ovxx/expr/transform.hpp
index 7934cbf..3229ddf 100644
--- a/src/ovxx/expr/transform.hpp
+++ b/src/ovxx/expr/transform.hpp
@@ -171,7 +171,8 @@ combine(F const &func, Binary<O, B1, B2, E> const &block)
     return_type<F, Binary<O, B1, B2, E> const>::type
     block_type;
 
-  return block_type(combine(func, block.arg1()),
+  return block_type(block.operation(),
+		    combine(func, block.arg1()),
 		    combine(func, block.arg2()));
 }
 
@@ -216,7 +217,8 @@ combine(F const &func, Ternary<O, B1, B2, B3, E> const &block)
     return_type<F, Ternary<O, B1, B2, B3, E> const>::type
     block_type;
 
-  return block_type(combine(func, block.arg1()),
+  return block_type(block.operation(),
+		    combine(func, block.arg1()),
 		    combine(func, block.arg2()),
 		    combine(func, block.arg3()));
 }
@@ -272,7 +274,7 @@ combine(F const &func, Unary<O, B, E> const &block)
   typedef typename return_type<F, Unary<O, B, E> const>::type
     block_type;
 
-  return block_type(combine(func, block.arg()));
+  return block_type(block.operation(), combine(func, block.arg()));
 }
 
 template <typename F,
diff --git a/src/ovxx/expr/unary.hpp b/src/ovxx/expr/unary.hpp
index dceecec..fad0b18 100644
--- a/src/ovxx/expr/unary.hpp
+++ b/src/ovxx/expr/unary.hpp
@@ -199,7 +199,7 @@ get_local_block(expr::Unary<O, B, true> const &block)
   typedef expr::Unary<O, typename distributed_local_block<B>::type, true>
     block_type;
 
-  return block_type(get_local_block(block.arg()));
+  return block_type(block.operation(), get_local_block(block.arg()));
 }
 
 template <template <typename> class O, typename B>
-- 
2.43.0


From 0b82ce80ca0a5596f3c675a599a7c4a154b07131 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:04:27 +0000
Subject: [PATCH 44/48] fix: real() and imag() of distributed complex views in
 assignments

assert_local was missing for component blocks, so assigning to or from the
real or imaginary part of a distributed view failed to compile.
---
 src/ovxx/expr/component.hpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/ovxx/expr/component.hpp b/src/ovxx/expr/component.hpp
index b1b58dd..64be6a8 100644
--- a/src/ovxx/expr/component.hpp
+++ b/src/ovxx/expr/component.hpp
@@ -191,6 +191,13 @@ get_local_proxy(expr::Component<Block, Extractor> const& block,
   return local_proxy_type(super_block);
 }
 
+template <typename Block, template <typename> class Extractor>
+void assert_local(expr::Component<Block, Extractor> const &block,
+		  index_type sb)
+{
+  assert_local(block.block(), sb);
+}
+
 } // namespace ovxx::detail
 } // namespace ovxx
 
-- 
2.43.0


From e3ee48f2f73cd506de03a4b6b2fef8bef972c9c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:47:10 +0000
Subject: [PATCH 45/48] fix: sub-blocks of sub-blocks and of components in the
 Python bindings

---
 python/src/block_api.hpp  | 43 ++++++++++++++++++++-------------
 src/ovxx/python/block.hpp | 50 ++++++++++++++++++++++-----------------
 2 files changed, 54 insertions(+), 39 deletions(-)

diff --git a/python/src/block_api.hpp b/python/src/block_api.hpp
index 6e71d7c..e3b448b 100644
--- a/python/src/block_api.hpp
+++ b/python/src/block_api.hpp
@@ -263,11 +263,8 @@ bpl::object make_array(bpl::object o)
   return bpl::object(bpl::handle<>(a));
 }
 
-// Calculate a domain corresponding to the given slice, assuming the given length.
-// To be able to generate a domain we also need the parent block's lay
-// The stride parameter is needed to account for non-unit-stride access (i.e. when
-// slicing subblocks)
-inline Domain<1> slice_to_domain(bpl::slice s, index_type offset, stride_type stride, length_type size)
+// Calculate the (logical) domain corresponding to the given slice, assuming the given length.
+inline Domain<1> slice_to_domain(bpl::slice s, length_type size)
 {
   Py_ssize_t start, stop, step, length;
 #if PY_MAJOR_VERSION == 2
@@ -277,46 +274,58 @@ inline Domain<1> slice_to_domain(bpl::slice s, index_type offset, stride_type st
   int status = PySlice_GetIndicesEx(s.ptr(), size,
 				    &start, &stop, &step, &length);
 #endif
-  return Domain<1>(offset + start*stride, step*stride, length);
+  if (status) throw bpl::error_already_set();
+  if (!length) return Domain<1>(0, 1, 0);
+  return Domain<1>(start, step, length);
 }
 
 template <typename T>
 bpl::object subblock1(Block<1, T> &b, bpl::slice s)
 {
-  Domain<1> dom = slice_to_domain(s, b.offset(), b.stride(1, 0), b.size(1, 0));
-  return bpl::object(std::shared_ptr<Block<1, T> >(new Block<1, T>(b, dom)));
+  Domain<1> dom = slice_to_domain(s, b.size(1, 0));
+  stride_type stride = b.stride(1, 0);
+  index_type offset = b.offset() + dom.first()*stride;
+  return bpl::object(std::shared_ptr<Block<1, T> >(new Block<1, T>
+    (b, offset, Domain<1>(offset, dom.stride()*stride, dom.size()))));
 }
 
 template <typename T, typename M>
 bpl::object subblock2(Block<2, T, M> &b, bpl::slice i, bpl::slice j)
 {
-  Domain<1> domi = slice_to_domain(i, b.offset(), b.stride(2, 0), b.size(2, 0));
-  Domain<1> domj = slice_to_domain(j, 0, b.stride(2, 1), b.size(2, 1));
+  Domain<1> domi = slice_to_domain(i, b.size(2, 0));
+  Domain<1> domj = slice_to_domain(j, b.size(2, 1));
+  stride_type stridei = b.stride(2, 0);
+  stride_type stridej = b.stride(2, 1);
+  index_type offset = b.offset() + domi.first()*stridei + domj.first()*stridej;
   return bpl::object(std::shared_ptr<Block<2, T, M> >(new Block<2, T, M>
-    (b, Domain<2>(domi, domj))));
+    (b, offset, Domain<2>(Domain<1>(offset, domi.stride()*stridei, domi.size()),
+			  Domain<1>(offset, domj.stride()*stridej, domj.size())))));
 }
 
 template <typename T, typename M>
 bpl::object get_row(Block<2, T, M> &b, int i)
 {
   if (i < 0) i += b.size(2, 0);
-  Domain<1> domain(i * b.stride(2, 0), 1, b.size(2, 1));
-  return bpl::object(std::shared_ptr<Block<1, T, M> >(new Block<1, T, M>(b, domain)));
+  index_type offset = b.offset() + i * b.stride(2, 0);
+  Domain<1> domain(offset, b.stride(2, 1), b.size(2, 1));
+  return bpl::object(std::shared_ptr<Block<1, T, M> >(new Block<1, T, M>(b, offset, domain)));
 }
 
 template <typename T, typename M>
 bpl::object get_col(Block<2, T, M> &b, int i)
 {
   if (i < 0) i += b.size(2, 1);
-  Domain<1> domain(i * b.stride(2, 1), b.stride(2, 0), b.size(2, 0));
-  return bpl::object(std::shared_ptr<Block<1, T, M> >(new Block<1, T, M>(b, domain)));
+  index_type offset = b.offset() + i * b.stride(2, 1);
+  Domain<1> domain(offset, b.stride(2, 0), b.size(2, 0));
+  return bpl::object(std::shared_ptr<Block<1, T, M> >(new Block<1, T, M>(b, offset, domain)));
 }
 
 template <typename T, typename M>
 bpl::object diag(Block<2, T, M> &b)
 {
-  Domain<1> domain(0, b.stride(2, 0) + b.stride(2, 1), std::min(b.size(2, 0), b.size(2, 1)));
-  return bpl::object(std::shared_ptr<Block<1, T, M> >(new Block<1, T, M>(b, domain)));
+  index_type offset = b.offset();
+  Domain<1> domain(offset, b.stride(2, 0) + b.stride(2, 1), std::min(b.size(2, 0), b.size(2, 1)));
+  return bpl::object(std::shared_ptr<Block<1, T, M> >(new Block<1, T, M>(b, offset, domain)));
 }
 
 template <dimension_type D, typename T, typename M>
diff --git a/src/ovxx/python/block.hpp b/src/ovxx/python/block.hpp
index 29937f3..ad036cd 100644
--- a/src/ovxx/python/block.hpp
+++ b/src/ovxx/python/block.hpp
@@ -153,33 +153,29 @@ public:
   {}
   // the subblock constructor
   sm_proxy(smanager_ptr sm) : parent_(sm) {}
-  // the real/imag component constructor
-  sm_proxy(csmanager_ptr sm, bool r) : cparent_(sm), real_(r) {}
+  // the real/imag component constructor: indices address scalars
+  sm_proxy(csmanager_ptr sm) : cparent_(sm) {}
 
   value_type get(index_type i) const
   {
     if (parent_) return parent_->get(i);
-    else if (real_) return cparent_->at(i).real();
-    else return cparent_->at(i).imag();
+    else return scalars()[i];
   }
   void put(index_type i, value_type value)
   {
     if (parent_) parent_->put(i, value);
-    else if (real_) cparent_->at(i) = complex<T>(value, cparent_->at(i).imag());
-    else cparent_->at(i) = complex<T>(cparent_->at(i).real(), value);
+    else scalars()[i] = value;
   }
   reference_type at(index_type i)
   {
     if (parent_) return parent_->at(i);
-    else if (real_) return cparent_->at(i).real();
-    else return cparent_->at(i).imag();
+    else return scalars()[i];
   }
   
   ptr_type ptr()
   {
     if (parent_) return parent_->ptr();
-    else if (real_) return reinterpret_cast<T*>(cparent_->ptr());
-    else return reinterpret_cast<T*>(cparent_->ptr()) + 1;
+    else return scalars();
   }
 #if OVXX_HAVE_OPENCL
   opencl::buffer buffer()
@@ -189,9 +185,10 @@ public:
   }
 #endif
 private:
+  ptr_type scalars() const { return reinterpret_cast<T*>(cparent_->ptr());}
+
   smanager_ptr parent_;
   csmanager_ptr cparent_;
-  bool real_;
 };
 
 template <typename T,
@@ -263,23 +260,22 @@ public:
   }
 
   // constructor used internally to form a subblock of parent.
+  // offset is the physical coordinate of the subblock's first element,
   // dom holds physical coordinates, i.e. strides express distance in elements,
   // not rows / columns.
   template <dimension_type D1>
-  Block(Block<D1, T> &parent, Domain<dim> const &dom)
-    : offset_(0),
+  Block(Block<D1, T> &parent, index_type offset, Domain<dim> const &dom)
+    : offset_(offset),
       layout_(dom),
       smanager_(parent.smanager_),
       array_refcount_(0)
-  {
-    for (index_type i = 0; i != dim; ++i) offset_ += dom[i].first();
-  }
+  {}
   // construct a real or imaginary component block from a complex
-  // parent block
+  // parent block. The parent's (interleaved) storage is seen as an array of scalars.
   Block(Block<D, complex<T> > &parent, bool real)
-    : offset_(parent.offset_),
-      layout_(parent.layout_),
-      smanager_(new smanager_type(parent.smanager_, real)),
+    : offset_(2 * parent.offset_ + (real ? 0 : 1)),
+      layout_(component_domain(parent)),
+      smanager_(new smanager_type(parent.smanager_)),
       array_refcount_(0)
   {}
 
@@ -344,12 +340,12 @@ public:
   reference_type ref(index_type i) VSIP_NOTHROW
   {
     OVXX_PRECONDITION(i < size());
-    return smanager_->at(offset_ + i);
+    return smanager_->at(offset_ + layout_.index(i));
   }
   const_reference_type ref(index_type i) const VSIP_NOTHROW
   {
     OVXX_PRECONDITION(i < size());
-    return smanager_->at(offset_ + i);
+    return smanager_->at(offset_ + layout_.index(i));
   }
   reference_type ref(index_type i, index_type j)
   {
@@ -420,6 +416,16 @@ public:
   }
 
 private:
+  // the physical coordinates (in scalars) of the parent's components
+  static Domain<dim> component_domain(Block<D, complex<T> > const &parent)
+  {
+    Domain<dim> dom;
+    for (dimension_type d = 0; d != dim; ++d)
+      dom.impl_at(d) = Domain<1>(2 * parent.offset_, 2 * parent.layout_.stride(d),
+				 parent.layout_.size(d));
+    return dom;
+  }
+
   length_type offset_;
   applied_layout_type layout_;
   std::shared_ptr<smanager_type> smanager_;
-- 
2.43.0


From cc2f6afd404adaed6477c37da27431ebd3852b0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:47:10 +0000
Subject: [PATCH 46/48] fix: arrays of Python blocks keep the block alive

---
 python/src/block_api.hpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/python/src/block_api.hpp b/python/src/block_api.hpp
index e3b448b..4a72592 100644
--- a/python/src/block_api.hpp
+++ b/python/src/block_api.hpp
@@ -219,9 +219,10 @@ bpl::object construct(bpl::object o)
 template <typename B>
 struct array_backref
 {
-  array_backref(B &b) : b_(b) { b_.ref_ptr();}
-  array_backref(array_backref const &r) : b_(r.b_) { b_.ref_ptr();}
+  array_backref(bpl::object o, B &b) : o_(o), b_(b) { b_.ref_ptr();}
+  array_backref(array_backref const &r) : o_(r.o_), b_(r.b_) { b_.ref_ptr();}
   ~array_backref() { b_.unref_ptr();}
+  bpl::object o_; // keeps the block alive
   B &b_;
 };
 
@@ -257,7 +258,7 @@ bpl::object make_array(bpl::object o)
   block_type &block = bpl::extract<block_type &>(o);
   bpl::handle<PyArrayObject> a = make_array_(block);
   std::shared_ptr<array_backref<block_type> > lock
-    (new array_backref<block_type>(block));
+    (new array_backref<block_type>(o, block));
   bpl::object backref(lock);
   PyArray_SetBaseObject(a.get(), bpl::incref(backref.ptr()));
   return bpl::object(bpl::handle<>(a));
@@ -422,7 +423,7 @@ void define_block(char const *type_name)
   std::string backref_name(type_name);
   backref_name.append("_backref");
   bpl::class_<backref_type, std::shared_ptr<backref_type>, boost::noncopyable>
-    backref(backref_name.c_str(), bpl::init<block_type&>());
+    backref(backref_name.c_str(), bpl::no_init);
 
   bpl::class_<block_type, std::shared_ptr<block_type>, boost::noncopyable> 
     block(type_name, bpl::no_init);
-- 
2.43.0


From 0b49782c255fa2fd4a96f517805d1da66c738ca9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:05:42 +0000
Subject: [PATCH 47/48] fix: freqswap of an empty vector read its middle
 element

---
 src/ovxx/signal/freqswap.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/ovxx/signal/freqswap.hpp b/src/ovxx/signal/freqswap.hpp
index f65f541..a0b1243 100644
--- a/src/ovxx/signal/freqswap.hpp
+++ b/src/ovxx/signal/freqswap.hpp
@@ -38,7 +38,8 @@ struct Freqswap<1>
 
     index_type const ia = M % 2;  // adjustment to get source index
 
-    typename ArgumentBlock::value_type mid = in.get(M / 2);
+    typename ArgumentBlock::value_type mid = typename ArgumentBlock::value_type();
+    if (ia) mid = in.get(M / 2);
 
     for (index_type i = 0, ii = M / 2; i < M / 2; ++i, ++ii)
     {
-- 
2.43.0


From 11cb260eade5f2add42b1f59d53ab71df7c9277f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:48:50 +0000
Subject: [PATCH 48/48] fix: the cast module of the Python bindings used numpy
 without importing it

---
 python/src/_cast.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/python/src/_cast.cpp b/python/src/_cast.cpp
index 2ef2c51..e9259ea 100644
--- a/python/src/_cast.cpp
+++ b/python/src/_cast.cpp
@@ -55,6 +55,7 @@ bpl::object as_type(bpl::object type, ovxx::python::Block<D, T> const &b)
 
 BOOST_PYTHON_MODULE(_cast)
 {
+  ovxx::python::initialize();
   bpl::def("as_type", as_type<1, int>);
   bpl::def("as_type", as_type<2, int>);
   bpl::def("as_type", as_type<1, float>);
-- 
2.43.0

