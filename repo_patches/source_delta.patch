From 4d59c8a072f08679ac860538768dcd86f5929594 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:34 +0000
Subject: [PATCH 01/38] fix: buffer::pop_back passed the wrong arguments to
 destroy and could not be instantiated

---
 include/sparrow/buffer/buffer.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/sparrow/buffer/buffer.hpp b/include/sparrow/buffer/buffer.hpp
index a91b47b..cb86919 100644
--- a/include/sparrow/buffer/buffer.hpp
+++ b/include/sparrow/buffer/buffer.hpp
@@ -910,7 +910,7 @@ namespace sparrow
     constexpr void buffer<T>::pop_back()
     {
         SPARROW_ASSERT_FALSE(empty());
-        destroy(get_allocator(), get_data().p_end - 1);
+        destroy(get_data().p_end - 1, get_data().p_end, get_allocator());
         --get_data().p_end;
     }
 
-- 
2.43.0


From f7987b42623286843d66cbcc9485fba07558df01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:01 +0000
Subject: [PATCH 02/38] fix: end of a bitset whose size is a multiple of the
 block size was one block too early

---
 .../sparrow/buffer/dynamic_bitset/dynamic_bitset_base.hpp   | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/include/sparrow/buffer/dynamic_bitset/dynamic_bitset_base.hpp b/include/sparrow/buffer/dynamic_bitset/dynamic_bitset_base.hpp
index 074b537..71a67fe 100644
--- a/include/sparrow/buffer/dynamic_bitset/dynamic_bitset_base.hpp
+++ b/include/sparrow/buffer/dynamic_bitset/dynamic_bitset_base.hpp
@@ -276,8 +276,7 @@ namespace sparrow
         requires std::ranges::random_access_range<std::remove_pointer_t<B>>
     constexpr auto dynamic_bitset_base<B>::end() -> iterator
     {
-        block_type* block = buffer().size() ? data() + buffer().size() - 1 : data();
-        return iterator(this, block, size() % s_bits_per_block);
+        return iterator(this, data() + block_index(size()), bit_index(size()));
     }
 
     template <typename B>
@@ -305,8 +304,7 @@ namespace sparrow
         requires std::ranges::random_access_range<std::remove_pointer_t<B>>
     constexpr auto dynamic_bitset_base<B>::cend() const -> const_iterator
     {
-        const block_type* block = buffer().size() ? data() + buffer().size() - 1 : data();
-        return const_iterator(this, block, size() % s_bits_per_block);
+        return const_iterator(this, data() + block_index(size()), bit_index(size()));
     }
 
     template <typename B>
-- 
2.43.0


From 2934dd8ae24888e54660bbb202aa018388a07b99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:01 +0000
Subject: [PATCH 03/38] fix: decrementing a bitset iterator across a block
 boundary landed on the wrong bit

---
 include/sparrow/buffer/dynamic_bitset/bitset_iterator.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/sparrow/buffer/dynamic_bitset/bitset_iterator.hpp b/include/sparrow/buffer/dynamic_bitset/bitset_iterator.hpp
index 0547083..65f6d28 100644
--- a/include/sparrow/buffer/dynamic_bitset/bitset_iterator.hpp
+++ b/include/sparrow/buffer/dynamic_bitset/bitset_iterator.hpp
@@ -126,7 +126,7 @@ namespace sparrow
         if (is_first_bit_of_block(m_index))
         {
             --p_block;
-            m_index = sizeof(block_type);
+            m_index = bitset_type::s_bits_per_block - 1;
         }
         else
         {
-- 
2.43.0


From f7101bcffaf7a8f6585232bdd4ea1bf149bb2b6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:01 +0000
Subject: [PATCH 04/38] fix: inserting nothing at the front of a bitset never
 terminated

---
 include/sparrow/buffer/dynamic_bitset/dynamic_bitset_base.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/sparrow/buffer/dynamic_bitset/dynamic_bitset_base.hpp b/include/sparrow/buffer/dynamic_bitset/dynamic_bitset_base.hpp
index 71a67fe..adeeba7 100644
--- a/include/sparrow/buffer/dynamic_bitset/dynamic_bitset_base.hpp
+++ b/include/sparrow/buffer/dynamic_bitset/dynamic_bitset_base.hpp
@@ -557,7 +557,7 @@ namespace sparrow
 
         resize(new_size);
 
-        for (size_type i = old_size + count - 1; i >= index + count; --i)
+        for (size_type i = old_size + count; i-- > index + count;)
         {
             set(i, test(i - count));
         }
@@ -589,7 +589,7 @@ namespace sparrow
 
         // TODO: The current implementation is not efficient. It can be improved.
 
-        for (size_type i = old_size + count - 1; i >= index + count; --i)
+        for (size_type i = old_size + count; i-- > index + count;)
         {
             set(i, test(i - count));
         }
-- 
2.43.0


From 8d771b469ecdb0c541d168a240644c06b3e457d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:40 +0000
Subject: [PATCH 05/38] fix: the number of set bits overflowed an int for
 bitsets with 2^31 set bits or more

---
 .../sparrow/buffer/dynamic_bitset/dynamic_bitset_base.hpp   | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/sparrow/buffer/dynamic_bitset/dynamic_bitset_base.hpp b/include/sparrow/buffer/dynamic_bitset/dynamic_bitset_base.hpp
index adeeba7..f59bad6 100644
--- a/include/sparrow/buffer/dynamic_bitset/dynamic_bitset_base.hpp
+++ b/include/sparrow/buffer/dynamic_bitset/dynamic_bitset_base.hpp
@@ -444,18 +444,18 @@ namespace sparrow
             return 0u;
         }
 
-        int res = 0;
+        size_type res = 0;
         size_t full_blocks = m_size / s_bits_per_block;
         for (size_t i = 0; i < full_blocks; ++i)
         {
-            res += std::popcount(buffer().data()[i]);
+            res += static_cast<size_type>(std::popcount(buffer().data()[i]));
         }
         if (full_blocks != buffer().size())
         {
             const size_t bits_count = m_size % s_bits_per_block;
             const block_type mask = ~block_type(~block_type(0) << bits_count);
             const block_type block = buffer().data()[full_blocks] & mask;
-            res += std::popcount(block);
+            res += static_cast<size_type>(std::popcount(block));
         }
 
         return static_cast<size_t>(res);
-- 
2.43.0


From 590d64f97ed012da72c652750bc15e9a1e9426c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:56 +0000
Subject: [PATCH 06/38] fix: arrow_proxy::set_buffer counted nulls through the
 view of the freed buffer

---
 src/arrow_array_schema_proxy.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/arrow_array_schema_proxy.cpp b/src/arrow_array_schema_proxy.cpp
index 3760662..facb317 100644
--- a/src/arrow_array_schema_proxy.cpp
+++ b/src/arrow_array_schema_proxy.cpp
@@ -500,8 +500,8 @@ namespace sparrow
             throw arrow_proxy_exception("Cannot set buffer on non-sparrow created ArrowArray");
         }
         get_array_private_data()->set_buffer(index, buffer);
-        update_null_count();
         update_buffers();
+        update_null_count();
     }
 
     void arrow_proxy::set_buffer(size_t index, buffer<uint8_t>&& buffer)
@@ -512,8 +512,8 @@ namespace sparrow
             throw arrow_proxy_exception("Cannot set buffer on non-sparrow created ArrowArray");
         }
         get_array_private_data()->set_buffer(index, std::move(buffer));
-        update_null_count();
         update_buffers();
+        update_null_count();
     }
 
     [[nodiscard]] const std::vector<arrow_proxy>& arrow_proxy::children() const
-- 
2.43.0


From d8d5185c4c0a39f39038aaa6830e366cde0953a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:56 +0000
Subject: [PATCH 07/38] fix: arrow_proxy counted the nulls before the offset,
 and set_length failed half-way with a foreign schema

---
 src/arrow_array_schema_proxy.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/arrow_array_schema_proxy.cpp b/src/arrow_array_schema_proxy.cpp
index facb317..09c1c51 100644
--- a/src/arrow_array_schema_proxy.cpp
+++ b/src/arrow_array_schema_proxy.cpp
@@ -682,8 +682,8 @@ namespace sparrow
         {
             const auto& validity_buffer = buffers().front();
             const dynamic_bitset_view<const std::uint8_t> bitmap(validity_buffer.data(), length() + offset());
-            const auto null_count = bitmap.null_count();
-            set_null_count(static_cast<int64_t>(null_count));
+            const dynamic_bitset_view<const std::uint8_t> skipped(validity_buffer.data(), offset());
+            array().null_count = static_cast<int64_t>(bitmap.null_count() - skipped.null_count());
         }
         
     }
-- 
2.43.0


From 3c87b7fb0687418a1aa4cfc0b22d25cc42287e3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:56 +0000
Subject: [PATCH 08/38] fix: inserting in the bitmap of an array with an offset
 changed the validity of other elements

---
 include/sparrow/arrow_array_schema_proxy.hpp | 5 +++--
 src/arrow_array_schema_proxy.cpp             | 6 +++---
 2 files changed, 6 insertions(+), 5 deletions(-)

diff --git a/include/sparrow/arrow_array_schema_proxy.hpp b/include/sparrow/arrow_array_schema_proxy.hpp
index 948293f..d2c3613 100644
--- a/include/sparrow/arrow_array_schema_proxy.hpp
+++ b/include/sparrow/arrow_array_schema_proxy.hpp
@@ -477,8 +477,9 @@ namespace sparrow
         }
         SPARROW_ASSERT_TRUE(has_bitmap(data_type()))
         auto bitmap = get_non_owning_dynamic_bitset();
-        const auto it = bitmap.insert(sparrow::next(bitmap.cbegin(), index), range.begin(), range.end());
-        return static_cast<size_t>(std::distance(bitmap.begin(), it));
+        const auto it = bitmap.insert(sparrow::next(bitmap.cbegin(), index + offset()), range.begin(), range.end());
+        update_buffers();
+        return static_cast<size_t>(std::distance(bitmap.begin(), it)) - offset();
     }
 
 }
diff --git a/src/arrow_array_schema_proxy.cpp b/src/arrow_array_schema_proxy.cpp
index 09c1c51..b535902 100644
--- a/src/arrow_array_schema_proxy.cpp
+++ b/src/arrow_array_schema_proxy.cpp
@@ -762,9 +762,9 @@ namespace sparrow
             return index;
         }
         auto bitmap = get_non_owning_dynamic_bitset();
-        auto it = bitmap.insert(sparrow::next(bitmap.cbegin(), index), count, value);
+        auto it = bitmap.insert(sparrow::next(bitmap.cbegin(), index + offset()), count, value);
         update_buffers();
-        return std::distance(bitmap.begin(), it);
+        return static_cast<size_t>(std::distance(bitmap.begin(), it)) - offset();
     }
 
     size_t arrow_proxy::erase_bitmap(size_t index, size_t count)
@@ -782,7 +782,7 @@ namespace sparrow
         const auto it_last = sparrow::next(it_first, count);
         const auto it = bitmap.erase(it_first, it_last);
         update_buffers();
-        return std::distance(bitmap.begin(), it);
+        return static_cast<size_t>(std::distance(bitmap.begin(), it)) - offset();
     }
 
     void arrow_proxy::push_back_bitmap(bool value)
-- 
2.43.0


From 0752c34c1b22433fcb6d322c6d13d3863adf900e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:56 +0000
Subject: [PATCH 09/38] fix: slicing a slice was relative to the whole array,
 and views kept the null count of the whole array

---
 src/arrow_array_schema_proxy.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/arrow_array_schema_proxy.cpp b/src/arrow_array_schema_proxy.cpp
index b535902..f49e2db 100644
--- a/src/arrow_array_schema_proxy.cpp
+++ b/src/arrow_array_schema_proxy.cpp
@@ -815,7 +815,7 @@ namespace sparrow
     {
         SPARROW_ASSERT_TRUE(start <= end);
         arrow_proxy copy = *this;
-        copy.set_offset(start);
+        copy.set_offset(offset() + start);
         copy.set_length(end - start);
         return copy;
     }
@@ -826,9 +826,11 @@ namespace sparrow
         ArrowSchema as = schema();
         as.release = empty_release_arrow_schema;
         ArrowArray ar = array();
-        ar.offset = static_cast<int64_t>(start);
+        ar.offset = static_cast<int64_t>(offset() + start);
         ar.length = static_cast<int64_t>(end - start);
         ar.release = empty_release_arrow_array;
-        return arrow_proxy{std::move(ar), std::move(as)};
+        arrow_proxy res{std::move(ar), std::move(as)};
+        res.update_null_count();
+        return res;
     }
 }
-- 
2.43.0


From 196978af9f1b08b4047f13e69e922f4f8c53339a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:06 +0000
Subject: [PATCH 10/38] fix: releasing a structure leaked an owned child that
 had been moved out

---
 .../arrow_interface/arrow_array_schema_utils.hpp     | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/include/sparrow/arrow_interface/arrow_array_schema_utils.hpp b/include/sparrow/arrow_interface/arrow_array_schema_utils.hpp
index dd095af..abb43ac 100644
--- a/include/sparrow/arrow_interface/arrow_array_schema_utils.hpp
+++ b/include/sparrow/arrow_interface/arrow_array_schema_utils.hpp
@@ -197,16 +197,16 @@ namespace sparrow
                 T* child = t.children[i];
                 if (child)
                 {
-                    if (child->release)
+                    SPARROW_ASSERT_TRUE(t.private_data != nullptr);
+                    children_ownership* own = static_cast<children_ownership*>(t.private_data);
+                    if (own->has_child_ownership(static_cast<std::size_t>(i)))
                     {
-                        SPARROW_ASSERT_TRUE(t.private_data != nullptr);
-                        children_ownership* own = static_cast<children_ownership*>(t.private_data);
-                        if (own->has_child_ownership(static_cast<std::size_t>(i)))
+                        if (child->release)
                         {
                             child->release(child);
-                            delete child;
-                            child = nullptr;
                         }
+                        delete child;
+                        child = nullptr;
                     }
                 }
             }
-- 
2.43.0


From 988ef693320c628834b0b621b65ef4f372415f4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:06 +0000
Subject: [PATCH 11/38] fix: the dictionary structure of a released array or
 schema was never deleted

---
 .../arrow_array_schema_utils.hpp              | 20 ++++++++++++++++
 src/arrow_array_schema_proxy.cpp              | 24 +++++++++++++------
 2 files changed, 37 insertions(+), 7 deletions(-)

diff --git a/include/sparrow/arrow_interface/arrow_array_schema_utils.hpp b/include/sparrow/arrow_interface/arrow_array_schema_utils.hpp
index abb43ac..c5015c4 100644
--- a/include/sparrow/arrow_interface/arrow_array_schema_utils.hpp
+++ b/include/sparrow/arrow_interface/arrow_array_schema_utils.hpp
@@ -41,6 +41,9 @@ namespace sparrow
 
         constexpr void resize_children(std::size_t size);
 
+        [[nodiscard]] constexpr bool has_dictionary_ownership() const noexcept;
+        constexpr void set_dictionary_ownership(bool ownership) noexcept;
+
     protected:
 
         constexpr explicit children_ownership(std::size_t size = 0);
@@ -49,6 +52,7 @@ namespace sparrow
 
         using children_owner_list = std::vector<bool>;
         children_owner_list m_children = {};
+        bool m_dictionary = true;
     };
 
     /**
@@ -173,6 +177,16 @@ namespace sparrow
         m_children.resize(size);
     }
 
+    [[nodiscard]] constexpr bool children_ownership::has_dictionary_ownership() const noexcept
+    {
+        return m_dictionary;
+    }
+
+    constexpr void children_ownership::set_dictionary_ownership(bool ownership) noexcept
+    {
+        m_dictionary = ownership;
+    }
+
     template <class T>
     requires std::same_as<T, ArrowArray> || std::same_as<T, ArrowSchema>
     void release_common_arrow(T& t)
@@ -188,6 +202,12 @@ namespace sparrow
             {
                 t.dictionary->release(t.dictionary);
             }
+            // The structure of a dictionary set by the user is not deleted, it may not be heap-allocated
+            if (t.private_data && static_cast<children_ownership*>(t.private_data)->has_dictionary_ownership())
+            {
+                delete t.dictionary;
+            }
+            t.dictionary = nullptr;
         }
 
         if (t.children)
diff --git a/src/arrow_array_schema_proxy.cpp b/src/arrow_array_schema_proxy.cpp
index f49e2db..c5290a5 100644
--- a/src/arrow_array_schema_proxy.cpp
+++ b/src/arrow_array_schema_proxy.cpp
@@ -590,17 +590,27 @@ namespace sparrow
             );
         }
 
-        if (array().dictionary != nullptr)
+        const auto release_dictionary = []<class T>(T* dict, const children_ownership& owner)
         {
-            array().dictionary->release(array().dictionary);
-        }
-        if (schema().dictionary != nullptr)
-        {
-            schema().dictionary->release(schema().dictionary);
-        }
+            if (dict != nullptr)
+            {
+                if (dict->release != nullptr)
+                {
+                    dict->release(dict);
+                }
+                if (owner.has_dictionary_ownership())
+                {
+                    delete dict;
+                }
+            }
+        };
+        release_dictionary(array().dictionary, *get_array_private_data());
+        release_dictionary(schema().dictionary, *get_schema_private_data());
 
         array().dictionary = array_dictionary;
         schema().dictionary = schema_dictionary;
+        get_array_private_data()->set_dictionary_ownership(false);
+        get_schema_private_data()->set_dictionary_ownership(false);
         update_dictionary();
     }
 
-- 
2.43.0


From 3b58d53eeae6b1ae588ae68119c7a3c91b97cd44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:06 +0000
Subject: [PATCH 12/38] fix: replaced or popped children were not released and
 deleted

---
 src/arrow_array_schema_proxy.cpp | 27 +++++++++++++++++++--------
 1 file changed, 19 insertions(+), 8 deletions(-)

diff --git a/src/arrow_array_schema_proxy.cpp b/src/arrow_array_schema_proxy.cpp
index c5290a5..534b98b 100644
--- a/src/arrow_array_schema_proxy.cpp
+++ b/src/arrow_array_schema_proxy.cpp
@@ -421,6 +421,19 @@ namespace sparrow
         resize_children(n_children() - n);
     }
 
+    template <class T>
+    void release_owned_child(T* child, const children_ownership& owner, size_t index)
+    {
+        if (child != nullptr && owner.has_child_ownership(index))
+        {
+            if (child->release != nullptr)
+            {
+                child->release(child);
+            }
+            delete child;
+        }
+    }
+
     void arrow_proxy::resize_children(size_t children_count)
     {
         SPARROW_ASSERT_TRUE(std::cmp_less(children_count, std::numeric_limits<int64_t>::max()));
@@ -430,14 +443,8 @@ namespace sparrow
         // Release the remaining children if the new size is smaller than the current size
         for (size_t i = children_count; i < static_cast<size_t>(array().n_children); ++i)
         {
-            if (schema_private_data->has_child_ownership(i))
-            {
-                schema().children[i]->release(schema().children[i]);
-            }
-            if (array_private_data->has_child_ownership(i))
-            {
-                array().children[i]->release(array().children[i]);
-            }
+            release_owned_child(schema().children[i], *schema_private_data, i);
+            release_owned_child(array().children[i], *array_private_data, i);
         }
 
         auto new_array_children = std::make_unique<ArrowArray*[]>(children_count);
@@ -537,6 +544,8 @@ namespace sparrow
         {
             throw arrow_proxy_exception("Cannot set child on non-sparrow created ArrowArray or ArrowSchema");
         }
+        release_owned_child(array().children[index], *get_array_private_data(), index);
+        release_owned_child(schema().children[index], *get_schema_private_data(), index);
         array().children[index] = child_array;
         schema().children[index] = child_schema;
         m_children[index] = arrow_proxy(child_array, child_schema);
@@ -553,6 +562,8 @@ namespace sparrow
         {
             throw arrow_proxy_exception("Cannot set child on non-sparrow created ArrowArray or ArrowSchema");
         }
+        release_owned_child(array().children[index], *get_array_private_data(), index);
+        release_owned_child(schema().children[index], *get_schema_private_data(), index);
         array().children[index] = new ArrowArray(std::move(child_array));
         schema().children[index] = new ArrowSchema(std::move(child_schema));
         m_children[index] = arrow_proxy(array().children[index], schema().children[index]);
-- 
2.43.0


From 3cbe9923f24641d39dbc095c8d3cafefdfc77697 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:19 +0000
Subject: [PATCH 13/38] fix: size of the variadic buffer sizes of string and
 binary view arrays

---
 src/arrow_interface/arrow_array.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/arrow_interface/arrow_array.cpp b/src/arrow_interface/arrow_array.cpp
index fa9e6b9..8c2bb06 100644
--- a/src/arrow_interface/arrow_array.cpp
+++ b/src/arrow_interface/arrow_array.cpp
@@ -187,7 +187,7 @@ namespace sparrow
                 {
                     buffers[i + 2] = make_buffer(i + 2, var_buffer_sizes[i]);
                 }
-                buffers.back() = make_buffer(buffer_count -1 , size * 4);
+                buffers.back() = make_buffer(buffer_count - 1, num_extra_data_buffers * sizeof(int64_t));
                 return buffers;
         }
         // To avoid stupid warning "control reaches end of non-void function"
-- 
2.43.0


From 5248bac423f444bd01bf5af608639d9ebbba5f15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:19 +0000
Subject: [PATCH 14/38] fix: width of decimal formats with an explicit bit
 width

---
 src/arrow_interface/arrow_array.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/arrow_interface/arrow_array.cpp b/src/arrow_interface/arrow_array.cpp
index 8c2bb06..a3ba483 100644
--- a/src/arrow_interface/arrow_array.cpp
+++ b/src/arrow_interface/arrow_array.cpp
@@ -94,7 +94,7 @@ namespace sparrow
         else
         {
             // get the position of second comma
-            const auto second_comma_ptr = std::strchr(format, ',');
+            const auto second_comma_ptr = std::strchr(std::strchr(format, ',') + 1, ',');
             if(!all_digits(std::string_view(second_comma_ptr + 1)))
             {
                 throw std::runtime_error("Invalid format for decimal");
@@ -172,7 +172,7 @@ namespace sparrow
             case data_type::TIMESTAMP:
                 return {make_valid_buffer(), make_buffer(1, size * 8)};
             case data_type::DECIMAL:
-                return {make_valid_buffer(), make_buffer(1, size * 16)}; 
+                return {make_valid_buffer(), make_buffer(1, size * num_bytes_for_decimal(schema.format))};
             case data_type::FIXED_WIDTH_BINARY:
                 return {make_valid_buffer(), make_buffer(1, size *  num_bytes_for_fixed_sized_binary(schema.format))};
             case data_type::STRING_VIEW:
-- 
2.43.0


From d84b7b881b8e2ada8ec37d510e131ff08e7ac0de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:19 +0000
Subject: [PATCH 15/38] fix: buffers of large string and large binary arrays
 were sized with 32 bits offsets

---
 src/arrow_interface/arrow_array.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/arrow_interface/arrow_array.cpp b/src/arrow_interface/arrow_array.cpp
index a3ba483..67e4be6 100644
--- a/src/arrow_interface/arrow_array.cpp
+++ b/src/arrow_interface/arrow_array.cpp
@@ -153,6 +153,15 @@ namespace sparrow
                 return {make_valid_buffer(), make_buffer(1, size * 8)};
             case data_type::STRING:
             case data_type::BINARY:
+                if (std::string_view(schema.format) == "U" || std::string_view(schema.format) == "Z")
+                {
+                    // large string or large binary
+                    return {
+                        make_valid_buffer(),
+                        make_buffer(1, (size + 1) * 8),
+                        make_buffer(2, static_cast<size_t>(static_const_ptr_cast<int64_t>(array.buffers[1])[size]))
+                    };
+                }
                 return {make_valid_buffer(),make_buffer(1, (size + 1) * 4), make_buffer(2, static_const_ptr_cast<int32_t>(array.buffers[1])[size])};
             case data_type::LIST:
                 return {make_valid_buffer(), make_buffer(1, (size + 1) * 4)};
-- 
2.43.0


From 2ae8fb010b1199e1415c23c21178e35bc7dfe21f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:19 +0000
Subject: [PATCH 16/38] fix: the buffers of a map array were not copied

---
 src/arrow_interface/arrow_array.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/arrow_interface/arrow_array.cpp b/src/arrow_interface/arrow_array.cpp
index 67e4be6..8c8ce96 100644
--- a/src/arrow_interface/arrow_array.cpp
+++ b/src/arrow_interface/arrow_array.cpp
@@ -132,7 +132,6 @@ namespace sparrow
         {   
             case data_type::NA:
             case data_type::RUN_ENCODED:
-            case data_type::MAP:
                 return {};
             case data_type::BOOL:   
                 return {make_valid_buffer(), make_buffer(1, (size + 7) / 8)};
@@ -164,6 +163,7 @@ namespace sparrow
                 }
                 return {make_valid_buffer(),make_buffer(1, (size + 1) * 4), make_buffer(2, static_const_ptr_cast<int32_t>(array.buffers[1])[size])};
             case data_type::LIST:
+            case data_type::MAP:
                 return {make_valid_buffer(), make_buffer(1, (size + 1) * 4)};
             case data_type::LARGE_LIST:
                 return {make_valid_buffer(), make_buffer(1, (size + 1) * 8)};
-- 
2.43.0


From e64a14031faecea69d5d2da5c385fd3d2a6f50e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:19 +0000
Subject: [PATCH 17/38] fix: the values of 32 and 128 bits temporal arrays were
 copied as 64 bits ones

---
 src/arrow_interface/arrow_array.cpp | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/arrow_interface/arrow_array.cpp b/src/arrow_interface/arrow_array.cpp
index 8c8ce96..1c69f3b 100644
--- a/src/arrow_interface/arrow_array.cpp
+++ b/src/arrow_interface/arrow_array.cpp
@@ -109,7 +109,16 @@ namespace sparrow
             return num_bits / 8;
         }       
     }
-    
+
+    // get the byte width of temporal types from format
+    std::size_t num_bytes_for_temporal(const std::string_view format)
+    {
+        if (format == "tdD" || format == "tts" || format == "ttm" || format == "tiM")
+        {
+            return 4;  // date32, time32, interval in months
+        }
+        return format == "tin" ? 16 : 8;
+    }
 
     std::vector<sparrow::buffer_view<uint8_t>>
     get_arrow_array_buffers(const ArrowArray& array, const ArrowSchema& schema)
@@ -179,7 +188,7 @@ namespace sparrow
             case data_type::DENSE_UNION:
                 return {make_buffer(0, size), make_buffer(1, size*4)};
             case data_type::TIMESTAMP:
-                return {make_valid_buffer(), make_buffer(1, size * 8)};
+                return {make_valid_buffer(), make_buffer(1, size * num_bytes_for_temporal(schema.format))};
             case data_type::DECIMAL:
                 return {make_valid_buffer(), make_buffer(1, size * num_bytes_for_decimal(schema.format))};
             case data_type::FIXED_WIDTH_BINARY:
-- 
2.43.0


From cd84322af181b6d822ac50a296e43e7291656cdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:10 +0000
Subject: [PATCH 18/38] fix: copying an array without validity buffer gave it
 one of no size

---
 src/arrow_interface/arrow_array.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/arrow_interface/arrow_array.cpp b/src/arrow_interface/arrow_array.cpp
index 1c69f3b..0dee4c6 100644
--- a/src/arrow_interface/arrow_array.cpp
+++ b/src/arrow_interface/arrow_array.cpp
@@ -250,7 +250,14 @@ namespace sparrow
         SPARROW_ASSERT_TRUE(buffers.size() == static_cast<std::size_t>(source_array.n_buffers));
         for (const auto& buffer : buffers)
         {
-            buffers_copy.emplace_back(buffer);
+            if (buffer.data() != nullptr)
+            {
+                buffers_copy.emplace_back(buffer);
+            }
+            else
+            {
+                buffers_copy.emplace_back();  // keep a missing buffer missing
+            }
         }
         target.private_data = new arrow_array_private_data(
             std::move(buffers_copy),
-- 
2.43.0


From 7abcc7f4d5a57c8ba40ada9c329e177a66e2dd35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:34 +0000
Subject: [PATCH 19/38] fix: a view or slice of a bitmap cleared the bits after
 its end, which belong to others

---
 .../buffer/dynamic_bitset/dynamic_bitset_base.hpp   | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/include/sparrow/buffer/dynamic_bitset/dynamic_bitset_base.hpp b/include/sparrow/buffer/dynamic_bitset/dynamic_bitset_base.hpp
index f59bad6..0a10bc1 100644
--- a/include/sparrow/buffer/dynamic_bitset/dynamic_bitset_base.hpp
+++ b/include/sparrow/buffer/dynamic_bitset/dynamic_bitset_base.hpp
@@ -152,6 +152,12 @@ namespace sparrow
         static constexpr size_type bit_index(size_type pos) noexcept;
         static constexpr block_type bit_mask(size_type pos) noexcept;
 
+        // The bits of a view belong to somebody else, even those after the end of the view.
+        static constexpr bool s_owns_unused_bits = !std::is_const_v<block_type>
+                                                   && requires(storage_type_without_cvrefpointer& buf) {
+                                                          buf.resize(size_type(0));
+                                                      };
+
         size_type count_non_null() const noexcept;
         constexpr size_type count_extra_bits() const noexcept;
         constexpr void zero_unused_bits();
@@ -382,7 +388,7 @@ namespace sparrow
         , m_size(size)
         , m_null_count(m_size - count_non_null())
     {
-        if constexpr (!std::is_const_v<block_type>)
+        if constexpr (s_owns_unused_bits)
         {
             zero_unused_bits();
         }
@@ -395,9 +401,12 @@ namespace sparrow
         , m_size(size)
         , m_null_count(null_count)
     {
-        if constexpr (!std::is_const_v<block_type>)
+        if constexpr (s_owns_unused_bits)
         {
             zero_unused_bits();
+        }
+        if constexpr (!std::is_const_v<block_type>)
+        {
             SPARROW_ASSERT_TRUE(m_null_count == m_size - count_non_null());
         }
     }
-- 
2.43.0


From 576240cb1d1d744710652ae93caa326b787621cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:34 +0000
Subject: [PATCH 20/38] fix: changing the bitmap of an array without validity
 buffer or with spare bits gave wrong validities

---
 src/arrow_array_schema_proxy.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/arrow_array_schema_proxy.cpp b/src/arrow_array_schema_proxy.cpp
index 534b98b..95f27ec 100644
--- a/src/arrow_array_schema_proxy.cpp
+++ b/src/arrow_array_schema_proxy.cpp
@@ -751,6 +751,8 @@ namespace sparrow
         auto private_data = static_cast<arrow_array_private_data*>(array().private_data);
         auto& bitmap_buffer = private_data->buffers()[bitmap_buffer_index];
         const size_t current_size = length() + offset();
+        // Missing validity bits mean non null elements, and the bits after the last element are not part of the bitmap.
+        bitmap_buffer.resize(non_owning_dynamic_bitset<uint8_t>::compute_block_count(current_size), uint8_t(0xFF));
         non_owning_dynamic_bitset<uint8_t> bitmap{&bitmap_buffer, current_size};
         return bitmap;
     }
-- 
2.43.0


From 0780c75915de58dfa4b5a1b24ded0707134c0472 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:34 +0000
Subject: [PATCH 21/38] fix: resizing an array with a null value appended non
 null elements

---
 include/sparrow/layout/array_bitmap_base.hpp  | 6 +++---
 include/sparrow/layout/mutable_array_base.hpp | 2 +-
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/sparrow/layout/array_bitmap_base.hpp b/include/sparrow/layout/array_bitmap_base.hpp
index 3865477..75f0f7a 100644
--- a/include/sparrow/layout/array_bitmap_base.hpp
+++ b/include/sparrow/layout/array_bitmap_base.hpp
@@ -63,7 +63,7 @@ namespace sparrow
             requires is_mutable;
         const bitmap_type& get_bitmap() const;
 
-        void resize_bitmap(size_type new_length)
+        void resize_bitmap(size_type new_length, bool value = true)
             requires is_mutable;
 
         bitmap_iterator insert_bitmap(const_bitmap_iterator pos, bool value, size_type count)
@@ -161,12 +161,12 @@ namespace sparrow
     }
 
     template <class D, bool is_mutable>
-    void array_bitmap_base_impl<D, is_mutable>::resize_bitmap(size_type new_length)
+    void array_bitmap_base_impl<D, is_mutable>::resize_bitmap(size_type new_length, bool value)
         requires is_mutable
     {
         arrow_proxy& arrow_proxy = this->get_arrow_proxy();
         const size_t new_size = new_length + arrow_proxy.offset();
-        arrow_proxy.resize_bitmap(new_size);
+        arrow_proxy.resize_bitmap(new_size, value);
     }
 
     template <class D, bool is_mutable>
diff --git a/include/sparrow/layout/mutable_array_base.hpp b/include/sparrow/layout/mutable_array_base.hpp
index d6359fa..1661145 100644
--- a/include/sparrow/layout/mutable_array_base.hpp
+++ b/include/sparrow/layout/mutable_array_base.hpp
@@ -254,7 +254,7 @@ namespace sparrow
     void mutable_array_base<D>::resize(size_type new_length, const value_type& value)
     {
         auto& derived = this->derived_cast();
-        derived.resize_bitmap(new_length);
+        derived.resize_bitmap(new_length, value.has_value());
         derived.resize_values(new_length, value.get());
         this->get_arrow_proxy().set_length(new_length);  // Must be done after resizing the bitmap and values
         derived.update();
-- 
2.43.0


From 95cb422986469aefa8a31914ca711ca7bb42b10f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:49 +0000
Subject: [PATCH 22/38] fix: adding a second child replaced the handles of the
 children by copies

---
 include/sparrow/arrow_array_schema_proxy.hpp | 4 ++--
 src/arrow_array_schema_proxy.cpp             | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/sparrow/arrow_array_schema_proxy.hpp b/include/sparrow/arrow_array_schema_proxy.hpp
index d2c3613..5077028 100644
--- a/include/sparrow/arrow_array_schema_proxy.hpp
+++ b/include/sparrow/arrow_array_schema_proxy.hpp
@@ -81,8 +81,8 @@ namespace sparrow
         SPARROW_API arrow_proxy& operator=(const arrow_proxy&);
 
         // Move constructors
-        SPARROW_API arrow_proxy(arrow_proxy&&);
-        SPARROW_API arrow_proxy& operator=(arrow_proxy&&);
+        SPARROW_API arrow_proxy(arrow_proxy&&) noexcept;
+        SPARROW_API arrow_proxy& operator=(arrow_proxy&&) noexcept;
 
         SPARROW_API ~arrow_proxy();
 
diff --git a/src/arrow_array_schema_proxy.cpp b/src/arrow_array_schema_proxy.cpp
index 95f27ec..a5ec8e7 100644
--- a/src/arrow_array_schema_proxy.cpp
+++ b/src/arrow_array_schema_proxy.cpp
@@ -173,7 +173,7 @@ namespace sparrow
         return *this;
     }
 
-    arrow_proxy::arrow_proxy(arrow_proxy&& other)
+    arrow_proxy::arrow_proxy(arrow_proxy&& other) noexcept
         : m_array(std::move(other.m_array))
         , m_schema(std::move(other.m_schema))
         , m_buffers(std::move(other.m_buffers))
@@ -185,7 +185,7 @@ namespace sparrow
         other.reset();
     }
 
-    arrow_proxy& arrow_proxy::operator=(arrow_proxy&& rhs)
+    arrow_proxy& arrow_proxy::operator=(arrow_proxy&& rhs) noexcept
     {
         swap(rhs);
         return *this;
-- 
2.43.0


From 9c725d2c7088270b50697139c5aece161f76ec0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:09 +0000
Subject: [PATCH 23/38] fix: list arrays with an offset read other lists

---
 include/sparrow/layout/list_layout/list_array.hpp | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/include/sparrow/layout/list_layout/list_array.hpp b/include/sparrow/layout/list_layout/list_array.hpp
index d1fda9f..eeee301 100644
--- a/include/sparrow/layout/list_layout/list_array.hpp
+++ b/include/sparrow/layout/list_layout/list_array.hpp
@@ -563,8 +563,8 @@ namespace sparrow
     auto list_array_impl<BIG>::make_list_offsets() -> offset_type*
     {
         return reinterpret_cast<offset_type*>(
-              this->get_arrow_proxy().buffers()[OFFSET_BUFFER_INDEX].data() + this->get_arrow_proxy().offset()
-        );
+              this->get_arrow_proxy().buffers()[OFFSET_BUFFER_INDEX].data()
+        ) + this->get_arrow_proxy().offset();
     }
 
     /***************************************
@@ -657,16 +657,16 @@ namespace sparrow
     auto list_view_array_impl<BIG>::make_list_offsets() -> offset_type*
     {
         return reinterpret_cast<offset_type*>(
-              this->get_arrow_proxy().buffers()[OFFSET_BUFFER_INDEX].data() + this->get_arrow_proxy().offset()
-        );
+              this->get_arrow_proxy().buffers()[OFFSET_BUFFER_INDEX].data()
+        ) + this->get_arrow_proxy().offset();
     }
 
     template <bool BIG>
     auto list_view_array_impl<BIG>::make_list_sizes() -> offset_type*
     {
         return reinterpret_cast<offset_type*>(
-              this->get_arrow_proxy().buffers()[SIZES_BUFFER_INDEX].data() + this->get_arrow_proxy().offset()
-        );
+              this->get_arrow_proxy().buffers()[SIZES_BUFFER_INDEX].data()
+        ) + this->get_arrow_proxy().offset();
     }
 
 #ifdef __GNUC__
@@ -693,7 +693,7 @@ namespace sparrow
 
     inline auto fixed_sized_list_array::offset_range(size_type i) const -> std::pair<offset_type, offset_type>
     {
-        const auto offset = i * m_list_size;
+        const auto offset = (i + this->get_arrow_proxy().offset()) * m_list_size;
         return std::make_pair(offset, offset + m_list_size);
     }
 
-- 
2.43.0


From 44cfe8d4ae1bbcedf230d5997025eaf16ed4a338 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:22 +0000
Subject: [PATCH 24/38] fix: struct arrays ignored their offset, and building
 one without children read out of bounds

---
 include/sparrow/layout/struct_layout/struct_array.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/sparrow/layout/struct_layout/struct_array.hpp b/include/sparrow/layout/struct_layout/struct_array.hpp
index 97067e5..15c0a59 100644
--- a/include/sparrow/layout/struct_layout/struct_array.hpp
+++ b/include/sparrow/layout/struct_layout/struct_array.hpp
@@ -153,7 +153,7 @@ namespace sparrow
         ArrowSchema** child_schemas = new ArrowSchema*[n_children];
         ArrowArray** child_arrays = new ArrowArray*[n_children];
 
-        const auto size = children[0].size();
+        const auto size = n_children == 0 ? size_type(0) : children[0].size();
         
         for(std::size_t i=0; i<n_children; ++i)
         {
@@ -228,12 +228,12 @@ namespace sparrow
 
     inline auto struct_array::value(size_type i) -> inner_reference
     {
-        return struct_value{m_children, i};
+        return struct_value{m_children, i + this->get_arrow_proxy().offset()};
     }
 
     inline auto struct_array::value(size_type i) const -> inner_const_reference
     {
-        return struct_value{m_children, i};
+        return struct_value{m_children, i + this->get_arrow_proxy().offset()};
     }
 
     inline auto struct_array::make_children() -> children_type
-- 
2.43.0


From 12cf4622c2c290e37b8afe9d2eeb1a8418767be5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:22 +0000
Subject: [PATCH 25/38] fix: union arrays ignored their offset for type ids and
 added it to dense offsets

---
 include/sparrow/layout/union_array.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/sparrow/layout/union_array.hpp b/include/sparrow/layout/union_array.hpp
index 0bd32b9..acf0a1c 100644
--- a/include/sparrow/layout/union_array.hpp
+++ b/include/sparrow/layout/union_array.hpp
@@ -325,7 +325,7 @@ namespace sparrow
     template <class DERIVED>
     auto union_array_crtp_base<DERIVED>::operator[](std::size_t i) const -> value_type
     {   
-        const auto type_id = static_cast<std::size_t>(p_type_ids[i]);
+        const auto type_id = static_cast<std::size_t>(p_type_ids[i + m_proxy.offset()]);
         const auto child_index = m_type_id_map[type_id];
         const auto offset = this->derived_cast().element_offset(i);
         return array_element(*m_children[child_index], static_cast<std::size_t>(offset));
@@ -502,7 +502,7 @@ namespace sparrow
 
     inline std::size_t dense_union_array::element_offset(std::size_t i) const
     {
-        return static_cast<std::size_t>(p_offsets[i]) + m_proxy.offset();
+        return static_cast<std::size_t>(p_offsets[i + m_proxy.offset()]);
     }
 
     /*************************************
-- 
2.43.0


From 8c4ad8dd89930825aedfb93ebd40e79fd2ca2e79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:22 +0000
Subject: [PATCH 26/38] fix: growing a slice of a primitive array gave the
 values following the slice

---
 include/sparrow/layout/primitive_array.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/sparrow/layout/primitive_array.hpp b/include/sparrow/layout/primitive_array.hpp
index 331546e..558830b 100644
--- a/include/sparrow/layout/primitive_array.hpp
+++ b/include/sparrow/layout/primitive_array.hpp
@@ -417,7 +417,10 @@ namespace sparrow
     void primitive_array<T>::resize_values(size_type new_length, inner_value_type value)
     {
         const size_t new_size = new_length + static_cast<size_t>(this->get_arrow_proxy().offset());
-        get_data_buffer().resize(new_size, value);
+        auto data_buffer = get_data_buffer();
+        // The values after the last element, if any, are not those of new elements.
+        data_buffer.resize(std::min(new_size, this->size() + static_cast<size_t>(this->get_arrow_proxy().offset())));
+        data_buffer.resize(new_size, value);
     }
 
     template <class T>
-- 
2.43.0


From 513249c0f13b83310a6c377a9379f4e08ba7c2eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:22 +0000
Subject: [PATCH 27/38] fix: missing elements of dictionary arrays had the type
 of the first dictionary of the program

---
 .../layout/dictionary_encoded_array.hpp       | 23 +++++++------------
 1 file changed, 8 insertions(+), 15 deletions(-)

diff --git a/include/sparrow/layout/dictionary_encoded_array.hpp b/include/sparrow/layout/dictionary_encoded_array.hpp
index e14fd46..020ae67 100644
--- a/include/sparrow/layout/dictionary_encoded_array.hpp
+++ b/include/sparrow/layout/dictionary_encoded_array.hpp
@@ -152,7 +152,6 @@ namespace sparrow
         using keys_layout = primitive_array<IT>;
         using values_layout = cloning_ptr<array_wrapper>;
 
-        const inner_value_type& dummy_inner_value() const;
         //inner_const_reference dummy_inner_const_reference() const;
         const_reference dummy_const_reference() const;
 
@@ -325,13 +324,6 @@ namespace sparrow
         return const_iterator(const_functor_type(this), size());
     }
 
-    template <std::integral IT>
-    auto dictionary_encoded_array<IT>::dummy_inner_value() const -> const inner_value_type&
-    {
-        static const inner_value_type instance = array_default_element_value(*p_values_layout);
-        return instance;
-    }
-
     /*template <std::integral IT>
     auto dictionary_encoded_array<IT>::dummy_inner_const_reference() const -> inner_const_reference
     {
@@ -343,13 +335,14 @@ namespace sparrow
     template <std::integral IT>
     auto dictionary_encoded_array<IT>::dummy_const_reference() const -> const_reference
     {
-        static const const_reference instance =
-            std::visit([](const auto& val) -> const_reference {
-                using inner_ref = typename arrow_traits<std::decay_t<decltype(val)>>::const_reference;
-                return nullable<inner_ref>(inner_ref(val), false);
-            },
-            dummy_inner_value());
-        return instance;
+        // One instance per type of values, since dictionaries of different types share this class.
+        return std::visit([](const auto& val) -> const_reference {
+            using inner_val = std::decay_t<decltype(val)>;
+            using inner_ref = typename arrow_traits<inner_val>::const_reference;
+            static const inner_val instance = val;
+            return nullable<inner_ref>(inner_ref(instance), false);
+        },
+        array_default_element_value(*p_values_layout));
     }
 
     template <std::integral IT>
-- 
2.43.0


From d46e4ce556b15bc5fa1b50364d27ce9bfc93ab93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:22 +0000
Subject: [PATCH 28/38] fix: run-end encoded arrays ignored their offset, and
 their iterators read out of bounds

---
 .../run_end_encoded_array.hpp                 | 21 +++++++++++++++----
 .../run_end_encoded_iterator.hpp              | 13 +++++++-----
 src/run_encoded_array.cpp                     | 12 +++++++----
 3 files changed, 33 insertions(+), 13 deletions(-)

diff --git a/include/sparrow/layout/run_end_encoded_layout/run_end_encoded_array.hpp b/include/sparrow/layout/run_end_encoded_layout/run_end_encoded_array.hpp
index 4f52832..38e1cc5 100644
--- a/include/sparrow/layout/run_end_encoded_layout/run_end_encoded_array.hpp
+++ b/include/sparrow/layout/run_end_encoded_layout/run_end_encoded_array.hpp
@@ -98,6 +98,8 @@ namespace sparrow
         SPARROW_API static std::pair<std::int64_t, std::int64_t> extract_length_and_null_count( const array&, const array&);
         SPARROW_API static acc_length_ptr_variant_type get_acc_lengths_ptr(const array_wrapper& ar);
         SPARROW_API std::uint64_t get_run_length(std::uint64_t run_index) const;
+        SPARROW_API std::uint64_t get_run_end(std::uint64_t run_index) const;
+        SPARROW_API std::uint64_t find_run(std::uint64_t index) const;
 
         [[nodiscard]] arrow_proxy& get_arrow_proxy();
         [[nodiscard]] const arrow_proxy& get_arrow_proxy() const;
@@ -174,6 +176,17 @@ namespace sparrow
         return ret;
     }
     
+    inline auto run_end_encoded_array::get_run_end(std::uint64_t run_index) const -> std::uint64_t
+    {
+        return std::visit(
+            [run_index](auto&& acc_lengths_ptr) -> std::uint64_t
+            {
+                return static_cast<std::uint64_t>(acc_lengths_ptr[run_index]);
+            },
+            m_acc_lengths
+        );
+    }
+
     inline arrow_proxy& run_end_encoded_array::get_arrow_proxy()
     {
         return m_proxy;
@@ -191,12 +204,12 @@ namespace sparrow
 
     inline auto run_end_encoded_array::begin() -> iterator
     {
-        return iterator(this, 0, 0);
+        return iterator(this, 0);
     }
 
     inline auto run_end_encoded_array::end() -> iterator
     {
-        return iterator(this, size(), 0);
+        return iterator(this, size());
     }
 
     inline auto run_end_encoded_array::begin() const -> const_iterator
@@ -211,12 +224,12 @@ namespace sparrow
 
     inline auto run_end_encoded_array::cbegin() const -> const_iterator
     {
-        return const_iterator(this, 0, 0);
+        return const_iterator(this, 0);
     }
 
     inline auto run_end_encoded_array::cend() const -> const_iterator
     {
-        return const_iterator(this, size(), 0);
+        return const_iterator(this, size());
     }
 
     inline bool operator==(const run_end_encoded_array& lhs, const run_end_encoded_array& rhs)
diff --git a/include/sparrow/layout/run_end_encoded_layout/run_end_encoded_iterator.hpp b/include/sparrow/layout/run_end_encoded_layout/run_end_encoded_iterator.hpp
index 8faafb8..1c29687 100644
--- a/include/sparrow/layout/run_end_encoded_layout/run_end_encoded_iterator.hpp
+++ b/include/sparrow/layout/run_end_encoded_layout/run_end_encoded_iterator.hpp
@@ -44,7 +44,7 @@ namespace sparrow
         using array_ptr_type = std::conditional_t<CONST, const run_end_encoded_array *, run_end_encoded_array*>;
     public:
         run_encoded_array_iterator() = default;
-        run_encoded_array_iterator(array_ptr_type array_ptr, std::uint64_t index, std::uint64_t run_end_index);
+        run_encoded_array_iterator(array_ptr_type array_ptr, std::uint64_t index);
     private:
 
         bool equal(const run_encoded_array_iterator& rhs) const;
@@ -60,14 +60,17 @@ namespace sparrow
     };
     
     template<bool CONST>
-    run_encoded_array_iterator<CONST>::run_encoded_array_iterator(array_ptr_type array_ptr, std::uint64_t index, std::uint64_t run_end_index)
+    run_encoded_array_iterator<CONST>::run_encoded_array_iterator(array_ptr_type array_ptr, std::uint64_t index)
         : 
         p_array(array_ptr),
         p_encoded_values_array(array_ptr->p_encoded_values_array.get()),
-        m_index(index), 
-        m_run_end_index(run_end_index),
-        m_runs_left(array_ptr->get_run_length(index))
+        m_index(index)
     {
+        if (m_index < p_array->size())
+        {
+            m_run_end_index = p_array->find_run(m_index);
+            m_runs_left = p_array->get_run_end(m_run_end_index) - (m_index + p_array->get_arrow_proxy().offset());
+        }
     }
 
     template<bool CONST>
diff --git a/src/run_encoded_array.cpp b/src/run_encoded_array.cpp
index a5d5608..e59219a 100644
--- a/src/run_encoded_array.cpp
+++ b/src/run_encoded_array.cpp
@@ -34,9 +34,14 @@ namespace sparrow
     }
 
     auto run_end_encoded_array::operator[](std::uint64_t i) const -> array_traits::const_reference
+    {
+        return array_element(*p_encoded_values_array, static_cast<std::size_t>(find_run(i)));
+    }
+
+    std::uint64_t run_end_encoded_array::find_run(std::uint64_t index) const
     {
         return visit(
-            [i, this](const auto& acc_lengths_ptr) -> array_traits::const_reference
+            [i = index + m_proxy.offset(), this](const auto& acc_lengths_ptr) -> std::uint64_t
             {
                 const auto it = std::upper_bound(
                     acc_lengths_ptr,
@@ -44,8 +49,7 @@ namespace sparrow
                     i
                 );
                 // std::lower_bound returns an iterator, so we need to convert it to an index
-                const auto index = static_cast<std::size_t>(std::distance(acc_lengths_ptr, it));
-                return array_element(*p_encoded_values_array, static_cast<std::size_t>(index));
+                return static_cast<std::uint64_t>(std::distance(acc_lengths_ptr, it));
             },
             m_acc_lengths
         );
@@ -70,7 +74,7 @@ namespace sparrow
                 {   
                     auto acc_length_data = acc_lengths_array.data();
                     // get the length of the array (ie last element in the acc_lengths array)
-                    length = acc_length_data[raw_size - 1];
+                    length = raw_size == 0 ? 0 : static_cast<std::int64_t>(acc_length_data[raw_size - 1]);
 
                     if(raw_null_count == 0){
                         return;
-- 
2.43.0


From b1bc0c667c763d7f8bec3843643ffce74a3e3432 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:20 +0000
Subject: [PATCH 29/38] fix: edits of string arrays ignored the array offset,
 misplaced inserted elements and lost bytes when shrinking one

---
 .../variable_size_binary_array.hpp            | 86 ++++++++++++-------
 1 file changed, 56 insertions(+), 30 deletions(-)

diff --git a/include/sparrow/layout/variable_size_binary_layout/variable_size_binary_array.hpp b/include/sparrow/layout/variable_size_binary_layout/variable_size_binary_array.hpp
index 2e18f15..79f6fdb 100644
--- a/include/sparrow/layout/variable_size_binary_layout/variable_size_binary_array.hpp
+++ b/include/sparrow/layout/variable_size_binary_layout/variable_size_binary_array.hpp
@@ -273,6 +273,9 @@ namespace sparrow
             requires mpl::convertible_ranges<U, T>
         void assign(U&& rhs, size_type index);
 
+        // Position in the offset buffer of the offset of element i
+        size_type offset_buffer_index(size_type i) const;
+
         friend class variable_size_binary_reference<self_type>;
         friend const_value_iterator;
         friend base_type;
@@ -416,25 +419,39 @@ namespace sparrow
         const auto offset_beg = *offset(index);
         const auto offset_end = *offset(index + 1);
         const auto initial_value_length = offset_end - offset_beg;
-        const auto new_value_length = static_cast<OT>(std::ranges::size(rhs));
+        // The new value may be an element of this array, whose bytes are about to be moved
+        const std::vector<uint8_t> new_value(std::ranges::begin(rhs), std::ranges::end(rhs));
+        const auto new_value_length = static_cast<OT>(new_value.size());
         const OT shift_byte_count = new_value_length - initial_value_length;
-        auto& data_buffer = this->get_arrow_proxy().get_array_private_data()->buffers()[DATA_BUFFER_INDEX];
+        auto& buffers = this->get_arrow_proxy().get_array_private_data()->buffers();
+        auto& data_buffer = buffers[DATA_BUFFER_INDEX];
         if (shift_byte_count != 0)
         {
-            const auto shift_val_abs = static_cast<size_type>(std::abs(shift_byte_count));
-            const auto new_data_buffer_size = shift_byte_count < 0 ? data_buffer.size() - shift_val_abs
-                                                                   : data_buffer.size() + shift_val_abs;
-            data_buffer.resize(new_data_buffer_size);
-            // Move elements to make space for the new value
-            std::move_backward(
-                data_buffer.begin() + offset_end,
-                data_buffer.end() - shift_byte_count,
-                data_buffer.end()
-            );
+            if (shift_byte_count < 0)
+            {
+                // Move the following elements before dropping the space left
+                std::move(
+                    data_buffer.begin() + offset_end,
+                    data_buffer.end(),
+                    data_buffer.begin() + (offset_end + shift_byte_count)
+                );
+                data_buffer.resize(data_buffer.size() - static_cast<size_type>(-shift_byte_count));
+            }
+            else
+            {
+                // Move the following elements to make space for the new value
+                data_buffer.resize(data_buffer.size() + static_cast<size_type>(shift_byte_count));
+                std::move_backward(
+                    data_buffer.begin() + offset_end,
+                    data_buffer.end() - shift_byte_count,
+                    data_buffer.end()
+                );
+            }
             // Adjust offsets for subsequent elements
+            auto offset_buffer_adaptor = make_buffer_adaptor<OT>(buffers[OFFSET_BUFFER_INDEX]);
             std::for_each(
-                offset(index + 1),
-                offset(size() + 1),
+                sparrow::next(offset_buffer_adaptor.begin(), offset_buffer_index(index + 1)),
+                offset_buffer_adaptor.end(),
                 [shift_byte_count](auto& offset)
                 {
                     offset += shift_byte_count;
@@ -442,13 +459,19 @@ namespace sparrow
             );
         }
         // Copy the new value into the buffer
-        std::copy(std::ranges::begin(rhs), std::ranges::end(rhs), data_buffer.begin() + offset_beg);
+        std::copy(new_value.begin(), new_value.end(), data_buffer.begin() + offset_beg);
+    }
+
+    template <std::ranges::sized_range T, class CR, layout_offset OT>
+    auto variable_size_binary_array_impl<T, CR, OT>::offset_buffer_index(size_type i) const -> size_type
+    {
+        return static_cast<size_type>(this->get_arrow_proxy().offset()) + i;
     }
 
     template <std::ranges::sized_range T, class CR, layout_offset OT>
     auto variable_size_binary_array_impl<T, CR, OT>::offset(size_type i) -> offset_iterator
     {
-        SPARROW_ASSERT_TRUE(i <= size() + this->get_arrow_proxy().offset());
+        SPARROW_ASSERT_TRUE(i <= size() + 1);
         return get_arrow_proxy().buffers()[OFFSET_BUFFER_INDEX].template data<OT>()
                + static_cast<size_type>(this->get_arrow_proxy().offset()) + i;
     }
@@ -456,7 +479,7 @@ namespace sparrow
     template <std::ranges::sized_range T, class CR, layout_offset OT>
     auto variable_size_binary_array_impl<T, CR, OT>::offset(size_type i) const -> const_offset_iterator
     {
-        SPARROW_ASSERT_TRUE(i <= this->size() + this->get_arrow_proxy().offset());
+        SPARROW_ASSERT_TRUE(i <= this->size() + 1);
         return this->get_arrow_proxy().buffers()[OFFSET_BUFFER_INDEX].template data<OT>()
                + static_cast<size_type>(this->get_arrow_proxy().offset()) + i;
     }
@@ -566,7 +589,7 @@ namespace sparrow
         auto& data_buffer = this->get_arrow_proxy().get_array_private_data()->buffers()[DATA_BUFFER_INDEX];
         const auto pos_to_insert = sparrow::next(data_buffer.cbegin(), offset_begin);
         data_buffer.insert(pos_to_insert, joined_repeated_value_range.begin(), joined_repeated_value_range.end());
-        insert_offset(offsets_cbegin() + idx + 1, static_cast<offset_type>(value.size()), count);
+        insert_offset(offset(idx), static_cast<offset_type>(casted_value.size()), count);
         return sparrow::next(value_begin(), idx);
     }
 
@@ -580,19 +603,20 @@ namespace sparrow
         auto& offset_buffer = get_arrow_proxy().get_array_private_data()->buffers()[OFFSET_BUFFER_INDEX];
         const auto idx = static_cast<size_t>(std::distance(offsets_cbegin(), pos));
         auto offset_buffer_adaptor = make_buffer_adaptor<OT>(offset_buffer);
+        const size_t buffer_idx = offset_buffer_index(idx);
         const offset_type cumulative_size = value_size * static_cast<offset_type>(count);
         // Adjust offsets for subsequent elements
         std::for_each(
-            sparrow::next(offset_buffer_adaptor.begin(), idx + 1),
+            sparrow::next(offset_buffer_adaptor.begin(), buffer_idx + 1),
             offset_buffer_adaptor.end(),
             [cumulative_size](auto& offset)
             {
                 offset += cumulative_size;
             }
         );
-        offset_buffer_adaptor.insert(sparrow::next(offset_buffer_adaptor.cbegin(), idx + 1), count, 0);
+        offset_buffer_adaptor.insert(sparrow::next(offset_buffer_adaptor.cbegin(), buffer_idx + 1), count, 0);
         // Put the right values in the new offsets
-        for (size_t i = idx + 1; i < idx + 1 + count; ++i)
+        for (size_t i = buffer_idx + 1; i < buffer_idx + 1 + count; ++i)
         {
             offset_buffer_adaptor[i] = offset_buffer_adaptor[i - 1] + value_size;
         }
@@ -642,7 +666,7 @@ namespace sparrow
                 return static_cast<offset_type>(value.size());
             }
         );
-        insert_offsets(offset(idx + 1), sizes_of_each_value.begin(), sizes_of_each_value.end());
+        insert_offsets(offset(idx), sizes_of_each_value.begin(), sizes_of_each_value.end());
         return sparrow::next(value_begin(), idx);
     }
 
@@ -659,19 +683,20 @@ namespace sparrow
         SPARROW_ASSERT_TRUE(first_sizes <= last_sizes);
         auto& offset_buffer = get_arrow_proxy().get_array_private_data()->buffers()[OFFSET_BUFFER_INDEX];
         auto offset_buffer_adaptor = make_buffer_adaptor<OT>(offset_buffer);
-        const auto idx = std::distance(offsets_cbegin(), pos);
+        const auto idx = static_cast<size_t>(std::distance(offsets_cbegin(), pos));
+        const auto buffer_idx = static_cast<difference_type>(offset_buffer_index(idx));
         const OT cumulative_sizes = std::reduce(first_sizes, last_sizes, OT(0));
         const auto sizes_count = std::distance(first_sizes, last_sizes);
         offset_buffer_adaptor.resize(offset_buffer_adaptor.size() + static_cast<size_t>(sizes_count));
         // Move the offsets to make space for the new offsets
         std::move_backward(
-            offset_buffer_adaptor.begin() + idx,
+            offset_buffer_adaptor.begin() + buffer_idx + 1,
             offset_buffer_adaptor.end() - sizes_count,
             offset_buffer_adaptor.end()
         );
         // Adjust offsets for subsequent elements
         std::for_each(
-            offset_buffer_adaptor.begin() + idx + sizes_count,
+            offset_buffer_adaptor.begin() + buffer_idx + 1 + sizes_count,
             offset_buffer_adaptor.end(),
             [cumulative_sizes](auto& offset)
             {
@@ -680,12 +705,12 @@ namespace sparrow
         );
         // Put the right values in the new offsets
         InputIt it = first_sizes;
-        for (size_t i = static_cast<size_t>(idx + 1); i < static_cast<size_t>(idx + sizes_count + 1); ++i)
+        for (size_t i = static_cast<size_t>(buffer_idx + 1); i < static_cast<size_t>(buffer_idx + sizes_count + 1); ++i)
         {
             offset_buffer_adaptor[i] = offset_buffer_adaptor[i - 1] + *it;
             ++it;
         }
-        return offset(static_cast<size_t>(idx));
+        return offset(idx);
     }
 
     template <std::ranges::sized_range T, class CR, layout_offset OT>
@@ -727,16 +752,17 @@ namespace sparrow
         const OT offset_start_value = *offset(index);
         const OT offset_end_value = *offset(index + count);
         const OT difference = offset_end_value - offset_start_value;
+        const size_t buffer_idx = offset_buffer_index(index);
         // move the offsets after the erased ones
         std::move(
-            sparrow::next(offset_buffer_adaptor.begin(), index + count + 1),
+            sparrow::next(offset_buffer_adaptor.begin(), buffer_idx + count + 1),
             offset_buffer_adaptor.end(),
-            sparrow::next(offset_buffer_adaptor.begin(), index + 1)
+            sparrow::next(offset_buffer_adaptor.begin(), buffer_idx + 1)
         );
         offset_buffer_adaptor.resize(offset_buffer_adaptor.size() - count);
         // adjust the offsets for the subsequent elements
         std::for_each(
-            sparrow::next(offset_buffer_adaptor.begin(), index + 1),
+            sparrow::next(offset_buffer_adaptor.begin(), buffer_idx + 1),
             offset_buffer_adaptor.end(),
             [difference](OT& offset)
             {
-- 
2.43.0


From 15e41c9df4b91147c28788b1babe6b660bdd1181 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:19 +0000
Subject: [PATCH 30/38] fix: string view arrays ignored their offset, numbered
 variadic buffers from 2 and could not be iterated

---
 .../layout/variable_size_binary_view_array.hpp     | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/include/sparrow/layout/variable_size_binary_view_array.hpp b/include/sparrow/layout/variable_size_binary_view_array.hpp
index a39c201..41021fa 100644
--- a/include/sparrow/layout/variable_size_binary_view_array.hpp
+++ b/include/sparrow/layout/variable_size_binary_view_array.hpp
@@ -165,6 +165,9 @@ namespace sparrow
 
         friend base_type;
         friend base_type::base_type;
+        friend base_type::base_type::base_type;
+        friend class detail::layout_value_functor<self_type, inner_value_type>;
+        friend class detail::layout_value_functor<const self_type, inner_value_type>;
 
     };
 
@@ -219,8 +222,8 @@ namespace sparrow
                 auto prefix_sub_range = val_casted | std::ranges::views::take(PREFIX_SIZE);
                 std::ranges::copy(prefix_sub_range, length_ptr + PREFIX_OFFSET);
 
-                // write the buffer index
-                *reinterpret_cast<std::int32_t*>(length_ptr +  BUFFER_INDEX_OFFSET) = static_cast<std::int32_t>(FIRST_VAR_DATA_BUFFER_INDEX);
+                // write the buffer index, relative to the first variadic buffer
+                *reinterpret_cast<std::int32_t*>(length_ptr +  BUFFER_INDEX_OFFSET) = std::int32_t(0);
 
                 // write the buffer offset
                 *reinterpret_cast<std::int32_t*>(length_ptr + BUFFER_OFFSET_OFFSET) = static_cast<std::int32_t>(long_string_storage_size);
@@ -308,7 +311,8 @@ namespace sparrow
         SPARROW_ASSERT_TRUE(i < this->size());
 
         constexpr std::size_t element_size = 16;
-        auto data_ptr = this->get_arrow_proxy().buffers()[LENGTH_BUFFER_INDEX].template data<uint8_t>() + (i * element_size);
+        const auto data_index = static_cast<size_type>(this->get_arrow_proxy().offset()) + i;
+        auto data_ptr = this->get_arrow_proxy().buffers()[LENGTH_BUFFER_INDEX].template data<uint8_t>() + (data_index * element_size);
 
         auto length = static_cast<std::size_t>(*reinterpret_cast<const std::int32_t*>(data_ptr));
         using char_or_byte = typename inner_const_reference::value_type;
@@ -326,7 +330,7 @@ namespace sparrow
             constexpr std::ptrdiff_t buffer_offset_offset = 12;
             auto buffer_index = static_cast<std::size_t>(*reinterpret_cast<const std::int32_t*>(data_ptr + buffer_index_offset));
             auto buffer_offset = static_cast<std::size_t>(*reinterpret_cast<const std::int32_t*>(data_ptr + buffer_offset_offset));
-            auto buffer = this->get_arrow_proxy().buffers()[buffer_index].template data<const char_or_byte>();
+            auto buffer = this->get_arrow_proxy().buffers()[FIRST_VAR_DATA_BUFFER_INDEX + buffer_index].template data<const char_or_byte>();
             return inner_const_reference(buffer + buffer_offset,  length);
         }
 
@@ -338,7 +342,7 @@ namespace sparrow
     template <class T>
     auto variable_size_binary_view_array_impl<T>::value_begin() -> value_iterator
     {
-        return value_iterator(detail::layout_value_functor<self_type, inner_value_type>(), 0);
+        return value_iterator(detail::layout_value_functor<self_type, inner_value_type>(this), 0);
     }
 
     template <class T>
-- 
2.43.0


From 656f9ceb9b9c4e85f862bdeeb3f91117dbe6bb00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:49 +0000
Subject: [PATCH 31/38] fix: the end of a list of a list-view array overflowed
 when it did not fit the type of the offsets

---
 include/sparrow/layout/list_layout/list_array.hpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/include/sparrow/layout/list_layout/list_array.hpp b/include/sparrow/layout/list_layout/list_array.hpp
index eeee301..e135a28 100644
--- a/include/sparrow/layout/list_layout/list_array.hpp
+++ b/include/sparrow/layout/list_layout/list_array.hpp
@@ -330,7 +330,7 @@ namespace sparrow
 
         static constexpr std::size_t OFFSET_BUFFER_INDEX = 1;
         static constexpr std::size_t SIZES_BUFFER_INDEX = 2;
-        std::pair<offset_type, offset_type> offset_range(size_type i) const;
+        std::pair<size_type, size_type> offset_range(size_type i) const;
 
         offset_type* make_list_offsets();
         offset_type* make_list_sizes();
@@ -647,10 +647,11 @@ namespace sparrow
 
     template <bool BIG>
     inline auto
-    list_view_array_impl<BIG>::offset_range(size_type i) const -> std::pair<offset_type, offset_type>
+    list_view_array_impl<BIG>::offset_range(size_type i) const -> std::pair<size_type, size_type>
     {
-        const auto offset = p_list_offsets[i];
-        return std::make_pair(offset, offset + p_list_sizes[i]);
+        // The end of a list of offsets and sizes that fit their types may not fit
+        const auto offset = static_cast<size_type>(p_list_offsets[i]);
+        return std::make_pair(offset, offset + static_cast<size_type>(p_list_sizes[i]));
     }
 
     template <bool BIG>
-- 
2.43.0


From 3c84750d2b8ac5e68de837bb70b5e0f13961f77b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:12 +0000
Subject: [PATCH 32/38] fix: ordering a nullable against nullval was declared
 but not defined, and compared the value

---
 include/sparrow/utils/nullable.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/sparrow/utils/nullable.hpp b/include/sparrow/utils/nullable.hpp
index 2d90860..d69c5db 100644
--- a/include/sparrow/utils/nullable.hpp
+++ b/include/sparrow/utils/nullable.hpp
@@ -732,10 +732,10 @@ namespace sparrow
         return !lhs;
     }
 
-    template <class T, class B>
+    template <class T, mpl::boolean_like B>
     constexpr std::strong_ordering operator<=>(const nullable<T, B>& lhs, nullval_t) noexcept
     {
-        return lhs <=> false;
+        return bool(lhs) <=> false;
     }
     
     template <class T, class B, class U>
-- 
2.43.0


From c07087836712655177798c3b99b96320484f9b8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:32 +0000
Subject: [PATCH 33/38] fix: building a struct array without fields does not
 hand over arrays of children

make_arrow_schema and make_arrow_array refuse a non-null array of children
when there are none, so that struct_array(std::vector<array>{}) failed.
---
 include/sparrow/layout/struct_layout/struct_array.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/sparrow/layout/struct_layout/struct_array.hpp b/include/sparrow/layout/struct_layout/struct_array.hpp
index 15c0a59..09004c0 100644
--- a/include/sparrow/layout/struct_layout/struct_array.hpp
+++ b/include/sparrow/layout/struct_layout/struct_array.hpp
@@ -150,8 +150,9 @@ namespace sparrow
     ) -> arrow_proxy
     {
         const auto n_children = children.size();
-        ArrowSchema** child_schemas = new ArrowSchema*[n_children];
-        ArrowArray** child_arrays = new ArrowArray*[n_children];
+        // A structure without children has no array of children
+        ArrowSchema** child_schemas = n_children == 0 ? nullptr : new ArrowSchema*[n_children];
+        ArrowArray** child_arrays = n_children == 0 ? nullptr : new ArrowArray*[n_children];
 
         const auto size = n_children == 0 ? size_type(0) : children[0].size();
         
-- 
2.43.0


From fffbf9293c8a6477e804b689f431193c9c0cfea0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:25 +0000
Subject: [PATCH 34/38] fix: the header of references to strings did not
 include the comparison it uses

---
 .../variable_size_binary_reference.hpp                           | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/sparrow/layout/variable_size_binary_layout/variable_size_binary_reference.hpp b/include/sparrow/layout/variable_size_binary_layout/variable_size_binary_reference.hpp
index 6ca1914..b28d8ff 100644
--- a/include/sparrow/layout/variable_size_binary_layout/variable_size_binary_reference.hpp
+++ b/include/sparrow/layout/variable_size_binary_layout/variable_size_binary_reference.hpp
@@ -18,6 +18,7 @@
 #include <ranges>
 #include <type_traits>
 
+#include "sparrow/utils/algorithm.hpp"
 #include "sparrow/utils/mp_utils.hpp"
 
 namespace sparrow
-- 
2.43.0


From 2de028712e547ad995536b897ea844d52bcfb912 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:06 +0000
Subject: [PATCH 35/38] fix: record_batch emptied the lvalue ranges of names
 and columns it was built from

---
 include/sparrow/record_batch.hpp | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/include/sparrow/record_batch.hpp b/include/sparrow/record_batch.hpp
index c6f3e75..72088c8 100644
--- a/include/sparrow/record_batch.hpp
+++ b/include/sparrow/record_batch.hpp
@@ -18,6 +18,7 @@
 #include <initializer_list>
 #include <ranges>
 #include <string>
+#include <type_traits>
 #include <unordered_map>
 #include <vector>
 
@@ -157,8 +158,8 @@ namespace sparrow
         requires(std::convertible_to<std::ranges::range_value_t<NR>, std::string>
                  and std::same_as<std::ranges::range_value_t<CR>, array>)
     record_batch::record_batch(NR&& names, CR&& columns)
-        : m_name_list(to_vector<name_type>(std::move(names)))
-        , m_array_list(to_vector<array>(std::move(columns)))
+        : m_name_list(to_vector<name_type>(std::forward<NR>(names)))
+        , m_array_list(to_vector<array>(std::forward<CR>(columns)))
     {
         init_array_map();
         SPARROW_ASSERT_TRUE(check_consistency());
@@ -172,7 +173,16 @@ namespace sparrow
         {
             v.reserve(std::ranges::size(range));
         }
-        std::ranges::move(range, std::back_inserter(v));
+        // The elements are not ours to move from when the range belongs to the caller
+        // (lvalue), or when it does not own them (view).
+        if constexpr (std::is_lvalue_reference_v<R> || std::ranges::view<std::remove_cvref_t<R>>)
+        {
+            std::ranges::copy(range, std::back_inserter(v));
+        }
+        else
+        {
+            std::ranges::move(range, std::back_inserter(v));
+        }
         return v;
     }
 }
-- 
2.43.0


From cc34a871391e390149adec96dab243d23d5ad17b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:43 +0000
Subject: [PATCH 36/38] fix: encoding floating point values gave NaN the key
 (or the run) of another value

---
 include/sparrow/builder/nested_eq.hpp   | 11 +++++++++++
 include/sparrow/builder/nested_less.hpp | 11 +++++++++++
 2 files changed, 22 insertions(+)

diff --git a/include/sparrow/builder/nested_eq.hpp b/include/sparrow/builder/nested_eq.hpp
index 8bf5fa0..41f91a1 100644
--- a/include/sparrow/builder/nested_eq.hpp
+++ b/include/sparrow/builder/nested_eq.hpp
@@ -37,6 +37,17 @@ namespace sparrow
         {
             bool operator()(const T& a, const T& b) const
             {
+                if constexpr (std::is_floating_point_v<T>)
+                {
+                    // NaN is equal to NaN (and to nothing else): elements that are
+                    // compared here are grouped, so this has to be an equivalence
+                    const bool a_is_nan = a != a;
+                    const bool b_is_nan = b != b;
+                    if (a_is_nan || b_is_nan)
+                    {
+                        return a_is_nan && b_is_nan;
+                    }
+                }
                 return a == b;
             }
         };  
diff --git a/include/sparrow/builder/nested_less.hpp b/include/sparrow/builder/nested_less.hpp
index b3116ce..d70446d 100644
--- a/include/sparrow/builder/nested_less.hpp
+++ b/include/sparrow/builder/nested_less.hpp
@@ -37,6 +37,17 @@ namespace sparrow
         {
             bool operator()(const T& a, const T& b) const
             {
+                if constexpr (std::is_floating_point_v<T>)
+                {
+                    // NaN comes after all the numbers, otherwise it would be
+                    // equivalent to each of them and this would not be a strict weak order
+                    const bool a_is_nan = a != a;
+                    const bool b_is_nan = b != b;
+                    if (a_is_nan || b_is_nan)
+                    {
+                        return !a_is_nan && b_is_nan;
+                    }
+                }
                 return a < b;
             }
         };  
-- 
2.43.0


From a59ca581765a81f4be09e546aeac3f55c08924d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:32 +0000
Subject: [PATCH 37/38] fix: building an array of lists shifted the elements
 after a null that holds a value

---
 include/sparrow/builder/builder_utils.hpp | 11 +++--------
 1 file changed, 3 insertions(+), 8 deletions(-)

diff --git a/include/sparrow/builder/builder_utils.hpp b/include/sparrow/builder/builder_utils.hpp
index 0fd7c58..49ab0b3 100644
--- a/include/sparrow/builder/builder_utils.hpp
+++ b/include/sparrow/builder/builder_utils.hpp
@@ -273,14 +273,9 @@ namespace detail
         using decayed = std::decay_t<T>;
         if constexpr(is_nullable_like<decayed>)
         {
-            if (t.has_value())
-            {
-                return get_size_save(t.get());
-            }
-            else
-            {
-                return 0;
-            }
+            // A null may hold a value nevertheless (when it has been assigned null for
+            // instance), and the flat range of the inner values contains that value too.
+            return get_size_save(t.get());
         }
         else if constexpr(is_express_layout_desire<decayed>)
         {
-- 
2.43.0


From ab884e3929c50250f5280ee05a1cf9f1eff1d115 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:49 +0000
Subject: [PATCH 38/38] fix: building a run-end encoded array from an empty
 range violated a contract

---
 include/sparrow/builder/builder.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/sparrow/builder/builder.hpp b/include/sparrow/builder/builder.hpp
index ff306fa..9ec6fd4 100644
--- a/include/sparrow/builder/builder.hpp
+++ b/include/sparrow/builder/builder.hpp
@@ -407,7 +407,11 @@ struct builder<T, enforce_run_end_encoded_layout, OPTION_FLAGS>
             }
             ++i;
         }
-        acc_run_lengths.push_back(i);
+        // an empty range has no run at all
+        if(i != 0)
+        {
+            acc_run_lengths.push_back(i);
+        }
     
         auto run_length_typed_array = primitive_array<std::size_t>(acc_run_lengths);
 
-- 
2.43.0

