From 149495088e80dec4c473acf4b2af8c3cd505b70e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:49:41 +0000
Subject: [PATCH 01/32] fix: parse every 20-digit number that fits into uint64

The range check compared each digit with the corresponding digit of
UINT64_MAX separately, so valid numbers such as 10000000000000000009
were rejected as an overflow (an 'incr' result could become unusable).
---
 src/cachelot/string_conv.h | 23 +++--------------------
 1 file changed, 3 insertions(+), 20 deletions(-)

diff --git a/src/cachelot/string_conv.h b/src/cachelot/string_conv.h
index 5c18e9a..25ee983 100644
--- a/src/cachelot/string_conv.h
+++ b/src/cachelot/string_conv.h
@@ -219,6 +219,8 @@ namespace cachelot {
         inline uint64 str_to_big_unsigned(ConstIterator str, ConstIterator end, error_code & out_error) noexcept {
             // returned on error
             static constexpr uint64 NO_RESULT = std::numeric_limits<uint64>::max();
+            // the biggest uint64 number
+            static constexpr char max_uint64_str[] = "18446744073709551615";
 
             const auto length = end - str;
 
@@ -238,26 +240,7 @@ namespace cachelot {
             switch (length) {
                 case 20: // in ASCII max uint64 number length is 20
                     // check against the biggest uint64 number - 18446744073709551615
-                    if (str[ 0] > '1' ||
-                        str[ 1] > '8' ||
-                        str[ 2] > '4' ||
-                        str[ 3] > '4' ||
-                        str[ 4] > '6' ||
-                        str[ 5] > '7' ||
-                        str[ 6] > '4' ||
-                        str[ 7] > '4' ||
-                        str[ 8] > '0' ||
-                        str[ 9] > '7' ||
-                        str[10] > '3' ||
-                        str[11] > '7' ||
-                        str[12] > '0' ||
-                        str[13] > '9' ||
-                        str[14] > '5' ||
-                        str[15] > '5' ||
-                        str[16] > '1' ||
-                        str[17] > '6' ||
-                        str[18] > '1' ||
-                        str[19] > '5' ) {
+                    if (std::lexicographical_compare(max_uint64_str, max_uint64_str + 20, str, end)) {
                         out_error = error::numeric_overflow;
                         return NO_RESULT;
                     }
-- 
2.43.0


From e2a8f5f424e1ce6d89c3bbb888a6e334ef1e608c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:49:58 +0000
Subject: [PATCH 02/32] fix: avoid signed overflow converting INT64_MIN to and
 from a string

Negating INT64_MIN is undefined behaviour.
---
 src/cachelot/string_conv.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/cachelot/string_conv.h b/src/cachelot/string_conv.h
index 25ee983..77ef1dd 100644
--- a/src/cachelot/string_conv.h
+++ b/src/cachelot/string_conv.h
@@ -131,7 +131,7 @@ namespace cachelot {
                 UnsignedIntType xvalue;
                 if (negative) {
                     *dest++ = '-';
-                    xvalue = - (intptr_t)static_cast<UnsignedIntType>(value);
+                    xvalue = static_cast<UnsignedIntType>(0u - static_cast<UnsignedIntType>(value));
                 } else {
                     xvalue = value;
                 }
@@ -314,7 +314,7 @@ namespace cachelot {
                 return unsigned_value * sign;
             }
             if (unsigned_value == int64_boundary && sign == -1) {
-                return -(intptr_t)unsigned_value;
+                return std::numeric_limits<int64>::min();
             }
             out_error = error::numeric_overflow;
             return NO_RESULT;
-- 
2.43.0


From f18408a3e52792b7cd3d6a05a0248dc5b5663365 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:49:58 +0000
Subject: [PATCH 03/32] fix: do not read past the end of an empty string
 converting it to a signed integer

---
 src/cachelot/string_conv.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cachelot/string_conv.h b/src/cachelot/string_conv.h
index 77ef1dd..eca6639 100644
--- a/src/cachelot/string_conv.h
+++ b/src/cachelot/string_conv.h
@@ -299,7 +299,7 @@ namespace cachelot {
             static constexpr int64 NO_RESULT = std::numeric_limits<int64>::max();
 
             int64 sign;
-            if (*str != '-') {
+            if (str == end || *str != '-') {
                 sign = 1;
             } else {
                 sign = -1;
-- 
2.43.0


From 99d680ef6126c19cb9b683175e7c5e5ff0d6eaf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:50:37 +0000
Subject: [PATCH 04/32] fix: item with a huge time to live was expired right
 away

now + TTL wraps around the 32-bit clock; saturate it to 'never expires'.
---
 src/cachelot/item.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/cachelot/item.h b/src/cachelot/item.h
index e02683e..4d23618 100644
--- a/src/cachelot/item.h
+++ b/src/cachelot/item.h
@@ -183,7 +183,9 @@ namespace cachelot {
             if (s == infinite_TTL) {
                 m_expiration_time = expiration_time_point::max();
             } else {
-                m_expiration_time = clock::now() + s;
+                // saturate rather than wrap around, item with the time in the past would be considered as expired
+                const auto now = clock::now();
+                m_expiration_time = (expiration_time_point::max() - now > s) ? now + s : expiration_time_point::max();
             }
         }
 
-- 
2.43.0


From 52744054ec9c4a336940db3fc67fa8c0919ecf36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:50:37 +0000
Subject: [PATCH 05/32] fix: 'incr'/'decr' could overwrite an unrelated item
 when they evict

create_item() may evict items, which moves entries of the hash table (or
finishes its expansion and frees the old table), while the position of
the counter had been obtained before. Look the counter up again.
---
 src/cachelot/cache.h | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/cachelot/cache.h b/src/cachelot/cache.h
index 691644b..1d6442b 100644
--- a/src/cachelot/cache.h
+++ b/src/cachelot/cache.h
@@ -631,10 +631,16 @@ namespace cachelot {
             const auto new_ascii_value_length = int_to_str(new_int_value, new_ascii_value);
             // create new item to hold value including zero terminator
             ItemPtr new_item;
-            new_item = create_item(old_item->key(), old_item->hash(), new_ascii_value_length, old_item->opaque_flags(), old_item->ttl());
+            new_item = create_item(key, hash, new_ascii_value_length, old_item->opaque_flags(), old_item->ttl());
             ItemAutoDelete _item_uniq_ptr(this, new_item);
             new_item->assign_value(slice(new_ascii_value, new_ascii_value_length));
-            replace_item_at(at, _item_uniq_ptr);
+            // create_item() may evict other items and move dict entries, so `at` may not be valid anymore
+            tie(found, at) = m_dict.entry_for(key, hash);
+            if (found) {
+                replace_item_at(at, _item_uniq_ptr);
+            } else {
+                insert_item_at(at, _item_uniq_ptr);
+            }
             return make_tuple(true, new_int_value);
         }
 
-- 
2.43.0


From 65634bb40975593279074704396020237fd79372 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:50:37 +0000
Subject: [PATCH 06/32] fix: keep exact expiration time in
 incr/decr/append/prepend

The time to live was re-calculated from the clock. If the clock ticked
after the item was found to be alive, zero seconds were left, which
stands for 'never expires' (or the difference wrapped around).
---
 src/cachelot/cache.h | 7 +++++--
 src/cachelot/item.h  | 3 +++
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/cachelot/cache.h b/src/cachelot/cache.h
index 1d6442b..32b5baf 100644
--- a/src/cachelot/cache.h
+++ b/src/cachelot/cache.h
@@ -519,7 +519,8 @@ namespace cachelot {
                 // do not evict existing items to avoid accidentally free the `piece` or the `old_item`
                 auto memory = m_allocator.alloc_or_evict(Item::CalcSizeRequired(old_item->key(), new_value_size), false, [=](void *){});
                 if (memory != nullptr) {
-                    auto new_item = new (memory) Item(old_item->key(), old_item->hash(), static_cast<uint32>(new_value_size), old_item->opaque_flags(), old_item->ttl(), ++m_newest_timestamp);
+                    auto new_item = new (memory) Item(old_item->key(), old_item->hash(), static_cast<uint32>(new_value_size), old_item->opaque_flags(), Item::infinite_TTL, ++m_newest_timestamp);
+                    new_item->set_expiration_time(old_item->expiration_time());
                     ItemAutoDelete _item_uniq_ptr(this, new_item);
                     if (op == ExtendOperation::APPEND) {
                         new_item->assign_compose(old_item->value(), piece->value());
@@ -631,8 +632,10 @@ namespace cachelot {
             const auto new_ascii_value_length = int_to_str(new_int_value, new_ascii_value);
             // create new item to hold value including zero terminator
             ItemPtr new_item;
-            new_item = create_item(key, hash, new_ascii_value_length, old_item->opaque_flags(), old_item->ttl());
+            const auto expiration_time = old_item->expiration_time();
+            new_item = create_item(key, hash, new_ascii_value_length, old_item->opaque_flags(), Item::infinite_TTL);
             ItemAutoDelete _item_uniq_ptr(this, new_item);
+            new_item->set_expiration_time(expiration_time);
             new_item->assign_value(slice(new_ascii_value, new_ascii_value_length));
             // create_item() may evict other items and move dict entries, so `at` may not be valid anymore
             tie(found, at) = m_dict.entry_for(key, hash);
diff --git a/src/cachelot/item.h b/src/cachelot/item.h
index 4d23618..760f7cb 100644
--- a/src/cachelot/item.h
+++ b/src/cachelot/item.h
@@ -103,6 +103,9 @@ namespace cachelot {
             /// retrieve expiration time of this item
             expiration_time_point expiration_time() const noexcept { return m_expiration_time; }
 
+            /// assign expiration time of this item
+            void set_expiration_time(expiration_time_point t) noexcept { m_expiration_time = t; }
+
             /// retrive number of seconds until expiration
             seconds ttl() const noexcept;
 
-- 
2.43.0


From b4e7bb115af1723057be7e932882cb2c60cd0ac0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:51:06 +0000
Subject: [PATCH 07/32] fix: key with the zero hash was lost and corrupted the
 hash table

Zero hash value denotes an empty slot in the hash table. An item whose key
hashes to zero could not be found again, its memory leaked and the wrong
element counter sent the incremental re-hashing out of the table bounds.
---
 src/cachelot/cache.h | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/cachelot/cache.h b/src/cachelot/cache.h
index 32b5baf..bd9411c 100644
--- a/src/cachelot/cache.h
+++ b/src/cachelot/cache.h
@@ -299,6 +299,11 @@ namespace cachelot {
             std::function<void (ConstItemPtr)> on_eviction;
 
         private:
+            /**
+             * Zero hash marks an empty slot of the hash table, so it can not be used for the key
+             */
+            static constexpr hash_type non_zero_hash(const hash_type hash) noexcept { return hash != 0 ? hash : 1; }
+
             /**
              * Extend (`prepend` or `append`) existing item with the new data
              *
@@ -401,7 +406,7 @@ namespace cachelot {
 
         inline tuple<bool, Cache::dict_type::iterator> Cache::retrieve_item(const slice key, const hash_type hash, bool readonly) {
             bool found; iterator at;
-            tie(found, at) = m_dict.entry_for(key, hash, readonly);
+            tie(found, at) = m_dict.entry_for(key, non_zero_hash(hash), readonly);
             if (found) {
                 ItemPtr item = at.value();
                 // validate item
@@ -426,7 +431,7 @@ namespace cachelot {
                 STAT_INCR(cache.get_hits, 1);
                 auto item = at.value();
                 debug_assert(item->key() == key);
-                debug_assert(item->hash() == hash);
+                debug_assert(item->hash() == non_zero_hash(hash));
                 return item;
             } else {
                 STAT_INCR(cache.get_misses, 1);
@@ -638,7 +643,7 @@ namespace cachelot {
             new_item->set_expiration_time(expiration_time);
             new_item->assign_value(slice(new_ascii_value, new_ascii_value_length));
             // create_item() may evict other items and move dict entries, so `at` may not be valid anymore
-            tie(found, at) = m_dict.entry_for(key, hash);
+            tie(found, at) = m_dict.entry_for(key, new_item->hash());
             if (found) {
                 replace_item_at(at, _item_uniq_ptr);
             } else {
@@ -667,7 +672,7 @@ namespace cachelot {
             };
             memory = m_allocator.alloc_or_evict(size_required, m_evictions_enabled, on_delete);
             if (memory != nullptr) {
-                auto item = new (memory) Item(key, hash, static_cast<uint32>(value_length), flags, keepalive, ++m_newest_timestamp);
+                auto item = new (memory) Item(key, non_zero_hash(hash), static_cast<uint32>(value_length), flags, keepalive, ++m_newest_timestamp);
                 return item;
             } else {
                 throw system_error(error::out_of_memory);
-- 
2.43.0


From 8afc0788f40d977dde48bf01150b62d519ce2cd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:51:06 +0000
Subject: [PATCH 08/32] fix: an item as big as the page overran it

The limit did not take allocator block header into account, so item of
almost the page size was written over the header of the next page (or
past the end of the memory arena).
---
 src/cachelot/cache.h    | 2 +-
 src/cachelot/memalloc.h | 3 +++
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/cachelot/cache.h b/src/cachelot/cache.h
index bd9411c..9399357 100644
--- a/src/cachelot/cache.h
+++ b/src/cachelot/cache.h
@@ -659,7 +659,7 @@ namespace cachelot {
                 throw system_error(error::key_too_long);
             }
             const size_t size_required = Item::CalcSizeRequired(key, value_length);
-            if (size_required > m_allocator.page_size) {
+            if (size_required > m_allocator.max_alloc_size()) {
                 throw system_error(error::item_too_big);
             }
             const auto on_delete = [=](void * ptr) noexcept -> void {
diff --git a/src/cachelot/memalloc.h b/src/cachelot/memalloc.h
index 4071286..0902d98 100644
--- a/src/cachelot/memalloc.h
+++ b/src/cachelot/memalloc.h
@@ -100,6 +100,9 @@ namespace cachelot {
 
         /// retrieve size of allocator header
         static size_t header_size() noexcept;
+
+        /// retrieve maximal size of the single allocation (page must fit the block header too)
+        size_t max_alloc_size() const noexcept { return page_size - header_size(); }
     private:
         /// check whether given `ptr` whithin arena bounaries and block information can be retrieved from it
         bool valid_addr(void * ptr) const noexcept;
-- 
2.43.0


From eba99174650ca2bc4f1a0e05ad1e3d7edba4d8a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:51:07 +0000
Subject: [PATCH 09/32] fix: check the size of the item resulting from
 append/prepend

Combined value might exceed the page size, what led to out of bounds
access in the table of free blocks.
---
 src/cachelot/cache.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/cachelot/cache.h b/src/cachelot/cache.h
index 9399357..8e968ba 100644
--- a/src/cachelot/cache.h
+++ b/src/cachelot/cache.h
@@ -521,8 +521,12 @@ namespace cachelot {
             if (found) {
                 auto old_item = at.value();
                 const size_t new_value_size = old_item->value().length() + piece->value().length();
+                const size_t size_required = Item::CalcSizeRequired(old_item->key(), new_value_size);
+                if (size_required > m_allocator.max_alloc_size()) {
+                    throw system_error(error::item_too_big);
+                }
                 // do not evict existing items to avoid accidentally free the `piece` or the `old_item`
-                auto memory = m_allocator.alloc_or_evict(Item::CalcSizeRequired(old_item->key(), new_value_size), false, [=](void *){});
+                auto memory = m_allocator.alloc_or_evict(size_required, false, [=](void *){});
                 if (memory != nullptr) {
                     auto new_item = new (memory) Item(old_item->key(), old_item->hash(), static_cast<uint32>(new_value_size), old_item->opaque_flags(), Item::infinite_TTL, ++m_newest_timestamp);
                     new_item->set_expiration_time(old_item->expiration_time());
-- 
2.43.0


From ad2e8be52506119e76f45441e38c4bd012b95e2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:02:44 +0000
Subject: [PATCH 10/32] fix: wrong page was used for addresses above 4Gb of the
 arena

The offset in the arena was truncated to 32 bits before it was divided by the page size.
---
 src/cachelot/memalloc-inl.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cachelot/memalloc-inl.h b/src/cachelot/memalloc-inl.h
index f9348ec..77f7dad 100644
--- a/src/cachelot/memalloc-inl.h
+++ b/src/cachelot/memalloc-inl.h
@@ -145,7 +145,7 @@ namespace cachelot {
         unsigned page_no_from_addr(const void * const ptr) const noexcept {
             debug_assert(valid_addr(ptr));
             auto ui8_ptr = reinterpret_cast<const uint8 * const>(ptr);
-            auto page_no = static_cast<unsigned>(ui8_ptr - arena_begin) >> log2_page_size;
+            auto page_no = static_cast<unsigned>(static_cast<size_t>(ui8_ptr - arena_begin) >> log2_page_size);
             debug_assert(page_no < num_pages);
             return page_no;
         }
-- 
2.43.0


From 426de29f680365deac8c1a21de83b8d8b08f0d7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:02:44 +0000
Subject: [PATCH 11/32] fix: reject zero size of the hash table

It was accepted as a power of 2 and the first lookup read and wrote outside of the table.
---
 src/cachelot/cache.h | 3 +++
 src/server/main.cpp  | 2 +-
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/cachelot/cache.h b/src/cachelot/cache.h
index 8e968ba..19d40e5 100644
--- a/src/cachelot/cache.h
+++ b/src/cachelot/cache.h
@@ -377,6 +377,9 @@ namespace cachelot {
             if (memory_limit % mem_page_size != 0) {
                 throw std::invalid_argument("memory_limit must be divisible by mem_page_size");
             }
+            if (initial_dict_size == 0) {
+                throw std::invalid_argument("initial_dict_size must be non-zero");
+            }
             if (not ispow2(initial_dict_size)) {
                 throw std::invalid_argument("initial_dict_size must be power of 2");
             }
diff --git a/src/server/main.cpp b/src/server/main.cpp
index e48c7af..c9b543f 100644
--- a/src/server/main.cpp
+++ b/src/server/main.cpp
@@ -135,7 +135,7 @@ namespace  {
         if (varmap.count("hashtable")) {
             settings.cache.initial_hash_table_size = varmap["hashtable"].as<size_t>();
         }
-        if (not ispow2(settings.cache.initial_hash_table_size)) {
+        if (settings.cache.initial_hash_table_size == 0 || not ispow2(settings.cache.initial_hash_table_size)) {
             throw invalid_configuration("the argument for option '--hashtable' must be power of 2");
         }
         return EXIT_SUCCESS;
-- 
2.43.0


From fb17cc5bc837d2035743b679771ec5c223d908ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:03:38 +0000
Subject: [PATCH 12/32] fix: destructor of the moved-from Cache dereferenced
 null pointer

---
 src/cachelot/dict.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/cachelot/dict.h b/src/cachelot/dict.h
index f7ccf4c..9cced49 100644
--- a/src/cachelot/dict.h
+++ b/src/cachelot/dict.h
@@ -201,7 +201,10 @@ namespace cachelot {
             if (m_secondary_tbl) {
                 m_secondary_tbl->remove_if(predicate);
             }
-            m_primary_tbl->remove_if(predicate);
+            // there is no table in the moved-from dict
+            if (m_primary_tbl) {
+                m_primary_tbl->remove_if(predicate);
+            }
         }
 
         /// @copydoc hash_table::contains
-- 
2.43.0


From e82db84873712cb51b327f86efb24029452068d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:03:38 +0000
Subject: [PATCH 13/32] fix: dict lost its table if memory allocation failed
 during expansion

---
 src/cachelot/dict.h | 17 ++++++++---------
 1 file changed, 8 insertions(+), 9 deletions(-)

diff --git a/src/cachelot/dict.h b/src/cachelot/dict.h
index 9cced49..fea1984 100644
--- a/src/cachelot/dict.h
+++ b/src/cachelot/dict.h
@@ -290,17 +290,16 @@ namespace cachelot {
 
         void begin_expand() {
             debug_assert(not is_expanding());
-            m_expand_pos = 0;
-            m_primary_tbl.swap(m_secondary_tbl);
-            m_primary_tbl.reset(new hash_table_type(pow2(m_hashpower + 1)));
-            if (m_primary_tbl && m_primary_tbl->ok()) {
-                m_hashpower += 1;
-                rehash_some();
-            } else {
-                m_primary_tbl.swap(m_secondary_tbl);
-                m_secondary_tbl.reset(nullptr);
+            // allocate first, dict remains intact in case of failure
+            std::unique_ptr<hash_table_type> new_tbl(new hash_table_type(pow2(m_hashpower + 1)));
+            if (not new_tbl->ok()) {
                 throw std::bad_alloc();
             }
+            m_expand_pos = 0;
+            m_secondary_tbl = std::move(m_primary_tbl);
+            m_primary_tbl = std::move(new_tbl);
+            m_hashpower += 1;
+            rehash_some();
         }
 
         void end_expand() noexcept {
-- 
2.43.0


From 9ea71eafc8d94fc48a764d550ffe7f9f6df28424 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:03:38 +0000
Subject: [PATCH 14/32] fix: io_buffer lost its content if memory reallocation
 failed

---
 src/server/io_buffer.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/server/io_buffer.h b/src/server/io_buffer.h
index 4e3102a..9cb549f 100644
--- a/src/server/io_buffer.h
+++ b/src/server/io_buffer.h
@@ -161,8 +161,9 @@ namespace cachelot {
             // grow buffer
             const size_t new_capacity = capacity_advice(at_least);
             if (new_capacity - size() >= at_least) {
-                m_data = reinterpret_cast<char *>(std::realloc(m_data, new_capacity));
-                if (m_data != nullptr) {
+                auto new_data = reinterpret_cast<char *>(std::realloc(m_data, new_capacity));
+                if (new_data != nullptr) {
+                    m_data = new_data;
                     m_capacity = new_capacity;
                 } else {
                     throw std::bad_alloc();
-- 
2.43.0


From d66aa5177e2c5a5acfe651c3bc4d22a98e2b6ae5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:06:30 +0000
Subject: [PATCH 15/32] fix: lookup during the dict expansion could return a
 wrong item

hash_table::insert() returned position of the last displaced entry instead of
the inserted one. dict used it as a position of the item it just moved to the primary table.
---
 src/cachelot/hash_table.h | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/cachelot/hash_table.h b/src/cachelot/hash_table.h
index 3a9c9d2..0ad3005 100644
--- a/src/cachelot/hash_table.h
+++ b/src/cachelot/hash_table.h
@@ -192,12 +192,19 @@ namespace cachelot {
             entry_type entry(key, value);
             // how far we from the desired position
             size_type lookup_distance = get_distance(pos, hash);
+            // where the new entry is placed, the rest of the loop deals with the entries it displaced
+            size_type inserted_at = pos;
+            bool inserted = false;
             while (not empty_at(pos)) {
                 debug_assert( not eq(entry_at(pos).key(), entry.key()) ); // entry must be unique
                 const size_type existing_entry_distance = get_distance(pos, hash_at(pos));
                 if (existing_entry_distance < lookup_distance) {
                     std::swap(hash, m_hashes[pos]);
                     swap(entry, entry_at(pos));
+                    if (not inserted) {
+                        inserted_at = pos;
+                        inserted = true;
+                    }
                     lookup_distance = existing_entry_distance;
                 }
                 pos = inc_pos(pos);
@@ -207,7 +214,7 @@ namespace cachelot {
             m_hashes[pos] = hash;
             std::swap(m_entries[pos], entry);
             m_size += 1;
-            return pos;
+            return inserted ? inserted_at : pos;
         }
 
         /// remove element pos given pos
-- 
2.43.0


From 8aac6e804d6d19e6d82db7cda7596e3be153da8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:06:30 +0000
Subject: [PATCH 16/32] fix: 32-bit overflow computing max size of a huge hash
 table

---
 src/cachelot/hash_table.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cachelot/hash_table.h b/src/cachelot/hash_table.h
index 0ad3005..0161b9f 100644
--- a/src/cachelot/hash_table.h
+++ b/src/cachelot/hash_table.h
@@ -282,7 +282,7 @@ namespace cachelot {
         constexpr bool empty() const noexcept { return m_size == 0; }
 
         /// returns max number of elements that can be stored in table
-        constexpr size_type max_size() const noexcept { return static_cast<size_type>(capacity() * max_load_factor_percent / 100); }
+        constexpr size_type max_size() const noexcept { return static_cast<size_type>(static_cast<uint64>(capacity()) * max_load_factor_percent / 100); }
 
     private:
         /// return position in table which element with given `hash` would occupy
-- 
2.43.0


From 9fb4b3c4dd9dff13b1b837c3d5dd7ae0413661fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:06:30 +0000
Subject: [PATCH 17/32] fix: bit::is_set was wrong for the upper half of 64-bit
 integers

---
 src/cachelot/bits.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cachelot/bits.h b/src/cachelot/bits.h
index ba09a8d..96f3716 100644
--- a/src/cachelot/bits.h
+++ b/src/cachelot/bits.h
@@ -55,7 +55,7 @@ namespace cachelot {
         /// Test whether `bitno` is set (`bitno` counts from zero)
         template <typename IntType>
         constexpr bool is_set(const IntType value, const unsigned bitno) noexcept {
-            return value & (1 << bitno);
+            return (value & (IntType(1) << bitno)) != 0;
         }
 
         /// Test whether `bitno` is not set (`bitno` counts from zero)
-- 
2.43.0


From 9a2c8416f742d955f91bdac16647588f20569d69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:11:57 +0000
Subject: [PATCH 18/32] fix: pipelined requests were left unanswered and
 replies could be mixed up

Only one request per received chunk was handled, the rest stayed in the buffer until
the client sends something else. Also, the next request was handled and sent while the
send buffer was in use by the previous async_write: it sent the same data twice,
might reallocate the buffer being sent, and had no limit on the slow reading client.
---
 src/server/socket_stream.h | 45 ++++++++++++++++++++++++++------------
 1 file changed, 31 insertions(+), 14 deletions(-)

diff --git a/src/server/socket_stream.h b/src/server/socket_stream.h
index 3acc8ea..0f69fd4 100644
--- a/src/server/socket_stream.h
+++ b/src/server/socket_stream.h
@@ -62,7 +62,10 @@ namespace cachelot { namespace net {
         /// start asynchronous receive operation, call the Conversation::handle_data on complete
         void async_receive_some() noexcept;
 
-        /// start asynchronous send of the send buffer
+        /// handle requests in the receive buffer one by one until there is a reply to send or more data is needed
+        void handle_received() noexcept;
+
+        /// start asynchronous send of the send buffer, proceed with the next request on complete
         void async_send_all() noexcept;
 
         /// schedule arbitrary function into IO loop
@@ -145,21 +148,9 @@ namespace cachelot { namespace net {
         auto self = this->shared_from_this();
         m_socket.async_read_some(asio::buffer(m_recv_buf.begin_write(), m_recv_buf.available()),
             [=](const error_code error, const size_t bytes_received) {
-                slice receive_result;
                 if (not error) {
                     self->m_recv_buf.confirm_write(bytes_received);
-                    ConversationReply reply = handle_data(m_recv_buf, m_send_buf);
-                    self->m_recv_buf.compact();
-                    switch (reply) {
-                    case SEND_REPLY_AND_READ:
-                        self->async_send_all();
-                        // there is no `break` so we'll continue receive
-                    case READ_MORE:
-                        self->async_receive_some();
-                        break;
-                    case CLOSE_IMMEDIATELY:
-                        break;
-                    }
+                    self->handle_received();
                 } else {
                     if (error == io_error::message_size) {
                         self->m_recv_buf.confirm_write(bytes_received);
@@ -170,6 +161,31 @@ namespace cachelot { namespace net {
     }
 
 
+    template <class Sock, class Conversation>
+    inline void stream_connection<Sock, Conversation>::handle_received() noexcept {
+        while (true) {
+            const size_t left_unread = m_recv_buf.non_read();
+            const ConversationReply reply = handle_data(m_recv_buf, m_send_buf);
+            m_recv_buf.compact();
+            switch (reply) {
+            case SEND_REPLY_AND_READ:
+                // the next request will be handled when the reply is sent
+                async_send_all();
+                return;
+            case READ_MORE:
+                if (m_recv_buf.non_read() == 0 || m_recv_buf.non_read() == left_unread) {
+                    async_receive_some();
+                    return;
+                }
+                // request without the reply was handled, try the next one
+                break;
+            case CLOSE_IMMEDIATELY:
+                return;
+            }
+        }
+    }
+
+
     template <class Sock, class Conversation>
     inline void stream_connection<Sock, Conversation>::async_send_all() noexcept {
         if (m_killed) { return; }
@@ -180,6 +196,7 @@ namespace cachelot { namespace net {
                     debug_assert(self->m_send_buf.non_read() == bytes_sent);
                     self->m_send_buf.confirm_read(bytes_sent);
                     self->m_send_buf.compact();
+                    self->handle_received();
                 }
             });
     }
-- 
2.43.0


From 5a2c52c6456de4b99abbd4e54b61e8965efc87c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:11:57 +0000
Subject: [PATCH 19/32] fix: too long request terminated the server

io_buffer throws when it reaches its maximal size and async_receive_some() is noexcept
---
 src/server/socket_stream.h | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/server/socket_stream.h b/src/server/socket_stream.h
index 0f69fd4..1dce2cf 100644
--- a/src/server/socket_stream.h
+++ b/src/server/socket_stream.h
@@ -146,6 +146,12 @@ namespace cachelot { namespace net {
     template <class Sock, class Conversation>
     inline void stream_connection<Sock, Conversation>::async_receive_some() noexcept {
         auto self = this->shared_from_this();
+        try {
+            m_recv_buf.begin_write();
+        } catch (const std::exception &) {
+            // request exceeds maximal size of the buffer, drop the connection
+            return;
+        }
         m_socket.async_read_some(asio::buffer(m_recv_buf.begin_write(), m_recv_buf.available()),
             [=](const error_code error, const size_t bytes_received) {
                 if (not error) {
-- 
2.43.0


From 7b80079b48c5901acf1ab849efcd19246d031308 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:12:23 +0000
Subject: [PATCH 20/32] fix: content of the too big value was executed as
 commands

Request was refused before the value is received, so the rest of the value was treated
as a next request. Receive it completely, then create_item() refuses the item.
Drop the connection if value does not fit into the receive buffer.
---
 src/server/memcached/proto_ascii.cpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/server/memcached/proto_ascii.cpp b/src/server/memcached/proto_ascii.cpp
index 6c145c2..79a6f78 100644
--- a/src/server/memcached/proto_ascii.cpp
+++ b/src/server/memcached/proto_ascii.cpp
@@ -276,9 +276,6 @@ namespace cachelot {
             auto keep_alive_duration = cache::seconds(str_to_int<cache::seconds::rep>(parsed.begin(), parsed.end()));
             tie(parsed, args) = args.split(SPACE);
             uint32 datalen = str_to_int<uint32>(parsed.begin(), parsed.end());
-            if (datalen > settings.cache.page_size) {
-                throw system_error(error::value_length);
-            }
             cache::timestamp_type cas_unique = 0;
             if (cmd == Command::CAS) {
                 tie(parsed, args) = args.split(SPACE);
@@ -288,7 +285,12 @@ namespace cachelot {
             // read <value>\r\n
             if (recv_buf.non_read() < datalen + CRLF.length()) {
                 // help buffer to grow up to the necessary size
-                recv_buf.ensure_capacity(datalen + CRLF.length() - recv_buf.non_read());
+                try {
+                    recv_buf.ensure_capacity(datalen + CRLF.length() - recv_buf.non_read());
+                } catch (const std::length_error &) {
+                    // there is no way to skip the value and to proceed with the next request
+                    return net::CLOSE_IMMEDIATELY;
+                }
                 throw system_error(error::incomplete_request);
             }
             auto value = slice(recv_buf.begin_read(), datalen + CRLF.length());
-- 
2.43.0


From 71a5302d8e4cd388e8037854124c812140cc4485 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:12:23 +0000
Subject: [PATCH 21/32] fix: UDP request without the reply corrupted the next
 UDP reply

The frame header echoed for it was left in the send buffer
---
 src/server/memcached/conversation.h | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/server/memcached/conversation.h b/src/server/memcached/conversation.h
index 3eecc29..9360b37 100644
--- a/src/server/memcached/conversation.h
+++ b/src/server/memcached/conversation.h
@@ -85,7 +85,12 @@ namespace cachelot {
                 auto w_savepoint = send_buf.write_savepoint();
                 try {
                     handle_udp_frame_header(recv_buf, send_buf);
-                    return handle_received_data(recv_buf, send_buf, cache_api);
+                    const auto reply = handle_received_data(recv_buf, send_buf, cache_api);
+                    if (reply != net::SEND_REPLY_AND_READ) {
+                        // there is nothing to send, discard the header
+                        send_buf.rollback_write_transaction(w_savepoint);
+                    }
+                    return reply;
                 } catch (const std::exception & exc) {
                     send_buf.rollback_write_transaction(w_savepoint);
                     return net::READ_MORE;
-- 
2.43.0


From 8487d2f5e578d922c58a50917824de5be131242f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:12:23 +0000
Subject: [PATCH 22/32] fix: part of the malformed UDP datagram was left in the
 receive buffer

The buffer was compacted before the rest of the datagram is dropped: the room for the next
datagram was decreasing and the frame header was read from the unaligned address
---
 src/server/socket_datagram.h | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/server/socket_datagram.h b/src/server/socket_datagram.h
index c97af8b..6f84ebf 100644
--- a/src/server/socket_datagram.h
+++ b/src/server/socket_datagram.h
@@ -92,7 +92,6 @@ namespace cachelot { namespace net {
                         if (handle_data(m_recv_buf, m_send_buf) == SEND_REPLY_AND_READ) {
                             async_send_all(m_remote_endpoint);
                         }
-                        m_recv_buf.compact();
                     } catch (const std::exception &) { /* swallow exception */ }
                 } else {
                     if (error == io_error::operation_aborted) {
@@ -101,7 +100,7 @@ namespace cachelot { namespace net {
                     }
                 }
                 // we expect only one packet per datagram
-                m_recv_buf.read_all();
+                m_recv_buf.reset();
                 this->async_receive();
             });
     }
-- 
2.43.0


From fbf16e509b8953aa4b3fd721046f58e853aed7fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:12:23 +0000
Subject: [PATCH 23/32] fix: UDP requests bigger than 500 bytes were truncated

---
 src/server/socket_datagram.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/server/socket_datagram.h b/src/server/socket_datagram.h
index 6f84ebf..8ac7bf8 100644
--- a/src/server/socket_datagram.h
+++ b/src/server/socket_datagram.h
@@ -64,6 +64,7 @@ namespace cachelot { namespace net {
         void async_send_all(const typename protocol_type::endpoint to) noexcept;
 
     private:
+        static constexpr size_t max_datagram_size = 65536;
         io_service & m_ios;
         socket_type m_socket;
         io_buffer m_recv_buf;
@@ -84,7 +85,7 @@ namespace cachelot { namespace net {
 
     template <class SocketType>
     inline void datagram_server<SocketType>::async_receive() noexcept {
-        m_socket.async_receive_from(asio::buffer(m_recv_buf.begin_write(), m_recv_buf.available()), m_remote_endpoint,
+        m_socket.async_receive_from(asio::buffer(m_recv_buf.begin_write(max_datagram_size), m_recv_buf.available()), m_remote_endpoint,
             [=] (const error_code error, size_t bytes_recvd) noexcept {
                 m_recv_buf.confirm_write(bytes_recvd);
                 if (not error) {
-- 
2.43.0


From 35007f22546e8703e983e20df83f16602d02e6fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:12:23 +0000
Subject: [PATCH 24/32] fix: server ignored all the signals after SIGUSR1

---
 src/server/main.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/server/main.cpp b/src/server/main.cpp
index c9b543f..11f1adf 100644
--- a/src/server/main.cpp
+++ b/src/server/main.cpp
@@ -187,18 +187,21 @@ int main(int argc, char * argv[]) {
         signals.add(SIGQUIT);
         signals.add(SIGUSR1);
 #endif
-        signals.async_wait([&reactor](const error_code& error, int signal_number) {
+        std::function<void (const error_code &, int)> on_signal = [&](const error_code & error, int signal_number) {
             if (error) { return; }
             switch (signal_number) {
 #if !defined(_MSC_VER)
             case SIGUSR1:
                 PrintStats();
+                // wait for the next signal
+                signals.async_wait(on_signal);
                 break;
 #endif
             default:
                 reactor.stop();
             }
-        });
+        };
+        signals.async_wait(on_signal);
 
         // Run reactor loop
         do {
-- 
2.43.0


From 85bd7557f77f00090c0d023cef6216e5197b5107 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:12:23 +0000
Subject: [PATCH 25/32] fix: overflow in the memory amount option was accepted

---
 src/server/main.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/server/main.cpp b/src/server/main.cpp
index 11f1adf..8ddec60 100644
--- a/src/server/main.cpp
+++ b/src/server/main.cpp
@@ -51,7 +51,11 @@ namespace  {
         }
         size_t memory_amount;
         try {
-            memory_amount = boost::lexical_cast<size_t>(s) * units;
+            memory_amount = boost::lexical_cast<size_t>(s);
+            if (memory_amount > std::numeric_limits<size_t>::max() / units) {
+                throw invalid_configuration("memory amount is too big");
+            }
+            memory_amount *= units;
         } catch (const boost::bad_lexical_cast &) {
             throw po::invalid_option_value(s);
         }
-- 
2.43.0


From 77821dd8d6e951487090781b8da161478a6c63e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:23:04 +0000
Subject: [PATCH 26/32] fix: C API left the previous error set after a
 successful call

---
 src/cachelot/c_api.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/cachelot/c_api.cpp b/src/cachelot/c_api.cpp
index d16d06c..9570b0e 100644
--- a/src/cachelot/c_api.cpp
+++ b/src/cachelot/c_api.cpp
@@ -74,6 +74,7 @@ extern "C" {
     CachelotPtr cachelot_init(CachelotOptions opts, CachelotError * out_error) {
         try {
             cachelot_t * c = new cachelot_t{cache::Cache::Create(opts.memory_limit, opts.mem_page_size, opts.initial_dict_size, opts.enable_evictions)};
+            none_error(out_error);
             return c;
         } catch (const system_error & e) {
             system_error_to_err_struct(e, out_error);
@@ -97,6 +98,7 @@ extern "C" {
         try {
             auto new_item = c->cache.create_item(slice(k.key, k.keylen), k.hash, valuelen, 0, cache::Item::infinite_TTL);
             new_item->assign_value(slice(value, valuelen));
+            none_error(out_error);
             return reinterpret_cast<CachelotItemPtr>(new_item);
         } catch (const system_error & e) {
             system_error_to_err_struct(e, out_error);
@@ -292,6 +294,7 @@ extern "C" {
             if (result != nullptr) {
                 *result = newval;
             }
+            none_error(out_error);
             return found;
         } catch (const system_error & e) {
             system_error_to_err_struct(e, out_error);
@@ -311,6 +314,7 @@ extern "C" {
             if (result != nullptr) {
                 *result = newval;
             }
+            none_error(out_error);
             return found;
         } catch (const system_error & e) {
             system_error_to_err_struct(e, out_error);
@@ -326,6 +330,7 @@ extern "C" {
     void cachelot_flush_all(CachelotPtr c, CachelotError * out_error) {
         try {
             c->cache.do_flush_all();
+            none_error(out_error);
         } catch (const system_error & e) {
             system_error_to_err_struct(e, out_error);
         } catch(const std::exception & e) {
-- 
2.43.0


From baccac63e510e596a24178c426bf931edc988598 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:23:24 +0000
Subject: [PATCH 27/32] fix: empty memory amount option was read out of bounds

---
 src/server/main.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/server/main.cpp b/src/server/main.cpp
index 8ddec60..daa2c00 100644
--- a/src/server/main.cpp
+++ b/src/server/main.cpp
@@ -32,6 +32,9 @@ namespace  {
     void validate(boost::any& arg, const std::vector<std::string>& values, po_memory *, int) {
         po::validators::check_first_occurrence(arg);
         auto s = po::validators::get_single_string(values);
+        if (s.empty()) {
+            throw po::invalid_option_value(s);
+        }
         size_t units;
         switch (s[s.length()-1]) {
         case 'K':
-- 
2.43.0


From bfd8b3113ef0cde5e79bebb8bc1fd491ce0418ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:30:31 +0000
Subject: [PATCH 28/32] fix: intrusive_list::is_tail used the wrong link of an
 item

---
 src/cachelot/intrusive_list.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cachelot/intrusive_list.h b/src/cachelot/intrusive_list.h
index ff9a415..64a00da 100644
--- a/src/cachelot/intrusive_list.h
+++ b/src/cachelot/intrusive_list.h
@@ -108,7 +108,7 @@ namespace cachelot {
         bool is_tail(pointer item) const noexcept {
             debug_assert(is_linked(item));
             debug_assert(has(item));
-            return &item->link == dummy_link.prev;
+            return &(item->*LinkPonter) == dummy_link.prev;
         }
 
         /// move `item` to front
-- 
2.43.0


From 669e3c7691b5fdf9b20212906b125b5c091bd66a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:51:47 +0000
Subject: [PATCH 29/32] fix: debug build of the server was terminated by a
 reply with the empty value

---
 src/server/memcached/proto_ascii.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/server/memcached/proto_ascii.cpp b/src/server/memcached/proto_ascii.cpp
index 79a6f78..8f61cb7 100644
--- a/src/server/memcached/proto_ascii.cpp
+++ b/src/server/memcached/proto_ascii.cpp
@@ -69,6 +69,9 @@ namespace cachelot {
 
         // Stream operator to serialize `slice`
         inline io_buffer & operator<<(io_buffer & buf, const slice value) {
+            if (value.empty()) {
+                return buf;
+            }
             auto dest = buf.begin_write(value.length());
             std::memcpy(dest, value.begin(), value.length());
             buf.confirm_write(value.length());
-- 
2.43.0


From 0089383590bc06ee5b630f0986abd367770f89a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:20:04 +0000
Subject: [PATCH 30/32] fix: answer a datagram before the next one is received:
 with the send pending, replies were merged and sent to the wrong client

---
 src/server/socket_datagram.h | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/server/socket_datagram.h b/src/server/socket_datagram.h
index 8ac7bf8..a53d66c 100644
--- a/src/server/socket_datagram.h
+++ b/src/server/socket_datagram.h
@@ -91,7 +91,10 @@ namespace cachelot { namespace net {
                 if (not error) {
                     try {
                         if (handle_data(m_recv_buf, m_send_buf) == SEND_REPLY_AND_READ) {
+                            // the next datagram is received after this one was answered: there is a single send buffer
+                            m_recv_buf.reset();
                             async_send_all(m_remote_endpoint);
+                            return;
                         }
                     } catch (const std::exception &) { /* swallow exception */ }
                 } else {
@@ -111,10 +114,15 @@ namespace cachelot { namespace net {
     inline void datagram_server<SocketType>::async_send_all(const typename protocol_type::endpoint to) noexcept {
         auto need_to_send = m_send_buf.non_read();
         m_socket.async_send_to(asio::buffer(m_send_buf.begin_read(), need_to_send), to,
-            [=](error_code /*error*/, size_t /*bytes_sent*/) {
+            [=](const error_code error, size_t /*bytes_sent*/) noexcept {
                 // even data was not sent completely
                 m_send_buf.confirm_read(need_to_send);
                 m_send_buf.compact();
+                if (error == io_error::operation_aborted) {
+                    // we were closed from the outside
+                    return;
+                }
+                this->async_receive();
             });
     }
 
-- 
2.43.0


From 806a882f6b2b187ec5fb5d52f6bdf442bcef39ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:24:50 +0000
Subject: [PATCH 31/32] fix: length of an integer as text was wrong for long
 numbers and undefined for the minimal ones

---
 src/cachelot/string_conv.h | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/cachelot/string_conv.h b/src/cachelot/string_conv.h
index eca6639..72b9fb5 100644
--- a/src/cachelot/string_conv.h
+++ b/src/cachelot/string_conv.h
@@ -181,17 +181,22 @@ namespace cachelot {
     template <typename UIntT,
               class = typename std::enable_if<std::is_unsigned<UIntT>::value>::type>
     inline size_t uint_ascii_length(UIntT number) noexcept {
-        if (number == 0) {
-            return 1;
+        size_t length = 1;
+        while (number >= 10) {
+            number /= 10;
+            length += 1;
         }
-        return static_cast<size_t>(log10(number)) + 1;
+        return length;
     }
 
     template <typename IntT,
               class = typename std::enable_if<std::is_signed<IntT>::value>::type>
     inline size_t int_ascii_length(IntT number) noexcept {
         const size_t minus_sign_len = (number < 0) ? 1 : 0;
-        auto unsigned_number = static_cast<typename internal::numeric<IntT>::unsigned_>(abs(number));
+        auto unsigned_number = static_cast<typename internal::numeric<IntT>::unsigned_>(number);
+        if (number < 0) {
+            unsigned_number = 0 - unsigned_number; // absolute value of the minimum does not fit the signed type
+        }
         return minus_sign_len + uint_ascii_length(unsigned_number);
     }
 
-- 
2.43.0


From 95cf9f0c877951103d2241d5d42d1a5d56cbb181 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:24:50 +0000
Subject: [PATCH 32/32] fix: slice search, prefix and suffix tests were wrong
 for parts of the same memory and empty ranges

---
 src/cachelot/slice.h | 19 +++++--------------
 1 file changed, 5 insertions(+), 14 deletions(-)

diff --git a/src/cachelot/slice.h b/src/cachelot/slice.h
index 38948ff..c4476c7 100644
--- a/src/cachelot/slice.h
+++ b/src/cachelot/slice.h
@@ -90,13 +90,9 @@ namespace cachelot {
         /// search for given range `what` in this slice
         slice search(const slice what) const noexcept {
             if (what.length() <= length()) {
-                if (what.begin() >= begin() && what.end() <= end()) {
-                    return what;
-                } else {
-                    const char * pos = std::search(begin(), end(), what.begin(), what.end());
-                    if (pos != end()) {
-                        return slice(pos, what.length());
-                    }
+                const char * pos = std::search(begin(), end(), what.begin(), what.end());
+                if (pos != end()) {
+                    return slice(pos, what.length());
                 }
             }
             return slice();
@@ -114,17 +110,12 @@ namespace cachelot {
 
         /// returns `true` if this slice contents starts with `what`
         bool startswith(const slice what) const noexcept {
-            return search(what).begin() == begin();
+            return what.length() <= length() && slice(begin(), what.length()) == what;
         }
 
         /// returns `true` if this slice contents ends with `what`
         bool endswith(const slice what) const noexcept {
-            if (what.length() <= length()) {
-                slice _, xtail;
-                tie(_, xtail) = split_at(length() - what.length());
-                return xtail == what;
-            }
-            return false;
+            return what.length() <= length() && slice(end() - what.length(), what.length()) == what;
         }
 
         /// return slice containing piece of this slice range started on `index` length of `len`
-- 
2.43.0

