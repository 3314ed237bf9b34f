From 41b97f034fdf0e2fef00e681e17f37045cb8b634 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:48 +0000
Subject: [PATCH 01/39] fix: pre-decrement of an observable value yields the
 decremented value

---
 include/xitren/comm/values/observable.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/xitren/comm/values/observable.hpp b/include/xitren/comm/values/observable.hpp
index 52dfcd6..ac02fe3 100644
--- a/include/xitren/comm/values/observable.hpp
+++ b/include/xitren/comm/values/observable.hpp
@@ -84,7 +84,7 @@ public:
     observable_type
     operator--() volatile noexcept
     {
-        auto const ret = std::atomic<observable_type>::fetch_sub(1) + 1;
+        auto const ret = std::atomic<observable_type>::fetch_sub(1) - 1;
         notify_observers(ret);
         return ret;
     }
@@ -92,7 +92,7 @@ public:
     observable_type
     operator--() noexcept
     {
-        auto const ret = std::atomic<observable_type>::fetch_sub(1) + 1;
+        auto const ret = std::atomic<observable_type>::fetch_sub(1) - 1;
         notify_observers(ret);
         return ret;
     }
@@ -330,7 +330,7 @@ public:
     observable_type
     operator--() volatile noexcept
     {
-        auto const ret = std::atomic<observable_type>::fetch_sub(1) + 1;
+        auto const ret = std::atomic<observable_type>::fetch_sub(1) - 1;
         notify_observers(ret);
         return ret;
     }
@@ -338,7 +338,7 @@ public:
     observable_type
     operator--() noexcept
     {
-        auto const ret = std::atomic<observable_type>::fetch_sub(1) + 1;
+        auto const ret = std::atomic<observable_type>::fetch_sub(1) - 1;
         notify_observers(ret);
         return ret;
     }
-- 
2.43.0


From fcbc916bc3d1eea6c1161a1454133f7c69db217b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:48 +0000
Subject: [PATCH 02/39] fix: post-increment and post-decrement publish the new
 value to observers

---
 include/xitren/comm/values/observable.hpp | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/include/xitren/comm/values/observable.hpp b/include/xitren/comm/values/observable.hpp
index ac02fe3..cfa96ec 100644
--- a/include/xitren/comm/values/observable.hpp
+++ b/include/xitren/comm/values/observable.hpp
@@ -37,7 +37,7 @@ public:
     operator++(int) volatile noexcept
     {
         auto const ret = std::atomic<observable_type>::fetch_add(1);
-        notify_observers(ret);
+        notify_observers(ret + 1);
         return ret;
     }
 
@@ -45,7 +45,7 @@ public:
     operator++(int) noexcept
     {
         auto const ret = std::atomic<observable_type>::fetch_add(1);
-        notify_observers(ret);
+        notify_observers(ret + 1);
         return ret;
     }
 
@@ -53,7 +53,7 @@ public:
     operator--(int) volatile noexcept
     {
         auto const ret = std::atomic<observable_type>::fetch_sub(1);
-        notify_observers(ret);
+        notify_observers(ret - 1);
         return ret;
     }
 
@@ -61,7 +61,7 @@ public:
     operator--(int) noexcept
     {
         auto const ret = std::atomic<observable_type>::fetch_sub(1);
-        notify_observers(ret);
+        notify_observers(ret - 1);
         return ret;
     }
 
@@ -283,7 +283,7 @@ public:
     operator++(int) volatile noexcept
     {
         auto const ret = std::atomic<observable_type>::fetch_add(1);
-        notify_observers(ret);
+        notify_observers(ret + 1);
         return ret;
     }
 
@@ -291,7 +291,7 @@ public:
     operator++(int) noexcept
     {
         auto const ret = std::atomic<observable_type>::fetch_add(1);
-        notify_observers(ret);
+        notify_observers(ret + 1);
         return ret;
     }
 
@@ -299,7 +299,7 @@ public:
     operator--(int) volatile noexcept
     {
         auto const ret = std::atomic<observable_type>::fetch_sub(1);
-        notify_observers(ret);
+        notify_observers(ret - 1);
         return ret;
     }
 
@@ -307,7 +307,7 @@ public:
     operator--(int) noexcept
     {
         auto const ret = std::atomic<observable_type>::fetch_sub(1);
-        notify_observers(ret);
+        notify_observers(ret - 1);
         return ret;
     }
 
-- 
2.43.0


From 397958d988e43dff7bc306032247e40829e9c3f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:48 +0000
Subject: [PATCH 03/39] fix: removing an observer from a dynamic observable
 value really removes it

---
 include/xitren/comm/values/observable.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/xitren/comm/values/observable.hpp b/include/xitren/comm/values/observable.hpp
index cfa96ec..92ee7db 100644
--- a/include/xitren/comm/values/observable.hpp
+++ b/include/xitren/comm/values/observable.hpp
@@ -443,6 +443,7 @@ public:
         }
         auto it = std::remove(observers_.begin(), observers_.end(), &observer);
         if (it != observers_.end()) {
+            observers_.erase(it, observers_.end());
             return observer_errors::ok;
         } else {
             return observer_errors::not_found;
-- 
2.43.0


From e97662bf6b0236596ee15996e00ee989357118c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:48 +0000
Subject: [PATCH 04/39] fix: removing a module from a full manager no longer
 writes past the module table

---
 include/xitren/comm/mediator.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/xitren/comm/mediator.hpp b/include/xitren/comm/mediator.hpp
index 4db881e..ec58bbf 100644
--- a/include/xitren/comm/mediator.hpp
+++ b/include/xitren/comm/mediator.hpp
@@ -293,8 +293,8 @@ public:
                 for (; i < modules_cnt_ - 1; i++) {
                     modules_[i] = modules_[i + 1];
                 }
-                modules_[modules_cnt_] = 0;
                 --modules_cnt_;
+                modules_[modules_cnt_] = 0;
                 return;
             }
         }
-- 
2.43.0


From b74f8ca6905c13e5bc03f433d9978de09e10daea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:48 +0000
Subject: [PATCH 05/39] fix: adding a module to a full manager throws instead
 of writing past the module table

---
 include/xitren/comm/mediator.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/xitren/comm/mediator.hpp b/include/xitren/comm/mediator.hpp
index ec58bbf..9411c19 100644
--- a/include/xitren/comm/mediator.hpp
+++ b/include/xitren/comm/mediator.hpp
@@ -277,7 +277,8 @@ public:
     void
     add_module(base::module& c) override
     {
-        modules_[modules_cnt_++] = &c;
+        modules_.at(modules_cnt_) = &c;
+        modules_cnt_++;
     }
 
     /**
-- 
2.43.0


From 01702b5ee29f6c1e2ac353ebdb200b387522cda6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:48 +0000
Subject: [PATCH 06/39] fix: element counts whose byte size overflows are
 refused by the heap allocator

---
 include/xitren/allocators/static_heap_allocator.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/xitren/allocators/static_heap_allocator.hpp b/include/xitren/allocators/static_heap_allocator.hpp
index d7b92b4..b71f98c 100644
--- a/include/xitren/allocators/static_heap_allocator.hpp
+++ b/include/xitren/allocators/static_heap_allocator.hpp
@@ -42,6 +42,9 @@ public:
     Type*
     allocate(size_t size)    // NOLINT
     {
+        if (size > static_cast<std::size_t>(-1) / sizeof(Type)) {
+            throw std::bad_alloc();
+        }
         auto ptr = static_cast<Type*>(manager_.allocate(size * sizeof(Type)));
         if (ptr) {
             return ptr;
-- 
2.43.0


From 29641a4d4f909faac602a482b622046daac75411 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:48 +0000
Subject: [PATCH 07/39] fix: allocators of the same heap compare equal

---
 include/xitren/allocators/static_heap_allocator.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/xitren/allocators/static_heap_allocator.hpp b/include/xitren/allocators/static_heap_allocator.hpp
index b71f98c..051bfe9 100644
--- a/include/xitren/allocators/static_heap_allocator.hpp
+++ b/include/xitren/allocators/static_heap_allocator.hpp
@@ -60,14 +60,14 @@ public:
 
     template <typename U>
     constexpr bool
-    operator==(static_heap_allocator<U, PoolSize> const& other) noexcept
+    operator==(static_heap_allocator<U, PoolSize> const& other) const noexcept
     {
-        return this == &other;
+        return &manager_ == &other.manager_;
     }
 
     template <typename U>
     constexpr bool
-    operator!=(static_heap_allocator<U, PoolSize> const& other) noexcept
+    operator!=(static_heap_allocator<U, PoolSize> const& other) const noexcept
     {
         return !this->operator==(other);
     }
-- 
2.43.0


From 885166f0cf785fbcbee7221f8d57b63822abc0e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:48 +0000
Subject: [PATCH 08/39] fix: the heap statistics query compiles and its result
 type can be named

---
 include/xitren/allocators/static_heap.hpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/include/xitren/allocators/static_heap.hpp b/include/xitren/allocators/static_heap.hpp
index 847acf7..e7281e0 100644
--- a/include/xitren/allocators/static_heap.hpp
+++ b/include/xitren/allocators/static_heap.hpp
@@ -28,6 +28,7 @@ class static_heap {
         size_t               x_block_size;       /**< The size of the free block. */
     };
 
+public:
     /* Used to pass information about the heap. */
     using heap_stats_t = struct {
         size_t x_available_heap_space_in_bytes;
@@ -39,6 +40,8 @@ class static_heap {
         size_t x_number_of_successful_frees;
     };
 
+private:
+
     static constexpr std::size_t port_byte_alignment = 8;
 
     // static constexpr auto
@@ -489,7 +492,7 @@ public:
 
         v_task_suspend_all();
         {
-            px_block = heapPROTECT_BLOCK_POINTER(x_start_.px_next_free_block);
+            px_block = heap_protect_block_pointer(x_start_.px_next_free_block);
 
             /* pxBlock will be NULL if the heap has not been initialised.  The heap
              * is initialised automatically when the first allocation is made. */
@@ -509,7 +512,7 @@ public:
 
                     /* Move to the next block in the chain until the last block is
                      * reached. */
-                    px_block = heapPROTECT_BLOCK_POINTER(px_block->px_next_free_block);
+                    px_block = heap_protect_block_pointer(px_block->px_next_free_block);
                 }
             }
         }
-- 
2.43.0


From c30ecc03158737ac89f8727afadc6371212be3e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:48 +0000
Subject: [PATCH 09/39] fix: a pipeline pool has one queue per worker, not
 always eight

---
 include/xitren/comm/pipeline_stage_pool.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/xitren/comm/pipeline_stage_pool.hpp b/include/xitren/comm/pipeline_stage_pool.hpp
index f0c5544..55c9477 100644
--- a/include/xitren/comm/pipeline_stage_pool.hpp
+++ b/include/xitren/comm/pipeline_stage_pool.hpp
@@ -46,7 +46,7 @@ class pipeline_stage_pool {
         atomic_cnt_type                    tail;
         atomic_cnt_type                    head;
     };
-    using pool_type     = std::array<queue_type, 8>;
+    using pool_type     = std::array<queue_type, PoolSize>;
     using thread_type   = std::vector<std::thread>;
     using function_type = std::function<const NextType(pipeline_stage_exception, const Type, const measure_data)>;
 
-- 
2.43.0


From c3d026bdc038a92c751add3ce3315a3435abfda2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:48 +0000
Subject: [PATCH 10/39] fix: a string option keeps its whole argument, spaces
 included

---
 include/xitren/func/argv_parser.hpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/include/xitren/func/argv_parser.hpp b/include/xitren/func/argv_parser.hpp
index 48e5154..f8a7eae 100644
--- a/include/xitren/func/argv_parser.hpp
+++ b/include/xitren/func/argv_parser.hpp
@@ -73,9 +73,13 @@ private:
                 visit(
                     [this, idx, &argv](auto&& arg) {
                         if (idx < static_cast<int>(argv.size() - 1)) {
-                            std::stringstream value;
-                            value << argv[idx + 1];
-                            value >> this->*arg;
+                            if constexpr (std::is_same_v<std::decay_t<decltype(arg)>, std::string Opts::*>) {
+                                this->*arg = argv[idx + 1];
+                            } else {
+                                std::stringstream value;
+                                value << argv[idx + 1];
+                                value >> this->*arg;
+                            }
                         }
                     },
                     prop);
-- 
2.43.0


From fd4a06a9a7778c37c9b360d2bc61a3ee19868309 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:48 +0000
Subject: [PATCH 11/39] fix: an interval_event's periods are initialised before
 its thread starts

---
 include/xitren/func/interval_event.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/xitren/func/interval_event.hpp b/include/xitren/func/interval_event.hpp
index 89edbcc..3686f52 100644
--- a/include/xitren/func/interval_event.hpp
+++ b/include/xitren/func/interval_event.hpp
@@ -41,6 +41,8 @@ public:
     interval_event(std::function<void(void)> function, time_type repeat_every = 100ms,
                    time_type wait_between_checks = 20ms)
         : function_{std::move(function)},
+          period_{repeat_every},
+          period_between_checks_{wait_between_checks},
           thread_{[&] {
               std::this_thread::sleep_for(10ms);
               auto last_time{std::chrono::system_clock::now()};
@@ -52,9 +54,7 @@ public:
                   std::this_thread::sleep_for(period_between_checks_);
               }
               keep_running_.notify_one();
-          }},
-          period_{repeat_every},
-          period_between_checks_{wait_between_checks}
+          }}
     {
         thread_.detach();
     }
@@ -129,10 +129,10 @@ public:
 private:
     std::function<void(void)> function_;
     std::atomic_flag          keep_running_{true};
-    std::thread               thread_;
     time_type                 period_{};
     time_type                 period_between_checks_{};
     bool                      stop_{false};
+    std::thread               thread_;
 };
 
 }    // namespace xitren::func
-- 
2.43.0


From c2db93cd153bf3044498e8434e0058d8a4afa030 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:48 +0000
Subject: [PATCH 12/39] fix: an interval_event's periods may be changed while
 its thread runs

---
 include/xitren/func/interval_event.hpp | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/include/xitren/func/interval_event.hpp b/include/xitren/func/interval_event.hpp
index 3686f52..27c449f 100644
--- a/include/xitren/func/interval_event.hpp
+++ b/include/xitren/func/interval_event.hpp
@@ -47,11 +47,12 @@ public:
               std::this_thread::sleep_for(10ms);
               auto last_time{std::chrono::system_clock::now()};
               while (keep_running_.test_and_set()) {
-                  if ((std::chrono::system_clock::now() - last_time).count() >= period_.count()) {
-                      last_time += period_;
+                  time_type const period{period_};
+                  if ((std::chrono::system_clock::now() - last_time).count() >= period.count()) {
+                      last_time += period;
                       function_();
                   }
-                  std::this_thread::sleep_for(period_between_checks_);
+                  std::this_thread::sleep_for(period_between_checks_.load());
               }
               keep_running_.notify_one();
           }}
@@ -89,19 +90,19 @@ public:
     /**
      * Returns the interval at which the function is called, in milliseconds.
      */
-    auto&
+    auto
     period() const noexcept
     {
-        return period_;
+        return period_.load();
     }
 
     /**
      * Returns the interval between checks for whether the function should be called, in milliseconds.
      */
-    auto&
+    auto
     period_between_checks() const noexcept
     {
-        return period_between_checks_;
+        return period_between_checks_.load();
     }
 
     /**
@@ -129,8 +130,8 @@ public:
 private:
     std::function<void(void)> function_;
     std::atomic_flag          keep_running_{true};
-    time_type                 period_{};
-    time_type                 period_between_checks_{};
+    std::atomic<time_type>    period_{};
+    std::atomic<time_type>    period_between_checks_{};
     bool                      stop_{false};
     std::thread               thread_;
 };
-- 
2.43.0


From a7d90e4e4b7eeaaea8858efb1cdd146a1f65d606 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:09 +0000
Subject: [PATCH 13/39] fix: the LRU cache compiles, takes its expiry period
 and returns what it holds

---
 include/xitren/cache/lru.hpp | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/include/xitren/cache/lru.hpp b/include/xitren/cache/lru.hpp
index 1c2c3bb..119f591 100644
--- a/include/xitren/cache/lru.hpp
+++ b/include/xitren/cache/lru.hpp
@@ -23,13 +23,14 @@ namespace xitren::cache {
 template <class Key, class Value, std::size_t Size, bool Exception = true>
 class lru {
     using timestamp          = std::chrono::time_point<std::chrono::system_clock>;
+    using duration           = std::chrono::system_clock::duration;
     using data_item          = std::tuple<Key, Value, timestamp>;
     using double_linked_list = std::list<data_item>;
     using hash_map           = std::unordered_map<Key, data_item>;
     using return_type        = std::optional<data_item>;
 
 public:
-    explicit lru(timestamp expired) noexcept : expired_after_{expired} {}
+    explicit lru(duration expired) noexcept : expired_after_{expired} {}
 
     void
     put(Key key, Value value)
@@ -38,7 +39,7 @@ public:
         std::unique_lock<std::mutex> lock(access_);
 #endif
         if (map_.contains(key)) {
-            auto is_key = [key](data_item item) { return item.template get<0>() == key; };
+            auto is_key = [key](data_item const& item) { return std::get<0>(item) == key; };
             auto it     = std::find_if(list_.begin(), list_.end(), is_key);
             if (it != list_.end()) {
                 auto obj = *it;
@@ -67,13 +68,14 @@ public:
         std::unique_lock<std::mutex> lock(access_);
 #endif
         if (map_.contains(key)) {
-            auto [value, time] = map_[key];
-            if ((get_time() - time).count() >= expired_after_) {
+            auto const& item = map_[key];
+            if ((get_time() - std::get<2>(item)) >= expired_after_) {
                 if constexpr (Exception) {
                     throw cache_timeout();
                 }
                 return std::nullopt;
             }
+            return item;
         } else {
             return std::nullopt;
         }
@@ -86,7 +88,7 @@ public:
     }
 
 private:
-    const timestamp    expired_after_;
+    const duration     expired_after_;
     double_linked_list list_{};
     hash_map           map_{};
 #ifdef PTHREAD_MUTEX_DEFAULT
-- 
2.43.0


From 17ce75dcd184bceef4da5431cdf94b17256b0a70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:09 +0000
Subject: [PATCH 14/39] fix: putting a key the LRU cache already holds updates
 its value

---
 include/xitren/cache/lru.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/xitren/cache/lru.hpp b/include/xitren/cache/lru.hpp
index 119f591..8502327 100644
--- a/include/xitren/cache/lru.hpp
+++ b/include/xitren/cache/lru.hpp
@@ -42,7 +42,7 @@ public:
             auto is_key = [key](data_item const& item) { return std::get<0>(item) == key; };
             auto it     = std::find_if(list_.begin(), list_.end(), is_key);
             if (it != list_.end()) {
-                auto obj = *it;
+                auto obj = data_item{key, value, get_time()};
                 list_.erase(it);
                 list_.push_front(obj);
                 map_[key] = obj;
-- 
2.43.0


From f74d2dc237c265f97a3149f98feaad21d438a054 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:09 +0000
Subject: [PATCH 15/39] fix: an entry dismissed from the LRU cache is no longer
 found

---
 include/xitren/cache/lru.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/xitren/cache/lru.hpp b/include/xitren/cache/lru.hpp
index 8502327..3ba20ef 100644
--- a/include/xitren/cache/lru.hpp
+++ b/include/xitren/cache/lru.hpp
@@ -53,6 +53,7 @@ public:
             }
         } else {
             if (list_.size() >= Size) {
+                map_.erase(std::get<0>(list_.back()));
                 list_.pop_back();
             }
             auto obj = data_item{key, value, get_time()};
-- 
2.43.0


From 3e48bc27647d3bfa63ed024a049cb6b3b81b33c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:09 +0000
Subject: [PATCH 16/39] fix: getting a key makes it the most recently used one

---
 include/xitren/cache/lru.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/xitren/cache/lru.hpp b/include/xitren/cache/lru.hpp
index 3ba20ef..fd70579 100644
--- a/include/xitren/cache/lru.hpp
+++ b/include/xitren/cache/lru.hpp
@@ -76,6 +76,8 @@ public:
                 }
                 return std::nullopt;
             }
+            auto is_key = [key](data_item const& item) { return std::get<0>(item) == key; };
+            list_.splice(list_.begin(), list_, std::find_if(list_.begin(), list_.end(), is_key));
             return item;
         } else {
             return std::nullopt;
-- 
2.43.0


From 29c317a5edd6aabeb5c90deb4a9c134139a642b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:09 +0000
Subject: [PATCH 17/39] fix: the LRU cache takes its lock where
 PTHREAD_MUTEX_DEFAULT is no macro (glibc)

---
 include/xitren/cache/lru.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/xitren/cache/lru.hpp b/include/xitren/cache/lru.hpp
index fd70579..abf960f 100644
--- a/include/xitren/cache/lru.hpp
+++ b/include/xitren/cache/lru.hpp
@@ -35,7 +35,7 @@ public:
     void
     put(Key key, Value value)
     {
-#ifdef PTHREAD_MUTEX_DEFAULT
+#ifdef PTHREAD_MUTEX_INITIALIZER
         std::unique_lock<std::mutex> lock(access_);
 #endif
         if (map_.contains(key)) {
@@ -65,7 +65,7 @@ public:
     return_type
     get(Key key)
     {
-#ifdef PTHREAD_MUTEX_DEFAULT
+#ifdef PTHREAD_MUTEX_INITIALIZER
         std::unique_lock<std::mutex> lock(access_);
 #endif
         if (map_.contains(key)) {
@@ -94,7 +94,7 @@ private:
     const duration     expired_after_;
     double_linked_list list_{};
     hash_map           map_{};
-#ifdef PTHREAD_MUTEX_DEFAULT
+#ifdef PTHREAD_MUTEX_INITIALIZER
     std::mutex access_{};
 #endif
 
-- 
2.43.0


From 0a1695cbfc6f52044374f763915daf3c8ae6f990 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:09 +0000
Subject: [PATCH 18/39] fix: the dynamic observable takes its lock where
 PTHREAD_MUTEX_DEFAULT is no macro (glibc)

---
 include/xitren/comm/observer.hpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/include/xitren/comm/observer.hpp b/include/xitren/comm/observer.hpp
index f2632b4..724833f 100644
--- a/include/xitren/comm/observer.hpp
+++ b/include/xitren/comm/observer.hpp
@@ -254,7 +254,7 @@ public:
     void
     add_observer(observer<observable_type>& observer)
     {
-#ifdef PTHREAD_MUTEX_DEFAULT
+#ifdef PTHREAD_MUTEX_INITIALIZER
         std::unique_lock<std::mutex> lock(access_);
 #endif
         if (!contains(observer)) [[likely]] {
@@ -275,7 +275,7 @@ public:
     void
     remove_observer(observer<observable_type> const& observer)
     {
-#ifdef PTHREAD_MUTEX_DEFAULT
+#ifdef PTHREAD_MUTEX_INITIALIZER
         std::unique_lock<std::mutex> lock(access_);
 #endif
         if (!std::erase(observers_, &observer)) {
@@ -289,7 +289,7 @@ public:
     inline void
     clear_observers()
     {
-#ifdef PTHREAD_MUTEX_DEFAULT
+#ifdef PTHREAD_MUTEX_INITIALIZER
         std::unique_lock<std::mutex> lock(access_);
 #endif
         for (auto& item : observers_) {
@@ -309,7 +309,7 @@ public:
     void
     notify_observers(observable_type const& n)
     {
-#ifdef PTHREAD_MUTEX_DEFAULT
+#ifdef PTHREAD_MUTEX_INITIALIZER
         std::unique_lock<std::mutex> lock(access_);
 #endif
         for (auto& item : observers_) {
@@ -319,7 +319,7 @@ public:
 
 private:
     observer_list observers_{};
-#ifdef PTHREAD_MUTEX_DEFAULT
+#ifdef PTHREAD_MUTEX_INITIALIZER
     std::mutex access_{};
 #endif
 
-- 
2.43.0


From abd270185d4551a5c0e7932a70f10915b702cdc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:36 +0000
Subject: [PATCH 19/39] fix: a pipeline stage neither loses, repeats nor tears
 items when its buffer wraps

---
 include/xitren/comm/pipeline_stage.hpp | 34 +++++++++++++++++++-------
 1 file changed, 25 insertions(+), 9 deletions(-)

diff --git a/include/xitren/comm/pipeline_stage.hpp b/include/xitren/comm/pipeline_stage.hpp
index 0299016..07ad8f6 100644
--- a/include/xitren/comm/pipeline_stage.hpp
+++ b/include/xitren/comm/pipeline_stage.hpp
@@ -33,7 +33,10 @@ class pipeline_stage {
 
     using atomic_cnt_type    = std::atomic<std::size_t>;
     using atomic_closed_type = std::atomic<bool>;
-    using ready_type         = std::optional<Type>;
+    using ready_type         = struct cell_tag {
+        std::optional<Type> data;
+        std::atomic<bool>   ready;
+    };
     using measure_type       = std::pair<int, int>;
     using statistics_type    = std::deque<measure_type>;
     using queue_type         = struct type_tag {
@@ -56,8 +59,13 @@ public:
     void
     push(Type const&& data)
     {
-        auto const i                          = queue_.tail++;
-        queue_.array[i % queue_.array.size()] = data;
+        auto const i    = queue_.tail++;
+        auto&      cell = queue_.array[i % queue_.array.size()];
+        while ((i - tail_) >= queue_.array.size()) {
+            std::this_thread::yield();
+        }
+        cell.data  = data;
+        cell.ready = true;
 #ifdef DEBUG
         Log::trace() << "Index: " << queue_.tail << "\n";
 #endif
@@ -66,8 +74,13 @@ public:
     void
     push(Type const& data)
     {
-        auto const i                          = queue_.tail++;
-        queue_.array[i % queue_.array.size()] = data;
+        auto const i    = queue_.tail++;
+        auto&      cell = queue_.array[i % queue_.array.size()];
+        while ((i - tail_) >= queue_.array.size()) {
+            std::this_thread::yield();
+        }
+        cell.data  = data;
+        cell.ready = true;
 #ifdef DEBUG
         Log::trace() << "Index: " << queue_.tail << "\n";
 #endif
@@ -107,19 +120,22 @@ private:
 #endif
         while (!closed_ || ((queue_.tail - tail_) > 0)) {
             while (tail_ < queue_.tail) {
-                if (!(queue_.array[(tail_) % queue_.array.size()])) {
+                auto& cell = queue_.array[(tail_) % queue_.array.size()];
+                if (!cell.ready) {
                     std::this_thread::sleep_for(0ms);
 #ifdef DEBUG
                     Log::trace() << "Data are not ready!\n";
 #endif
                     continue;
                 }
-                auto const i = tail_++;
+                auto const data = std::move(cell.data);
+                cell.data.reset();
+                cell.ready = false;
+                [[maybe_unused]] auto const i = tail_++;
 #ifdef DEBUG
                 Log::trace() << "Index to process: " << i << "\n";
 #endif
-                auto& data = queue_.array[i % queue_.array.size()];
-                auto  last_time{std::chrono::system_clock::now()};
+                auto last_time{std::chrono::system_clock::now()};
                 func_(pipeline_stage_exception::no_error, data.value(),
                       measure_type{time_for_unit(), buffer_utilization()});
                 auto elapsed = std::chrono::system_clock::now() - last_time;
-- 
2.43.0


From a8e79d57adfe6f8195a876de5ed633941c77f648 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:36 +0000
Subject: [PATCH 20/39] fix: a pipeline stage's statistics may be read while
 its worker runs

---
 include/xitren/comm/pipeline_stage.hpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/include/xitren/comm/pipeline_stage.hpp b/include/xitren/comm/pipeline_stage.hpp
index 07ad8f6..bb12c4f 100644
--- a/include/xitren/comm/pipeline_stage.hpp
+++ b/include/xitren/comm/pipeline_stage.hpp
@@ -89,7 +89,8 @@ public:
     auto
     time_for_unit() const
     {
-        int calc{};
+        std::lock_guard<std::mutex> lock(stat_access_);
+        int                         calc{};
         for (auto& item : stat_) {
             calc += item.first;
         }
@@ -99,7 +100,8 @@ public:
     auto
     buffer_utilization() const
     {
-        int calc{};
+        std::lock_guard<std::mutex> lock(stat_access_);
+        int                         calc{};
         for (auto& item : stat_) {
             calc += item.second;
         }
@@ -112,6 +114,7 @@ private:
     queue_type         queue_{};
     function_type      func_{};
     statistics_type    stat_{};
+    mutable std::mutex stat_access_{};
 
     std::thread worker_ = std::thread{[this]() {
         using namespace std::chrono_literals;
@@ -139,6 +142,7 @@ private:
                 func_(pipeline_stage_exception::no_error, data.value(),
                       measure_type{time_for_unit(), buffer_utilization()});
                 auto elapsed = std::chrono::system_clock::now() - last_time;
+                std::lock_guard<std::mutex> lock(stat_access_);
                 stat_.push_front(measure_type{std::chrono::duration_cast<std::chrono::milliseconds>(elapsed).count(),
                                               queue_.tail - tail_});
                 if (stat_.size() > measure_points) {
-- 
2.43.0


From 9c1956b65467f134aa1b31f12852e749cd7d6401 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:36 +0000
Subject: [PATCH 21/39] fix: a pipeline pool neither loses, repeats nor tears
 items when a buffer wraps

---
 include/xitren/comm/pipeline_stage_pool.hpp | 34 +++++++++++++++------
 1 file changed, 25 insertions(+), 9 deletions(-)

diff --git a/include/xitren/comm/pipeline_stage_pool.hpp b/include/xitren/comm/pipeline_stage_pool.hpp
index 55c9477..8d50125 100644
--- a/include/xitren/comm/pipeline_stage_pool.hpp
+++ b/include/xitren/comm/pipeline_stage_pool.hpp
@@ -38,7 +38,10 @@ class pipeline_stage_pool {
 
     using atomic_cnt_type    = std::atomic<std::size_t>;
     using atomic_closed_type = std::atomic<bool>;
-    using ready_type         = std::optional<Type>;
+    using ready_type         = struct cell_tag {
+        std::optional<Type> data;
+        std::atomic<bool>   ready;
+    };
     using statistics_type    = std::deque<measure_data>;
     using queue_type         = struct type_tag {
         std::array<ready_type, BufferSize> array;
@@ -62,19 +65,22 @@ public:
 
             while (!closed_ || ((tail_l - head_l) > 0)) {
                 while (head_l < tail_l) {
-                    if (!(array_l[(head_l) % array_l.size()])) {
+                    auto& cell = array_l[(head_l) % array_l.size()];
+                    if (!cell.ready) {
                         std::this_thread::sleep_for(0ms);
 #ifdef DEBUG
                         Log::trace() << "[" << pool_thread_n << "] Data are not ready!\n";
 #endif
                         continue;
                     }
-                    auto const i = head_l++;
+                    auto const data = std::move(cell.data);
+                    cell.data.reset();
+                    cell.ready = false;
+                    [[maybe_unused]] auto const i = head_l++;
 #ifdef DEBUG
                     Log::trace() << "[" << pool_thread_n << "] Index to process: " << i << "\n";
 #endif
-                    auto& data = array_l[i % array_l.size()];
-                    auto  last_time{std::chrono::system_clock::now()};
+                    auto last_time{std::chrono::system_clock::now()};
                     func_(pipeline_stage_exception::no_error, data.value(),
                           measure_data{pool_thread_n, time_for_unit(stat_l), buffer_utilization(stat_l)});
                     auto elapsed = std::chrono::system_clock::now() - last_time;
@@ -112,8 +118,13 @@ public:
     push(Type const&& data)
     {
         auto const min_id{min_thread()};
-        auto const i                                        = pool_[min_id].tail++;
-        pool_[min_id].array[i % pool_[min_id].array.size()] = data;
+        auto const i    = pool_[min_id].tail++;
+        auto&      cell = pool_[min_id].array[i % pool_[min_id].array.size()];
+        while ((i - pool_[min_id].head) >= pool_[min_id].array.size()) {
+            std::this_thread::yield();
+        }
+        cell.data  = data;
+        cell.ready = true;
 #ifdef DEBUG
         Log::trace() << "Index[" << min_id << "]: " << pool_[min_id].tail << "\n";
 #endif
@@ -123,8 +134,13 @@ public:
     push(Type const& data)
     {
         auto const min_id{min_thread()};
-        auto const i                                        = pool_[min_id].tail++;
-        pool_[min_id].array[i % pool_[min_id].array.size()] = data;
+        auto const i    = pool_[min_id].tail++;
+        auto&      cell = pool_[min_id].array[i % pool_[min_id].array.size()];
+        while ((i - pool_[min_id].head) >= pool_[min_id].array.size()) {
+            std::this_thread::yield();
+        }
+        cell.data  = data;
+        cell.ready = true;
 #ifdef DEBUG
         Log::trace() << "Index[" << min_id << "]: " << pool_[min_id].tail << "\n";
 #endif
-- 
2.43.0


From e21dde6f07ee91ada1475e0d8328747d829b2657 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:44 +0000
Subject: [PATCH 22/39] fix: adding to an observable value does not truncate
 the operand to int

---
 include/xitren/comm/values/observable.hpp | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/include/xitren/comm/values/observable.hpp b/include/xitren/comm/values/observable.hpp
index 92ee7db..fcf4b7d 100644
--- a/include/xitren/comm/values/observable.hpp
+++ b/include/xitren/comm/values/observable.hpp
@@ -15,6 +15,7 @@ __ _(_) |_ _ _ ___ _ _
 #include <atomic>
 #include <cstdint>
 #include <ranges>
+#include <type_traits>
 #include <variant>
 
 namespace xitren::comm::values {
@@ -24,6 +25,7 @@ class observable : protected std::atomic<T> {
 public:
     static constexpr uint32_t max_observers = Max;
     using observable_type                   = T;
+    using operand_type                      = std::conditional_t<std::is_pointer_v<T>, std::ptrdiff_t, T>;
     using size_type                         = std::size_t;
     using observer_list                     = std::array<observed<observable_type>*, max_observers>;
 
@@ -98,7 +100,7 @@ public:
     }
 
     observable_type
-    operator+=(int op) volatile noexcept
+    operator+=(operand_type op) volatile noexcept
     {
         auto const ret = std::atomic<observable_type>::fetch_add(op) + op;
         notify_observers(ret);
@@ -106,7 +108,7 @@ public:
     }
 
     observable_type
-    operator+=(int op) noexcept
+    operator+=(operand_type op) noexcept
     {
         auto const ret = std::atomic<observable_type>::fetch_add(op) + op;
         notify_observers(ret);
@@ -114,7 +116,7 @@ public:
     }
 
     observable_type
-    operator-=(int op) volatile noexcept
+    operator-=(operand_type op) volatile noexcept
     {
         auto const ret = std::atomic<observable_type>::fetch_sub(op) - op;
         notify_observers(ret);
@@ -122,7 +124,7 @@ public:
     }
 
     observable_type
-    operator-=(int op) noexcept
+    operator-=(operand_type op) noexcept
     {
         auto const ret = std::atomic<observable_type>::fetch_sub(op) - op;
         notify_observers(ret);
@@ -270,6 +272,7 @@ template <class T>
 class observable<T, 0> : protected std::atomic<T> {
 public:
     using observable_type = T;
+    using operand_type    = std::conditional_t<std::is_pointer_v<T>, std::ptrdiff_t, T>;
     using size_type       = std::size_t;
     using observer_list   = std::vector<observed<observable_type>*>;
 
@@ -344,7 +347,7 @@ public:
     }
 
     observable_type
-    operator+=(int op) volatile noexcept
+    operator+=(operand_type op) volatile noexcept
     {
         auto const ret = std::atomic<observable_type>::fetch_add(op) + op;
         notify_observers(ret);
@@ -352,7 +355,7 @@ public:
     }
 
     observable_type
-    operator+=(int op) noexcept
+    operator+=(operand_type op) noexcept
     {
         auto const ret = std::atomic<observable_type>::fetch_add(op) + op;
         notify_observers(ret);
@@ -360,7 +363,7 @@ public:
     }
 
     observable_type
-    operator-=(int op) volatile noexcept
+    operator-=(operand_type op) volatile noexcept
     {
         auto const ret = std::atomic<observable_type>::fetch_sub(op) - op;
         notify_observers(ret);
@@ -368,7 +371,7 @@ public:
     }
 
     observable_type
-    operator-=(int op) noexcept
+    operator-=(operand_type op) noexcept
     {
         auto const ret = std::atomic<observable_type>::fetch_sub(op) - op;
         notify_observers(ret);
-- 
2.43.0


From dd1aebdf26d2104c74f473b5ac4fe35c5694d53a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:44 +0000
Subject: [PATCH 23/39] fix: a packet's crc() and const accessors compile

---
 include/xitren/func/packet.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/xitren/func/packet.hpp b/include/xitren/func/packet.hpp
index a30ae3f..2a24fd7 100644
--- a/include/xitren/func/packet.hpp
+++ b/include/xitren/func/packet.hpp
@@ -61,13 +61,13 @@ public:
         return fields_.header;
     }
 
-    constexpr Header&
+    constexpr Header
     header() const noexcept
     {
         return fields_.header;
     }
 
-    constexpr Fields&
+    constexpr Fields
     fields() const noexcept
     {
         return fields_.fields;
@@ -79,13 +79,13 @@ public:
         return fields_.fields;
     }
 
-    Crc&
+    typename Crc::value_type&
     crc() noexcept
     {
         return fields_.crc;
     }
 
-    constexpr Crc&
+    constexpr typename Crc::value_type
     crc() const noexcept
     {
         return fields_.crc;
-- 
2.43.0


From fcca08ad9cb0d640bdb14989a614d5a68b03dd40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:44 +0000
Subject: [PATCH 24/39] fix: a packet is deserialized from an array

---
 include/xitren/func/packet.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/xitren/func/packet.hpp b/include/xitren/func/packet.hpp
index 2a24fd7..0dd4136 100644
--- a/include/xitren/func/packet.hpp
+++ b/include/xitren/func/packet.hpp
@@ -115,10 +115,10 @@ public:
     static constexpr std::tuple<bool, Header, Fields>
     deserialize(std::array<std::uint8_t, Size> const& array) noexcept
     {
-        auto [header, fields, crc] = data<struct_type>::serialize(array);
-        std::array<std::uint8_t, Size - sizeof(Crc::value_type)> checker;
-        auto                                                     calc_crc = Crc::calculate(checker);
-        return {crc == calc_crc, header, fields};
+        static_assert(Size == length);
+        auto [header, fields, crc] = data<struct_type>::deserialize(array.begin());
+        auto calc_crc = Crc::calculate(array.begin(), array.end() - sizeof(typename Crc::value_type));
+        return {crc == calc_crc, Header{header}, Fields{fields}};
     }
 
     template <typename InputIterator>
-- 
2.43.0


From a016fd85395a8fba73bc177d3267938fc6ca742e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:44 +0000
Subject: [PATCH 25/39] fix: deserializing a packet whose size does not fit
 reads nothing out of bounds

---
 include/xitren/func/packet.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/xitren/func/packet.hpp b/include/xitren/func/packet.hpp
index 0dd4136..dd552e6 100644
--- a/include/xitren/func/packet.hpp
+++ b/include/xitren/func/packet.hpp
@@ -199,7 +199,7 @@ public:
         static_assert(sizeof(Type) != 0);
         static_assert(Max >= length);
         size_type const variable_part = (size_ - length) / sizeof(Type);
-        if (((size_ - length) % sizeof(Type))) {
+        if ((size_ < length) || (size_ > Max) || ((size_ - length) % sizeof(Type))) {
             return return_type{{}, {}, false, 0, nullptr};
         }
         auto header_conv = data<Header>::deserialize(storage_.begin());
-- 
2.43.0


From f9a6ee0eddf3f229de0eb9e9f6ca3ebe0d921820 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:44 +0000
Subject: [PATCH 26/39] fix: serializing an element count whose byte size
 overflows is refused

---
 include/xitren/func/packet.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/xitren/func/packet.hpp b/include/xitren/func/packet.hpp
index dd552e6..5fad20e 100644
--- a/include/xitren/func/packet.hpp
+++ b/include/xitren/func/packet.hpp
@@ -219,7 +219,7 @@ public:
         constexpr size_type length = (sizeof(Header) + sizeof(Fields) + sizeof(typename Crc::value_type));
         static_assert(sizeof(Type) != 0);
         static_assert(Max >= length);
-        if ((input.size * sizeof(Type) + length) > Max) {
+        if (input.size > (Max - length) / sizeof(Type)) {
             return false;
         }
         data<Header>::serialize(input.header, storage_.begin());
-- 
2.43.0


From 69884bf1a88fdf455c84671fcc99665b1ee5e86d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:44 +0000
Subject: [PATCH 27/39] fix: a non-const fast_pimpl can be copied by direct
 initialisation

---
 include/xitren/func/fast_pimpl.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/xitren/func/fast_pimpl.hpp b/include/xitren/func/fast_pimpl.hpp
index f22f236..32acaf1 100644
--- a/include/xitren/func/fast_pimpl.hpp
+++ b/include/xitren/func/fast_pimpl.hpp
@@ -50,6 +50,7 @@ public:
      * @tparam Args The types of the arguments to be passed to the object's constructor.
      */
     template <typename... Args>
+        requires(!(sizeof...(Args) == 1 && (std::is_same_v<std::remove_cvref_t<Args>, fast_pimpl> && ...)))
     explicit fast_pimpl(Args&&... args) noexcept(noexcept(type{std::declval<Args>()...}))
     {
         new (get()) type(std::forward<Args>(args)...);
-- 
2.43.0


From d99fac5d26eb390b46c3c4c8bc77fc44e4984f29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:59 +0000
Subject: [PATCH 28/39] fix: constant lsb_t and msb_t values can be compared

---
 include/xitren/func/data.hpp | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/include/xitren/func/data.hpp b/include/xitren/func/data.hpp
index eab868b..a46ff2d 100644
--- a/include/xitren/func/data.hpp
+++ b/include/xitren/func/data.hpp
@@ -231,7 +231,7 @@ public:
      * @return True if the two lsb_ts are equal, false otherwise.
      */
     constexpr bool
-    operator==(lsb_t const& other)
+    operator==(lsb_t const& other) const
     {
         return this->get() == other.get();
     }
@@ -243,7 +243,7 @@ public:
      * @return True if the value of this lsb_t is less than the value of the other lsb_t, false otherwise.
      */
     constexpr bool
-    operator<(lsb_t const& other)
+    operator<(lsb_t const& other) const
     {
         return this->get() < other.get();
     }
@@ -255,7 +255,7 @@ public:
      * @return True if the value of this lsb_t is greater than the value of the other lsb_t, false otherwise.
      */
     constexpr bool
-    operator>(lsb_t const& other)
+    operator>(lsb_t const& other) const
     {
         return this->get() > other.get();
     }
@@ -267,7 +267,7 @@ public:
      * @return True if the value of this lsb_t is less than or equal to the value of the other lsb_t, false otherwise.
      */
     constexpr bool
-    operator<=(lsb_t const& other)
+    operator<=(lsb_t const& other) const
     {
         return this->get() <= other.get();
     }
@@ -280,7 +280,7 @@ public:
      * otherwise.
      */
     constexpr bool
-    operator>=(lsb_t const& other)
+    operator>=(lsb_t const& other) const
     {
         return this->get() >= other.get();
     }
@@ -384,7 +384,7 @@ public:
      * @return True if the two msb_ts are equal, false otherwise.
      */
     constexpr bool
-    operator==(msb_t const& other)
+    operator==(msb_t const& other) const
     {
         return this->get() == other.get();
     }
@@ -396,7 +396,7 @@ public:
      * @return True if the value of this msb_t is less than the value of the other msb_t, false otherwise.
      */
     constexpr bool
-    operator<(msb_t const& other)
+    operator<(msb_t const& other) const
     {
         return this->get() < other.get();
     }
@@ -408,7 +408,7 @@ public:
      * @return True if the value of this msb_t is greater than the value of the other msb_t, false otherwise.
      */
     constexpr bool
-    operator>(msb_t const& other)
+    operator>(msb_t const& other) const
     {
         return this->get() > other.get();
     }
@@ -420,7 +420,7 @@ public:
      * @return True if the value of this msb_t is less than or equal to the value of the other msb_t, false otherwise.
      */
     constexpr bool
-    operator<=(msb_t const& other)
+    operator<=(msb_t const& other) const
     {
         return this->get() <= other.get();
     }
@@ -433,7 +433,7 @@ public:
      * otherwise.
      */
     constexpr bool
-    operator>=(msb_t const& other)
+    operator>=(msb_t const& other) const
     {
         return this->get() >= other.get();
     }
-- 
2.43.0


From 556f856092c67e04f2b21df20235db819d363248 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:21 +0000
Subject: [PATCH 29/39] fix: storage of over-aligned element types is aligned
 by the heap allocator

---
 .../allocators/static_heap_allocator.hpp      | 28 ++++++++++++++++---
 1 file changed, 24 insertions(+), 4 deletions(-)

diff --git a/include/xitren/allocators/static_heap_allocator.hpp b/include/xitren/allocators/static_heap_allocator.hpp
index 051bfe9..02da7a7 100644
--- a/include/xitren/allocators/static_heap_allocator.hpp
+++ b/include/xitren/allocators/static_heap_allocator.hpp
@@ -20,6 +20,9 @@ template <typename Type, size_t PoolSize>
 class static_heap_allocator {
     static_heap<PoolSize>& manager_;
 
+    /* What the heap aligns its blocks to. */
+    static constexpr std::size_t heap_alignment = 8;
+
     template <class U, size_t FriendPoolSize>
     friend class static_heap_allocator;
 
@@ -45,16 +48,33 @@ public:
         if (size > static_cast<std::size_t>(-1) / sizeof(Type)) {
             throw std::bad_alloc();
         }
-        auto ptr = static_cast<Type*>(manager_.allocate(size * sizeof(Type)));
-        if (ptr) {
-            return ptr;
+        auto bytes = size * sizeof(Type);
+        if constexpr (alignof(Type) > heap_alignment) {
+            if (bytes > static_cast<std::size_t>(-1) - alignof(Type)) {
+                throw std::bad_alloc();
+            }
+            bytes += (bytes > 0) ? alignof(Type) : 0;
+        }
+        auto ptr = static_cast<Type*>(manager_.allocate(bytes));
+        if (!ptr) {
+            throw std::bad_alloc();
         }
-        throw std::bad_alloc();
+        if constexpr (alignof(Type) > heap_alignment) {
+            /* The heap's own pointer is kept right before the aligned storage. */
+            auto const raw     = reinterpret_cast<std::uintptr_t>(ptr);
+            auto const aligned = (raw + alignof(Type)) & ~(static_cast<std::uintptr_t>(alignof(Type)) - 1);
+            reinterpret_cast<void**>(aligned)[-1] = ptr;
+            return reinterpret_cast<Type*>(aligned);
+        }
+        return ptr;
     }
 
     constexpr void
     deallocate(void* ptr, [[maybe_unused]] std::size_t size = 0) noexcept    // NOLINT
     {
+        if constexpr (alignof(Type) > heap_alignment) {
+            ptr = (ptr != nullptr) ? static_cast<void**>(ptr)[-1] : nullptr;
+        }
         manager_.deallocate(ptr);
     }
 
-- 
2.43.0


From 51931f2d05d3b0a37680dcc6889e4abc1028cec8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:04 +0000
Subject: [PATCH 30/39] fix: fast_pimpl is noexcept exactly when the
 construction it performs is

---
 include/xitren/func/fast_pimpl.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/xitren/func/fast_pimpl.hpp b/include/xitren/func/fast_pimpl.hpp
index 32acaf1..0a07976 100644
--- a/include/xitren/func/fast_pimpl.hpp
+++ b/include/xitren/func/fast_pimpl.hpp
@@ -51,7 +51,7 @@ public:
      */
     template <typename... Args>
         requires(!(sizeof...(Args) == 1 && (std::is_same_v<std::remove_cvref_t<Args>, fast_pimpl> && ...)))
-    explicit fast_pimpl(Args&&... args) noexcept(noexcept(type{std::declval<Args>()...}))
+    explicit fast_pimpl(Args&&... args) noexcept(noexcept(type(std::declval<Args>()...)))
     {
         new (get()) type(std::forward<Args>(args)...);
     }
@@ -61,14 +61,14 @@ public:
      *
      * @param rhs The fast_pimpl instance to be moved.
      */
-    fast_pimpl(fast_pimpl&& rhs) noexcept(noexcept(type{std::declval<type>()})) : fast_pimpl{std::move(*rhs)} {}
+    fast_pimpl(fast_pimpl&& rhs) noexcept(noexcept(type(std::declval<type>()))) : fast_pimpl{std::move(*rhs)} {}
 
     /**
      * @brief Copy-constructs a fast_pimpl instance that manages an object of type T.
      *
      * @param rhs The fast_pimpl instance to be copied.
      */
-    fast_pimpl(fast_pimpl const& rhs) noexcept(noexcept(type{std::declval<const_reference>()})) : fast_pimpl{*rhs} {}
+    fast_pimpl(fast_pimpl const& rhs) noexcept(noexcept(type(std::declval<const_reference>()))) : fast_pimpl{*rhs} {}
 
     /**
      * @brief Destroys the fast_pimpl instance and the object it manages.
-- 
2.43.0


From c250af13a101008020327164ef2f22f53c3d82e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:42 +0000
Subject: [PATCH 31/39] fix: interval_event compared nanoseconds with a
 millisecond count, delaying calls of long periods

---
 include/xitren/func/interval_event.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/xitren/func/interval_event.hpp b/include/xitren/func/interval_event.hpp
index 27c449f..139bf15 100644
--- a/include/xitren/func/interval_event.hpp
+++ b/include/xitren/func/interval_event.hpp
@@ -48,7 +48,7 @@ public:
               auto last_time{std::chrono::system_clock::now()};
               while (keep_running_.test_and_set()) {
                   time_type const period{period_};
-                  if ((std::chrono::system_clock::now() - last_time).count() >= period.count()) {
+                  if (std::chrono::system_clock::now() >= last_time) {
                       last_time += period;
                       function_();
                   }
-- 
2.43.0


From f670f02d03b63c0e97efb5d0b3834602d8336863 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:59:09 +0000
Subject: [PATCH 32/39] fix: an LRU cache put that throws leaves its list and
 map in step

---
 include/xitren/cache/lru.hpp | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/include/xitren/cache/lru.hpp b/include/xitren/cache/lru.hpp
index abf960f..aab005e 100644
--- a/include/xitren/cache/lru.hpp
+++ b/include/xitren/cache/lru.hpp
@@ -42,23 +42,25 @@ public:
             auto is_key = [key](data_item const& item) { return std::get<0>(item) == key; };
             auto it     = std::find_if(list_.begin(), list_.end(), is_key);
             if (it != list_.end()) {
-                auto obj = data_item{key, value, get_time()};
+                auto               obj = data_item{key, value, get_time()};
+                double_linked_list node{obj};
+                map_[key] = std::move(obj);
                 list_.erase(it);
-                list_.push_front(obj);
-                map_[key] = obj;
+                list_.splice(list_.begin(), node);
             } else {
                 if constexpr (Exception) {
                     throw cache_missed();
                 }
             }
         } else {
+            auto               obj = data_item{key, value, get_time()};
+            double_linked_list node{obj};
+            map_.emplace(key, std::move(obj));
             if (list_.size() >= Size) {
                 map_.erase(std::get<0>(list_.back()));
                 list_.pop_back();
             }
-            auto obj = data_item{key, value, get_time()};
-            list_.push_front(obj);
-            map_[key] = obj;
+            list_.splice(list_.begin(), node);
         }
     }
 
-- 
2.43.0


From 736a6e09592c019b9efd2fe28502a78db4ebecc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:59:38 +0000
Subject: [PATCH 33/39] fix: a pipeline push whose copy throws leaves the stage
 or pool working

---
 include/xitren/comm/pipeline_stage.hpp      | 6 ++++--
 include/xitren/comm/pipeline_stage_pool.hpp | 6 ++++--
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/include/xitren/comm/pipeline_stage.hpp b/include/xitren/comm/pipeline_stage.hpp
index bb12c4f..40094cf 100644
--- a/include/xitren/comm/pipeline_stage.hpp
+++ b/include/xitren/comm/pipeline_stage.hpp
@@ -59,12 +59,13 @@ public:
     void
     push(Type const&& data)
     {
+        auto item = data;
         auto const i    = queue_.tail++;
         auto&      cell = queue_.array[i % queue_.array.size()];
         while ((i - tail_) >= queue_.array.size()) {
             std::this_thread::yield();
         }
-        cell.data  = data;
+        cell.data  = std::move(item);
         cell.ready = true;
 #ifdef DEBUG
         Log::trace() << "Index: " << queue_.tail << "\n";
@@ -74,12 +75,13 @@ public:
     void
     push(Type const& data)
     {
+        auto item = data;
         auto const i    = queue_.tail++;
         auto&      cell = queue_.array[i % queue_.array.size()];
         while ((i - tail_) >= queue_.array.size()) {
             std::this_thread::yield();
         }
-        cell.data  = data;
+        cell.data  = std::move(item);
         cell.ready = true;
 #ifdef DEBUG
         Log::trace() << "Index: " << queue_.tail << "\n";
diff --git a/include/xitren/comm/pipeline_stage_pool.hpp b/include/xitren/comm/pipeline_stage_pool.hpp
index 8d50125..2016dc3 100644
--- a/include/xitren/comm/pipeline_stage_pool.hpp
+++ b/include/xitren/comm/pipeline_stage_pool.hpp
@@ -117,13 +117,14 @@ public:
     void
     push(Type const&& data)
     {
+        auto item = data;
         auto const min_id{min_thread()};
         auto const i    = pool_[min_id].tail++;
         auto&      cell = pool_[min_id].array[i % pool_[min_id].array.size()];
         while ((i - pool_[min_id].head) >= pool_[min_id].array.size()) {
             std::this_thread::yield();
         }
-        cell.data  = data;
+        cell.data  = std::move(item);
         cell.ready = true;
 #ifdef DEBUG
         Log::trace() << "Index[" << min_id << "]: " << pool_[min_id].tail << "\n";
@@ -133,13 +134,14 @@ public:
     void
     push(Type const& data)
     {
+        auto item = data;
         auto const min_id{min_thread()};
         auto const i    = pool_[min_id].tail++;
         auto&      cell = pool_[min_id].array[i % pool_[min_id].array.size()];
         while ((i - pool_[min_id].head) >= pool_[min_id].array.size()) {
             std::this_thread::yield();
         }
-        cell.data  = data;
+        cell.data  = std::move(item);
         cell.ready = true;
 #ifdef DEBUG
         Log::trace() << "Index[" << min_id << "]: " << pool_[min_id].tail << "\n";
-- 
2.43.0


From 336057c7a649c880b2eb77c731fad122709ccd14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:59:38 +0000
Subject: [PATCH 34/39] fix: a pipeline pool that cannot start all its threads
 ends those it started

---
 include/xitren/comm/pipeline_stage_pool.hpp | 31 +++++++++++++--------
 1 file changed, 20 insertions(+), 11 deletions(-)

diff --git a/include/xitren/comm/pipeline_stage_pool.hpp b/include/xitren/comm/pipeline_stage_pool.hpp
index 2016dc3..da2332e 100644
--- a/include/xitren/comm/pipeline_stage_pool.hpp
+++ b/include/xitren/comm/pipeline_stage_pool.hpp
@@ -99,21 +99,19 @@ public:
 #endif
         };
 
-        for (std::size_t i{}; i < pool_size_; i++) {
-            pool_threads_.push_back(std::thread(thread, i));
-        }
-    }
-
-    ~pipeline_stage_pool()
-    {
-        closed_ = true;
-        for (auto& worker : pool_threads_) {
-            if (worker.joinable()) {
-                worker.join();
+        try {
+            pool_threads_.reserve(pool_size_);
+            for (std::size_t i{}; i < pool_size_; i++) {
+                pool_threads_.push_back(std::thread(thread, i));
             }
+        } catch (...) {
+            close();
+            throw;
         }
     }
 
+    ~pipeline_stage_pool() { close(); }
+
     void
     push(Type const&& data)
     {
@@ -176,6 +174,17 @@ private:
     pool_type          pool_{};
     thread_type        pool_threads_{};
 
+    void
+    close()
+    {
+        closed_ = true;
+        for (auto& worker : pool_threads_) {
+            if (worker.joinable()) {
+                worker.join();
+            }
+        }
+    }
+
     int
     min_thread()
     {
-- 
2.43.0


From 53717a31d7391a21aa6b1007693c1a2c951375ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:56:35 +0000
Subject: [PATCH 35/39] fix: setting the wall clock aged or revived the entries
 of an LRU cache

---
 include/xitren/cache/lru.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/xitren/cache/lru.hpp b/include/xitren/cache/lru.hpp
index aab005e..c3cb18d 100644
--- a/include/xitren/cache/lru.hpp
+++ b/include/xitren/cache/lru.hpp
@@ -22,8 +22,8 @@ namespace xitren::cache {
 
 template <class Key, class Value, std::size_t Size, bool Exception = true>
 class lru {
-    using timestamp          = std::chrono::time_point<std::chrono::system_clock>;
-    using duration           = std::chrono::system_clock::duration;
+    using timestamp          = std::chrono::time_point<std::chrono::steady_clock>;
+    using duration           = std::chrono::steady_clock::duration;
     using data_item          = std::tuple<Key, Value, timestamp>;
     using double_linked_list = std::list<data_item>;
     using hash_map           = std::unordered_map<Key, data_item>;
@@ -103,7 +103,7 @@ private:
     inline timestamp
     get_time()
     {
-        return std::chrono::system_clock::now();
+        return std::chrono::steady_clock::now();
     }
 };
 
-- 
2.43.0


From 65eb1ab63bba5a9e3f937d4136278aefdd93a986 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:56:35 +0000
Subject: [PATCH 36/39] fix: setting the wall clock delayed or hastened the
 calls of an interval event

---
 include/xitren/func/interval_event.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/xitren/func/interval_event.hpp b/include/xitren/func/interval_event.hpp
index 139bf15..35d453e 100644
--- a/include/xitren/func/interval_event.hpp
+++ b/include/xitren/func/interval_event.hpp
@@ -45,10 +45,10 @@ public:
           period_between_checks_{wait_between_checks},
           thread_{[&] {
               std::this_thread::sleep_for(10ms);
-              auto last_time{std::chrono::system_clock::now()};
+              auto last_time{std::chrono::steady_clock::now()};
               while (keep_running_.test_and_set()) {
                   time_type const period{period_};
-                  if (std::chrono::system_clock::now() >= last_time) {
+                  if (std::chrono::steady_clock::now() >= last_time) {
                       last_time += period;
                       function_();
                   }
-- 
2.43.0


From 6d914b0010a7d57955ac1e42215d2a4b914a3ce1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:56:35 +0000
Subject: [PATCH 37/39] fix: setting the wall clock falsified the handling
 times of pipelines

---
 include/xitren/comm/pipeline_stage.hpp      | 4 ++--
 include/xitren/comm/pipeline_stage_pool.hpp | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/xitren/comm/pipeline_stage.hpp b/include/xitren/comm/pipeline_stage.hpp
index 40094cf..12d7652 100644
--- a/include/xitren/comm/pipeline_stage.hpp
+++ b/include/xitren/comm/pipeline_stage.hpp
@@ -140,10 +140,10 @@ private:
 #ifdef DEBUG
                 Log::trace() << "Index to process: " << i << "\n";
 #endif
-                auto last_time{std::chrono::system_clock::now()};
+                auto last_time{std::chrono::steady_clock::now()};
                 func_(pipeline_stage_exception::no_error, data.value(),
                       measure_type{time_for_unit(), buffer_utilization()});
-                auto elapsed = std::chrono::system_clock::now() - last_time;
+                auto elapsed = std::chrono::steady_clock::now() - last_time;
                 std::lock_guard<std::mutex> lock(stat_access_);
                 stat_.push_front(measure_type{std::chrono::duration_cast<std::chrono::milliseconds>(elapsed).count(),
                                               queue_.tail - tail_});
diff --git a/include/xitren/comm/pipeline_stage_pool.hpp b/include/xitren/comm/pipeline_stage_pool.hpp
index da2332e..2472175 100644
--- a/include/xitren/comm/pipeline_stage_pool.hpp
+++ b/include/xitren/comm/pipeline_stage_pool.hpp
@@ -80,10 +80,10 @@ public:
 #ifdef DEBUG
                     Log::trace() << "[" << pool_thread_n << "] Index to process: " << i << "\n";
 #endif
-                    auto last_time{std::chrono::system_clock::now()};
+                    auto last_time{std::chrono::steady_clock::now()};
                     func_(pipeline_stage_exception::no_error, data.value(),
                           measure_data{pool_thread_n, time_for_unit(stat_l), buffer_utilization(stat_l)});
-                    auto elapsed = std::chrono::system_clock::now() - last_time;
+                    auto elapsed = std::chrono::steady_clock::now() - last_time;
                     stat_l.push_front(measure_data{
                         pool_thread_n,
                         static_cast<int>(std::chrono::duration_cast<std::chrono::milliseconds>(elapsed).count()),
-- 
2.43.0


From 5db0ba8e109619d4a00ea63733a4bb2fd8bde6ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:27:22 +0000
Subject: [PATCH 38/39] fix: the argument parser read numbers by the program's
 global locale

---
 include/xitren/func/argv_parser.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/xitren/func/argv_parser.hpp b/include/xitren/func/argv_parser.hpp
index f8a7eae..e0323aa 100644
--- a/include/xitren/func/argv_parser.hpp
+++ b/include/xitren/func/argv_parser.hpp
@@ -1,6 +1,7 @@
 #pragma once
 
 #include <functional>
+#include <locale>
 #include <map>
 #include <memory>
 #include <sstream>
@@ -77,6 +78,7 @@ private:
                                 this->*arg = argv[idx + 1];
                             } else {
                                 std::stringstream value;
+                                value.imbue(std::locale::classic());
                                 value << argv[idx + 1];
                                 value >> this->*arg;
                             }
-- 
2.43.0


From d072e0ac4bad1e213a832aa397e06f02bc3d40af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:11:46 +0000
Subject: [PATCH 39/39] fix: the volatile operators of an observable value did
 not compile

---
 include/xitren/comm/values/observable.hpp | 28 +++++++++++------------
 1 file changed, 14 insertions(+), 14 deletions(-)

diff --git a/include/xitren/comm/values/observable.hpp b/include/xitren/comm/values/observable.hpp
index fcf4b7d..d815a5e 100644
--- a/include/xitren/comm/values/observable.hpp
+++ b/include/xitren/comm/values/observable.hpp
@@ -39,7 +39,7 @@ public:
     operator++(int) volatile noexcept
     {
         auto const ret = std::atomic<observable_type>::fetch_add(1);
-        notify_observers(ret + 1);
+        const_cast<observable*>(this)->notify_observers(ret + 1);
         return ret;
     }
 
@@ -55,7 +55,7 @@ public:
     operator--(int) volatile noexcept
     {
         auto const ret = std::atomic<observable_type>::fetch_sub(1);
-        notify_observers(ret - 1);
+        const_cast<observable*>(this)->notify_observers(ret - 1);
         return ret;
     }
 
@@ -71,7 +71,7 @@ public:
     operator++() volatile noexcept
     {
         auto const ret = std::atomic<observable_type>::fetch_add(1) + 1;
-        notify_observers(ret);
+        const_cast<observable*>(this)->notify_observers(ret);
         return ret;
     }
 
@@ -87,7 +87,7 @@ public:
     operator--() volatile noexcept
     {
         auto const ret = std::atomic<observable_type>::fetch_sub(1) - 1;
-        notify_observers(ret);
+        const_cast<observable*>(this)->notify_observers(ret);
         return ret;
     }
 
@@ -103,7 +103,7 @@ public:
     operator+=(operand_type op) volatile noexcept
     {
         auto const ret = std::atomic<observable_type>::fetch_add(op) + op;
-        notify_observers(ret);
+        const_cast<observable*>(this)->notify_observers(ret);
         return ret;
     }
 
@@ -119,7 +119,7 @@ public:
     operator-=(operand_type op) volatile noexcept
     {
         auto const ret = std::atomic<observable_type>::fetch_sub(op) - op;
-        notify_observers(ret);
+        const_cast<observable*>(this)->notify_observers(ret);
         return ret;
     }
 
@@ -135,7 +135,7 @@ public:
     operator=(observable_type op) volatile noexcept
     {
         std::atomic<observable_type>::store(op);
-        notify_observers(op);
+        const_cast<observable*>(this)->notify_observers(op);
         return op;
     }
 
@@ -286,7 +286,7 @@ public:
     operator++(int) volatile noexcept
     {
         auto const ret = std::atomic<observable_type>::fetch_add(1);
-        notify_observers(ret + 1);
+        const_cast<observable*>(this)->notify_observers(ret + 1);
         return ret;
     }
 
@@ -302,7 +302,7 @@ public:
     operator--(int) volatile noexcept
     {
         auto const ret = std::atomic<observable_type>::fetch_sub(1);
-        notify_observers(ret - 1);
+        const_cast<observable*>(this)->notify_observers(ret - 1);
         return ret;
     }
 
@@ -318,7 +318,7 @@ public:
     operator++() volatile noexcept
     {
         auto const ret = std::atomic<observable_type>::fetch_add(1) + 1;
-        notify_observers(ret);
+        const_cast<observable*>(this)->notify_observers(ret);
         return ret;
     }
 
@@ -334,7 +334,7 @@ public:
     operator--() volatile noexcept
     {
         auto const ret = std::atomic<observable_type>::fetch_sub(1) - 1;
-        notify_observers(ret);
+        const_cast<observable*>(this)->notify_observers(ret);
         return ret;
     }
 
@@ -350,7 +350,7 @@ public:
     operator+=(operand_type op) volatile noexcept
     {
         auto const ret = std::atomic<observable_type>::fetch_add(op) + op;
-        notify_observers(ret);
+        const_cast<observable*>(this)->notify_observers(ret);
         return ret;
     }
 
@@ -366,7 +366,7 @@ public:
     operator-=(operand_type op) volatile noexcept
     {
         auto const ret = std::atomic<observable_type>::fetch_sub(op) - op;
-        notify_observers(ret);
+        const_cast<observable*>(this)->notify_observers(ret);
         return ret;
     }
 
@@ -382,7 +382,7 @@ public:
     operator=(observable_type op) volatile noexcept
     {
         std::atomic<observable_type>::store(op);
-        notify_observers(op);
+        const_cast<observable*>(this)->notify_observers(op);
         return op;
     }
 
-- 
2.43.0

