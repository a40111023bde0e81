From a9c216a52c373e2e7131f8b29dbca76a516eaac6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:53 +0000
Subject: [PATCH 01/98] fix: take the registry lock when looking up a plugin by
 name

---
 src/eckit/system/LibraryManager.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/eckit/system/LibraryManager.cc b/src/eckit/system/LibraryManager.cc
index 784cd1e..9b0e154 100644
--- a/src/eckit/system/LibraryManager.cc
+++ b/src/eckit/system/LibraryManager.cc
@@ -214,6 +214,8 @@ public:  // methods
     }
 
     Plugin* lookupPlugin(const std::string& name) const {
+        AutoLock<Mutex> lockme(mutex_);
+
         auto it = plugins_.find(name);
         if (it != plugins_.end()) {
             std::string libname = it->second;
-- 
2.43.0


From a196a8c74ecd50541eb905e3d2fa0c7aca801964 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:53 +0000
Subject: [PATCH 02/98] fix: take the cache lock when purging an in-memory geo
 cache

---
 src/eckit/geo/cache/MemoryCache.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/eckit/geo/cache/MemoryCache.h b/src/eckit/geo/cache/MemoryCache.h
index 7972c43..ab55cb4 100644
--- a/src/eckit/geo/cache/MemoryCache.h
+++ b/src/eckit/geo/cache/MemoryCache.h
@@ -92,7 +92,10 @@ public:
                                });
     }
 
-    void purge() final { container_.clear(); }
+    void purge() final {
+        util::lock_guard<util::recursive_mutex> lock(*mutex_);
+        container_.clear();
+    }
 
 private:
 
-- 
2.43.0


From 1847eb438a2eab0c12062595db456b9136a38121 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:03 +0000
Subject: [PATCH 03/98] fix: take the lock while listing a Configurable's
 resources as HTML

---
 src/eckit/web/Configure.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/eckit/web/Configure.cc b/src/eckit/web/Configure.cc
index 5fd9105..6d5f66a 100644
--- a/src/eckit/web/Configure.cc
+++ b/src/eckit/web/Configure.cc
@@ -30,6 +30,7 @@ void Configurable::htmlAllResources(std::ostream& s, Url& url) {
 }
 
 void Configurable::htmlResources(std::ostream& s, Url& url) {
+    AutoLock<Mutex> lock(mutex_);
     for (Set::const_iterator i = resources_.begin(); i != resources_.end(); ++i) {
         (*i)->GET(s, url);
     }
-- 
2.43.0


From a16e7314d642ad8d32a6254dd8644fda177162b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:03 +0000
Subject: [PATCH 04/98] fix: take the generator lock when matching a custom
 specification

---
 src/eckit/spec/Generator.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/eckit/spec/Generator.h b/src/eckit/spec/Generator.h
index 48e2937..1e92576 100644
--- a/src/eckit/spec/Generator.h
+++ b/src/eckit/spec/Generator.h
@@ -71,6 +71,8 @@ public:
     const storage_t& store() const { return store_; }
 
     bool match(const Custom& spec, std::string& name) const {
+        AutoLock<Mutex> lock(mutex_);
+
         auto end = store_.cend();
         auto i   = end;
         for (auto j = store_.cbegin(); j != end; ++j) {
-- 
2.43.0


From bb196ce2ae8976b69ea386483641062b46587842 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:03 +0000
Subject: [PATCH 05/98] fix: return the name of the default linear algebra
 backend by value, under the lock

---
 src/eckit/linalg/BackendRegistry.h      | 6 +++++-
 src/eckit/linalg/LinearAlgebraDense.cc  | 2 +-
 src/eckit/linalg/LinearAlgebraDense.h   | 2 +-
 src/eckit/linalg/LinearAlgebraSparse.cc | 2 +-
 src/eckit/linalg/LinearAlgebraSparse.h  | 2 +-
 5 files changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/eckit/linalg/BackendRegistry.h b/src/eckit/linalg/BackendRegistry.h
index b34bcb2..2cf6803 100644
--- a/src/eckit/linalg/BackendRegistry.h
+++ b/src/eckit/linalg/BackendRegistry.h
@@ -45,7 +45,11 @@ public:
         default_ = name;
     }
 
-    const std::string& name() const { return default_; }
+    std::string name() const {
+        AutoLock<Mutex> lock(mutex_);
+
+        return default_;
+    }
 
     bool has(const std::string& name) const {
         AutoLock<Mutex> lock(mutex_);
diff --git a/src/eckit/linalg/LinearAlgebraDense.cc b/src/eckit/linalg/LinearAlgebraDense.cc
index bcc8e52..08ba7b7 100644
--- a/src/eckit/linalg/LinearAlgebraDense.cc
+++ b/src/eckit/linalg/LinearAlgebraDense.cc
@@ -70,7 +70,7 @@ std::ostream& LinearAlgebraDense::list(std::ostream& out) {
 }
 
 
-const std::string& LinearAlgebraDense::name() {
+std::string LinearAlgebraDense::name() {
     return backends->name();
 }
 
diff --git a/src/eckit/linalg/LinearAlgebraDense.h b/src/eckit/linalg/LinearAlgebraDense.h
index 43d7380..28f3272 100644
--- a/src/eckit/linalg/LinearAlgebraDense.h
+++ b/src/eckit/linalg/LinearAlgebraDense.h
@@ -38,7 +38,7 @@ public:
     static std::ostream& list(std::ostream&);
 
     /// Return active backend name
-    static const std::string& name();
+    static std::string name();
 
     // - Methods
 
diff --git a/src/eckit/linalg/LinearAlgebraSparse.cc b/src/eckit/linalg/LinearAlgebraSparse.cc
index 67d8edd..faf0b8e 100644
--- a/src/eckit/linalg/LinearAlgebraSparse.cc
+++ b/src/eckit/linalg/LinearAlgebraSparse.cc
@@ -66,7 +66,7 @@ std::ostream& LinearAlgebraSparse::list(std::ostream& out) {
 }
 
 
-const std::string& LinearAlgebraSparse::name() {
+std::string LinearAlgebraSparse::name() {
     return backends->name();
 }
 
diff --git a/src/eckit/linalg/LinearAlgebraSparse.h b/src/eckit/linalg/LinearAlgebraSparse.h
index 25d2e16..21babd5 100644
--- a/src/eckit/linalg/LinearAlgebraSparse.h
+++ b/src/eckit/linalg/LinearAlgebraSparse.h
@@ -38,7 +38,7 @@ public:
     static std::ostream& list(std::ostream&);
 
     /// Return active backend name
-    static const std::string& name();
+    static std::string name();
 
     // - Methods
 
-- 
2.43.0


From dfc7e01279cea84942e61371748d5d8f1d7969ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:43 +0000
Subject: [PATCH 06/98] fix: count the tasks of a list pushed to a ThreadPool,
 as for single tasks

---
 src/eckit/thread/ThreadPool.cc | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/eckit/thread/ThreadPool.cc b/src/eckit/thread/ThreadPool.cc
index 04622bd..0ae952b 100644
--- a/src/eckit/thread/ThreadPool.cc
+++ b/src/eckit/thread/ThreadPool.cc
@@ -166,6 +166,12 @@ void ThreadPool::push(ThreadPoolTask* r) {
 }
 
 void ThreadPool::push(std::list<ThreadPoolTask*>& l) {
+    for (ThreadPoolTask* task : l) {
+        if (task) {
+            startTask();
+        }
+    }
+
     AutoLock<MutexCond> lock(ready_);
 
     for (std::list<ThreadPoolTask*>::iterator j = l.begin(); j != l.end(); ++j) {
-- 
2.43.0


From 077c64ecdfea9900dcb08c47aaad1990039f8d0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:52 +0000
Subject: [PATCH 07/98] fix: take the locks of the queue and the task count in
 ThreadPool::done

---
 src/eckit/thread/ThreadPool.cc | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/eckit/thread/ThreadPool.cc b/src/eckit/thread/ThreadPool.cc
index 0ae952b..9506347 100644
--- a/src/eckit/thread/ThreadPool.cc
+++ b/src/eckit/thread/ThreadPool.cc
@@ -199,7 +199,15 @@ ThreadPoolTask* ThreadPool::next() {
 }
 
 bool ThreadPool::done() {
-    return (queue_.empty() && !tasks_);
+    {
+        AutoLock<MutexCond> lock(active_);
+        if (tasks_) {
+            return false;
+        }
+    }
+
+    AutoLock<MutexCond> lock(ready_);
+    return queue_.empty();
 }
 
 void ThreadPool::wait() {
-- 
2.43.0


From fe3ec7db9e642c4e001cef818a386c19f22a30c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:01 +0000
Subject: [PATCH 08/98] fix: count a pool thread as running before it is
 started

---
 src/eckit/thread/ThreadPool.cc | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/eckit/thread/ThreadPool.cc b/src/eckit/thread/ThreadPool.cc
index 9506347..b528d3f 100644
--- a/src/eckit/thread/ThreadPool.cc
+++ b/src/eckit/thread/ThreadPool.cc
@@ -33,8 +33,6 @@ public:
 };
 
 void ThreadPoolThread::run() {
-    owner_.notifyStart();
-
     Monitor::instance().name(owner_.name());
 
     // Log::info() << "Start of ThreadPoolThread " << std::endl;
@@ -227,7 +225,14 @@ void ThreadPool::resize(size_t size) {
 
     while (count_ < size) {
         ThreadControler c(new ThreadPoolThread(*this), true, stack_);
-        c.start();
+        notifyStart();  // before the thread exists, so that waitForThreads() cannot miss it
+        try {
+            c.start();
+        }
+        catch (...) {
+            notifyEnd();
+            throw;
+        }
         count_++;
     }
 }
-- 
2.43.0


From 53ac220822c1082b0cb4a5dc8c644c1755e5e52d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:01 +0000
Subject: [PATCH 09/98] fix: keep the reason of a failed asynchronous write

---
 src/eckit/io/AsyncHandle.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/eckit/io/AsyncHandle.cc b/src/eckit/io/AsyncHandle.cc
index cc991d1..3030320 100644
--- a/src/eckit/io/AsyncHandle.cc
+++ b/src/eckit/io/AsyncHandle.cc
@@ -68,7 +68,8 @@ void AsyncHandleWriter::run() {
         catch (std::exception& e) {
             eckit::Log::error() << "AsyncHandleWriter got an exception: " << e.what() << " " << owner_ << std::endl;
             AutoLock<MutexCond> lock(owner_.cond_);
-            owner_.error_ = e.what();
+            owner_.error_   = true;
+            owner_.message_ = e.what();
             owner_.cond_.signal();
         }
         delete delme;
-- 
2.43.0


From a87162f5fdfbda18e9a5e74903736fb7e3feea02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:12 +0000
Subject: [PATCH 10/98] fix: do not lose the wake-up that ends an AsyncHandle's
 writer thread

---
 src/eckit/io/AsyncHandle.cc | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/eckit/io/AsyncHandle.cc b/src/eckit/io/AsyncHandle.cc
index 3030320..ec0daca 100644
--- a/src/eckit/io/AsyncHandle.cc
+++ b/src/eckit/io/AsyncHandle.cc
@@ -104,11 +104,10 @@ AsyncHandle::~AsyncHandle() {
             delete buffers_.front().second;
             buffers_.pop_front();
         }
+        thread_.stop();  // under the lock: the writer must not miss the signal between its test and its wait
         cond_.signal();
     }
 
-    thread_.stop();
-    cond_.signal();
     thread_.wait();
 }
 
-- 
2.43.0


From 8d983c4aac4dd4c6f2b8b9e29fa0fefdb476f5f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:12 +0000
Subject: [PATCH 11/98] fix: fill the in-memory caches of geo tables once,
 under a lock

---
 src/eckit/geo/grid/reduced/HEALPix.cc             | 3 +++
 src/eckit/geo/util/gaussian_latitudes.cc          | 3 +++
 src/eckit/geo/util/gaussian_quadrature_weights.cc | 3 +++
 src/eckit/geo/util/linspace.cc                    | 3 +++
 src/eckit/geo/util/reduced_classical_pl.cc        | 3 +++
 src/eckit/geo/util/reduced_octahedral_pl.cc       | 3 +++
 6 files changed, 18 insertions(+)

diff --git a/src/eckit/geo/grid/reduced/HEALPix.cc b/src/eckit/geo/grid/reduced/HEALPix.cc
index ce98518..65ea131 100644
--- a/src/eckit/geo/grid/reduced/HEALPix.cc
+++ b/src/eckit/geo/grid/reduced/HEALPix.cc
@@ -38,6 +38,9 @@ const std::vector<double>& healpix_longitudes(size_t Nside, size_t j) {
     const cache_t::key_type key{Nside, j};
 
     static cache_t cache;
+    static util::recursive_mutex MUTEX;
+    util::lock_guard<util::recursive_mutex> lock(MUTEX);  // test and fill in one go
+
     if (cache.contains(key)) {
         return cache[key];
     }
diff --git a/src/eckit/geo/util/gaussian_latitudes.cc b/src/eckit/geo/util/gaussian_latitudes.cc
index 72b3f7c..4030e5c 100644
--- a/src/eckit/geo/util/gaussian_latitudes.cc
+++ b/src/eckit/geo/util/gaussian_latitudes.cc
@@ -31,6 +31,9 @@ const std::vector<double>& gaussian_latitudes(size_t N, bool increasing) {
     const cache_t::key_type key{N, increasing};
 
     static cache_t cache;
+    static util::recursive_mutex MUTEX;
+    util::lock_guard<util::recursive_mutex> lock(MUTEX);  // test and fill in one go
+
     if (cache.contains(key)) {
         return cache[key];
     }
diff --git a/src/eckit/geo/util/gaussian_quadrature_weights.cc b/src/eckit/geo/util/gaussian_quadrature_weights.cc
index 1115b26..e299ff3 100644
--- a/src/eckit/geo/util/gaussian_quadrature_weights.cc
+++ b/src/eckit/geo/util/gaussian_quadrature_weights.cc
@@ -30,6 +30,9 @@ const std::vector<double>& gaussian_quadrature_weights(size_t N) {
     const cache_t::key_type key{N};
 
     static cache_t cache;
+    static util::recursive_mutex MUTEX;
+    util::lock_guard<util::recursive_mutex> lock(MUTEX);  // test and fill in one go
+
     if (cache.contains(key)) {
         return cache[key];
     }
diff --git a/src/eckit/geo/util/linspace.cc b/src/eckit/geo/util/linspace.cc
index 16a1c37..174c48f 100644
--- a/src/eckit/geo/util/linspace.cc
+++ b/src/eckit/geo/util/linspace.cc
@@ -25,6 +25,9 @@ const std::vector<double>& linspace(double start, double stop, size_t num) {
     const auto key = (eckit::MD5{} << start << stop << num).digest();
 
     static cache::MemoryCacheT<decltype(key), std::vector<double>> cache;
+    static util::recursive_mutex MUTEX;
+    util::lock_guard<util::recursive_mutex> lock(MUTEX);  // test and fill in one go
+
     if (cache.contains(key)) {
         return cache[key];
     }
diff --git a/src/eckit/geo/util/reduced_classical_pl.cc b/src/eckit/geo/util/reduced_classical_pl.cc
index e0d78a1..db1466f 100644
--- a/src/eckit/geo/util/reduced_classical_pl.cc
+++ b/src/eckit/geo/util/reduced_classical_pl.cc
@@ -1341,6 +1341,9 @@ const pl_type& reduced_classical_pl(size_t N) {
     ASSERT(N > 0);
 
     static cache::MemoryCacheT<size_t, pl_type> cache;
+    static util::recursive_mutex MUTEX;
+    util::lock_guard<util::recursive_mutex> lock(MUTEX);  // test and fill in one go
+
     if (cache.contains(N)) {
         return cache[N];
     }
diff --git a/src/eckit/geo/util/reduced_octahedral_pl.cc b/src/eckit/geo/util/reduced_octahedral_pl.cc
index 3caa240..d7509d2 100644
--- a/src/eckit/geo/util/reduced_octahedral_pl.cc
+++ b/src/eckit/geo/util/reduced_octahedral_pl.cc
@@ -19,6 +19,9 @@ namespace eckit::geo::util {
 
 const pl_type& reduced_octahedral_pl(size_t N) {
     static cache::MemoryCacheT<size_t, pl_type> cache;
+    static util::recursive_mutex MUTEX;
+    util::lock_guard<util::recursive_mutex> lock(MUTEX);  // test and fill in one go
+
     if (cache.contains(N)) {
         return cache[N];
     }
-- 
2.43.0


From f94c32c98a0305b732d9a1e6f456ee0bc4d7afdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:15 +0000
Subject: [PATCH 12/98] fix: give the three iterator Instance classes internal
 linkage (one-definition rule)

---
 src/eckit/geo/iterator/Reduced.cc      | 6 ++++++
 src/eckit/geo/iterator/Regular.cc      | 6 ++++++
 src/eckit/geo/iterator/Unstructured.cc | 6 ++++++
 3 files changed, 18 insertions(+)

diff --git a/src/eckit/geo/iterator/Reduced.cc b/src/eckit/geo/iterator/Reduced.cc
index 7b8cc19..4020897 100644
--- a/src/eckit/geo/iterator/Reduced.cc
+++ b/src/eckit/geo/iterator/Reduced.cc
@@ -23,6 +23,9 @@
 namespace eckit::geo::iterator {
 
 
+namespace {
+
+
 struct Instance {
     explicit Instance(const Iterator::Spec& spec) : grid(dynamic_cast<const grid::Reduced*>(GridFactory::build(spec))) {
         ASSERT(grid);
@@ -37,6 +40,9 @@ struct ReducedInstance : Instance, Reduced {
 };
 
 
+}  // namespace
+
+
 Reduced::Reduced(const Grid& grid, size_t index) :
     grid_(dynamic_cast<const grid::Reduced&>(grid)),
     projection_(grid_.projection()),
diff --git a/src/eckit/geo/iterator/Regular.cc b/src/eckit/geo/iterator/Regular.cc
index fa94af0..b63f86f 100644
--- a/src/eckit/geo/iterator/Regular.cc
+++ b/src/eckit/geo/iterator/Regular.cc
@@ -21,6 +21,9 @@
 namespace eckit::geo::iterator {
 
 
+namespace {
+
+
 struct Instance {
     explicit Instance(const Grid::Spec& spec) : grid(dynamic_cast<const grid::Regular*>(GridFactory::build(spec))) {
         ASSERT(grid);
@@ -35,6 +38,9 @@ struct RegularInstance : Instance, Regular {
 };
 
 
+}  // namespace
+
+
 Regular::Regular(const grid::Regular& grid, size_t index) :
     grid_(grid),
     projection_(grid_.projection()),
diff --git a/src/eckit/geo/iterator/Unstructured.cc b/src/eckit/geo/iterator/Unstructured.cc
index 8683fe7..278e262 100644
--- a/src/eckit/geo/iterator/Unstructured.cc
+++ b/src/eckit/geo/iterator/Unstructured.cc
@@ -22,6 +22,9 @@
 namespace eckit::geo::iterator {
 
 
+namespace {
+
+
 struct Instance {
     explicit Instance(const Iterator::Spec& spec) :
         grid(dynamic_cast<const grid::Unstructured*>(GridFactory::build(spec))) {
@@ -37,6 +40,9 @@ struct UnstructuredInstance : Instance, Unstructured {
 };
 
 
+}  // namespace
+
+
 Unstructured::Unstructured(const Grid& grid, size_t index, const std::vector<double>& longitudes,
                            const std::vector<double>& latitudes) :
     longitudes_(&longitudes), latitudes_(&latitudes), index_(index), size_(longitudes.size()), uid_(grid.uid()) {
-- 
2.43.0


From a29d837ee4c0f41a4cac3350b72eac27dfc9301b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:30 +0000
Subject: [PATCH 13/98] fix: read the limit and the interruption of a Queue
 under its mutex

---
 src/eckit/container/Queue.h | 33 ++++++++++++++++++++++-----------
 1 file changed, 22 insertions(+), 11 deletions(-)

diff --git a/src/eckit/container/Queue.h b/src/eckit/container/Queue.h
index d644567..3e1f511 100644
--- a/src/eckit/container/Queue.h
+++ b/src/eckit/container/Queue.h
@@ -51,12 +51,15 @@ public:  // public
     Queue(Queue&& rhs)            = delete;
     Queue& operator=(Queue&& rhs) = delete;
 
-    size_t maxSize() const { return max_; }
+    size_t maxSize() const {
+        std::unique_lock<std::mutex> locker(mutex_);
+        return max_;
+    }
 
     void resize(size_t size) {
         ASSERT(size > 0);
         std::unique_lock<std::mutex> locker(mutex_);
-        while (checkInterrupt() && queue_.size() > size) {
+        while (rethrowInterrupt() && queue_.size() > size) {
             cv_.wait(locker);
         }
         ASSERT(!closed_);
@@ -81,10 +84,8 @@ public:  // public
     }
 
     bool checkInterrupt() {
-        if (interrupt_) {
-            std::rethrow_exception(interrupt_);
-        }
-        return true;
+        std::unique_lock<std::mutex> locker(mutex_);
+        return rethrowInterrupt();
     }
 
     void interrupt(std::exception_ptr expn) {
@@ -95,7 +96,7 @@ public:  // public
 
     long pop(ELEM& e) {
         std::unique_lock<std::mutex> locker(mutex_);
-        while (checkInterrupt() && queue_.empty()) {
+        while (rethrowInterrupt() && queue_.empty()) {
             if (closed_) {
                 return -1;
             }
@@ -110,7 +111,7 @@ public:  // public
 
     long pop(std::vector<ELEM>& elems) {
         std::unique_lock<std::mutex> locker(mutex_);
-        while (checkInterrupt() && queue_.empty()) {
+        while (rethrowInterrupt() && queue_.empty()) {
             if (closed_) {
                 return -1;
             }
@@ -128,7 +129,7 @@ public:  // public
 
     size_t push(const ELEM& e) {
         std::unique_lock<std::mutex> locker(mutex_);
-        while (checkInterrupt() && queue_.size() >= max_) {
+        while (rethrowInterrupt() && queue_.size() >= max_) {
             cv_.wait(locker);
         }
         ASSERT(!closed_);
@@ -141,7 +142,7 @@ public:  // public
     template <typename... Args>
     size_t emplace(Args&&... args) {
         std::unique_lock<std::mutex> locker(mutex_);
-        while (checkInterrupt() && queue_.size() >= max_) {
+        while (rethrowInterrupt() && queue_.size() >= max_) {
             cv_.wait(locker);
         }
         ASSERT(!closed_);
@@ -151,10 +152,20 @@ public:  // public
         return size;
     }
 
+private:  // methods
+
+    /// To be called with the mutex held
+    bool rethrowInterrupt() {
+        if (interrupt_) {
+            std::rethrow_exception(interrupt_);
+        }
+        return true;
+    }
+
 private:  // members
 
     std::queue<ELEM> queue_;
-    std::mutex mutex_;
+    mutable std::mutex mutex_;
     std::condition_variable cv_;
     size_t max_;
     std::exception_ptr interrupt_;
-- 
2.43.0


From a4cbfae549918687009ad7385b20de91a9957fa3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:32 +0000
Subject: [PATCH 14/98] fix: a PipeTask keeps its own copy of the consumer,
 spawn()'s parameter is gone by then

---
 src/eckit/runtime/Pipe.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/eckit/runtime/Pipe.h b/src/eckit/runtime/Pipe.h
index 924ea49..3631d43 100644
--- a/src/eckit/runtime/Pipe.h
+++ b/src/eckit/runtime/Pipe.h
@@ -111,7 +111,7 @@ class PipeTask : public Thread {
     using Proc = typename Pipe<PAYLOAD>::Proc;
 
     Pipe<PAYLOAD>& owner_;
-    Proc& consumer_;
+    Proc consumer_;
     OnePayload<PAYLOAD>* payloads_;
 
 public:
-- 
2.43.0


From cdd4fdbc494f9dd4bbf9b2eb44bd07a278e2b106 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:22 +0000
Subject: [PATCH 15/98] fix: release the lock on the cluster's disks before
 falling back to FileSpace, which takes them the other way round

---
 src/eckit/io/cluster/ClusterDisks.cc | 86 ++++++++++++++--------------
 1 file changed, 44 insertions(+), 42 deletions(-)

diff --git a/src/eckit/io/cluster/ClusterDisks.cc b/src/eckit/io/cluster/ClusterDisks.cc
index 54dd66b..f82c0e3 100644
--- a/src/eckit/io/cluster/ClusterDisks.cc
+++ b/src/eckit/io/cluster/ClusterDisks.cc
@@ -386,61 +386,63 @@ std::string ClusterDisks::node(const std::string& path) {
 
     pthread_once(&once, diskarray_init);
 
-    DiskArray::const_iterator j = clusterDisks->end();
-
-    AutoLock<DiskArray> lock(*clusterDisks);
-    for (DiskArray::const_iterator k = clusterDisks->begin(); k != clusterDisks->end(); ++k) {
-        if ((*k).active() && (path.find((*k).path()) == 0)) {
-            if (j != clusterDisks->end()) {
-                std::ostringstream os;
-                os << "Two nodes found for [" << path << "] "
-                   << "marsfs://" << (*j).node() << "/" << (*j).path() << "and "
-                   << "marsfs://" << (*k).node() << "/" << (*k).path();
-
-                throw SeriousBug(os.str());
+    {
+        // The fallback below ends up in FileSpace, which itself looks at the disks with its own lock held: it must be
+        // entered without holding this one
+        AutoLock<DiskArray> lock(*clusterDisks);
+        DiskArray::const_iterator j = clusterDisks->end();
+        for (DiskArray::const_iterator k = clusterDisks->begin(); k != clusterDisks->end(); ++k) {
+            if ((*k).active() && (path.find((*k).path()) == 0)) {
+                if (j != clusterDisks->end()) {
+                    std::ostringstream os;
+                    os << "Two nodes found for [" << path << "] "
+                       << "marsfs://" << (*j).node() << "/" << (*j).path() << "and "
+                       << "marsfs://" << (*k).node() << "/" << (*k).path();
+
+                    throw SeriousBug(os.str());
+                }
+                j = k;
             }
-            j = k;
         }
-    }
 
+        if (j != clusterDisks->end()) {
+            return (*j).node();
+        }
+    }
 
-    if (j == clusterDisks->end()) {
-        // Look for local names
+    // Look for local names
 
-        // This is ineficent, but is should be called very rarely
+    // This is ineficent, but is should be called very rarely
 
-        if (LocalPathName(path).exists()) {
-            return NodeInfo::thisNode().node();
-        }
+    if (LocalPathName(path).exists()) {
+        return NodeInfo::thisNode().node();
+    }
 
-        LocalPathName df("~/etc/disks/df");
-        std::ifstream in(df.localPath());
-        char line[1024];
-        while (in.getline(line, sizeof(line))) {
-            if (line[0] != 0 && line[0] != '#') {
-                Tokenizer tokenize(", \t");
-                std::vector<std::string> tokens;
-                tokenize(line, tokens);
-                if (tokens.size() == 2) {
-                    const FileSpace& fs            = FileSpace::lookUp(tokens[0]);
-                    const std::vector<PathName>& v = fs.fileSystems();
-                    for (size_t j = 0; j < v.size(); ++j) {
-                        if (path.find(v[j].asString()) == 0) {
-                            Log::info() << "ClusterDisks::node [" << path << "] is on " << v[j] << std::endl;
-                            return "local";
-                        }
+    LocalPathName df("~/etc/disks/df");
+    std::ifstream in(df.localPath());
+    char line[1024];
+    while (in.getline(line, sizeof(line))) {
+        if (line[0] != 0 && line[0] != '#') {
+            Tokenizer tokenize(", \t");
+            std::vector<std::string> tokens;
+            tokenize(line, tokens);
+            if (tokens.size() == 2) {
+                const FileSpace& fs            = FileSpace::lookUp(tokens[0]);
+                const std::vector<PathName>& v = fs.fileSystems();
+                for (size_t j = 0; j < v.size(); ++j) {
+                    if (path.find(v[j].asString()) == 0) {
+                        Log::info() << "ClusterDisks::node [" << path << "] is on " << v[j] << std::endl;
+                        return "local";
                     }
                 }
             }
         }
-
-
-        std::ostringstream os;
-        os << "No node found for [" << path << "]";
-        throw SeriousBug(os.str());
     }
 
-    return (*j).node();
+
+    std::ostringstream os;
+    os << "No node found for [" << path << "]";
+    throw SeriousBug(os.str());
 }
 
 void ClusterDisks::send(Stream& s) {
-- 
2.43.0


From 31b01d07a290a69db37d1cc288b9bcd83aa24253 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:38 +0000
Subject: [PATCH 16/98] fix: do not define two different OnePayload templates
 (one-definition rule)

---
 src/eckit/runtime/ProducerConsumer.h | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/eckit/runtime/ProducerConsumer.h b/src/eckit/runtime/ProducerConsumer.h
index 48ae05b..a3b4055 100644
--- a/src/eckit/runtime/ProducerConsumer.h
+++ b/src/eckit/runtime/ProducerConsumer.h
@@ -93,12 +93,12 @@ private:
 //-----------------------------------------------------------------------------
 
 template <class PAYLOAD>
-struct OnePayload {
+struct ProducedPayload {
     MutexCond cond_;
     bool ready_;
     bool done_;
     PAYLOAD payload_;
-    OnePayload() : ready_(false), done_(false), payload_() {}
+    ProducedPayload() : ready_(false), done_(false), payload_() {}
 };
 
 template <class PAYLOAD>
@@ -108,11 +108,11 @@ template <class PAYLOAD>
 class ProducerConsumerTask : public Thread {
     ProducerConsumer<PAYLOAD>& owner_;
     Consumer<PAYLOAD>& consumer_;
-    OnePayload<PAYLOAD>* payloads_;
+    ProducedPayload<PAYLOAD>* payloads_;
 
 public:
 
-    ProducerConsumerTask(Consumer<PAYLOAD>&, ProducerConsumer<PAYLOAD>&, OnePayload<PAYLOAD>*);
+    ProducerConsumerTask(Consumer<PAYLOAD>&, ProducerConsumer<PAYLOAD>&, ProducedPayload<PAYLOAD>*);
     void run() override;
 };
 
@@ -139,7 +139,7 @@ inline bool ProducerConsumer<PAYLOAD>::error() {
 template <class PAYLOAD>
 void ProducerConsumer<PAYLOAD>::execute(Producer<PAYLOAD>& producer, Consumer<PAYLOAD>& consumer) {
 
-    OnePayload<PAYLOAD>* payloads = new OnePayload<PAYLOAD>[count_];
+    ProducedPayload<PAYLOAD>* payloads = new ProducedPayload<PAYLOAD>[count_];
 
     error_ = false;
 
@@ -194,7 +194,7 @@ void ProducerConsumer<PAYLOAD>::execute(Producer<PAYLOAD>& producer, Consumer<PA
 
 template <class PAYLOAD>
 ProducerConsumerTask<PAYLOAD>::ProducerConsumerTask(Consumer<PAYLOAD>& consumer, ProducerConsumer<PAYLOAD>& owner,
-                                                    OnePayload<PAYLOAD>* payloads) :
+                                                    ProducedPayload<PAYLOAD>* payloads) :
     Thread(), owner_(owner), consumer_(consumer), payloads_(payloads) {}
 
 template <class PAYLOAD>
-- 
2.43.0


From 1de207129e1ea6d81c9857fe72ab9db89a379451 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:52 +0000
Subject: [PATCH 17/98] fix: make paths without holding the lock of their
 factory (lock order with the libraries)

---
 src/eckit/filesystem/PathNameFactory.cc | 21 ++++++++++++++-------
 1 file changed, 14 insertions(+), 7 deletions(-)

diff --git a/src/eckit/filesystem/PathNameFactory.cc b/src/eckit/filesystem/PathNameFactory.cc
index 36d040d..3c1a0db 100644
--- a/src/eckit/filesystem/PathNameFactory.cc
+++ b/src/eckit/filesystem/PathNameFactory.cc
@@ -99,16 +99,23 @@ BasePathName* PathNameFactoryImpl::build(const std::string& type, const std::str
         return localBuilder.make(path, tildeIsUserHome);
     }
 
-    AutoLock<StaticMutex> lock(static_mutex_);
+    // making a path may need the locks of the libraries (~ expansion), which are also held while making paths:
+    // the builder must be called without the lock
+    const PathNameBuilderBase* builder = nullptr;
+    {
+        AutoLock<StaticMutex> lock(static_mutex_);
+
+        auto it = builders_.find(type);
+        if (it == builders_.end()) {
+            std::ostringstream ss;
+            ss << "PathNameBuilder '" << type << "' not found";
+            throw SeriousBug(ss.str(), Here());
+        }
 
-    auto it = builders_.find(type);
-    if (it == builders_.end()) {
-        std::ostringstream ss;
-        ss << "PathNameBuilder '" << type << "' not found";
-        throw SeriousBug(ss.str(), Here());
+        builder = it->second;
     }
 
-    return it->second->make(path, tildeIsUserHome);
+    return builder->make(path, tildeIsUserHome);
 }
 
 //----------------------------------------------------------------------------------------------------------------------
-- 
2.43.0


From ba3d24ed2e5b435d0694ebb44a18181dc2ffebf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:43 +0000
Subject: [PATCH 18/98] fix: wake all who wait for a file of a FilePool, they
 may wait for different files

---
 src/eckit/io/FilePool.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/eckit/io/FilePool.cc b/src/eckit/io/FilePool.cc
index bcd689c..40098b3 100644
--- a/src/eckit/io/FilePool.cc
+++ b/src/eckit/io/FilePool.cc
@@ -79,7 +79,7 @@ void FilePool::checkin(DataHandle* handle) {
         if (itr->second == handle) {
             cache_.insert(itr->first, itr->second);
             inUse_.erase(itr);
-            cond_.signal();
+            cond_.broadcast();  // not every waiter waits for this path
             return;
         }
     }
-- 
2.43.0


From b777cab10d2cce005e842ebccf5c64155a6e81d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:33 +0000
Subject: [PATCH 19/98] fix: wake every thread waiting for the tasks of a
 ThreadPool to end

---
 src/eckit/thread/ThreadPool.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/eckit/thread/ThreadPool.cc b/src/eckit/thread/ThreadPool.cc
index b528d3f..457b683 100644
--- a/src/eckit/thread/ThreadPool.cc
+++ b/src/eckit/thread/ThreadPool.cc
@@ -140,7 +140,7 @@ void ThreadPool::startTask() {
 void ThreadPool::endTask() {
     AutoLock<MutexCond> lock(active_);
     tasks_--;
-    active_.signal();
+    active_.broadcast();  // whoever waits for the tasks to end
     // Log::info() << "ThreadPool::notifyStart " << name_ << " running: " << running_ << std::endl;
 }
 
-- 
2.43.0


From f2ee57e5dab7c2c3f7900118c99aca760a92d55a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:42:41 +0000
Subject: [PATCH 20/98] Revert "fix: take the generator lock when matching a
 custom specification"

This reverts commit a16e7314d642ad8d32a6254dd8644fda177162b3.
---
 src/eckit/spec/Generator.h | 2 --
 1 file changed, 2 deletions(-)

diff --git a/src/eckit/spec/Generator.h b/src/eckit/spec/Generator.h
index 1e92576..48e2937 100644
--- a/src/eckit/spec/Generator.h
+++ b/src/eckit/spec/Generator.h
@@ -71,8 +71,6 @@ public:
     const storage_t& store() const { return store_; }
 
     bool match(const Custom& spec, std::string& name) const {
-        AutoLock<Mutex> lock(mutex_);
-
         auto end = store_.cend();
         auto i   = end;
         for (auto j = store_.cbegin(); j != end; ++j) {
-- 
2.43.0


From 6afa3a3cbd4aaed5fbb4bb750ed41ed5d0411ccf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:52:17 +0000
Subject: [PATCH 21/98] fix: report failed seeks of a RawFileHandle

---
 src/eckit/io/RawFileHandle.cc | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/eckit/io/RawFileHandle.cc b/src/eckit/io/RawFileHandle.cc
index 44bf61b..d043b98 100644
--- a/src/eckit/io/RawFileHandle.cc
+++ b/src/eckit/io/RawFileHandle.cc
@@ -83,15 +83,19 @@ void RawFileHandle::close() {
 }
 
 Offset RawFileHandle::position() {
-    return ::lseek(fd_, 0, SEEK_CUR);
+    off_t here;
+    SYSCALL(here = ::lseek(fd_, 0, SEEK_CUR));
+    return here;
 }
 
 Offset RawFileHandle::seek(const Offset& o) {
-    return ::lseek(fd_, o, SEEK_SET);
+    off_t here;
+    SYSCALL(here = ::lseek(fd_, o, SEEK_SET));
+    return here;
 }
 
 void RawFileHandle::skip(const Length& l) {
-    ::lseek(fd_, l, SEEK_CUR);
+    SYSCALL(::lseek(fd_, l, SEEK_CUR));
 }
 
 Length RawFileHandle::size() {
-- 
2.43.0


From 7b23144a7d92f4e3c2451123f890e163db35e44b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:52:17 +0000
Subject: [PATCH 22/98] fix: report failed seeks and short writes when a mapped
 k-d tree is created

---
 src/eckit/container/KDMapped.cc | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/eckit/container/KDMapped.cc b/src/eckit/container/KDMapped.cc
index 5834884..a0818f8 100644
--- a/src/eckit/container/KDMapped.cc
+++ b/src/eckit/container/KDMapped.cc
@@ -56,7 +56,7 @@ KDMapped::KDMapped(const PathName& path, size_t itemCount, size_t itemSize, size
         int n;
         SYSCALL(n = ::read(fd_, &header_, sizeof(header_)));
         ASSERT(n == sizeof(header_));
-        lseek(fd_, 0, SEEK_SET);
+        SYSCALL(::lseek(fd_, 0, SEEK_SET));
 
         root_ = 1;
 
@@ -75,10 +75,10 @@ KDMapped::KDMapped(const PathName& path, size_t itemCount, size_t itemSize, size
 
         size_ = base + (itemCount + 1) * itemSize;
 
-        lseek(fd_, 0, SEEK_SET);
-        SYSCALL(::write(fd_, &header_, sizeof(header_)));
+        SYSCALL(::lseek(fd_, 0, SEEK_SET));
+        ASSERT(::write(fd_, &header_, sizeof(header_)) == sizeof(header_));
 
-        lseek(fd_, size_ - 1, SEEK_SET);
+        SYSCALL(::lseek(fd_, size_ - 1, SEEK_SET));
         SYSCALL(::write(fd_, &c, 1));
     }
 
-- 
2.43.0


From 0fb5609f8391ed439de76b018cc2b97baf6358a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:52:17 +0000
Subject: [PATCH 23/98] fix: report failure to rewind a FileStream

---
 src/eckit/serialisation/FileStream.cc | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/eckit/serialisation/FileStream.cc b/src/eckit/serialisation/FileStream.cc
index a97fd69..8649edd 100644
--- a/src/eckit/serialisation/FileStream.cc
+++ b/src/eckit/serialisation/FileStream.cc
@@ -91,8 +91,10 @@ std::string FileStream::name() const {
 }
 
 void FileStream::rewind() {
-    ::fflush(file_);
-    fseeko(file_, 0, SEEK_SET);
+    if (::fflush(file_)) {
+        throw WriteError(std::string("FileStream::rewind(fflush(") + name_ + "))");
+    }
+    SYSCALL(::fseeko(file_, 0, SEEK_SET));
     resetBytesWritten();
 }
 
-- 
2.43.0


From f68cf2387735a5243d86cb7a6afd432355f9eb15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:52:17 +0000
Subject: [PATCH 24/98] fix: check getsockname, its result names the port

---
 src/eckit/net/TCPSocket.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/eckit/net/TCPSocket.cc b/src/eckit/net/TCPSocket.cc
index f58ce7d..fc980a9 100644
--- a/src/eckit/net/TCPSocket.cc
+++ b/src/eckit/net/TCPSocket.cc
@@ -601,7 +601,7 @@ int TCPSocket::createSocket(int port, const SocketOptions& opts) {
 #else
     socklen_t len = sizeof(sin);
 #endif
-    ::getsockname(s, reinterpret_cast<sockaddr*>(&sin), &len);
+    SYSCALL(::getsockname(s, reinterpret_cast<sockaddr*>(&sin), &len));
     if (localPort_ != 0) {
         int gotPort = ntohs(sin.sin_port);
         if (localPort_ != gotPort) {
-- 
2.43.0


From f4a15366e5695b99c3a26630759a2e25b24016f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:52:17 +0000
Subject: [PATCH 25/98] fix: do not broadcast a file that could not be read in
 full

---
 src/eckit/mpi/Parallel.cc | 4 +++-
 src/eckit/mpi/Serial.cc   | 3 +--
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/eckit/mpi/Parallel.cc b/src/eckit/mpi/Parallel.cc
index 13fad69..90a0f64 100644
--- a/src/eckit/mpi/Parallel.cc
+++ b/src/eckit/mpi/Parallel.cc
@@ -789,7 +789,9 @@ eckit::SharedBuffer Parallel::broadcastFile(const PathName& filepath, size_t roo
             op.len_ = dh->openForRead();
             AutoClose closer(*dh);
             buffer = new eckit::CountedBuffer(op.len_);
-            dh->read(buffer->data(), op.len_);
+            if (dh->read(buffer->data(), op.len_) != static_cast<long>(op.len_)) {
+                op.err_ = errno ? errno : EIO;
+            }
 
             if (filepath.isDir()) {
                 op.err_ = EISDIR;
diff --git a/src/eckit/mpi/Serial.cc b/src/eckit/mpi/Serial.cc
index 39f4cb5..4e05e61 100644
--- a/src/eckit/mpi/Serial.cc
+++ b/src/eckit/mpi/Serial.cc
@@ -497,9 +497,8 @@ eckit::SharedBuffer Serial::broadcastFile(const PathName& filepath, size_t) cons
     AutoClose closer(*dh);
 
     eckit::SharedBuffer buffer(len);
-    dh->read(buffer->data(), len);
 
-    if (not len) {
+    if (not len || dh->read(buffer->data(), len) != len) {
         throw ShortFile(filepath);
     }
 
-- 
2.43.0


From ff6514b5eec905efda5b7a408044372fd502261c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:52:17 +0000
Subject: [PATCH 26/98] fix: seeking past the end of a TCP stream fails instead
 of spinning

---
 src/eckit/io/TCPSocketHandle.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/eckit/io/TCPSocketHandle.cc b/src/eckit/io/TCPSocketHandle.cc
index 77cc75f..9ccc03e 100644
--- a/src/eckit/io/TCPSocketHandle.cc
+++ b/src/eckit/io/TCPSocketHandle.cc
@@ -70,7 +70,9 @@ Offset InstantTCPSocketHandle::seek(const Offset& o) {
 
     while (position_ < o) {
         char c[10240];
-        read(c, std::min(sizeof(c), size_t(o - position_)));
+        if (read(c, std::min(sizeof(c), size_t(o - position_))) <= 0) {
+            throw ReadError("InstantTCPSocketHandle::seek: end of data before offset", Here());
+        }
     }
 
     return o;
-- 
2.43.0


From 7f21065dc4d86f374150dcf5bec6454f2fbe215d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:52:17 +0000
Subject: [PATCH 27/98] fix: check that the header of a sparse matrix was read
 and written

---
 src/eckit/linalg/SparseMatrix.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/eckit/linalg/SparseMatrix.cc b/src/eckit/linalg/SparseMatrix.cc
index 2dd6b52..fe84016 100644
--- a/src/eckit/linalg/SparseMatrix.cc
+++ b/src/eckit/linalg/SparseMatrix.cc
@@ -207,7 +207,7 @@ void SparseMatrix::load(const void* buffer, size_t bufferSize, Layout& layout, S
     mh.openForRead();
 
     struct SPMInfo info;
-    mh.read(&info, sizeof(SPMInfo));
+    ASSERT(mh.read(&info, sizeof(SPMInfo)) == static_cast<long>(sizeof(SPMInfo)));
 
     ASSERT(info.size_ && info.rows_ && info.cols_);
     ASSERT(info.data_ > 0 && info.outer_ > 0 && info.inner_ > 0);
@@ -266,7 +266,7 @@ void SparseMatrix::dump(void* buffer, size_t size) const {
 
     /// @todo we should try to get these memory aligned (to say 64 bytes)
 
-    mh.write(&info, sizeof(SPMInfo));
+    ASSERT(mh.write(&info, sizeof(SPMInfo)) == static_cast<long>(sizeof(SPMInfo)));
 
     ASSERT(mh.write(spm_.data_, shape_.sizeofData()) == static_cast<long>(shape_.sizeofData()));
     ASSERT(mh.write(spm_.outer_, shape_.sizeofOuter()) == static_cast<long>(shape_.sizeofOuter()));
-- 
2.43.0


From 41a681f3ad1cffc8b3af85e60ad782ded47fefb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:52:17 +0000
Subject: [PATCH 28/98] fix: check that HTTP content was stored

---
 src/eckit/net/HttpHeader.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/eckit/net/HttpHeader.cc b/src/eckit/net/HttpHeader.cc
index 765542d..9434716 100644
--- a/src/eckit/net/HttpHeader.cc
+++ b/src/eckit/net/HttpHeader.cc
@@ -251,7 +251,7 @@ bool HttpHeader::authenticated() const {
 
 void HttpHeader::content(const char* p, long len) {
     content_.openForWrite(0);
-    content_.write(p, len);
+    ASSERT(content_.write(p, len) == len);
     content_.close();
 }
 
-- 
2.43.0


From 1d2f42177f58b87313b2e926bd000782694bc9ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:52:17 +0000
Subject: [PATCH 29/98] fix: check that FTP commands were sent

---
 src/eckit/io/FTPHandle.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/eckit/io/FTPHandle.cc b/src/eckit/io/FTPHandle.cc
index 0100ecd..596584b 100644
--- a/src/eckit/io/FTPHandle.cc
+++ b/src/eckit/io/FTPHandle.cc
@@ -60,8 +60,8 @@ std::string FTPHandle::readLine() {
 
 void FTPHandle::ftpCommand(const std::string& s) {
     Log::info() << "send " << s << std::endl;
-    cmds_.write(s.c_str(), s.length());
-    cmds_.write("\r\n", 2);
+    ASSERT(cmds_.write(s.c_str(), s.length()) == static_cast<long>(s.length()));
+    ASSERT(cmds_.write("\r\n", 2) == 2);
     std::string out = readLine();
 
     if (atoi(out.c_str()) / 100 == 5) {
-- 
2.43.0


From 6dc63d6f2e3ccadfdca439fdd7d889042c785e8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:52:17 +0000
Subject: [PATCH 30/98] fix: MappedArray::sync reports a failed fsync

---
 src/eckit/container/MappedArray.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/eckit/container/MappedArray.cc b/src/eckit/container/MappedArray.cc
index 9c3ad95..6714186 100644
--- a/src/eckit/container/MappedArray.cc
+++ b/src/eckit/container/MappedArray.cc
@@ -88,6 +88,7 @@ void MappedArray<T>::sync() {
     int ret = fsync(fd_);
     while (ret < 0 && errno == EINTR)
         ret = fsync(fd_);
+    SYSCALL(ret);
 }
 
 //----------------------------------------------------------------------------------------------------------------------
-- 
2.43.0


From fd7ed90dab68f90e54b450a47c99c2ce2b4e882d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:55:19 +0000
Subject: [PATCH 31/98] fix: a lost FTP connection is not an answer

---
 src/eckit/io/FTPHandle.cc | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/eckit/io/FTPHandle.cc b/src/eckit/io/FTPHandle.cc
index 596584b..e174f57 100644
--- a/src/eckit/io/FTPHandle.cc
+++ b/src/eckit/io/FTPHandle.cc
@@ -51,7 +51,13 @@ FTPHandle::FTPHandle(Stream& s) : DataHandle(s), port_(0) {
 std::string FTPHandle::readLine() {
     std::string s;
     char c;
-    while (cmds_.read(&c, 1) == 1 && c != '\n') {
+    for (;;) {
+        if (cmds_.read(&c, 1) != 1) {
+            throw ReadError("FTPHandle: connection lost");
+        }
+        if (c == '\n') {
+            break;
+        }
         s += c;
     }
     Log::info() << "receive " << s << std::endl;
-- 
2.43.0


From 39f10f7558dc2605fb1210319f871e63bf611600 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:17:31 +0000
Subject: [PATCH 32/98] fix: take the registry lock when adding a plugin search
 path

---
 src/eckit/system/LibraryManager.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/eckit/system/LibraryManager.cc b/src/eckit/system/LibraryManager.cc
index 9b0e154..cb76e67 100644
--- a/src/eckit/system/LibraryManager.cc
+++ b/src/eckit/system/LibraryManager.cc
@@ -421,6 +421,7 @@ public:  // methods
     }
 
     void addPluginSearchPath(const std::string& path) {
+        AutoLock<Mutex> lockme(mutex_);
         Tokenizer tokenizer(":");
         tokenizer(path, plugin_search_paths_);
     }
-- 
2.43.0


From d53e904e5088362a9db516c7cb5a6e26acc9c6e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:17:32 +0000
Subject: [PATCH 33/98] fix: take the lock of the serial MPI request pool when
 probing

---
 src/eckit/mpi/Serial.cc | 21 ++++++++++++++-------
 1 file changed, 14 insertions(+), 7 deletions(-)

diff --git a/src/eckit/mpi/Serial.cc b/src/eckit/mpi/Serial.cc
index 4e05e61..67a5bed 100644
--- a/src/eckit/mpi/Serial.cc
+++ b/src/eckit/mpi/Serial.cc
@@ -258,14 +258,19 @@ Status Serial::probe(int source, int tag) const {
 
     SerialStatus* st = new SerialStatus();
 
-    SendRequest* req = nullptr;
-    while (not req) {
-        req = SerialRequestPool::instance().matchNextSendRequest(tag);
+    bool found = false;
+    while (not found) {
+        AutoLock<SerialRequestPool> lock(SerialRequestPool::instance());
+
+        SendRequest* req = SerialRequestPool::instance().matchNextSendRequest(tag);
+        if (req) {
+            (*st).count_  = req->count();
+            (*st).tag_    = req->tag();
+            (*st).source_ = 0;
+            (*st).error_  = 0;
+            found         = true;
+        }
     }
-    (*st).count_  = req->count();
-    (*st).tag_    = req->tag();
-    (*st).source_ = 0;
-    (*st).error_  = 0;
 
     return Status(st);
 }
@@ -273,6 +278,8 @@ Status Serial::probe(int source, int tag) const {
 Status Serial::iProbe(int source, int tag) const {
     ASSERT(source == 0 || source == Serial::Constants::anySource());
 
+    AutoLock<SerialRequestPool> lock(SerialRequestPool::instance());
+
     SendRequest* req = SerialRequestPool::instance().matchNextSendRequest(tag);
     if (not req) {
         return Status{};  // Null status
-- 
2.43.0


From 58dba560e840b3fa7d0dd3014a9438a566faaeac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:17:58 +0000
Subject: [PATCH 34/98] fix: take the metrics lock when printing the collected
 metrics

---
 src/eckit/runtime/Metrics.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/eckit/runtime/Metrics.cc b/src/eckit/runtime/Metrics.cc
index 9bed26f..e3c7cd4 100644
--- a/src/eckit/runtime/Metrics.cc
+++ b/src/eckit/runtime/Metrics.cc
@@ -503,7 +503,10 @@ CollectMetrics::~CollectMetrics() {
 void CollectMetrics::print(std::ostream& s) const {
     // Avoid that long lines are truncated and mixed up
     std::ostringstream oss;
-    oss << *collector_;
+    {
+        AutoLock<StaticMutex> lock(local_mutex);
+        oss << *collector_;
+    }
     s << oss.str();
 }
 
-- 
2.43.0


From 9fff9b3853bc9977afe6f5b577926958ca96a5a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:17:58 +0000
Subject: [PATCH 35/98] fix: formatting a DateTime does not modify a locale
 shared by all threads

---
 src/eckit/types/DateTime.cc | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/eckit/types/DateTime.cc b/src/eckit/types/DateTime.cc
index 2a725e5..aeb58c8 100644
--- a/src/eckit/types/DateTime.cc
+++ b/src/eckit/types/DateTime.cc
@@ -36,17 +36,15 @@ DateTime::DateTime(const std::string& s) {
     time_ = Time(result[1]);
 }
 
-static std::locale& getLocale() {
-    static std::locale loc = std::locale::classic();
+static std::locale getLocale() {
     try {
-        loc = std::locale("");
+        return std::locale("");
     }
     catch (...) {
         Log::error() << "Problem to setup the locale\n"
                      << "Check your LANG variable - current value: " << getenv("LANG") << std::endl;
-        loc = std::locale::classic();
     }
-    return loc;
+    return std::locale::classic();
 }
 
 std::string DateTime::format(const std::string& fmt) {
@@ -69,9 +67,11 @@ std::string DateTime::format(const std::string& fmt) {
     convert.tm_min  = time().minutes();
     convert.tm_hour = time().hours();
 
-    out.imbue(getLocale());
+    const std::locale loc = getLocale();
 
-    const std::time_put<char>& tfac = std::use_facet<std::time_put<char> >(getLocale());
+    out.imbue(loc);
+
+    const std::time_put<char>& tfac = std::use_facet<std::time_put<char> >(loc);
 
     tfac.put(out, out, ' ', &convert, fmt.c_str(), fmt.c_str() + fmt.length());
 
-- 
2.43.0


From 161111e49fd55d13c248825cf82e120c810b4829 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:17:58 +0000
Subject: [PATCH 36/98] fix: lock the table of grids

---
 src/eckit/types/Grid.cc | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/eckit/types/Grid.cc b/src/eckit/types/Grid.cc
index ab2f0a8..22d81e7 100644
--- a/src/eckit/types/Grid.cc
+++ b/src/eckit/types/Grid.cc
@@ -15,6 +15,8 @@
 #include "eckit/log/Log.h"
 #include "eckit/persist/DumpLoad.h"
 #include "eckit/types/Grid.h"
+#include "eckit/thread/AutoLock.h"
+#include "eckit/thread/StaticMutex.h"
 #include "eckit/utils/Tokenizer.h"
 
 
@@ -23,7 +25,8 @@ namespace eckit {
 //----------------------------------------------------------------------------------------------------------------------
 
 /// Helper which contains all possible grids
-/// @note Not thread safe
+
+static StaticMutex local_mutex;
 
 struct Grids {
 public:
@@ -46,6 +49,8 @@ Grids::GridCharTable Grids::gridCharTable_;
 char Grids::nextChar_ = 'a';
 
 char Grids::lookUp(const Grid& g) {
+    AutoLock<StaticMutex> lock(local_mutex);
+
     GridCharTable::iterator i = gridCharTable_.find(g);
     if (i != gridCharTable_.end()) {
         return (*i).second;
@@ -60,6 +65,8 @@ char Grids::lookUp(const Grid& g) {
 }
 
 const Grid& Grids::lookUp(char c) {
+    AutoLock<StaticMutex> lock(local_mutex);
+
     CharGridTable::iterator i = charGridTable_.find(c);
     ASSERT(i != charGridTable_.end());
     return (*i).second;
-- 
2.43.0


From 9ae5197602d0701a10227c7ed98879cb41bbce93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:17:58 +0000
Subject: [PATCH 37/98] fix: create the nil value once, whichever threads use
 it first

---
 src/eckit/value/Value.cc | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/src/eckit/value/Value.cc b/src/eckit/value/Value.cc
index bb4c1e0..20c40d7 100644
--- a/src/eckit/value/Value.cc
+++ b/src/eckit/value/Value.cc
@@ -36,13 +36,9 @@ public:
     Nil() { attach(); }  // the only instance of Nil (below) *will* be leaked at_exit()
 };
 
-static Nil* nil = nullptr;
-// must be a pointer, so we control when is created to respect order of destruction at_exit()
-
 static Nil* nill() {
-    if (!nil) {
-        nil = new Nil();
-    }
+    // must be a pointer, so we control when is created to respect order of destruction at_exit()
+    static Nil* nil = new Nil();
     return nil;
 }
 
-- 
2.43.0


From 46d8b04a55e8b654f7b07fabd707d60c8205bf7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:17:58 +0000
Subject: [PATCH 38/98] fix: requests to the Java agent do not share their
 streams

---
 src/eckit/web/AgentResource.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/eckit/web/AgentResource.cc b/src/eckit/web/AgentResource.cc
index b329e01..ea02f66 100644
--- a/src/eckit/web/AgentResource.cc
+++ b/src/eckit/web/AgentResource.cc
@@ -73,8 +73,8 @@ AgentResource::AgentResource() : HtmlResource("/agent") {}
 AgentResource::~AgentResource() {}
 
 void AgentResource::GET(std::ostream&, Url& url) {
-    static std::ifstream in("/dev/null");
-    static std::ofstream out("/dev/null");
+    std::ifstream in("/dev/null");
+    std::ofstream out("/dev/null");
 
     std::string content = url.headerIn().content();
     MemStream s(content.data(), content.length());
-- 
2.43.0


From 7d02995e0c991da887836ee13dd2d26c0c506e0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:17:58 +0000
Subject: [PATCH 39/98] fix: count backtraces atomically

---
 src/eckit/os/BackTrace.cc | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/eckit/os/BackTrace.cc b/src/eckit/os/BackTrace.cc
index caf0f24..2d1e78e 100644
--- a/src/eckit/os/BackTrace.cc
+++ b/src/eckit/os/BackTrace.cc
@@ -9,6 +9,7 @@
  */
 
 #include <unistd.h>
+#include <atomic>
 #include <cstring>
 #include <sstream>
 
@@ -38,8 +39,8 @@ std::string BackTrace::dump() {
 
 #if (eckit_HAVE_EXECINFO_BACKTRACE || defined(__FreeBSD__)) && !defined(_AIX)
 
-    static Ordinal count = 0;
-    ++count;
+    static std::atomic<Ordinal> counter{0};
+    const Ordinal count = ++counter;
 
 #define BS_BUFF_SIZE 256
 
-- 
2.43.0


From 2009a91df604f975f1bb30fd9e7114bf0eae634c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:17:58 +0000
Subject: [PATCH 40/98] fix: lock the round robin counter of file space
 strategies

---
 src/eckit/filesystem/FileSpaceStrategies.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/eckit/filesystem/FileSpaceStrategies.cc b/src/eckit/filesystem/FileSpaceStrategies.cc
index 167fa5a..d70b255 100644
--- a/src/eckit/filesystem/FileSpaceStrategies.cc
+++ b/src/eckit/filesystem/FileSpaceStrategies.cc
@@ -17,6 +17,8 @@
 #include "eckit/config/Resource.h"
 #include "eckit/filesystem/FileSpaceStrategies.h"
 #include "eckit/log/Bytes.h"
+#include "eckit/thread/AutoLock.h"
+#include "eckit/thread/StaticMutex.h"
 
 namespace eckit {
 
@@ -249,6 +251,9 @@ const PathName& FileSpaceStrategies::roundRobin(const std::vector<PathName>& fil
         return leastUsed(fileSystems);
     }
 
+    static StaticMutex local_mutex;
+    AutoLock<StaticMutex> lock(local_mutex);
+
     static long value = -1;
 
     if (value < 0) {
-- 
2.43.0


From d037dfb80ab5310c59163e96b2ecb0b053d84f21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:17:58 +0000
Subject: [PATCH 41/98] fix: initialise this host's address once, whichever
 threads ask first

---
 src/eckit/net/IPAddress.cc | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/src/eckit/net/IPAddress.cc b/src/eckit/net/IPAddress.cc
index c3b5142..70bcfec 100644
--- a/src/eckit/net/IPAddress.cc
+++ b/src/eckit/net/IPAddress.cc
@@ -59,19 +59,15 @@ IPAddress IPAddress::hostAddress(const std::string& hostname) {
 }
 
 IPAddress IPAddress::myIPAddress() {
-    static bool done = false;
-    static IPAddress mine("255.255.255.255");
-
-    if (!done) {
+    static const IPAddress mine = []() {
         char hostname[256] = {};
         SYSCALL(::gethostname(hostname, sizeof(hostname) - 1));
 
         struct hostent* entry = gethostbyname(hostname);
         ASSERT(entry);
 
-        mine = IPAddress(inet_ntoa(*((struct in_addr*)entry->h_addr_list[0])));
-        done = true;
-    }
+        return IPAddress(inet_ntoa(*((struct in_addr*)entry->h_addr_list[0])));
+    }();
 
     return mine;
 }
-- 
2.43.0


From ccadcaab4d0006045d9b57d8f007aadbc8dd60fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:17:58 +0000
Subject: [PATCH 42/98] fix: do not walk the list of static mutexes on fork
 while another thread extends it

---
 src/eckit/thread/StaticMutex.cc | 21 ++++++++++++++++++---
 1 file changed, 18 insertions(+), 3 deletions(-)

diff --git a/src/eckit/thread/StaticMutex.cc b/src/eckit/thread/StaticMutex.cc
index 7ed3501..87e8eb6 100644
--- a/src/eckit/thread/StaticMutex.cc
+++ b/src/eckit/thread/StaticMutex.cc
@@ -53,22 +53,37 @@ struct StaticMutexRegister {
     std::set<pthread_mutex_t*> set_;
 };
 
+// the mutexes held across the fork, by the thread that forks
+static thread_local std::set<pthread_mutex_t*> held_;
+
 static void get_locks() {
-    std::set<pthread_mutex_t*>& reg = StaticMutexRegister::instance().set_;
+    StaticMutexRegister& r = StaticMutexRegister::instance();
+
+    CHECK_CALL_NOLOG(::pthread_mutex_lock(&r.register_lock));
+    held_ = r.set_;
+    CHECK_CALL_NOLOG(::pthread_mutex_unlock(&r.register_lock));
+
+    // register_lock last, as a thread may hold a mutex when it registers another one
+    std::set<pthread_mutex_t*>& reg = held_;
     for (std::set<pthread_mutex_t*>::iterator i = reg.begin(); i != reg.end(); ++i) {
         CHECK_CALL_NOLOG(::pthread_mutex_lock(*i));
     }
+    CHECK_CALL_NOLOG(::pthread_mutex_lock(&r.register_lock));
 }
 
 static void release_locks_parent() {
-    std::set<pthread_mutex_t*>& reg = StaticMutexRegister::instance().set_;
+    CHECK_CALL_NOLOG(::pthread_mutex_unlock(&StaticMutexRegister::instance().register_lock));
+
+    std::set<pthread_mutex_t*>& reg = held_;
     for (std::set<pthread_mutex_t*>::reverse_iterator i = reg.rbegin(); i != reg.rend(); ++i) {
         CHECK_CALL_NOLOG(::pthread_mutex_unlock(*i));
     }
 }
 
 static void release_locks_child() {
-    std::set<pthread_mutex_t*>& reg = StaticMutexRegister::instance().set_;
+    init_mutex_attr(&StaticMutexRegister::instance().register_lock);
+
+    std::set<pthread_mutex_t*>& reg = held_;
     for (std::set<pthread_mutex_t*>::reverse_iterator i = reg.rbegin(); i != reg.rend(); ++i) {
         init_mutex_attr(*i);
     }
-- 
2.43.0


From d10c502a6f54335f5896ff54e1f9e19777005957 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:19:59 +0000
Subject: [PATCH 43/98] fix: iterate over a copy of the plugin search paths,
 another thread may add one

---
 src/eckit/system/LibraryManager.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/eckit/system/LibraryManager.cc b/src/eckit/system/LibraryManager.cc
index cb76e67..06d418a 100644
--- a/src/eckit/system/LibraryManager.cc
+++ b/src/eckit/system/LibraryManager.cc
@@ -155,7 +155,10 @@ public:  // methods
         return *(j->second);
     }
 
-    const std::vector<std::string>& pluginSearchPaths() { return plugin_search_paths_; }
+    std::vector<std::string> pluginSearchPaths() {
+        AutoLock<Mutex> lockme(mutex_);
+        return plugin_search_paths_;
+    }
 
     std::vector<std::string> dynamicLibraryPaths() {
         std::vector<std::string> libPaths(Resource<std::vector<std::string>>(
-- 
2.43.0


From 3daa8a31ff964f050594dd2d82d9361c6069bd28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:20:53 +0000
Subject: [PATCH 44/98] fix: format times with the reentrant gmtime_r

---
 src/eckit/codec/detail/Time.cc | 4 +++-
 src/eckit/runtime/Metrics.cc   | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/eckit/codec/detail/Time.cc b/src/eckit/codec/detail/Time.cc
index 3346f87..7dce2fa 100644
--- a/src/eckit/codec/detail/Time.cc
+++ b/src/eckit/codec/detail/Time.cc
@@ -54,7 +54,9 @@ Time Time::now() {
 void Time::print(std::ostream& out) const {
     // Will print time-date in ISO 8601 format: 1970-01-01T00:00:00.123456789Z
     auto time = to_time_t(*this);
-    out << std::put_time(::gmtime(&time), "%FT%T") << "." << tv_nsec << "Z";
+    struct tm t{};
+    ::gmtime_r(&time, &t);
+    out << std::put_time(&t, "%FT%T") << "." << tv_nsec << "Z";
 }
 
 std::ostream& operator<<(std::ostream& out, const Time& time) {
diff --git a/src/eckit/runtime/Metrics.cc b/src/eckit/runtime/Metrics.cc
index e3c7cd4..4476926 100644
--- a/src/eckit/runtime/Metrics.cc
+++ b/src/eckit/runtime/Metrics.cc
@@ -36,7 +36,9 @@ StaticMutex local_mutex;
 
 std::string iso(time_t t) {
     char buf[80];
-    ::strftime(buf, sizeof(buf), "%FT%TZ", gmtime(&t));
+    struct tm tm{};
+    ::gmtime_r(&t, &tm);
+    ::strftime(buf, sizeof(buf), "%FT%TZ", &tm);
     return std::string(buf);
 }
 
-- 
2.43.0


From 943c22ed996b5a9a19a4889ee9547c363fb2102e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:20:53 +0000
Subject: [PATCH 45/98] fix: expand the user's home with the reentrant
 getpwuid_r

---
 src/eckit/filesystem/LocalPathName.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/eckit/filesystem/LocalPathName.cc b/src/eckit/filesystem/LocalPathName.cc
index 78a80f1..c56412c 100644
--- a/src/eckit/filesystem/LocalPathName.cc
+++ b/src/eckit/filesystem/LocalPathName.cc
@@ -499,7 +499,10 @@ static void expandTilde(std::string& path, bool tildeIsUserHome) {
 
         if (tildeIsUserHome) {
 
-            struct passwd* pw = ::getpwuid(::geteuid());
+            struct passwd pwbuf;
+            struct passwd* pw = nullptr;
+            char buf[4096];
+            ASSERT(::getpwuid_r(::geteuid(), &pwbuf, buf, sizeof(buf), &pw) == 0);
             ASSERT(pw);
             path = std::string(pw->pw_dir) + "/" + path.substr(1);
             return;
-- 
2.43.0


From 1ad78789d36f35ddf260edbc8e3de64a66f85cd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:20:53 +0000
Subject: [PATCH 46/98] fix: look up host addresses with the reentrant
 getaddrinfo

---
 src/eckit/net/IPAddress.cc | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/src/eckit/net/IPAddress.cc b/src/eckit/net/IPAddress.cc
index 70bcfec..5c72cd2 100644
--- a/src/eckit/net/IPAddress.cc
+++ b/src/eckit/net/IPAddress.cc
@@ -52,10 +52,18 @@ bool IPAddress::operator==(const IPAddress& other) const {
 
 
 IPAddress IPAddress::hostAddress(const std::string& hostname) {
-    struct hostent* hostEntry = gethostbyname(hostname.c_str());
-    ASSERT(hostEntry);
+    struct addrinfo hints {};
+    hints.ai_family   = AF_INET;
+    hints.ai_socktype = SOCK_STREAM;
 
-    return IPAddress(inet_ntoa(*((struct in_addr*)hostEntry->h_addr_list[0])));
+    struct addrinfo* info = nullptr;
+    ASSERT(::getaddrinfo(hostname.c_str(), nullptr, &hints, &info) == 0);
+    ASSERT(info);
+
+    const struct in_addr addr = reinterpret_cast<struct sockaddr_in*>(info->ai_addr)->sin_addr;
+    ::freeaddrinfo(info);
+
+    return IPAddress(addr);
 }
 
 IPAddress IPAddress::myIPAddress() {
@@ -63,10 +71,7 @@ IPAddress IPAddress::myIPAddress() {
         char hostname[256] = {};
         SYSCALL(::gethostname(hostname, sizeof(hostname) - 1));
 
-        struct hostent* entry = gethostbyname(hostname);
-        ASSERT(entry);
-
-        return IPAddress(inet_ntoa(*((struct in_addr*)entry->h_addr_list[0])));
+        return hostAddress(hostname);
     }();
 
     return mine;
-- 
2.43.0


From 08c55550b238615f77f9cf71cd43c90498833e53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:26:59 +0000
Subject: [PATCH 47/98] fix: a Stream refuses numbers and lengths that its
 32-bit encoding would cut

---
 src/eckit/serialisation/Stream.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/eckit/serialisation/Stream.cc b/src/eckit/serialisation/Stream.cc
index d4582b7..3b26dda 100644
--- a/src/eckit/serialisation/Stream.cc
+++ b/src/eckit/serialisation/Stream.cc
@@ -104,6 +104,8 @@ unsigned char Stream::getChar() {
 }
 
 void Stream::putLong(unsigned long p) {
+    ASSERT(p <= 0xffffffffUL);  // it is written in 32 bits
+
     if (sizeof(unsigned long) != 4) {
         if (sizeof(unsigned int) == 4) {
             unsigned int n = htonl(p);
@@ -277,6 +279,7 @@ Stream& Stream::operator<<(long x) {
     } u;
     T("w long", x);
     u.s = x;
+    ASSERT(u.s == x);  // it is written in 32 bits
     writeTag(tag_long);
     putLong(u.u);
     return *this;
-- 
2.43.0


From 486374734c0859f873cd59089cd47e8b43b0e6bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:26:59 +0000
Subject: [PATCH 48/98] fix: MD5::compute refuses buffers whose length it would
 cut, as MD5::update does

---
 src/eckit/utils/MD5.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/eckit/utils/MD5.cc b/src/eckit/utils/MD5.cc
index 0dd48b4..e16aed6 100644
--- a/src/eckit/utils/MD5.cc
+++ b/src/eckit/utils/MD5.cc
@@ -300,6 +300,11 @@ void MD5::reset() const {
 }
 
 Hash::digest_t MD5::compute(const void* buffer, long size) {
+
+    if (size > std::numeric_limits<unsigned int>::max()) {
+        throw BadParameter("Buffer length too large for MD5 algorithm", Here());
+    }
+
     MD5_CTX s;
     Init(&s);
     Update(&s, static_cast<const unsigned char*>(buffer), size);
-- 
2.43.0


From 6e669c477b3f0bcc029bcec38f1e45e7864f5de5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:26:59 +0000
Subject: [PATCH 49/98] fix: check the uncompressed length given to bzip2, like
 the compressed one

---
 src/eckit/utils/BZip2Compressor.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/eckit/utils/BZip2Compressor.cc b/src/eckit/utils/BZip2Compressor.cc
index e5acc7f..50f8013 100644
--- a/src/eckit/utils/BZip2Compressor.cc
+++ b/src/eckit/utils/BZip2Compressor.cc
@@ -115,6 +115,7 @@ size_t BZip2Compressor::compress(const void* in, size_t len, Buffer& out) const
 
 void BZip2Compressor::uncompress(const void* in, size_t len, Buffer& out, size_t outlen) const {
     ASSERT(len < std::numeric_limits<int>::max());
+    ASSERT(outlen < std::numeric_limits<int>::max());
 
     if (out.size() < outlen) {
         out.resize(outlen);
-- 
2.43.0


From e915d937b058c453dd29ec4367d083a3fe711cc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:26:59 +0000
Subject: [PATCH 50/98] fix: tokenize strings longer than an int counts

---
 src/eckit/utils/Tokenizer.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/eckit/utils/Tokenizer.cc b/src/eckit/utils/Tokenizer.cc
index 99f45ba..ca85dee 100644
--- a/src/eckit/utils/Tokenizer.cc
+++ b/src/eckit/utils/Tokenizer.cc
@@ -20,8 +20,8 @@ namespace eckit {
 template <class Container>
 void tokenizeInsert(const std::set<char, std::less<char> >& separator, const std::string& raw,
                     std::insert_iterator<Container> ins, bool keepEmpty) {
-    int index         = 0;
-    int length        = raw.length();
+    size_t index      = 0;
+    size_t length     = raw.length();
     std::string token = "";
 
     while (index < length) {
-- 
2.43.0


From ba0023347ea4a4d4fa2d137e0952779b48107266 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:26:59 +0000
Subject: [PATCH 51/98] fix: PeekHandle counts bytes in long, a read may return
 more than an int holds

---
 src/eckit/io/PeekHandle.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/eckit/io/PeekHandle.cc b/src/eckit/io/PeekHandle.cc
index aad267b..69e1423 100644
--- a/src/eckit/io/PeekHandle.cc
+++ b/src/eckit/io/PeekHandle.cc
@@ -79,7 +79,7 @@ long PeekHandle::peek(void* buffer, size_t size, size_t pos) {
         std::copy(buf, buf + p, std::back_inserter(peek_));
     }
 
-    int len = std::min(last, peek_.size());
+    size_t len = std::min(last, peek_.size());
     ASSERT(len >= pos);
     len -= pos;
 
@@ -111,7 +111,7 @@ long PeekHandle::read(void* buffer, long length) {
 
     if (length) {
 
-        int n = handle().read(p, length);
+        long n = handle().read(p, length);
         if (n < 0) {
             std::ostringstream s;
             s << handle() << ": failed to read " << Bytes(length);
-- 
2.43.0


From 6dddb1c928634ec23d221156e0875e6bcea0243e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:26:59 +0000
Subject: [PATCH 52/98] fix: remainder of 64-bit values

---
 src/eckit/value/NumberContent.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/eckit/value/NumberContent.cc b/src/eckit/value/NumberContent.cc
index 219ac97..1760a47 100644
--- a/src/eckit/value/NumberContent.cc
+++ b/src/eckit/value/NumberContent.cc
@@ -133,7 +133,7 @@ Content* NumberContent::mod(const Content& other) const {
 }
 
 Content* NumberContent::modNumber(const NumberContent& other) const {
-    return new NumberContent(int(other.value_) % int(value_));
+    return new NumberContent(other.value_ % value_);
 }
 
 Content* NumberContent::mulNumber(const NumberContent& other) const {
-- 
2.43.0


From 4d6352ba9bc9b3c7e0eb33643a34a456f42516f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:29:34 +0000
Subject: [PATCH 53/98] fix: the extents of coded arrays are not cut to an int

---
 src/eckit/codec/types/array/ArrayMetadata.cc | 4 ++--
 src/eckit/codec/types/array/ArrayMetadata.h  | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/eckit/codec/types/array/ArrayMetadata.cc b/src/eckit/codec/types/array/ArrayMetadata.cc
index 8686eda..de555a7 100644
--- a/src/eckit/codec/types/array/ArrayMetadata.cc
+++ b/src/eckit/codec/types/array/ArrayMetadata.cc
@@ -31,13 +31,13 @@ size_t encode_metadata(const ArrayMetadata& value, Metadata& out) {
 
 //---------------------------------------------------------------------------------------------------------------------
 
-int ArrayMetadata::shape(int i) const {
+size_t ArrayMetadata::shape(int i) const {
     if (i >= rank()) {
         throw Exception(
             "ArrayMetadata::shape(i=" + std::to_string(i) + ") goes out of bounds. rank=" + std::to_string(rank()),
             Here());
     }
-    return static_cast<int>(shape_[static_cast<size_t>(i)]);
+    return shape_[static_cast<size_t>(i)];
 }
 
 //---------------------------------------------------------------------------------------------------------------------
diff --git a/src/eckit/codec/types/array/ArrayMetadata.h b/src/eckit/codec/types/array/ArrayMetadata.h
index 867b77e..8af70bf 100644
--- a/src/eckit/codec/types/array/ArrayMetadata.h
+++ b/src/eckit/codec/types/array/ArrayMetadata.h
@@ -108,7 +108,7 @@ public:
 
     int rank() const { return static_cast<int>(shape_.size()); }
 
-    int shape(int i) const;
+    size_t shape(int i) const;
 
     const ArrayShape& shape() const { return shape_; }
 
-- 
2.43.0


From 11bfbfc8c601886dff3c184d53be362c7067b0ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:50:58 +0000
Subject: [PATCH 54/98] fix: copies of SQL expressions keep their title, type
 and missing value

---
 src/eckit/sql/expression/NumberExpression.cc               | 2 +-
 src/eckit/sql/expression/ParameterExpression.cc            | 2 +-
 src/eckit/sql/expression/StringExpression.cc               | 3 ++-
 src/eckit/sql/expression/function/FunctionAND.cc           | 2 +-
 src/eckit/sql/expression/function/FunctionAVG.cc           | 2 +-
 src/eckit/sql/expression/function/FunctionCOUNT.cc         | 2 +-
 src/eckit/sql/expression/function/FunctionDOTP.cc          | 2 +-
 src/eckit/sql/expression/function/FunctionEQ.cc            | 2 +-
 src/eckit/sql/expression/function/FunctionExpression.cc    | 3 ++-
 src/eckit/sql/expression/function/FunctionFIRST.cc         | 2 +-
 src/eckit/sql/expression/function/FunctionIN.cc            | 2 +-
 .../sql/expression/function/FunctionIntegerExpression.h    | 7 +++++--
 src/eckit/sql/expression/function/FunctionJOIN.cc          | 2 +-
 src/eckit/sql/expression/function/FunctionJULIAN.cc        | 2 +-
 .../sql/expression/function/FunctionJULIAN_SECONDS.cc      | 2 +-
 src/eckit/sql/expression/function/FunctionLAST.cc          | 2 +-
 src/eckit/sql/expression/function/FunctionMATCH.cc         | 2 +-
 src/eckit/sql/expression/function/FunctionMAX.cc           | 2 +-
 src/eckit/sql/expression/function/FunctionMIN.cc           | 2 +-
 src/eckit/sql/expression/function/FunctionNE.cc            | 2 +-
 src/eckit/sql/expression/function/FunctionNORM.cc          | 2 +-
 src/eckit/sql/expression/function/FunctionNOT_IN.cc        | 2 +-
 src/eckit/sql/expression/function/FunctionNOT_NULL.cc      | 2 +-
 src/eckit/sql/expression/function/FunctionNULL.cc          | 2 +-
 src/eckit/sql/expression/function/FunctionNVL.cc           | 2 +-
 src/eckit/sql/expression/function/FunctionOR.cc            | 2 +-
 src/eckit/sql/expression/function/FunctionRLIKE.cc         | 2 +-
 src/eckit/sql/expression/function/FunctionRMS.cc           | 2 +-
 src/eckit/sql/expression/function/FunctionROWNUMBER.cc     | 2 +-
 src/eckit/sql/expression/function/FunctionSUM.cc           | 2 +-
 src/eckit/sql/expression/function/FunctionSUM.h            | 1 -
 src/eckit/sql/expression/function/FunctionTDIFF.cc         | 2 +-
 src/eckit/sql/expression/function/FunctionTHIN.cc          | 2 +-
 src/eckit/sql/expression/function/FunctionTIMESTAMP.cc     | 2 +-
 src/eckit/sql/expression/function/FunctionVAR.cc           | 2 +-
 35 files changed, 40 insertions(+), 36 deletions(-)

diff --git a/src/eckit/sql/expression/NumberExpression.cc b/src/eckit/sql/expression/NumberExpression.cc
index d062b22..1438936 100644
--- a/src/eckit/sql/expression/NumberExpression.cc
+++ b/src/eckit/sql/expression/NumberExpression.cc
@@ -18,7 +18,7 @@ namespace eckit::sql::expression {
 
 NumberExpression::NumberExpression(double value) : SQLExpression(), value_(value) {}
 
-NumberExpression::NumberExpression(const NumberExpression& other) : SQLExpression(), value_(other.value_) {}
+NumberExpression::NumberExpression(const NumberExpression& other) : SQLExpression(other), value_(other.value_) {}
 
 std::shared_ptr<SQLExpression> NumberExpression::clone() const {
     return std::make_shared<NumberExpression>(*this);
diff --git a/src/eckit/sql/expression/ParameterExpression.cc b/src/eckit/sql/expression/ParameterExpression.cc
index cdcbda8..0287d76 100644
--- a/src/eckit/sql/expression/ParameterExpression.cc
+++ b/src/eckit/sql/expression/ParameterExpression.cc
@@ -23,7 +23,7 @@ ParameterExpression::ParameterExpression(int which) : SQLExpression(), value_(0)
 }
 
 ParameterExpression::ParameterExpression(const ParameterExpression& other) :
-    SQLExpression(), value_(other.value_), which_(other.which_) {}
+    SQLExpression(other), value_(other.value_), which_(other.which_) {}
 
 
 std::shared_ptr<SQLExpression> ParameterExpression::ParameterExpression::clone() const {
diff --git a/src/eckit/sql/expression/StringExpression.cc b/src/eckit/sql/expression/StringExpression.cc
index 261fc43..8a36087 100644
--- a/src/eckit/sql/expression/StringExpression.cc
+++ b/src/eckit/sql/expression/StringExpression.cc
@@ -68,7 +68,8 @@ StringExpression::StringExpression(const std::string& name) : name_(name) {
     type_ = &type::SQLType::lookup("string", lenDoubles);
 }
 
-StringExpression::StringExpression(const StringExpression& o) : name_(o.name_), value_(o.value_) {}
+StringExpression::StringExpression(const StringExpression& o) :
+    SQLExpression(o), name_(o.name_), value_(o.value_), type_(o.type_) {}
 
 void StringExpression::expandStars(const std::vector<std::reference_wrapper<const SQLTable>>& tables,
                                    expression::Expressions& e) {
diff --git a/src/eckit/sql/expression/function/FunctionAND.cc b/src/eckit/sql/expression/function/FunctionAND.cc
index 73e976f..9d9649b 100644
--- a/src/eckit/sql/expression/function/FunctionAND.cc
+++ b/src/eckit/sql/expression/function/FunctionAND.cc
@@ -22,7 +22,7 @@ static FunctionBuilder<FunctionAND> andFunctionBuilder("and");
 FunctionAND::FunctionAND(const std::string& name, const expression::Expressions& args) :
     FunctionExpression(name, args) {}
 
-FunctionAND::FunctionAND(const FunctionAND& other) : FunctionExpression(other.name_, other.args_) {}
+FunctionAND::FunctionAND(const FunctionAND& other) : FunctionExpression(other) {}
 
 std::shared_ptr<SQLExpression> FunctionAND::clone() const {
     return std::make_shared<FunctionAND>(*this);
diff --git a/src/eckit/sql/expression/function/FunctionAVG.cc b/src/eckit/sql/expression/function/FunctionAVG.cc
index 215d1ce..653429d 100644
--- a/src/eckit/sql/expression/function/FunctionAVG.cc
+++ b/src/eckit/sql/expression/function/FunctionAVG.cc
@@ -23,7 +23,7 @@ FunctionAVG::FunctionAVG(const std::string& name, const expression::Expressions&
     FunctionExpression(name, args), count_(0), value_(0) {}
 
 FunctionAVG::FunctionAVG(const FunctionAVG& other) :
-    FunctionExpression(other.name_, other.args_), count_(other.count_), value_(other.value_) {}
+    FunctionExpression(other), count_(other.count_), value_(other.value_) {}
 
 
 std::shared_ptr<SQLExpression> FunctionAVG::clone() const {
diff --git a/src/eckit/sql/expression/function/FunctionCOUNT.cc b/src/eckit/sql/expression/function/FunctionCOUNT.cc
index 5b421a0..a9e6e69 100644
--- a/src/eckit/sql/expression/function/FunctionCOUNT.cc
+++ b/src/eckit/sql/expression/function/FunctionCOUNT.cc
@@ -26,7 +26,7 @@ FunctionCOUNT::FunctionCOUNT(const std::string& name, const expression::Expressi
     FunctionExpression(name, args), count_(0) {}
 
 FunctionCOUNT::FunctionCOUNT(const FunctionCOUNT& other) :
-    FunctionExpression(other.name_, other.args_), count_(other.count_) {}
+    FunctionExpression(other), count_(other.count_) {}
 
 std::shared_ptr<SQLExpression> FunctionCOUNT::clone() const {
     return std::make_shared<FunctionCOUNT>(*this);
diff --git a/src/eckit/sql/expression/function/FunctionDOTP.cc b/src/eckit/sql/expression/function/FunctionDOTP.cc
index 0bae0d5..92e2c26 100644
--- a/src/eckit/sql/expression/function/FunctionDOTP.cc
+++ b/src/eckit/sql/expression/function/FunctionDOTP.cc
@@ -26,7 +26,7 @@ FunctionDOTP::FunctionDOTP(const std::string& name, const expression::Expression
     FunctionExpression(name, args), value_(0), resultNULL_(true) {}
 
 FunctionDOTP::FunctionDOTP(const FunctionDOTP& other) :
-    FunctionExpression(other.name_, other.args_), value_(other.value_), resultNULL_(other.resultNULL_) {}
+    FunctionExpression(other), value_(other.value_), resultNULL_(other.resultNULL_) {}
 
 std::shared_ptr<SQLExpression> FunctionDOTP::clone() const {
     return std::make_shared<FunctionDOTP>(*this);
diff --git a/src/eckit/sql/expression/function/FunctionEQ.cc b/src/eckit/sql/expression/function/FunctionEQ.cc
index 69c6d2e..71d4684 100644
--- a/src/eckit/sql/expression/function/FunctionEQ.cc
+++ b/src/eckit/sql/expression/function/FunctionEQ.cc
@@ -26,7 +26,7 @@ const type::SQLType* FunctionEQ::type() const {
     return &type::SQLType::lookup("double");
 }
 
-FunctionEQ::FunctionEQ(const FunctionEQ& other) : FunctionExpression(other.name_, other.args_), tmp_(other.tmp_) {}
+FunctionEQ::FunctionEQ(const FunctionEQ& other) : FunctionExpression(other), tmp_(other.tmp_) {}
 
 FunctionEQ::FunctionEQ(const std::string& name, const expression::Expressions& args) :
     FunctionExpression(name, args), tmp_(0) {}
diff --git a/src/eckit/sql/expression/function/FunctionExpression.cc b/src/eckit/sql/expression/function/FunctionExpression.cc
index 05de34c..fa77e95 100644
--- a/src/eckit/sql/expression/function/FunctionExpression.cc
+++ b/src/eckit/sql/expression/function/FunctionExpression.cc
@@ -20,7 +20,8 @@ FunctionExpression::FunctionExpression(const std::string& name, const expression
     //	std::cout << "new FunctionExpression " << name << std::endl;
 }
 
-FunctionExpression::FunctionExpression(const FunctionExpression& other) : name_(other.name_), args_(other.args_) {}
+FunctionExpression::FunctionExpression(const FunctionExpression& other) :
+    SQLExpression(other), name_(other.name_), args_(other.args_) {}
 
 
 const type::SQLType* FunctionExpression::type() const {
diff --git a/src/eckit/sql/expression/function/FunctionFIRST.cc b/src/eckit/sql/expression/function/FunctionFIRST.cc
index f065063..6542288 100644
--- a/src/eckit/sql/expression/function/FunctionFIRST.cc
+++ b/src/eckit/sql/expression/function/FunctionFIRST.cc
@@ -24,7 +24,7 @@ FunctionFIRST::FunctionFIRST(const std::string& name, const expression::Expressi
     FunctionExpression(name, args), value_(DBL_MAX), notFirst_(false) {}
 
 FunctionFIRST::FunctionFIRST(const FunctionFIRST& other) :
-    FunctionExpression(other.name_, other.args_), value_(other.value_), notFirst_(other.notFirst_) {}
+    FunctionExpression(other), value_(other.value_), notFirst_(other.notFirst_) {}
 
 std::shared_ptr<SQLExpression> FunctionFIRST::clone() const {
     return std::make_shared<FunctionFIRST>(*this);
diff --git a/src/eckit/sql/expression/function/FunctionIN.cc b/src/eckit/sql/expression/function/FunctionIN.cc
index 76906a3..9865ce3 100644
--- a/src/eckit/sql/expression/function/FunctionIN.cc
+++ b/src/eckit/sql/expression/function/FunctionIN.cc
@@ -22,7 +22,7 @@ FunctionIN::FunctionIN(const std::string& name, const expression::Expressions& a
     FunctionExpression(name, args), size_(args.size() - 1) {}
 
 FunctionIN::FunctionIN(const FunctionIN& other) :
-    FunctionExpression(other.name_, other.args_), size_(other.args_.size() - 1) {}
+    FunctionExpression(other), size_(other.args_.size() - 1) {}
 
 FunctionIN::~FunctionIN() {}
 
diff --git a/src/eckit/sql/expression/function/FunctionIntegerExpression.h b/src/eckit/sql/expression/function/FunctionIntegerExpression.h
index a4e4b19..8b8100b 100644
--- a/src/eckit/sql/expression/function/FunctionIntegerExpression.h
+++ b/src/eckit/sql/expression/function/FunctionIntegerExpression.h
@@ -36,10 +36,13 @@ public:
 
     static int arity() { return 1; }
 
+protected:
+
+    FunctionIntegerExpression(const FunctionIntegerExpression&) = default;
+
 private:
 
-    // No copy allowed
-    FunctionIntegerExpression(const FunctionIntegerExpression&);
+    // No assignment allowed
     FunctionIntegerExpression& operator=(const FunctionIntegerExpression&);
 
     // -- Friends
diff --git a/src/eckit/sql/expression/function/FunctionJOIN.cc b/src/eckit/sql/expression/function/FunctionJOIN.cc
index aa0740a..ab94e57 100644
--- a/src/eckit/sql/expression/function/FunctionJOIN.cc
+++ b/src/eckit/sql/expression/function/FunctionJOIN.cc
@@ -21,7 +21,7 @@ static FunctionBuilder<FunctionJOIN> joinFunctionBuilder("join");
 FunctionJOIN::FunctionJOIN(const std::string& name, const expression::Expressions& args) :
     FunctionExpression(name, args) {}
 
-FunctionJOIN::FunctionJOIN(const FunctionJOIN& other) : FunctionExpression(other.name_, other.args_) {}
+FunctionJOIN::FunctionJOIN(const FunctionJOIN& other) : FunctionExpression(other) {}
 
 std::shared_ptr<SQLExpression> FunctionJOIN::clone() const {
     return std::make_shared<FunctionJOIN>(*this);
diff --git a/src/eckit/sql/expression/function/FunctionJULIAN.cc b/src/eckit/sql/expression/function/FunctionJULIAN.cc
index 8c87e0d..1529816 100644
--- a/src/eckit/sql/expression/function/FunctionJULIAN.cc
+++ b/src/eckit/sql/expression/function/FunctionJULIAN.cc
@@ -25,7 +25,7 @@ static FunctionBuilder<FunctionJULIAN> julian_dateFunctionBuilder("julian_date")
 FunctionJULIAN::FunctionJULIAN(const std::string& name, const expression::Expressions& args) :
     FunctionExpression(name, args) {}
 
-FunctionJULIAN::FunctionJULIAN(const FunctionJULIAN& other) : FunctionExpression(other.name_, other.args_) {}
+FunctionJULIAN::FunctionJULIAN(const FunctionJULIAN& other) : FunctionExpression(other) {}
 
 
 std::shared_ptr<SQLExpression> FunctionJULIAN::clone() const {
diff --git a/src/eckit/sql/expression/function/FunctionJULIAN_SECONDS.cc b/src/eckit/sql/expression/function/FunctionJULIAN_SECONDS.cc
index 8e0ce82..a22c810 100644
--- a/src/eckit/sql/expression/function/FunctionJULIAN_SECONDS.cc
+++ b/src/eckit/sql/expression/function/FunctionJULIAN_SECONDS.cc
@@ -24,7 +24,7 @@ FunctionJULIAN_SECONDS::FunctionJULIAN_SECONDS(const std::string& name, const ex
     FunctionExpression(name, args) {}
 
 FunctionJULIAN_SECONDS::FunctionJULIAN_SECONDS(const FunctionJULIAN_SECONDS& other) :
-    FunctionExpression(other.name_, other.args_) {}
+    FunctionExpression(other) {}
 
 std::shared_ptr<SQLExpression> FunctionJULIAN_SECONDS::clone() const {
     return std::make_shared<FunctionJULIAN_SECONDS>(*this);
diff --git a/src/eckit/sql/expression/function/FunctionLAST.cc b/src/eckit/sql/expression/function/FunctionLAST.cc
index c81b395..5d3f56d 100644
--- a/src/eckit/sql/expression/function/FunctionLAST.cc
+++ b/src/eckit/sql/expression/function/FunctionLAST.cc
@@ -24,7 +24,7 @@ FunctionLAST::FunctionLAST(const std::string& name, const expression::Expression
     FunctionExpression(name, args), value_(DBL_MAX) {}
 
 FunctionLAST::FunctionLAST(const FunctionLAST& other) :
-    FunctionExpression(other.name_, other.args_), value_(other.value_) {}
+    FunctionExpression(other), value_(other.value_) {}
 
 std::shared_ptr<SQLExpression> FunctionLAST::clone() const {
     return std::make_shared<FunctionLAST>(*this);
diff --git a/src/eckit/sql/expression/function/FunctionMATCH.cc b/src/eckit/sql/expression/function/FunctionMATCH.cc
index b76441b..f935720 100644
--- a/src/eckit/sql/expression/function/FunctionMATCH.cc
+++ b/src/eckit/sql/expression/function/FunctionMATCH.cc
@@ -31,7 +31,7 @@ FunctionMATCH::FunctionMATCH(const std::string& name, const expression::Expressi
     FunctionExpression(name, args), size_(args.size()), subquery_(selectAST), subqueryResult_() {}
 
 FunctionMATCH::FunctionMATCH(const FunctionMATCH& other) :
-    FunctionExpression(other.name_, other.args_),
+    FunctionExpression(other),
     size_(other.args_.size()),
     subquery_(other.subquery_),
     subqueryResult_(other.subqueryResult_) {}
diff --git a/src/eckit/sql/expression/function/FunctionMAX.cc b/src/eckit/sql/expression/function/FunctionMAX.cc
index 323c0cc..b0db059 100644
--- a/src/eckit/sql/expression/function/FunctionMAX.cc
+++ b/src/eckit/sql/expression/function/FunctionMAX.cc
@@ -24,7 +24,7 @@ FunctionMAX::FunctionMAX(const std::string& name, const expression::Expressions&
     FunctionExpression(name, args), value_(-DBL_MAX) {}
 
 FunctionMAX::FunctionMAX(const FunctionMAX& other) :
-    FunctionExpression(other.name_, other.args_), value_(other.value_) {}
+    FunctionExpression(other), value_(other.value_) {}
 
 std::shared_ptr<SQLExpression> FunctionMAX::clone() const {
     return std::make_shared<FunctionMAX>(*this);
diff --git a/src/eckit/sql/expression/function/FunctionMIN.cc b/src/eckit/sql/expression/function/FunctionMIN.cc
index 54ee4dc..dcec3c7 100644
--- a/src/eckit/sql/expression/function/FunctionMIN.cc
+++ b/src/eckit/sql/expression/function/FunctionMIN.cc
@@ -24,7 +24,7 @@ FunctionMIN::FunctionMIN(const std::string& name, const expression::Expressions&
     FunctionExpression(name, args), value_(DBL_MAX) {}
 
 FunctionMIN::FunctionMIN(const FunctionMIN& other) :
-    FunctionExpression(other.name_, other.args_), value_(other.value_) {}
+    FunctionExpression(other), value_(other.value_) {}
 
 std::shared_ptr<SQLExpression> FunctionMIN::clone() const {
     return std::make_shared<FunctionMIN>(*this);
diff --git a/src/eckit/sql/expression/function/FunctionNE.cc b/src/eckit/sql/expression/function/FunctionNE.cc
index 32f22e3..4b4f6c5 100644
--- a/src/eckit/sql/expression/function/FunctionNE.cc
+++ b/src/eckit/sql/expression/function/FunctionNE.cc
@@ -26,7 +26,7 @@ const type::SQLType* FunctionNE::type() const {
     return &type::SQLType::lookup("double");
 }
 
-FunctionNE::FunctionNE(const FunctionNE& other) : FunctionExpression(other.name_, other.args_), tmp_(other.tmp_) {}
+FunctionNE::FunctionNE(const FunctionNE& other) : FunctionExpression(other), tmp_(other.tmp_) {}
 
 FunctionNE::FunctionNE(const std::string& name, const expression::Expressions& args) :
     FunctionExpression(name, args), tmp_(0) {}
diff --git a/src/eckit/sql/expression/function/FunctionNORM.cc b/src/eckit/sql/expression/function/FunctionNORM.cc
index e1284e7..98162d1 100644
--- a/src/eckit/sql/expression/function/FunctionNORM.cc
+++ b/src/eckit/sql/expression/function/FunctionNORM.cc
@@ -23,7 +23,7 @@ FunctionNORM::FunctionNORM(const std::string& name, const expression::Expression
     FunctionExpression(name, args), value_(0), resultNULL_(true) {}
 
 FunctionNORM::FunctionNORM(const FunctionNORM& other) :
-    FunctionExpression(other.name_, other.args_), value_(other.value_), resultNULL_(other.resultNULL_) {}
+    FunctionExpression(other), value_(other.value_), resultNULL_(other.resultNULL_) {}
 
 std::shared_ptr<SQLExpression> FunctionNORM::clone() const {
     return std::make_shared<FunctionNORM>(*this);
diff --git a/src/eckit/sql/expression/function/FunctionNOT_IN.cc b/src/eckit/sql/expression/function/FunctionNOT_IN.cc
index 867ca7c..86bb238 100644
--- a/src/eckit/sql/expression/function/FunctionNOT_IN.cc
+++ b/src/eckit/sql/expression/function/FunctionNOT_IN.cc
@@ -22,7 +22,7 @@ FunctionNOT_IN::FunctionNOT_IN(const std::string& name, const expression::Expres
     FunctionExpression(name, args), size_(args.size() - 1) {}
 
 FunctionNOT_IN::FunctionNOT_IN(const FunctionNOT_IN& other) :
-    FunctionExpression(other.name_, other.args_), size_(other.args_.size() - 1) {}
+    FunctionExpression(other), size_(other.args_.size() - 1) {}
 
 FunctionNOT_IN::~FunctionNOT_IN() {}
 
diff --git a/src/eckit/sql/expression/function/FunctionNOT_NULL.cc b/src/eckit/sql/expression/function/FunctionNOT_NULL.cc
index a753656..035ec8a 100644
--- a/src/eckit/sql/expression/function/FunctionNOT_NULL.cc
+++ b/src/eckit/sql/expression/function/FunctionNOT_NULL.cc
@@ -20,7 +20,7 @@ static FunctionBuilder<FunctionNOT_NULL> not_nullFunctionBuilder("not_null");
 FunctionNOT_NULL::FunctionNOT_NULL(const std::string& name, const expression::Expressions& args) :
     FunctionExpression(name, args) {}
 
-FunctionNOT_NULL::FunctionNOT_NULL(const FunctionNOT_NULL& other) : FunctionExpression(other.name_, other.args_) {}
+FunctionNOT_NULL::FunctionNOT_NULL(const FunctionNOT_NULL& other) : FunctionExpression(other) {}
 
 FunctionNOT_NULL::~FunctionNOT_NULL() {}
 
diff --git a/src/eckit/sql/expression/function/FunctionNULL.cc b/src/eckit/sql/expression/function/FunctionNULL.cc
index 97ed745..dbd55dd 100644
--- a/src/eckit/sql/expression/function/FunctionNULL.cc
+++ b/src/eckit/sql/expression/function/FunctionNULL.cc
@@ -21,7 +21,7 @@ static FunctionBuilder<FunctionNULL> isnullFunctionBuilder("isnull");
 FunctionNULL::FunctionNULL(const std::string& name, const expression::Expressions& args) :
     FunctionExpression(name, args) {}
 
-FunctionNULL::FunctionNULL(const FunctionNULL& other) : FunctionExpression(other.name_, other.args_) {}
+FunctionNULL::FunctionNULL(const FunctionNULL& other) : FunctionExpression(other) {}
 
 FunctionNULL::~FunctionNULL() {}
 
diff --git a/src/eckit/sql/expression/function/FunctionNVL.cc b/src/eckit/sql/expression/function/FunctionNVL.cc
index cd8bf67..b6152b5 100644
--- a/src/eckit/sql/expression/function/FunctionNVL.cc
+++ b/src/eckit/sql/expression/function/FunctionNVL.cc
@@ -20,7 +20,7 @@ static FunctionBuilder<FunctionNVL> nvlFunctionBuilder("nvl");
 FunctionNVL::FunctionNVL(const std::string& name, const expression::Expressions& args) :
     FunctionExpression(name, args) {}
 
-FunctionNVL::FunctionNVL(const FunctionNVL& other) : FunctionExpression(other.name_, other.args_) {}
+FunctionNVL::FunctionNVL(const FunctionNVL& other) : FunctionExpression(other) {}
 
 FunctionNVL::~FunctionNVL() {}
 
diff --git a/src/eckit/sql/expression/function/FunctionOR.cc b/src/eckit/sql/expression/function/FunctionOR.cc
index 4d36caa..8abe003 100644
--- a/src/eckit/sql/expression/function/FunctionOR.cc
+++ b/src/eckit/sql/expression/function/FunctionOR.cc
@@ -19,7 +19,7 @@ static FunctionBuilder<FunctionOR> orFunctionBuilder("or");
 
 FunctionOR::FunctionOR(const std::string& name, const expression::Expressions& args) : FunctionExpression(name, args) {}
 
-FunctionOR::FunctionOR(const FunctionOR& other) : FunctionExpression(other.name_, other.args_) {}
+FunctionOR::FunctionOR(const FunctionOR& other) : FunctionExpression(other) {}
 
 FunctionOR::~FunctionOR() {}
 
diff --git a/src/eckit/sql/expression/function/FunctionRLIKE.cc b/src/eckit/sql/expression/function/FunctionRLIKE.cc
index f40207b..3f31d69 100644
--- a/src/eckit/sql/expression/function/FunctionRLIKE.cc
+++ b/src/eckit/sql/expression/function/FunctionRLIKE.cc
@@ -29,7 +29,7 @@ const type::SQLType* FunctionRLIKE::type() const {
 }
 
 FunctionRLIKE::FunctionRLIKE(const FunctionRLIKE& other) :
-    FunctionExpression(other.name_, other.args_), re_(new eckit::Regex(*other.re_)) {}
+    FunctionExpression(other), re_(new eckit::Regex(*other.re_)) {}
 
 FunctionRLIKE::FunctionRLIKE(const std::string& name, const expression::Expressions& args) :
     FunctionExpression(name, args), re_() {}
diff --git a/src/eckit/sql/expression/function/FunctionRMS.cc b/src/eckit/sql/expression/function/FunctionRMS.cc
index ed3a67f..4da0775 100644
--- a/src/eckit/sql/expression/function/FunctionRMS.cc
+++ b/src/eckit/sql/expression/function/FunctionRMS.cc
@@ -23,7 +23,7 @@ FunctionRMS::FunctionRMS(const std::string& name, const expression::Expressions&
     FunctionExpression(name, args), count_(0), squares_(0) {}
 
 FunctionRMS::FunctionRMS(const FunctionRMS& other) :
-    FunctionExpression(other.name_, other.args_), count_(other.count_), squares_(other.squares_) {}
+    FunctionExpression(other), count_(other.count_), squares_(other.squares_) {}
 
 FunctionRMS::~FunctionRMS() {}
 
diff --git a/src/eckit/sql/expression/function/FunctionROWNUMBER.cc b/src/eckit/sql/expression/function/FunctionROWNUMBER.cc
index eab4403..1d631cb 100644
--- a/src/eckit/sql/expression/function/FunctionROWNUMBER.cc
+++ b/src/eckit/sql/expression/function/FunctionROWNUMBER.cc
@@ -27,7 +27,7 @@ FunctionROWNUMBER::FunctionROWNUMBER(const std::string& name, const expression::
 
 
 FunctionROWNUMBER::FunctionROWNUMBER(const FunctionROWNUMBER& other) :
-    FunctionIntegerExpression(other.name_, other.args_), count_(other.count_) {}
+    FunctionIntegerExpression(other), count_(other.count_) {}
 
 std::shared_ptr<SQLExpression> FunctionROWNUMBER::clone() const {
     return std::make_shared<FunctionROWNUMBER>(*this);
diff --git a/src/eckit/sql/expression/function/FunctionSUM.cc b/src/eckit/sql/expression/function/FunctionSUM.cc
index a1d98e8..f0ed768 100644
--- a/src/eckit/sql/expression/function/FunctionSUM.cc
+++ b/src/eckit/sql/expression/function/FunctionSUM.cc
@@ -21,7 +21,7 @@ FunctionSUM::FunctionSUM(const std::string& name, const expression::Expressions&
     FunctionExpression(name, args), value_(0), resultNULL_(true) {}
 
 FunctionSUM::FunctionSUM(const FunctionSUM& other) :
-    FunctionExpression(other.name_, other.args_), value_(other.value_), resultNULL_(other.resultNULL_) {}
+    FunctionExpression(other), value_(other.value_), resultNULL_(other.resultNULL_) {}
 
 FunctionSUM::~FunctionSUM() {}
 
diff --git a/src/eckit/sql/expression/function/FunctionSUM.h b/src/eckit/sql/expression/function/FunctionSUM.h
index 78d9aa9..0013b52 100644
--- a/src/eckit/sql/expression/function/FunctionSUM.h
+++ b/src/eckit/sql/expression/function/FunctionSUM.h
@@ -34,7 +34,6 @@ private:
     // No copy allowed
     FunctionSUM& operator=(const FunctionSUM&);
 
-    unsigned long long count_;
     double value_;
 
     // -- Overridden methods
diff --git a/src/eckit/sql/expression/function/FunctionTDIFF.cc b/src/eckit/sql/expression/function/FunctionTDIFF.cc
index ced9e16..13d4ebb 100644
--- a/src/eckit/sql/expression/function/FunctionTDIFF.cc
+++ b/src/eckit/sql/expression/function/FunctionTDIFF.cc
@@ -21,7 +21,7 @@ static FunctionBuilder<FunctionTDIFF> tdiffFunctionBuilder("tdiff");
 FunctionTDIFF::FunctionTDIFF(const std::string& name, const expression::Expressions& args) :
     FunctionIntegerExpression(name, args) {}
 
-FunctionTDIFF::FunctionTDIFF(const FunctionTDIFF& other) : FunctionIntegerExpression(other.name_, other.args_) {}
+FunctionTDIFF::FunctionTDIFF(const FunctionTDIFF& other) : FunctionIntegerExpression(other) {}
 
 std::shared_ptr<SQLExpression> FunctionTDIFF::clone() const {
     return std::make_shared<FunctionTDIFF>(*this);
diff --git a/src/eckit/sql/expression/function/FunctionTHIN.cc b/src/eckit/sql/expression/function/FunctionTHIN.cc
index 63342f7..1922eff 100644
--- a/src/eckit/sql/expression/function/FunctionTHIN.cc
+++ b/src/eckit/sql/expression/function/FunctionTHIN.cc
@@ -26,7 +26,7 @@ FunctionTHIN::FunctionTHIN(const std::string& name, const expression::Expression
     FunctionIntegerExpression(name, args), count_{nullptr} {}
 
 FunctionTHIN::FunctionTHIN(const FunctionTHIN& other) :
-    FunctionIntegerExpression(other.name_, other.args_), count_(other.count_) {}
+    FunctionIntegerExpression(other), count_(other.count_) {}
 
 FunctionTHIN::~FunctionTHIN() {}
 
diff --git a/src/eckit/sql/expression/function/FunctionTIMESTAMP.cc b/src/eckit/sql/expression/function/FunctionTIMESTAMP.cc
index 82ce96d..9ade8c8 100644
--- a/src/eckit/sql/expression/function/FunctionTIMESTAMP.cc
+++ b/src/eckit/sql/expression/function/FunctionTIMESTAMP.cc
@@ -24,7 +24,7 @@ FunctionTIMESTAMP::FunctionTIMESTAMP(const std::string& name, const expression::
     FunctionIntegerExpression(name, args) {}
 
 FunctionTIMESTAMP::FunctionTIMESTAMP(const FunctionTIMESTAMP& other) :
-    FunctionIntegerExpression(other.name_, other.args_) {}
+    FunctionIntegerExpression(other) {}
 
 std::shared_ptr<SQLExpression> FunctionTIMESTAMP::clone() const {
     return std::make_shared<FunctionTIMESTAMP>(*this);
diff --git a/src/eckit/sql/expression/function/FunctionVAR.cc b/src/eckit/sql/expression/function/FunctionVAR.cc
index 6ce3f29..a0a77ad 100644
--- a/src/eckit/sql/expression/function/FunctionVAR.cc
+++ b/src/eckit/sql/expression/function/FunctionVAR.cc
@@ -26,7 +26,7 @@ FunctionVAR::FunctionVAR(const std::string& name, const expression::Expressions&
     FunctionExpression(name, args), count_(0), value_(0), squares_(0) {}
 
 FunctionVAR::FunctionVAR(const FunctionVAR& other) :
-    FunctionExpression(other.name_, other.args_),
+    FunctionExpression(other),
     count_(other.count_),
     value_(other.value_),
     squares_(other.squares_) {}
-- 
2.43.0


From b700819c409ea1466b8a9251806b0b05fb866d63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:50:58 +0000
Subject: [PATCH 55/98] fix: order cluster node entries strictly

---
 src/eckit/io/cluster/ClusterNodes.cc | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/src/eckit/io/cluster/ClusterNodes.cc b/src/eckit/io/cluster/ClusterNodes.cc
index 31defb7..d6faac9 100644
--- a/src/eckit/io/cluster/ClusterNodes.cc
+++ b/src/eckit/io/cluster/ClusterNodes.cc
@@ -76,13 +76,11 @@ public:
     }
 
     bool operator<(const ClusterNodeEntry& other) const {
-        if (strcmp(node_, other.node_) < 0) {
-            return true;
-        }
-        if (strcmp(type_, other.type_) < 0) {
-            return true;
+        const int cmp = strcmp(node_, other.node_);
+        if (cmp != 0) {
+            return cmp < 0;
         }
-        return false;
+        return strcmp(type_, other.type_) < 0;
     }
 
     void send(Stream& s) const {
-- 
2.43.0


From c2fbfa23086c32785ac26cdbfe4395d95f20b1d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:50:58 +0000
Subject: [PATCH 56/98] fix: regular expressions of different syntax are not
 equal

---
 src/eckit/utils/Regex.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/eckit/utils/Regex.h b/src/eckit/utils/Regex.h
index e37c153..4e9641d 100644
--- a/src/eckit/utils/Regex.h
+++ b/src/eckit/utils/Regex.h
@@ -42,7 +42,7 @@ public:
 
     operator const std::string&() const { return str_; }
 
-    bool operator==(const Regex& other) const { return str_ == other.str_; }
+    bool operator==(const Regex& other) const { return str_ == other.str_ && extended_ == other.extended_; }
 
     static std::string escape(std::string_view);
 
-- 
2.43.0


From 93313a6d7a2684b1dcfefb71c5653a1d3f90e35a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:50:58 +0000
Subject: [PATCH 57/98] fix: evalAsString tests an uninitialised flag

---
 src/eckit/sql/expression/SQLExpression.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/eckit/sql/expression/SQLExpression.cc b/src/eckit/sql/expression/SQLExpression.cc
index 62e7f32..2dd5e55 100644
--- a/src/eckit/sql/expression/SQLExpression.cc
+++ b/src/eckit/sql/expression/SQLExpression.cc
@@ -49,7 +49,7 @@ std::shared_ptr<SQLExpression> SQLExpression::simplify(bool& changed) {
 }
 
 std::string SQLExpression::evalAsString(bool& missing) const {
-    bool m;
+    bool m   = false;
     double d = eval(m);
     if (m) {
         missing = true;
-- 
2.43.0


From ba09f43dfce60d40bf47ec92ebf95f840845cd36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:53:53 +0000
Subject: [PATCH 58/98] fix: objects owning a handle, descriptor or buffer are
 not copied

---
 src/eckit/cmd/Arg.cc            | 3 +++
 src/eckit/io/AIOHandle.h        | 3 +++
 src/eckit/io/FOpenDataHandle.cc | 3 +++
 src/eckit/io/FileDescHandle.h   | 3 +++
 src/eckit/io/HandleHolder.h     | 3 +++
 src/eckit/io/MemoryHandle.h     | 3 +++
 src/eckit/io/MultiHandle.h      | 3 +++
 src/eckit/io/RawFileHandle.h    | 3 +++
 src/eckit/io/SeekableHandle.h   | 3 +++
 src/eckit/io/TeeHandle.h        | 3 +++
 src/eckit/runtime/Metrics.h     | 3 +++
 11 files changed, 33 insertions(+)

diff --git a/src/eckit/cmd/Arg.cc b/src/eckit/cmd/Arg.cc
index f560453..8621bef 100644
--- a/src/eckit/cmd/Arg.cc
+++ b/src/eckit/cmd/Arg.cc
@@ -126,6 +126,9 @@ public:
     ArgContentList(ArgContent*, ArgContent*);
     ArgContentList(const std::vector<ArgContent*>&);
     ~ArgContentList();
+
+    ArgContentList(const ArgContentList&)            = delete;
+    ArgContentList& operator=(const ArgContentList&) = delete;
 };
 
 template <class T>
diff --git a/src/eckit/io/AIOHandle.h b/src/eckit/io/AIOHandle.h
index 808435b..e0020e4 100644
--- a/src/eckit/io/AIOHandle.h
+++ b/src/eckit/io/AIOHandle.h
@@ -27,6 +27,9 @@ public:  // methods
 
     ~AIOHandle() override;
 
+    AIOHandle(const AIOHandle&)            = delete;
+    AIOHandle& operator=(const AIOHandle&) = delete;
+
     Length openForRead() override;
     void openForWrite(const Length&) override;
     void openForAppend(const Length&) override;
diff --git a/src/eckit/io/FOpenDataHandle.cc b/src/eckit/io/FOpenDataHandle.cc
index da088cd..1fd9027 100644
--- a/src/eckit/io/FOpenDataHandle.cc
+++ b/src/eckit/io/FOpenDataHandle.cc
@@ -40,6 +40,9 @@ public:
     FOpenDataHandle(DataHandle* handle, const char* mode, bool delete_on_close, bool open_close);
     ~FOpenDataHandle();
 
+    FOpenDataHandle(const FOpenDataHandle&)            = delete;
+    FOpenDataHandle& operator=(const FOpenDataHandle&) = delete;
+
     long read(char* buffer, long length);
     long write(const char* buffer, long length);
     off_t seek(off_t pos, int whence);
diff --git a/src/eckit/io/FileDescHandle.h b/src/eckit/io/FileDescHandle.h
index f7175c6..ed27b8b 100644
--- a/src/eckit/io/FileDescHandle.h
+++ b/src/eckit/io/FileDescHandle.h
@@ -33,6 +33,9 @@ public:
 
     ~FileDescHandle();
 
+    FileDescHandle(const FileDescHandle&)            = delete;
+    FileDescHandle& operator=(const FileDescHandle&) = delete;
+
     // -- Overridden methods
 
     // From DataHandle
diff --git a/src/eckit/io/HandleHolder.h b/src/eckit/io/HandleHolder.h
index a8fc211..8831a08 100644
--- a/src/eckit/io/HandleHolder.h
+++ b/src/eckit/io/HandleHolder.h
@@ -36,6 +36,9 @@ public:
 
     ~HandleHolder();
 
+    HandleHolder(const HandleHolder&)            = delete;
+    HandleHolder& operator=(const HandleHolder&) = delete;
+
     // -- Methods
 
     // -- Overridden methods
diff --git a/src/eckit/io/MemoryHandle.h b/src/eckit/io/MemoryHandle.h
index 211f277..67a2bd8 100644
--- a/src/eckit/io/MemoryHandle.h
+++ b/src/eckit/io/MemoryHandle.h
@@ -32,6 +32,9 @@ public:
 
     ~MemoryHandle() override;
 
+    MemoryHandle(const MemoryHandle&)            = delete;
+    MemoryHandle& operator=(const MemoryHandle&) = delete;
+
     /// Access the underlying buffer
     /// Size is provided by both the non-const overriden virtual function size()
     /// and the const version (available only on this class)
diff --git a/src/eckit/io/MultiHandle.h b/src/eckit/io/MultiHandle.h
index a0cd619..6f1c261 100644
--- a/src/eckit/io/MultiHandle.h
+++ b/src/eckit/io/MultiHandle.h
@@ -40,6 +40,9 @@ public:
 
     ~MultiHandle() override;
 
+    MultiHandle(const MultiHandle&)            = delete;
+    MultiHandle& operator=(const MultiHandle&) = delete;
+
     // -- Operators
 
     virtual void operator+=(DataHandle*);
diff --git a/src/eckit/io/RawFileHandle.h b/src/eckit/io/RawFileHandle.h
index 7f1ad03..fa64d50 100644
--- a/src/eckit/io/RawFileHandle.h
+++ b/src/eckit/io/RawFileHandle.h
@@ -29,6 +29,9 @@ public:
 
     ~RawFileHandle();
 
+    RawFileHandle(const RawFileHandle&)            = delete;
+    RawFileHandle& operator=(const RawFileHandle&) = delete;
+
     Length openForRead() override;
     void openForWrite(const Length&) override;
     void openForAppend(const Length&) override;
diff --git a/src/eckit/io/SeekableHandle.h b/src/eckit/io/SeekableHandle.h
index c66d1a5..723402a 100644
--- a/src/eckit/io/SeekableHandle.h
+++ b/src/eckit/io/SeekableHandle.h
@@ -35,6 +35,9 @@ public:
 
     ~SeekableHandle() override;
 
+    SeekableHandle(const SeekableHandle&)            = delete;
+    SeekableHandle& operator=(const SeekableHandle&) = delete;
+
     // -- Operators
 
     // -- Methods
diff --git a/src/eckit/io/TeeHandle.h b/src/eckit/io/TeeHandle.h
index 67275f5..b627b95 100644
--- a/src/eckit/io/TeeHandle.h
+++ b/src/eckit/io/TeeHandle.h
@@ -38,6 +38,9 @@ public:
 
     ~TeeHandle();
 
+    TeeHandle(const TeeHandle&)            = delete;
+    TeeHandle& operator=(const TeeHandle&) = delete;
+
     // -- Operators
 
     virtual void operator+=(DataHandle*);
diff --git a/src/eckit/runtime/Metrics.h b/src/eckit/runtime/Metrics.h
index 9e1685d..c836f05 100644
--- a/src/eckit/runtime/Metrics.h
+++ b/src/eckit/runtime/Metrics.h
@@ -78,6 +78,9 @@ public:
     CollectMetrics();
     ~CollectMetrics();
 
+    CollectMetrics(const CollectMetrics&)            = delete;
+    CollectMetrics& operator=(const CollectMetrics&) = delete;
+
 
     friend std::ostream& operator<<(std::ostream& s, const CollectMetrics& m) {
         m.print(s);
-- 
2.43.0


From bb802797d02b788705349b610c501485d4d2bdc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:54:10 +0000
Subject: [PATCH 59/98] fix: assigning a socket or a mapped tree releases what
 the object held

---
 src/eckit/container/KDMapped.cc | 7 +++++++
 src/eckit/net/TCPSocket.cc      | 5 +++++
 2 files changed, 12 insertions(+)

diff --git a/src/eckit/container/KDMapped.cc b/src/eckit/container/KDMapped.cc
index a0818f8..d0d812b 100644
--- a/src/eckit/container/KDMapped.cc
+++ b/src/eckit/container/KDMapped.cc
@@ -120,6 +120,13 @@ KDMapped& KDMapped::operator=(const KDMapped& other) {
         return *this;
     }
 
+    if (addr_) {
+        SYSCALL(munmap(addr_, size_));
+    }
+    if (fd_ >= 0) {
+        SYSCALL(close(fd_));
+    }
+
     path_  = other.path_;
     count_ = other.count_;
     size_  = other.size_;
diff --git a/src/eckit/net/TCPSocket.cc b/src/eckit/net/TCPSocket.cc
index fc980a9..49168b4 100644
--- a/src/eckit/net/TCPSocket.cc
+++ b/src/eckit/net/TCPSocket.cc
@@ -74,6 +74,11 @@ TCPSocket::~TCPSocket() {
 
 // This contructor performs a change of ownership of the socket
 TCPSocket& TCPSocket::operator=(net::TCPSocket& other) {
+    if (this == &other) {
+        return *this;
+    }
+
+    TCPSocket::close();
     socket_ = other.socket_;
 
     localAddr_  = other.localAddr_;
-- 
2.43.0


From d29938a110f509f93ecb047fcffb2d1ea1ba1199 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:57:19 +0000
Subject: [PATCH 60/98] fix: holders of counted references are not copied

---
 src/eckit/io/EasyCURL.h        | 3 +++
 src/eckit/parser/YAMLParser.cc | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/src/eckit/io/EasyCURL.h b/src/eckit/io/EasyCURL.h
index 58b1a34..d1cd588 100644
--- a/src/eckit/io/EasyCURL.h
+++ b/src/eckit/io/EasyCURL.h
@@ -69,6 +69,9 @@ public:
 
     ~EasyCURL();
 
+    EasyCURL(const EasyCURL&)            = delete;
+    EasyCURL& operator=(const EasyCURL&) = delete;
+
     EasyCURLResponse GET(const std::string& url, bool stream = false);
     EasyCURLResponse HEAD(const std::string& url);
     EasyCURLResponse PUT(const std::string& url, const std::string& data);
diff --git a/src/eckit/parser/YAMLParser.cc b/src/eckit/parser/YAMLParser.cc
index 6eb51a9..4776fec 100644
--- a/src/eckit/parser/YAMLParser.cc
+++ b/src/eckit/parser/YAMLParser.cc
@@ -68,6 +68,9 @@ public:
     YAMLItemLock(const YAMLItem* item) : item_{nullptr} { set(item); }
     ~YAMLItemLock() { set(nullptr); }
 
+    YAMLItemLock(const YAMLItemLock&)            = delete;
+    YAMLItemLock& operator=(const YAMLItemLock&) = delete;
+
     void set(const YAMLItem* item) {
         if (item != item_) {
             if (item_) {
-- 
2.43.0


From df6820819b4c502eb0eb3aacd53beee0038f5393 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:05:11 +0000
Subject: [PATCH 61/98] fix: fields and locals read before they have a value

---
 src/eckit/codec/ReadRequest.h                 |  2 +-
 src/eckit/codec/types/scalar.cc               |  2 +-
 src/eckit/container/Trie.h                    |  2 +-
 src/eckit/filesystem/FileSpaceStrategies.cc   |  2 +-
 src/eckit/io/MMappedFileHandle.h              |  2 +-
 src/eckit/io/Pipeline.h                       |  6 +++---
 src/eckit/io/URLHandle.h                      |  2 +-
 src/eckit/log/ProgressTimer.h                 |  2 +-
 src/eckit/mpi/Comm.h                          |  4 ++--
 src/eckit/mpi/ParallelGroup.h                 |  2 +-
 src/eckit/mpi/ParallelRequest.h               |  2 +-
 src/eckit/mpi/SerialStatus.h                  |  2 +-
 src/eckit/net/HttpHeader.h                    |  2 +-
 src/eckit/sql/SQLSimpleOutput.h               |  2 +-
 src/eckit/sql/expression/ConstantExpression.h |  6 +++---
 src/tools/eckit-hash.cc                       | 12 ++++++------
 16 files changed, 26 insertions(+), 26 deletions(-)

diff --git a/src/eckit/codec/ReadRequest.h b/src/eckit/codec/ReadRequest.h
index 830a78c..5fc7c37 100644
--- a/src/eckit/codec/ReadRequest.h
+++ b/src/eckit/codec/ReadRequest.h
@@ -61,7 +61,7 @@ private:
     ReadRequest(Stream, size_t offset, const std::string& key, Decoder*);
 
     Stream stream_;
-    size_t offset_;
+    size_t offset_ = 0;
     std::string key_;
     std::string uri_;
     std::unique_ptr<Decoder> decoder_;
diff --git a/src/eckit/codec/types/scalar.cc b/src/eckit/codec/types/scalar.cc
index 2729e91..12720ce 100644
--- a/src/eckit/codec/types/scalar.cc
+++ b/src/eckit/codec/types/scalar.cc
@@ -41,7 +41,7 @@ template <typename T>
 void decode_scalar(const Metadata& metadata, T& value) {
     ASSERT(metadata.getString("type") == "scalar");
     ASSERT(metadata.getString("datatype") == DataType::str<T>());
-    metadata.get("value", value);
+    ASSERT(metadata.get("value", value));
 }
 
 template <typename T>
diff --git a/src/eckit/container/Trie.h b/src/eckit/container/Trie.h
index f542eeb..f5b6ea0 100644
--- a/src/eckit/container/Trie.h
+++ b/src/eckit/container/Trie.h
@@ -64,7 +64,7 @@ private:  // members
     bool set_;
 
     std::vector<Trie<T>*> kids_;
-    T value_;
+    T value_{};
 
 private:  // friends
 
diff --git a/src/eckit/filesystem/FileSpaceStrategies.cc b/src/eckit/filesystem/FileSpaceStrategies.cc
index d70b255..8bbd23c 100644
--- a/src/eckit/filesystem/FileSpaceStrategies.cc
+++ b/src/eckit/filesystem/FileSpaceStrategies.cc
@@ -30,7 +30,7 @@ struct Candidate {
 
     FileSystemSize size_;
 
-    double probability_;
+    double probability_ = 0;
 
     Candidate(const PathName* path) : path_(path) {}
 
diff --git a/src/eckit/io/MMappedFileHandle.h b/src/eckit/io/MMappedFileHandle.h
index d2a00b6..9e5a748 100644
--- a/src/eckit/io/MMappedFileHandle.h
+++ b/src/eckit/io/MMappedFileHandle.h
@@ -79,7 +79,7 @@ private:  // members
     std::unique_ptr<DataHandle> handle_;
     void* mmap_;
     int fd_;
-    off_t length_;
+    off_t length_ = 0;
 
 private:  // methods
 
diff --git a/src/eckit/io/Pipeline.h b/src/eckit/io/Pipeline.h
index a393432..4e47f4e 100644
--- a/src/eckit/io/Pipeline.h
+++ b/src/eckit/io/Pipeline.h
@@ -59,8 +59,8 @@ private:  // members
 
     Mutex mutex_;
 
-    long count_;
-    long bufSize_;
+    long count_   = 0;
+    long bufSize_ = 0;
 
     Length inBytes_;
     Length outBytes_;
@@ -68,7 +68,7 @@ private:  // members
     bool error_;
     std::string why_;
 
-    bool restart_;
+    bool restart_ = false;
 
     Offset restartFrom_;
     TransferWatcher& watcher_;
diff --git a/src/eckit/io/URLHandle.h b/src/eckit/io/URLHandle.h
index 79f427e..3379e67 100644
--- a/src/eckit/io/URLHandle.h
+++ b/src/eckit/io/URLHandle.h
@@ -73,7 +73,7 @@ private:
     std::string uri_;
     std::unique_ptr<DataHandle> handle_;
 
-    bool useSSL_;
+    bool useSSL_ = false;
 
     DataHandle& handle();
 
diff --git a/src/eckit/log/ProgressTimer.h b/src/eckit/log/ProgressTimer.h
index f06095f..9da9c99 100644
--- a/src/eckit/log/ProgressTimer.h
+++ b/src/eckit/log/ProgressTimer.h
@@ -56,7 +56,7 @@ private:  // members
 
     size_t counter_;
     double lastTime_;
-    bool hasOutput_;
+    bool hasOutput_ = false;
 };
 
 //-----------------------------------------------------------------------------
diff --git a/src/eckit/mpi/Comm.h b/src/eckit/mpi/Comm.h
index 668cbaf..81e4cf3 100644
--- a/src/eckit/mpi/Comm.h
+++ b/src/eckit/mpi/Comm.h
@@ -496,8 +496,8 @@ protected:  // methods
     virtual ~Comm();
 
     std::string name_;
-    size_t rank_;
-    size_t size_;
+    size_t rank_ = 0;
+    size_t size_ = 1;
 };
 
 //----------------------------------------------------------------------------------------------------------------------
diff --git a/src/eckit/mpi/ParallelGroup.h b/src/eckit/mpi/ParallelGroup.h
index c3740ac..4eaeeb7 100644
--- a/src/eckit/mpi/ParallelGroup.h
+++ b/src/eckit/mpi/ParallelGroup.h
@@ -81,7 +81,7 @@ private:  // members
     friend class Parallel;
 
     bool valid_;
-    MPI_Group group_;
+    MPI_Group group_ = MPI_GROUP_NULL;
 };
 
 //----------------------------------------------------------------------------------------------------------------------
diff --git a/src/eckit/mpi/ParallelRequest.h b/src/eckit/mpi/ParallelRequest.h
index 276bb4f..0198b0f 100644
--- a/src/eckit/mpi/ParallelRequest.h
+++ b/src/eckit/mpi/ParallelRequest.h
@@ -44,7 +44,7 @@ private:  // members
 
     friend class Parallel;
 
-    MPI_Request request_;
+    MPI_Request request_ = MPI_REQUEST_NULL;
 };
 
 //----------------------------------------------------------------------------------------------------------------------
diff --git a/src/eckit/mpi/SerialStatus.h b/src/eckit/mpi/SerialStatus.h
index 4f4f734..abc1b16 100644
--- a/src/eckit/mpi/SerialStatus.h
+++ b/src/eckit/mpi/SerialStatus.h
@@ -40,7 +40,7 @@ private:  // members
     int tag_;
     int error_;
 
-    size_t count_;  ///< counts number of elements transfered in comm
+    size_t count_ = 0;  ///< counts number of elements transfered in comm
 };
 
 //----------------------------------------------------------------------------------------------------------------------
diff --git a/src/eckit/net/HttpHeader.h b/src/eckit/net/HttpHeader.h
index d1ecb03..4adf789 100644
--- a/src/eckit/net/HttpHeader.h
+++ b/src/eckit/net/HttpHeader.h
@@ -99,7 +99,7 @@ private:  // members
 
     std::string version_;
     long statusCode_;
-    long contentLength_;
+    long contentLength_ = 0;
     std::string message_;
     bool received_;
 
diff --git a/src/eckit/sql/SQLSimpleOutput.h b/src/eckit/sql/SQLSimpleOutput.h
index c1b73c9..bda7025 100644
--- a/src/eckit/sql/SQLSimpleOutput.h
+++ b/src/eckit/sql/SQLSimpleOutput.h
@@ -63,7 +63,7 @@ private:  // members
     std::vector<size_t> columnWidths_;
     using manipulator = std::ios_base& (*)(std::ios_base&);
     std::vector<manipulator> columnAlignments_;
-    size_t currentColumn_;
+    size_t currentColumn_ = 0;
 
     const SQLOutputConfig& config_;
 };
diff --git a/src/eckit/sql/expression/ConstantExpression.h b/src/eckit/sql/expression/ConstantExpression.h
index 5fb5f3f..1c1f5e2 100644
--- a/src/eckit/sql/expression/ConstantExpression.h
+++ b/src/eckit/sql/expression/ConstantExpression.h
@@ -84,10 +84,10 @@ protected:
 
     void print(std::ostream&) const override { NOTIMP; }
 
-    bool isBitfield_;
+    bool isBitfield_ = false;
     BitfieldDef bitfieldDef_;
-    bool hasMissingValue_;
-    double missingValue_;
+    bool hasMissingValue_ = false;
+    double missingValue_  = 0;
 
     double value_;
     bool missing_;
diff --git a/src/tools/eckit-hash.cc b/src/tools/eckit-hash.cc
index ea41976..fada1db 100644
--- a/src/tools/eckit-hash.cc
+++ b/src/tools/eckit-hash.cc
@@ -67,12 +67,12 @@ public:
 
     std::vector<std::string> failures_;
 
-    bool quiet_;
-    bool continue_;
-    bool recurse_;
-    bool check_;
-    bool generate_;
-    bool clean_;
+    bool quiet_    = false;
+    bool continue_ = true;
+    bool recurse_  = true;
+    bool check_    = true;
+    bool generate_ = false;
+    bool clean_    = false;
 
     std::unique_ptr<Hash> hash_;
     PathName last_;
-- 
2.43.0


From 7368a787fcc1fc2bbbe51988901c4c12854b44a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:16:25 +0000
Subject: [PATCH 62/98] fix: descriptors, streams and mappings are released on
 every way out

---
 src/eckit/container/KDMapped.cc       | 22 +++++++++++++---------
 src/eckit/container/KDMapped.h        |  2 ++
 src/eckit/container/MappedArray.cc    | 21 +++++++++++++++++++--
 src/eckit/container/MappedArray.h     |  9 ++++++---
 src/eckit/container/SharedMemArray.cc | 23 +++++++++++++++++++++--
 src/eckit/container/SharedMemArray.h  |  9 ++++++---
 src/eckit/filesystem/LocalPathName.cc | 11 ++++++-----
 src/eckit/filesystem/TmpFile.cc       |  2 +-
 src/eckit/io/CommandStream.cc         |  3 +++
 src/eckit/net/TCPServer.cc            |  7 ++++++-
 src/eckit/net/TCPSocket.cc            | 22 ++++++++++++++++++++--
 src/eckit/net/UDPClient.cc            |  1 +
 src/eckit/net/UDPServer.cc            |  1 +
 src/eckit/serialisation/FileStream.cc |  5 ++---
 14 files changed, 107 insertions(+), 31 deletions(-)

diff --git a/src/eckit/container/KDMapped.cc b/src/eckit/container/KDMapped.cc
index d0d812b..9295e85 100644
--- a/src/eckit/container/KDMapped.cc
+++ b/src/eckit/container/KDMapped.cc
@@ -26,14 +26,12 @@
 namespace eckit {
 
 
+KDMapped::KDMapped(const PathName& path, const KDMappedHeader& header) :
+    path_(path), header_(header), size_(0), base_{nullptr}, root_(0), addr_{nullptr}, fd_(-1) {}
+
+// From here on the object is one whose destructor runs, even if this throws
 KDMapped::KDMapped(const PathName& path, size_t itemCount, size_t itemSize, size_t metadataSize) :
-    path_(path),
-    header_(itemCount, itemSize, metadataSize),
-    size_(0),
-    base_{nullptr},
-    root_(0),
-    addr_{nullptr},
-    fd_(-1) {
+    KDMapped(path, KDMappedHeader(itemCount, itemSize, metadataSize)) {
 
     int oflags = O_RDWR | O_CREAT;
     int mflags = PROT_READ | PROT_WRITE;
@@ -84,6 +82,7 @@ KDMapped::KDMapped(const PathName& path, size_t itemCount, size_t itemSize, size
 
     addr_ = MMap::mmap(nullptr, size_, mflags, MAP_SHARED, fd_, 0);
     if (addr_ == MAP_FAILED) {
+        addr_ = nullptr;
         Log::error() << "open(" << path << ')' << Log::syserr << std::endl;
         throw FailedSystemCall("mmap");
     }
@@ -121,10 +120,15 @@ KDMapped& KDMapped::operator=(const KDMapped& other) {
     }
 
     if (addr_) {
-        SYSCALL(munmap(addr_, size_));
+        void* addr = addr_;
+        addr_      = nullptr;
+        SYSCALL(munmap(addr, size_));
     }
+
     if (fd_ >= 0) {
-        SYSCALL(close(fd_));
+        int fd = fd_;
+        fd_    = -1;
+        SYSCALL(close(fd));
     }
 
     path_  = other.path_;
diff --git a/src/eckit/container/KDMapped.h b/src/eckit/container/KDMapped.h
index c1756d0..aeb18c6 100644
--- a/src/eckit/container/KDMapped.h
+++ b/src/eckit/container/KDMapped.h
@@ -109,6 +109,8 @@ public:
 
 private:
 
+    KDMapped(const PathName&, const KDMappedHeader&);
+
     PathName path_;
 
     KDMappedHeader header_;
diff --git a/src/eckit/container/MappedArray.cc b/src/eckit/container/MappedArray.cc
index 6714186..ed97b35 100644
--- a/src/eckit/container/MappedArray.cc
+++ b/src/eckit/container/MappedArray.cc
@@ -29,7 +29,13 @@ namespace eckit {
 //----------------------------------------------------------------------------------------------------------------------
 
 template <class T>
-MappedArray<T>::MappedArray(const PathName& path, unsigned long size) : sem_(path), size_(size) {
+MappedArray<T>::MappedArray(const PathName& path) : sem_(path), size_(0) {}
+
+// From here on the object is one whose destructor runs, even if this throws
+template <class T>
+MappedArray<T>::MappedArray(const PathName& path, unsigned long size) : MappedArray(path) {
+
+    size_ = size;
 
     AutoLock<Semaphore> lock(sem_);
 
@@ -47,6 +53,7 @@ MappedArray<T>::MappedArray(const PathName& path, unsigned long size) : sem_(pat
     bool initHeader = s.st_size < static_cast<long int>(sizeof(PaddedHeader));
 
     off_t length = size_ * sizeof(T) + sizeof(PaddedHeader);
+    length_      = length;
 
     // Resize if needed
 
@@ -63,6 +70,7 @@ MappedArray<T>::MappedArray(const PathName& path, unsigned long size) : sem_(pat
 
     map_ = MMap::mmap(0, length, PROT_READ | PROT_WRITE, MAP_SHARED, fd_, 0);
     if (map_ == MAP_FAILED) {
+        map_ = nullptr;
         Log::error() << "MappedArray path=" << path << " size=" << size
                      << " fails to mmap(0,length,PROT_READ|PROT_WRITE,MAP_SHARED,fd_,0)" << Log::syserr << std::endl;
         throw FailedSystemCall("mmap", Here());
@@ -80,7 +88,16 @@ MappedArray<T>::MappedArray(const PathName& path, unsigned long size) : sem_(pat
 
 template <class T>
 MappedArray<T>::~MappedArray() {
-    // Unmap here...
+    if (map_) {
+        if (MMap::munmap(map_, length_) < 0) {
+            Log::error() << "munmap" << Log::syserr << std::endl;
+        }
+    }
+    if (fd_ >= 0) {
+        if (::close(fd_) < 0) {
+            Log::error() << "close" << Log::syserr << std::endl;
+        }
+    }
 }
 
 template <class T>
diff --git a/src/eckit/container/MappedArray.h b/src/eckit/container/MappedArray.h
index c53b266..8225cc8 100644
--- a/src/eckit/container/MappedArray.h
+++ b/src/eckit/container/MappedArray.h
@@ -65,11 +65,14 @@ public:
 
 private:  // members
 
+    explicit MappedArray(const PathName&);
+
     Semaphore sem_;
-    void* map_;
-    int fd_;
+    void* map_     = nullptr;
+    size_t length_ = 0;
+    int fd_        = -1;
 
-    T* array_;
+    T* array_ = nullptr;
     unsigned long size_;
 
     static unsigned long mapped_array_version() { return 1; }
diff --git a/src/eckit/container/SharedMemArray.cc b/src/eckit/container/SharedMemArray.cc
index 3f46d1f..e791a48 100644
--- a/src/eckit/container/SharedMemArray.cc
+++ b/src/eckit/container/SharedMemArray.cc
@@ -21,9 +21,17 @@ namespace eckit {
 
 //----------------------------------------------------------------------------------------------------------------------
 
+template <class T>
+SharedMemArray<T>::SharedMemArray(const PathName& path) : sem_(path), size_(0) {}
+
+// From here on the object is one whose destructor runs, even if this throws
 template <class T>
 SharedMemArray<T>::SharedMemArray(const PathName& path, const std::string& shmName, size_t size) :
-    sem_(path), size_(size), shmName_(shmName) {
+    SharedMemArray(path) {
+
+    size_    = size;
+    shmName_ = shmName;
+
     eckit::Log::debug<LibEcKit>() << "SharedMemArray semaphore path=" << path << ", size=" << size
                                   << ", shmName=" << shmName << std::endl;
 
@@ -41,6 +49,7 @@ SharedMemArray<T>::SharedMemArray(const PathName& path, const std::string& shmNa
     SYSCALL(Stat::fstat(fd_, &s));
 
     off_t length = size_ * sizeof(T) + sizeof(PaddedHeader);
+    length_      = length;
 
     eckit::Log::debug<LibEcKit>() << "SharedMemArray fd_=" << fd_ << ", s.st_size=" << s.st_size
                                   << ", length=" << length << std::endl;
@@ -55,6 +64,7 @@ SharedMemArray<T>::SharedMemArray(const PathName& path, const std::string& shmNa
 
     map_ = MMap::mmap(0, length, PROT_READ | PROT_WRITE, MAP_SHARED, fd_, 0);
     if (map_ == MAP_FAILED) {
+        map_ = nullptr;
         Log::error() << "SharedMemArray name=" << shmName_ << " size=" << size
                      << " fails to mmap(0,length,PROT_READ|PROT_WRITE,MAP_SHARED,fd_,0)" << Log::syserr << std::endl;
         throw FailedSystemCall("mmap", Here());
@@ -73,7 +83,16 @@ SharedMemArray<T>::SharedMemArray(const PathName& path, const std::string& shmNa
 
 template <class T>
 SharedMemArray<T>::~SharedMemArray() {
-    // Unmap here...
+    if (map_) {
+        if (MMap::munmap(map_, length_) < 0) {
+            Log::error() << "munmap" << Log::syserr << std::endl;
+        }
+    }
+    if (fd_ >= 0) {
+        if (::close(fd_) < 0) {
+            Log::error() << "close" << Log::syserr << std::endl;
+        }
+    }
 }
 
 template <class T>
diff --git a/src/eckit/container/SharedMemArray.h b/src/eckit/container/SharedMemArray.h
index 33303bf..fc1a4db 100644
--- a/src/eckit/container/SharedMemArray.h
+++ b/src/eckit/container/SharedMemArray.h
@@ -66,11 +66,14 @@ public:  // methods
 
 private:  // members
 
+    explicit SharedMemArray(const PathName&);
+
     Semaphore sem_;
-    void* map_;
-    int fd_;
+    void* map_     = nullptr;
+    size_t length_ = 0;
+    int fd_        = -1;
 
-    T* array_;
+    T* array_ = nullptr;
     size_t size_;
 
     std::string shmName_;
diff --git a/src/eckit/filesystem/LocalPathName.cc b/src/eckit/filesystem/LocalPathName.cc
index c56412c..457e414 100644
--- a/src/eckit/filesystem/LocalPathName.cc
+++ b/src/eckit/filesystem/LocalPathName.cc
@@ -948,21 +948,22 @@ void LocalPathName::syncParentDirectory() const {
         SYSCALL(-1);
     }
 
-    int dir;
-    SYSCALL(dir = dirfd(d));
-    int ret = fsync(dir);
+    int dir = dirfd(d);
+    int ret = dir < 0 ? -1 : fsync(dir);
 
     while (ret < 0 && errno == EINTR) {
         ret = fsync(dir);
     }
 
+    int err = errno;
+    ::closedir(d);
+    errno = err;
+
     if (ret < 0) {
         std::ostringstream oss;
         Log::error() << "Cannot fsync directory [" << directory << "]";
         throw FailedSystemCall(oss.str());
     }
-
-    ::closedir(d);
 #else
     Log::info() << "Syncing directory " << directory << " (not supported)" << std::endl;
 #endif
diff --git a/src/eckit/filesystem/TmpFile.cc b/src/eckit/filesystem/TmpFile.cc
index f26731c..ac430d1 100644
--- a/src/eckit/filesystem/TmpFile.cc
+++ b/src/eckit/filesystem/TmpFile.cc
@@ -29,11 +29,11 @@ static PathName tmp() {
     snprintf(path, max, "%s/eckitXXXXXXXXXXX", tmpdir);
     int fd;
     SYSCALL2(fd = ::mkstemp(path), path);
+    SYSCALL(::close(fd));
 
     PathName result(path);
     result.touch();
 
-    SYSCALL(::close(fd));
 
     delete[] path;
 
diff --git a/src/eckit/io/CommandStream.cc b/src/eckit/io/CommandStream.cc
index 1e3d327..0f44870 100644
--- a/src/eckit/io/CommandStream.cc
+++ b/src/eckit/io/CommandStream.cc
@@ -27,6 +27,9 @@ CommandStream::CommandStream(const std::string& name, const char* mode) : file_(
 }
 
 CommandStream::~CommandStream() {
+    if (::pclose(file_) == -1) {
+        Log::warning() << "CommandStream: pclose" << Log::syserr << std::endl;
+    }
     // Somethings wrong here, throw in a dtor ??
     //	if(pclose(file_))
     //		throw WriteError("CommandStream::~CommandStream()");
diff --git a/src/eckit/net/TCPServer.cc b/src/eckit/net/TCPServer.cc
index 8e4db0f..68d943c 100644
--- a/src/eckit/net/TCPServer.cc
+++ b/src/eckit/net/TCPServer.cc
@@ -69,7 +69,12 @@ TCPSocket& TCPServer::accept(const std::string& message, int timeout, bool* conn
             Log::status() << std::endl;
         }
 
-        if ((socket_ = ::accept(listen_, reinterpret_cast<sockaddr*>(&from), &fromlen)) >= 0) {
+        int s = ::accept(listen_, reinterpret_cast<sockaddr*>(&from), &fromlen);
+        if (s >= 0) {
+            if (socket_ >= 0) {
+                ::close(socket_);  // the connection before, which nobody took over
+            }
+            socket_ = s;
             break;
         }
 
diff --git a/src/eckit/net/TCPSocket.cc b/src/eckit/net/TCPSocket.cc
index 49168b4..71559ed 100644
--- a/src/eckit/net/TCPSocket.cc
+++ b/src/eckit/net/TCPSocket.cc
@@ -46,6 +46,20 @@ namespace eckit::net {
 
 static in_addr none = {INADDR_NONE};
 
+namespace {
+
+/// A socket that is closed unless it is handed on
+struct OpenSocket {
+    int socket_;
+    ~OpenSocket() {
+        if (socket_ >= 0) {
+            ::close(socket_);
+        }
+    }
+};
+
+}  // namespace
+
 static StaticMutex local_mutex;
 
 TCPSocket::UnknownHost::UnknownHost(const std::string& host) : Exception(std::string("Unknown host ") + host) {}
@@ -301,9 +315,10 @@ long TCPSocket::read(void* buf, long length) const {
 
 void TCPSocket::close() {
     if (socket_ != -1) {
-        SYSCALL(::close(socket_));
+        int s   = socket_;
+        socket_ = -1;
+        SYSCALL(::close(s));
     }
-    socket_     = -1;
     remotePort_ = localPort_ = -1;
     localHost_ = remoteHost_ = "";
     localAddr_ = remoteAddr_ = none;
@@ -520,6 +535,8 @@ int TCPSocket::createSocket(int port, const SocketOptions& opts) {
         throw FailedSystemCall("::socket");
     }
 
+    OpenSocket open{s};
+
     if (opts.reuseAddr()) {
         int flg = 1;
         if (::setsockopt(s, SOL_SOCKET, SO_REUSEADDR, &flg, sizeof(flg)) < 0) {
@@ -636,6 +653,7 @@ int TCPSocket::createSocket(int port, const SocketOptions& opts) {
     // Set the socket 'close on exec'
     SYSCALL(fcntl(s, F_SETFD, FD_CLOEXEC));
 
+    open.socket_ = -1;
     return s;
 }
 
diff --git a/src/eckit/net/UDPClient.cc b/src/eckit/net/UDPClient.cc
index c4bf1e4..c79928f 100644
--- a/src/eckit/net/UDPClient.cc
+++ b/src/eckit/net/UDPClient.cc
@@ -66,6 +66,7 @@ void UDPClient::init() {
     if (addr_ == nullptr) {
         std::ostringstream msg;
         msg << "UDPClient failed to create a socket";
+        ::freeaddrinfo(servinfo_);
         throw FailedSystemCall(msg.str());
     }
 }
diff --git a/src/eckit/net/UDPServer.cc b/src/eckit/net/UDPServer.cc
index c11a6bf..e0c0038 100644
--- a/src/eckit/net/UDPServer.cc
+++ b/src/eckit/net/UDPServer.cc
@@ -73,6 +73,7 @@ UDPServer::UDPServer(int port) : port_(port), socketfd_(0) {
     if (addr == nullptr) {
         std::ostringstream msg;
         msg << "UDPServer failed to create a socket";
+        ::freeaddrinfo(servinfo);
         throw FailedSystemCall(msg.str(), Here());
     }
 
diff --git a/src/eckit/serialisation/FileStream.cc b/src/eckit/serialisation/FileStream.cc
index 8649edd..08cc95f 100644
--- a/src/eckit/serialisation/FileStream.cc
+++ b/src/eckit/serialisation/FileStream.cc
@@ -57,9 +57,8 @@ void FileStream::close() {
             SYSCALL(-1);
         }
 
-        int dir;
-        SYSCALL(dir = dirfd(d));
-        ret = ::fsync(dir);
+        int dir = dirfd(d);
+        ret     = dir < 0 ? -1 : ::fsync(dir);
 
         while (ret < 0 && errno == EINTR) {
             ret = fsync(dir);
-- 
2.43.0


From e293f4ba01a836985446f53094a87587b373216f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:16:25 +0000
Subject: [PATCH 63/98] fix: a handle reopened releases what it held, and a
 failed close is not repeated

---
 src/eckit/io/AIOHandle.cc            |  7 +++++--
 src/eckit/io/FileHandle.cc           |  9 ++++++++-
 src/eckit/io/MMappedFileHandle.cc    | 12 ++++++++----
 src/eckit/io/PipeHandle.cc           |  6 +++++-
 src/eckit/io/PooledFile.cc           |  5 +++--
 src/eckit/io/PooledFileDescriptor.cc |  5 ++++-
 src/eckit/io/RawFileHandle.cc        | 11 +++++++++--
 src/eckit/io/StdFile.cc              |  5 +++--
 src/eckit/io/StdPipe.cc              |  5 +++--
 9 files changed, 48 insertions(+), 17 deletions(-)

diff --git a/src/eckit/io/AIOHandle.cc b/src/eckit/io/AIOHandle.cc
index 32d200d..f2846ac 100644
--- a/src/eckit/io/AIOHandle.cc
+++ b/src/eckit/io/AIOHandle.cc
@@ -289,12 +289,14 @@ Length AIOHandle::openForRead() {
 }
 
 void AIOHandle::openForWrite(const Length&) {
+    close();
     used_ = 0;
     SYSCALL2(fd_ = ::open(path_.localPath(), O_WRONLY | O_CREAT | O_TRUNC, 0777), path_);
     pos_ = 0;
 }
 
 void AIOHandle::openForAppend(const Length&) {
+    close();
     used_ = 0;
     SYSCALL2(fd_ = ::open(path_.localPath(), O_WRONLY | O_CREAT | O_APPEND, 0777), path_);
     SYSCALL2(pos_ = ::lseek(fd_, 0, SEEK_CUR), path_);
@@ -307,8 +309,9 @@ long AIOHandle::read(void*, long) {
 void AIOHandle::close() {
     if (fd_ != -1) {
         flush();  // this waits for the async requests to finish
-        SYSCALL(::close(fd_));
-        fd_ = -1;
+        int fd = fd_;
+        fd_    = -1;
+        SYSCALL(::close(fd));
     }
 }
 
diff --git a/src/eckit/io/FileHandle.cc b/src/eckit/io/FileHandle.cc
index 220d3d7..6e65021 100644
--- a/src/eckit/io/FileHandle.cc
+++ b/src/eckit/io/FileHandle.cc
@@ -55,6 +55,10 @@ FileHandle::FileHandle(const std::string& name, bool overwrite) :
 FileHandle::~FileHandle() {}
 
 void FileHandle::open(const char* mode) {
+    if (file_) {
+        close();
+    }
+
     file_ = ::fopen(name_.c_str(), mode);
     if (file_ == nullptr) {
         throw CantOpenFile(name_);
@@ -179,7 +183,10 @@ void FileHandle::close() {
 
         flush();
 
-        if (::fclose(file_) != 0) {
+        // whatever fclose returns, the file is not to be closed again
+        FILE* file = file_;
+        file_      = nullptr;
+        if (::fclose(file) != 0) {
             throw WriteError(std::string("fclose ") + name());
         }
     }
diff --git a/src/eckit/io/MMappedFileHandle.cc b/src/eckit/io/MMappedFileHandle.cc
index 1b2772d..6b54724 100644
--- a/src/eckit/io/MMappedFileHandle.cc
+++ b/src/eckit/io/MMappedFileHandle.cc
@@ -51,6 +51,7 @@ MMappedFileHandle::~MMappedFileHandle() {}
 
 Length MMappedFileHandle::openForRead() {
     ASSERT(!handle_.get());
+    close();
 
     Stat::Struct info;
     SYSCALL(Stat::stat(path_.c_str(), &info));
@@ -62,6 +63,7 @@ Length MMappedFileHandle::openForRead() {
     if (mmap_ == MAP_FAILED) {
         Log::error() << "MMappedFileHandle path=" << path_ << " size=" << length_
                      << " fails to mmap(0,length,PROT_READ,MAP_SHARED,fd_,0)" << Log::syserr << std::endl;
+        mmap_ = nullptr;
         throw FailedSystemCall("mmap", Here());
     }
 
@@ -99,12 +101,14 @@ void MMappedFileHandle::close() {
         handle_.reset(nullptr);
     }
     if (mmap_) {
-        SYSCALL2(MMap::munmap(mmap_, length_), path_);
-        mmap_ = nullptr;
+        void* addr = mmap_;
+        mmap_      = nullptr;
+        SYSCALL2(MMap::munmap(addr, length_), path_);
     }
     if (fd_ >= 0) {
-        SYSCALL2(::close(fd_), path_);
-        fd_ = -1;
+        int fd = fd_;
+        fd_    = -1;
+        SYSCALL2(::close(fd), path_);
     }
 }
 
diff --git a/src/eckit/io/PipeHandle.cc b/src/eckit/io/PipeHandle.cc
index bf6d000..613a825 100644
--- a/src/eckit/io/PipeHandle.cc
+++ b/src/eckit/io/PipeHandle.cc
@@ -42,6 +42,8 @@ PipeHandle::PipeHandle(const std::string& name) : name_(name), file_{nullptr}, r
 PipeHandle::~PipeHandle() {}
 
 void PipeHandle::open(const char* mode) {
+    close();
+
     file_ = ::popen(name_.c_str(), mode);
     if (file_ == nullptr) {
         throw CantOpenFile(name_);
@@ -75,7 +77,9 @@ void PipeHandle::close() {
         return;
     }
 
-    if (::pclose(file_) != 0) {
+    FILE* file = file_;
+    file_      = nullptr;
+    if (::pclose(file) != 0) {
         Log::error() << "pclose(" << name_ << ')' << Log::syserr << std::endl;
         throw WriteError(name());
     }
diff --git a/src/eckit/io/PooledFile.cc b/src/eckit/io/PooledFile.cc
index 3b55814..8b7f0f9 100644
--- a/src/eckit/io/PooledFile.cc
+++ b/src/eckit/io/PooledFile.cc
@@ -83,10 +83,11 @@ public:
     void doClose() {
         if (file_) {
             Log::debug<LibEcKit>() << "Closing from file " << name_ << std::endl;
-            if (::fclose(file_) != 0) {
+            FILE* file = file_;
+            file_      = nullptr;
+            if (::fclose(file) != 0) {
                 throw PooledFileError(name_, "Failed to close", Here());
             }
-            file_ = nullptr;
             buffer_.reset();
         }
     }
diff --git a/src/eckit/io/PooledFileDescriptor.cc b/src/eckit/io/PooledFileDescriptor.cc
index dd7d986..1a267df 100644
--- a/src/eckit/io/PooledFileDescriptor.cc
+++ b/src/eckit/io/PooledFileDescriptor.cc
@@ -25,6 +25,7 @@ PooledFileDescriptor::~PooledFileDescriptor() {
 }
 
 void PooledFileDescriptor::open() {
+    close();
     if (readOnly_) {
         file_.reset(new PooledFile(path_));
         file_->open();
@@ -46,7 +47,9 @@ void PooledFileDescriptor::close() {
         file_.reset();
     }
     else {
-        SYSCALL(::close(fd_));
+        int fd = fd_;
+        fd_    = -1;
+        SYSCALL(::close(fd));
     }
     fd_ = -1;
 }
diff --git a/src/eckit/io/RawFileHandle.cc b/src/eckit/io/RawFileHandle.cc
index d043b98..29d4941 100644
--- a/src/eckit/io/RawFileHandle.cc
+++ b/src/eckit/io/RawFileHandle.cc
@@ -42,6 +42,9 @@ RawFileHandle::~RawFileHandle() {
 }
 
 Length RawFileHandle::openForRead() {
+    if (fd_ != -1) {
+        close();
+    }
     SYSCALL(fd_ = ::open(std::string(path_).c_str(), O_RDONLY));
     SYSCALL(::fcntl(fd_, F_SETFD, FD_CLOEXEC));
     struct stat st;
@@ -51,6 +54,9 @@ Length RawFileHandle::openForRead() {
 }
 
 void RawFileHandle::openForWrite(const Length&) {
+    if (fd_ != -1) {
+        close();
+    }
     if (overwrite_) {
         fd_ = SYSCALL(::open(std::string(path_).c_str(), O_WRONLY, 0777));
     }
@@ -78,8 +84,9 @@ long RawFileHandle::write(const void* buffer, long length) {
 
 void RawFileHandle::close() {
     /// @todo fsync
-    SYSCALL(::close(fd_));
-    fd_ = -1;
+    int fd = fd_;
+    fd_    = -1;
+    SYSCALL(::close(fd));
 }
 
 Offset RawFileHandle::position() {
diff --git a/src/eckit/io/StdFile.cc b/src/eckit/io/StdFile.cc
index 8c0763a..3dedbeb 100644
--- a/src/eckit/io/StdFile.cc
+++ b/src/eckit/io/StdFile.cc
@@ -30,11 +30,12 @@ StdFile::~StdFile() {
 
 void StdFile::close() noexcept(false) {
     if (isOpen()) {
-        if (fclose(file_)) {
+        FILE* file = file_;
+        file_      = nullptr;
+        if (fclose(file)) {
             throw FailedSystemCall("fclose");
         }
     }
-    file_ = nullptr;
 }
 
 }  // namespace eckit
diff --git a/src/eckit/io/StdPipe.cc b/src/eckit/io/StdPipe.cc
index 254e7a5..4e4d46a 100644
--- a/src/eckit/io/StdPipe.cc
+++ b/src/eckit/io/StdPipe.cc
@@ -30,11 +30,12 @@ StdPipe::~StdPipe() {
 
 void StdPipe::close() noexcept(false) {
     if (isOpen()) {
-        if (::pclose(file_) == -1) {
+        FILE* file = file_;
+        file_      = nullptr;
+        if (::pclose(file) == -1) {
             throw FailedSystemCall("pclose");
         }
     }
-    file_ = nullptr;
 }
 
 }  // namespace eckit
-- 
2.43.0


From d7ebec0c6494bca03e6b69fc630aa3a83b628181 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:19:49 +0000
Subject: [PATCH 64/98] fix: a codec file handle that cannot be made closes its
 file

---
 src/eckit/codec/FileStream.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/eckit/codec/FileStream.cc b/src/eckit/codec/FileStream.cc
index b87e2b8..86e3d50 100644
--- a/src/eckit/codec/FileStream.cc
+++ b/src/eckit/codec/FileStream.cc
@@ -32,7 +32,8 @@ namespace {
 class FileHandle : public eckit::FileHandle {
 public:
 
-    FileHandle(const PathName& path, char openmode) : eckit::FileHandle(path, openmode == 'a' /*overwrite*/) {
+    FileHandle(const PathName& path, char openmode) : FileHandle(path, openmode, openmode == 'a' /*overwrite*/) {
+        // the object is complete, and closed by its destructor whatever happens here
         if (openmode == 'r') {
             openForRead();
         }
@@ -69,6 +70,8 @@ public:
 
 private:
 
+    FileHandle(const PathName& path, char, bool overwrite) : eckit::FileHandle(path, overwrite) {}
+
     bool closed_{false};
 };
 
-- 
2.43.0


From 38e4bf89a8130dc1be8debf6fc40defaba1db94a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:21:44 +0000
Subject: [PATCH 65/98] fix: a pipe stream closes its ends once

---
 src/eckit/serialisation/PipeStream.cc | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/src/eckit/serialisation/PipeStream.cc b/src/eckit/serialisation/PipeStream.cc
index 580a740..4f921e6 100644
--- a/src/eckit/serialisation/PipeStream.cc
+++ b/src/eckit/serialisation/PipeStream.cc
@@ -22,9 +22,8 @@ namespace eckit {
 
 //----------------------------------------------------------------------------------------------------------------------
 
-PipeStream::PipeStream() : in_(-1), out_(-1) {
-    toChild_[0] = toChild_[1] = toParent_[0] = toParent_[1] = -1;
-
+// The object is complete here, so its destructor closes the first pipe if there is no second
+PipeStream::PipeStream() : PipeStream(-1, -1) {
     SYSCALL(::pipe(toChild_));
     SYSCALL(::pipe(toParent_));
 }
@@ -53,14 +52,14 @@ void PipeStream::parentProcess() {
     ::close(toChild_[0]);
     ::close(toParent_[1]);
 
-    // Avoid childs from other threads having opened file descriptors
-    SYSCALL(fcntl(in_, F_SETFD, FD_CLOEXEC));
-    SYSCALL(fcntl(out_, F_SETFD, FD_CLOEXEC));
-
     Log::debug() << "parentProcess : " << in_ << '/' << out_ << " closing " << toChild_[0] << '/' << toParent_[1]
                  << std::endl;
 
     toChild_[0] = toChild_[1] = toParent_[0] = toParent_[1] = -1;
+
+    // Avoid childs from other threads having opened file descriptors
+    SYSCALL(fcntl(in_, F_SETFD, FD_CLOEXEC));
+    SYSCALL(fcntl(out_, F_SETFD, FD_CLOEXEC));
 }
 
 void PipeStream::childProcess() {
-- 
2.43.0


From 9e3d81cf5f50c7017cfdeb64f116e73d3ef473a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:29:06 +0000
Subject: [PATCH 66/98] fix: the guard of a socket being set up is not copied

---
 src/eckit/net/TCPSocket.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/eckit/net/TCPSocket.cc b/src/eckit/net/TCPSocket.cc
index 71559ed..187341e 100644
--- a/src/eckit/net/TCPSocket.cc
+++ b/src/eckit/net/TCPSocket.cc
@@ -50,6 +50,11 @@ namespace {
 
 /// A socket that is closed unless it is handed on
 struct OpenSocket {
+    explicit OpenSocket(int s) : socket_(s) {}
+
+    OpenSocket(const OpenSocket&)            = delete;
+    OpenSocket& operator=(const OpenSocket&) = delete;
+
     int socket_;
     ~OpenSocket() {
         if (socket_ >= 0) {
-- 
2.43.0


From 3302ba842b1b3f484e15776a2a3cea0322ac8d0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:48:38 +0000
Subject: [PATCH 67/98] fix: adding command arguments that have no argument 0
 erases nothing

---
 src/eckit/cmd/CmdArg.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/eckit/cmd/CmdArg.cc b/src/eckit/cmd/CmdArg.cc
index 972a274..925790b 100644
--- a/src/eckit/cmd/CmdArg.cc
+++ b/src/eckit/cmd/CmdArg.cc
@@ -149,7 +149,7 @@ void CmdArg::operator+=(const CmdArg& other) {
     }
 
     // Dont copy arg[0]
-    tmp.args_.erase(tmp.args_.find("0"));
+    tmp.args_.erase("0");
 
     // Add the numerical arguments
     long k = 1;
-- 
2.43.0


From 2f637d2972a4d1b51dac474dbd69ddc4a8dfb145 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:48:38 +0000
Subject: [PATCH 68/98] fix: a full name in a working directory that has no
 name is an error

---
 src/eckit/filesystem/LocalPathName.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/eckit/filesystem/LocalPathName.cc b/src/eckit/filesystem/LocalPathName.cc
index 457e414..75e3632 100644
--- a/src/eckit/filesystem/LocalPathName.cc
+++ b/src/eckit/filesystem/LocalPathName.cc
@@ -433,7 +433,10 @@ LocalPathName operator/(const LocalPathName& p1, const char* p2) {
 LocalPathName LocalPathName::fullName() const {
     if (path_.length() > 0 && path_[0] != '/') {
         char buf[PATH_MAX];
-        return LocalPathName(std::string(getcwd(buf, PATH_MAX)) + "/" + path_);
+        if (!::getcwd(buf, PATH_MAX)) {
+            throw FailedSystemCall("getcwd");
+        }
+        return LocalPathName(std::string(buf) + "/" + path_);
     }
 
     return *this;
-- 
2.43.0


From 122c32354ba0e372435bd405e1f5edfc32b871be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:48:38 +0000
Subject: [PATCH 69/98] fix: an unnamed region has no null name

---
 src/eckit/io/fam/FamRegion.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/eckit/io/fam/FamRegion.cc b/src/eckit/io/fam/FamRegion.cc
index c3b8b58..d1580a0 100644
--- a/src/eckit/io/fam/FamRegion.cc
+++ b/src/eckit/io/fam/FamRegion.cc
@@ -98,7 +98,7 @@ FamObject FamRegion::allocateObject(const fam::size_t object_size, const fam::pe
 }
 
 void FamRegion::deallocateObject(const std::string& object_name) const {
-    session_->deallocateObject(region_->get_name(), object_name);
+    session_->deallocateObject(name(), object_name);
 }
 
 FamObject FamRegion::ensureObject(const fam::size_t object_size, const std::string& object_name) const {
-- 
2.43.0


From 73d76610a69f44e2d6f3833b1fcc527fce957ed2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:48:38 +0000
Subject: [PATCH 70/98] fix: parameters of an unknown class are an error

---
 src/eckit/value/Params.h | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/eckit/value/Params.h b/src/eckit/value/Params.h
index 994fd52..4a8abaa 100644
--- a/src/eckit/value/Params.h
+++ b/src/eckit/value/Params.h
@@ -18,6 +18,7 @@
 #include <list>
 
 #include "eckit/config/Parametrisation.h"
+#include "eckit/exception/Exceptions.h"
 #include "eckit/serialisation/Stream.h"
 #include "eckit/value/Value.h"
 
@@ -91,7 +92,13 @@ public:  // methods
 
     static void registerFactory(const std::string& name, factory_t f) { factories()[name] = f; }
 
-    static factory_t& getFactory(const std::string& name) { return factories()[name]; }
+    static factory_t& getFactory(const std::string& name) {
+        auto j = factories().find(name);
+        if (j == factories().end()) {
+            throw BadParameter("Params: no factory for '" + name + "'", Here());
+        }
+        return j->second;
+    }
 
     static Params build(const std::string& name, Stream& s) {
         return Params(getFactory(name)->build(s));  // returns Concept*
-- 
2.43.0


From aa93dd72a682639427c8f0502f35e1672e75c5ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:48:38 +0000
Subject: [PATCH 71/98] fix: a Gaussian range with no latitude in it is an
 error

---
 src/eckit/geo/range/GaussianLatitude.cc | 7 +++++++
 src/eckit/geo/range/GaussianLatitude.h  | 2 +-
 2 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/eckit/geo/range/GaussianLatitude.cc b/src/eckit/geo/range/GaussianLatitude.cc
index ad2c23a..88b8471 100644
--- a/src/eckit/geo/range/GaussianLatitude.cc
+++ b/src/eckit/geo/range/GaussianLatitude.cc
@@ -41,6 +41,13 @@ GaussianLatitude::GaussianLatitude(size_t N, bool increasing) :
     GaussianLatitude(N, std::vector<double>(util::gaussian_latitudes(N, increasing))) {}
 
 
+GaussianLatitude::GaussianLatitude(size_t N, std::vector<double>&& values) : N_(N), values_(values) {
+    if (values_.empty()) {
+        throw exception::GridError("GaussianLatitude: no latitudes in range", Here());
+    }
+}
+
+
 bool GaussianLatitude::includesNorthPole() const {
     const auto increasing = a() < b();
     const auto& lats(util::gaussian_latitudes(N_, increasing));
diff --git a/src/eckit/geo/range/GaussianLatitude.h b/src/eckit/geo/range/GaussianLatitude.h
index 4034884..e1c9f07 100644
--- a/src/eckit/geo/range/GaussianLatitude.h
+++ b/src/eckit/geo/range/GaussianLatitude.h
@@ -45,7 +45,7 @@ private:
 
     // -- Constructors
 
-    GaussianLatitude(size_t N, std::vector<double>&& values) : N_(N), values_(values) {}
+    GaussianLatitude(size_t N, std::vector<double>&& values);
 
     // -- Members
 
-- 
2.43.0


From 25ed931fd4de491e893a83d22de55f4a3df58185 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:52:54 +0000
Subject: [PATCH 72/98] fix: an unnamed region has no null name there either

---
 src/eckit/io/fam/FamRegion.cc  | 2 +-
 src/eckit/io/fam/FamSession.cc | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/eckit/io/fam/FamRegion.cc b/src/eckit/io/fam/FamRegion.cc
index d1580a0..0327a20 100644
--- a/src/eckit/io/fam/FamRegion.cc
+++ b/src/eckit/io/fam/FamRegion.cc
@@ -110,7 +110,7 @@ FamObject FamRegion::ensureObject(const fam::size_t object_size, const std::stri
         if (object.size() != object_size) {
             std::ostringstream msg;
             msg << "FamRegion::ensureObject: size mismatch for object '" << object_name << "' in region '"
-                << region_->get_name() << "': existing=" << object.size() << ", requested=" << object_size;
+                << name() << "': existing=" << object.size() << ", requested=" << object_size;
             throw SeriousBug(msg.str(), Here());
         }
         return object;
diff --git a/src/eckit/io/fam/FamSession.cc b/src/eckit/io/fam/FamSession.cc
index 7bc4c48..83e9635 100644
--- a/src/eckit/io/fam/FamSession.cc
+++ b/src/eckit/io/fam/FamSession.cc
@@ -273,7 +273,7 @@ FamObject FamSession::ensureAllocateObject(FamRegionDescriptor& region, const fa
         }
         catch (const AlreadyExists&) {
             try {
-                deallocateObject(region.get_name(), object_name);
+                deallocateObject(region.get_name() ? region.get_name() : "", object_name);
             }
             catch (const NotFound&) {
                 LOG_DEBUG_LIB(LibEcKit) << "Object '" << object_name
-- 
2.43.0


From 3fec15cbba553ab69cfbf39e8f9bed2f9054acc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:52:54 +0000
Subject: [PATCH 73/98] fix: the locale is reported as unusable with LANG unset

---
 src/eckit/types/DateTime.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/eckit/types/DateTime.cc b/src/eckit/types/DateTime.cc
index aeb58c8..fb79ce5 100644
--- a/src/eckit/types/DateTime.cc
+++ b/src/eckit/types/DateTime.cc
@@ -41,8 +41,9 @@ static std::locale getLocale() {
         return std::locale("");
     }
     catch (...) {
+        const char* lang = getenv("LANG");
         Log::error() << "Problem to setup the locale\n"
-                     << "Check your LANG variable - current value: " << getenv("LANG") << std::endl;
+                     << "Check your LANG variable - current value: " << (lang ? lang : "") << std::endl;
     }
     return std::locale::classic();
 }
-- 
2.43.0


From b7a3aac128499e0f38e0b16e6dc14d1fca3769ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:19:00 +0000
Subject: [PATCH 74/98] fix: an exception in a transfer callback does not
 unwind libcurl

---
 src/eckit/io/EasyCURL.cc | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/src/eckit/io/EasyCURL.cc b/src/eckit/io/EasyCURL.cc
index 66a624c..fd9dd08 100644
--- a/src/eckit/io/EasyCURL.cc
+++ b/src/eckit/io/EasyCURL.cc
@@ -892,11 +892,24 @@ void EasyCURL::userAgent(const std::string& value) {
 }
 
 size_t EasyCURLResponseImp::_writeCallback(void* ptr, size_t size, size_t nmemb, void* userdata) {
-    return reinterpret_cast<EasyCURLResponseImp*>(userdata)->writeCallback(ptr, size * nmemb);
+    // an exception must not unwind libcurl, a count other than the one given ends the transfer
+    try {
+        return reinterpret_cast<EasyCURLResponseImp*>(userdata)->writeCallback(ptr, size * nmemb);
+    }
+    catch (std::exception& e) {
+        Log::error() << "** " << e.what() << " Caught in " << Here() << std::endl;
+        return 0;
+    }
 }
 
 size_t EasyCURLResponseImp::_headersCallback(void* ptr, size_t size, size_t nmemb, void* userdata) {
-    return reinterpret_cast<EasyCURLResponseImp*>(userdata)->headersCallback(ptr, size * nmemb);
+    try {
+        return reinterpret_cast<EasyCURLResponseImp*>(userdata)->headersCallback(ptr, size * nmemb);
+    }
+    catch (std::exception& e) {
+        Log::error() << "** " << e.what() << " Caught in " << Here() << std::endl;
+        return 0;
+    }
 }
 
 void EasyCURL::headers(const EasyCURLHeaders& headers) {
-- 
2.43.0


From 2f709aae5061ee99938f2b8714729ff36d99e93a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:20:20 +0000
Subject: [PATCH 75/98] fix: a child process that ends with an exception does
 not exit with success

---
 src/eckit/runtime/ProcessControler.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/eckit/runtime/ProcessControler.cc b/src/eckit/runtime/ProcessControler.cc
index ed90c33..81b502c 100644
--- a/src/eckit/runtime/ProcessControler.cc
+++ b/src/eckit/runtime/ProcessControler.cc
@@ -120,6 +120,8 @@ void ProcessControler::start() {
     sigaddset(&newmask, SIGCHLD);
     pthread_sigmask(SIG_BLOCK, &newmask, &oldmask);
 
+    int status = 0;
+
     switch (pid_ = ::fork()) {
         case 0:
 
@@ -136,10 +138,11 @@ void ProcessControler::start() {
 
                 Log::error() << "** " << e.what() << " Caught in " << Here() << std::endl;
                 Log::error() << "** Exception is terminate process " << pid_ << std::endl;
+                status = 1;
             }
 
 
-            ::exit(0);
+            ::exit(status);
             break;
 
         case -1:
-- 
2.43.0


From a7d4d8d8fad6b4da98f8c819dd7059f9611400e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:27:26 +0000
Subject: [PATCH 76/98] fix: closing a FILE over a data handle reports a failed
 close instead of ending the program

---
 src/eckit/io/FOpenDataHandle.cc | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/eckit/io/FOpenDataHandle.cc b/src/eckit/io/FOpenDataHandle.cc
index 1fd9027..4e6de41 100644
--- a/src/eckit/io/FOpenDataHandle.cc
+++ b/src/eckit/io/FOpenDataHandle.cc
@@ -10,6 +10,7 @@
 
 #include <cmath>
 #include <cstring>
+#include <memory>
 
 #include "eckit/eckit.h"
 
@@ -140,7 +141,12 @@ off_t FOpenDataHandle::seek(off_t pos, int whence) {
 }
 
 int FOpenDataHandle::close() {
-    delete this;
+    // closed before the destructor, out of which no exception can be reported
+    std::unique_ptr<FOpenDataHandle> self(this);
+    if (open_close_) {
+        open_close_ = false;
+        handle_->close();
+    }
     return 0;
 }
 
-- 
2.43.0


From a817420dced4240b118adfd3f3aa6c456d9ff7e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:42:16 +0000
Subject: [PATCH 77/98] fix: threads of DblBuffer and Pipe are released, and
 joined when the copy fails

---
 src/eckit/io/DblBuffer.cc | 52 +++++++++++++++++++++++++++++++++++----
 src/eckit/io/DblBuffer.h  |  2 ++
 src/eckit/runtime/Pipe.h  |  5 +++-
 3 files changed, 53 insertions(+), 6 deletions(-)

diff --git a/src/eckit/io/DblBuffer.cc b/src/eckit/io/DblBuffer.cc
index 2c690a6..8f25c01 100644
--- a/src/eckit/io/DblBuffer.cc
+++ b/src/eckit/io/DblBuffer.cc
@@ -10,6 +10,9 @@
 
 
 #include "eckit/io/DblBuffer.h"
+
+#include <memory>
+
 #include "eckit/config/Resource.h"
 #include "eckit/io/AutoCloser.h"
 #include "eckit/io/Buffer.h"
@@ -84,6 +87,44 @@ void DblBuffer::restart(RestartTransfer& retry) {
     restartFrom_ = retry.from();
 }
 
+// The writer thread uses the buffers and the output handle: it must not outlive them
+
+class DblBuffer::WriterGuard {
+    DblBuffer& owner_;
+    ThreadControler& thread_;
+    OneBuffer* buffers_;
+    long count_;
+    bool waited_ = false;
+
+public:
+
+    WriterGuard(DblBuffer& owner, ThreadControler& thread, OneBuffer* buffers, long count) :
+        owner_(owner), thread_(thread), buffers_(buffers), count_(count) {}
+
+    ~WriterGuard() {
+        if (!waited_) {
+            try {
+                owner_.error("Reading failed");
+                for (long j = 0; j < count_; j++) {
+                    AutoLock<MutexCond> lock(buffers_[j].cond_);
+                    buffers_[j].full_ = true;
+                    buffers_[j].cond_.signal();
+                }
+                thread_.wait();
+            }
+            catch (std::exception& e) {
+                Log::error() << "** " << e.what() << " Caught in " << Here() << std::endl;
+                Log::error() << "** Exception is ignored" << std::endl;
+            }
+        }
+    }
+
+    void wait() {
+        waited_ = true;
+        thread_.wait();
+    }
+};
+
 Length DblBuffer::copy(DataHandle& in, DataHandle& out) {
 
     Timer timer("Double buffer");
@@ -141,7 +182,7 @@ Length DblBuffer::copy(DataHandle& in, DataHandle& out) {
 Length DblBuffer::copy(DataHandle& in, DataHandle& out, const Length& estimate) {
     Buffer bigbuf(count_ * bufSize_);
 
-    OneBuffer* buffers = new OneBuffer[count_];
+    std::unique_ptr<OneBuffer[]> buffers(new OneBuffer[count_]);
 
     char* addr = bigbuf;
     for (int j = 0; j < count_; j++) {
@@ -154,10 +195,12 @@ Length DblBuffer::copy(DataHandle& in, DataHandle& out, const Length& estimate)
     error_   = false;
     inBytes_ = outBytes_ = 0;
 
-    ThreadControler thread(new DblBufferTask(out, *this, buffers, estimate, Monitor::instance().self()), false);
+    ThreadControler thread(new DblBufferTask(out, *this, buffers.get(), estimate, Monitor::instance().self()), false);
 
     thread.start();
 
+    WriterGuard guard(*this, thread, buffers.get(), count_);
+
     int i = 0;
 
     Timer reader("Double buffer reader");
@@ -234,8 +277,7 @@ Length DblBuffer::copy(DataHandle& in, DataHandle& out, const Length& estimate)
         Log::info() << "Read rate no mount " << Bytes(inBytes_ / (rate - first)) << "/s" << std::endl;
     }
 
-    thread.wait();
-    delete[] buffers;
+    guard.wait();
 
     if (error_) {
         if (restart_) {
@@ -257,7 +299,7 @@ Length DblBuffer::copy(DataHandle& in, DataHandle& out, const Length& estimate)
 
 DblBufferTask::DblBufferTask(DataHandle& out, DblBuffer& owner, OneBuffer* buffers, const Length& estimate,
                              long parent) :
-    Thread(false), owner_(owner), out_(out), estimate_(estimate), buffers_(buffers), parent_(parent) {}
+    owner_(owner), out_(out), estimate_(estimate), buffers_(buffers), parent_(parent) {}
 
 void DblBufferTask::run() {
     Monitor::instance().parent(parent_);
diff --git a/src/eckit/io/DblBuffer.h b/src/eckit/io/DblBuffer.h
index 7a41fdd..252ecd2 100644
--- a/src/eckit/io/DblBuffer.h
+++ b/src/eckit/io/DblBuffer.h
@@ -73,6 +73,8 @@ private:  // members
     // -- Friends
 
     friend class DblBufferTask;
+
+    class WriterGuard;
 };
 
 
diff --git a/src/eckit/runtime/Pipe.h b/src/eckit/runtime/Pipe.h
index 3631d43..d076d58 100644
--- a/src/eckit/runtime/Pipe.h
+++ b/src/eckit/runtime/Pipe.h
@@ -143,6 +143,7 @@ void Pipe<PAYLOAD>::close() {
         }
         controler_->wait();
     }
+    delete controler_;
     delete[] payloads_;
     controler_ = 0;
     payloads_  = 0;
@@ -166,6 +167,8 @@ inline bool Pipe<PAYLOAD>::error() {
 template <class PAYLOAD>
 void Pipe<PAYLOAD>::spawn(Proc proc) {
 
+    ASSERT(!payloads_ && !controler_);
+
     payloads_ = new OnePayload<PAYLOAD>[count_];
 
     error_ = false;
@@ -176,7 +179,7 @@ void Pipe<PAYLOAD>::spawn(Proc proc) {
 
 template <class PAYLOAD>
 PipeTask<PAYLOAD>::PipeTask(Proc& consumer, Pipe<PAYLOAD>& owner, OnePayload<PAYLOAD>* payloads) :
-    Thread(false), owner_(owner), consumer_(consumer), payloads_(payloads) {}
+    owner_(owner), consumer_(consumer), payloads_(payloads) {}
 
 template <class PAYLOAD>
 void PipeTask<PAYLOAD>::run() {
-- 
2.43.0


From d453ba8e187a1db9008420cf3c61067093c4bc46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:42:16 +0000
Subject: [PATCH 78/98] fix: objects made on the way to an error are released

---
 src/eckit/cmd/UserInput.cc           |  4 ++--
 src/eckit/filesystem/TmpFile.cc      | 11 ++++++-----
 src/eckit/geo/Area.cc                |  6 +++---
 src/eckit/geo/Figure.cc              |  5 ++---
 src/eckit/geo/Grid.cc                |  6 +++---
 src/eckit/geo/Projection.cc          |  6 +++---
 src/eckit/io/FOpenDataHandle.cc      |  7 +++++--
 src/eckit/io/MultiHandle.cc          |  5 +++--
 src/eckit/mpi/Parallel.cc            | 17 +++++++++++++----
 src/eckit/mpi/Serial.cc              | 11 ++++-------
 src/eckit/parser/YAMLParser.cc       |  9 ++++++---
 src/eckit/runtime/Application.cc     |  4 +++-
 src/eckit/system/Library.cc          |  7 ++++---
 src/eckit/value/OrderedMapContent.cc |  8 +++++---
 14 files changed, 62 insertions(+), 44 deletions(-)

diff --git a/src/eckit/cmd/UserInput.cc b/src/eckit/cmd/UserInput.cc
index 213a20b..beadaaa 100644
--- a/src/eckit/cmd/UserInput.cc
+++ b/src/eckit/cmd/UserInput.cc
@@ -564,8 +564,6 @@ void UserInput::loadHistory(const char* path) {
     memset(line, 0, sizeof(line));
     while (fgets(line, sizeof(line) - 1, f)) {
 
-        entry* h = (entry*)calloc(1, sizeof(entry));
-
         int len = strlen(line);
         while (len) {
             if (line[len - 1] == '\n' || line[len - 1] == '\r') {
@@ -579,6 +577,8 @@ void UserInput::loadHistory(const char* path) {
 
         if (len) {
 
+            entry* h = (entry*)calloc(1, sizeof(entry));
+
             h->len  = len + 1;
             h->line = strdup(line);
             h->prev = history;
diff --git a/src/eckit/filesystem/TmpFile.cc b/src/eckit/filesystem/TmpFile.cc
index ac430d1..e1c5082 100644
--- a/src/eckit/filesystem/TmpFile.cc
+++ b/src/eckit/filesystem/TmpFile.cc
@@ -10,6 +10,9 @@
 
 #include <unistd.h>
 
+#include <memory>
+#include <vector>
+
 #include "eckit/exception/Exceptions.h"
 #include "eckit/filesystem/TmpFile.h"
 
@@ -23,8 +26,9 @@ static PathName tmp() {
         tmpdir = "/tmp";
     }
 
-    long max   = pathconf(tmpdir, _PC_PATH_MAX);
-    char* path = new char[max];
+    long max = pathconf(tmpdir, _PC_PATH_MAX);
+    std::vector<char> buffer(max);
+    char* path = buffer.data();
 
     snprintf(path, max, "%s/eckitXXXXXXXXXXX", tmpdir);
     int fd;
@@ -34,9 +38,6 @@ static PathName tmp() {
     PathName result(path);
     result.touch();
 
-
-    delete[] path;
-
     return result;
 }
 
diff --git a/src/eckit/geo/Area.cc b/src/eckit/geo/Area.cc
index c86b1d4..b14b2af 100644
--- a/src/eckit/geo/Area.cc
+++ b/src/eckit/geo/Area.cc
@@ -12,6 +12,7 @@
 
 #include "eckit/geo/Area.h"
 
+#include <memory>
 #include <ostream>
 
 #include "eckit/geo/Exceptions.h"
@@ -106,8 +107,7 @@ Area::Spec* AreaFactory::make_spec_(const Area::Spec& spec) const {
     lock_type lock;
     share::Area::instance();
 
-    auto* cfg = new spec::Layered(spec);
-    ASSERT(cfg != nullptr);
+    auto cfg = std::make_unique<spec::Layered>(spec);
 
 
     // hardcoded, interpreted options (contributing to areaspec)
@@ -128,7 +128,7 @@ Area::Spec* AreaFactory::make_spec_(const Area::Spec& spec) const {
         cfg->push_back(back.release());
     }
 
-    return cfg;
+    return cfg.release();
 }
 
 
diff --git a/src/eckit/geo/Figure.cc b/src/eckit/geo/Figure.cc
index 3565947..8bb3293 100644
--- a/src/eckit/geo/Figure.cc
+++ b/src/eckit/geo/Figure.cc
@@ -61,11 +61,10 @@ double Figure::area(const area::BoundingBox&) const {
 
 
 spec::Custom* Figure::spec() const {
-    auto* custom = new spec::Custom;
-    ASSERT(custom != nullptr);
+    auto custom = std::make_unique<spec::Custom>();
 
     fill_spec(*custom);
-    return custom;
+    return custom.release();
 }
 
 
diff --git a/src/eckit/geo/Grid.cc b/src/eckit/geo/Grid.cc
index 34b87c5..02e2fc1 100644
--- a/src/eckit/geo/Grid.cc
+++ b/src/eckit/geo/Grid.cc
@@ -14,6 +14,7 @@
 
 #include <algorithm>
 #include <cctype>
+#include <memory>
 #include <ostream>
 
 #include "eckit/geo/Exceptions.h"
@@ -298,8 +299,7 @@ const Grid* GridFactory::make_from_spec_(const Grid::Spec& spec) const {
 Grid::Spec* GridFactory::make_spec_(const Grid::Spec& spec) const {
     lock_type lock;
 
-    auto* cfg = new spec::Layered(spec);
-    ASSERT(cfg != nullptr);
+    auto cfg = std::make_unique<spec::Layered>(spec);
 
 
     // hardcoded, interpreted options (contributing to spec)
@@ -347,7 +347,7 @@ Grid::Spec* GridFactory::make_spec_(const Grid::Spec& spec) const {
         cfg->push_front(GridSpecByUID::instance().get(uid).spec());
     }
 
-    return cfg;
+    return cfg.release();
 }
 
 
diff --git a/src/eckit/geo/Projection.cc b/src/eckit/geo/Projection.cc
index b8b87d9..d457041 100644
--- a/src/eckit/geo/Projection.cc
+++ b/src/eckit/geo/Projection.cc
@@ -12,6 +12,7 @@
 
 #include "eckit/geo/Projection.h"
 
+#include <memory>
 #include <ostream>
 
 #include "eckit/geo/Exceptions.h"
@@ -143,8 +144,7 @@ Projection::Spec* ProjectionFactory::make_spec_(const Projection::Spec& spec) co
     lock_type lock;
     share::Projection::instance();
 
-    auto* cfg = new spec::Layered(spec);
-    ASSERT(cfg != nullptr);
+    auto cfg = std::make_unique<spec::Layered>(spec);
 
 
     // hardcoded, interpreted options (contributing to projectionspec)
@@ -158,7 +158,7 @@ Projection::Spec* ProjectionFactory::make_spec_(const Projection::Spec& spec) co
         cfg->push_back(new spec::Custom{{"type", "rotation"}, {"rotation", rotation}});
     }
 
-    return cfg;
+    return cfg.release();
 }
 
 
diff --git a/src/eckit/io/FOpenDataHandle.cc b/src/eckit/io/FOpenDataHandle.cc
index 4e6de41..88e4aa2 100644
--- a/src/eckit/io/FOpenDataHandle.cc
+++ b/src/eckit/io/FOpenDataHandle.cc
@@ -261,9 +261,12 @@ FILE* opencookie(FOpenDataHandle* h, const char* mode) {
 
 
 static FILE* open(DataHandle* handle, const char* mode, bool delete_on_close, bool open_close) {
-    FOpenDataHandle* h = new FOpenDataHandle(handle, mode, delete_on_close, open_close);
+    auto owned         = std::make_unique<FOpenDataHandle>(handle, mode, delete_on_close, open_close);
+    FOpenDataHandle* h = owned.get();
+    const bool seeks   = handle->canSeek();
     FILE* f            = opencookie(h, mode);
-    if (handle->canSeek()) {
+    owned.release();  // closing f deletes it
+    if (seeks) {
         setvbuf(f, h->buffer_, _IOFBF, sizeof(h->buffer_));
     }
     else {
diff --git a/src/eckit/io/MultiHandle.cc b/src/eckit/io/MultiHandle.cc
index 87035f0..e494d3a 100644
--- a/src/eckit/io/MultiHandle.cc
+++ b/src/eckit/io/MultiHandle.cc
@@ -8,6 +8,7 @@
  * does it submit to any jurisdiction.
  */
 
+#include <memory>
 #include <numeric>
 
 #include "eckit/config/Resource.h"
@@ -302,11 +303,11 @@ Length MultiHandle::estimate() {
 }
 
 DataHandle* MultiHandle::clone() const {
-    MultiHandle* mh = new MultiHandle();
+    auto mh = std::make_unique<MultiHandle>();
     for (size_t i = 0; i < datahandles_.size(); i++) {
         (*mh) += datahandles_[i]->clone();
     }
-    return mh;
+    return mh.release();
 }
 
 
diff --git a/src/eckit/mpi/Parallel.cc b/src/eckit/mpi/Parallel.cc
index 90a0f64..cd732b1 100644
--- a/src/eckit/mpi/Parallel.cc
+++ b/src/eckit/mpi/Parallel.cc
@@ -16,6 +16,7 @@
 #include <csetjmp>
 #include <csignal>
 #include <limits>
+#include <memory>
 #include <sstream>
 
 #include "eckit/exception/Exceptions.h"
@@ -738,6 +739,10 @@ Group Parallel::remoteGroup() const {
 }
 
 Comm& Parallel::create(const Group& group, const std::string& name) const {
+    if (hasComm(name.c_str())) {
+        throw SeriousBug("Communicator with name " + name + " already exists");
+    }
+
     MPI_Comm new_mpi_comm;
     MPI_CALL(MPI_Comm_create(comm_, dynamic_cast<const ParallelGroup&>(*group.content_).group_, &new_mpi_comm));
     Comm* newcomm = new Parallel(name, new_mpi_comm, true);
@@ -746,6 +751,10 @@ Comm& Parallel::create(const Group& group, const std::string& name) const {
 };
 
 Comm& Parallel::create(const Group& group, int tag, const std::string& name) const {
+    if (hasComm(name.c_str())) {
+        throw SeriousBug("Communicator with name " + name + " already exists");
+    }
+
     MPI_Comm new_mpi_comm;
     MPI_CALL(
         MPI_Comm_create_group(comm_, dynamic_cast<const ParallelGroup&>(*group.content_).group_, tag, &new_mpi_comm));
@@ -773,7 +782,7 @@ eckit::SharedBuffer Parallel::broadcastFile(const PathName& filepath, size_t roo
 
     bool isRoot = rank() == root;
 
-    eckit::CountedBuffer* buffer = nullptr;
+    std::unique_ptr<eckit::CountedBuffer> buffer;
 
     struct BFileOp {
         int err_;
@@ -788,7 +797,7 @@ eckit::SharedBuffer Parallel::broadcastFile(const PathName& filepath, size_t roo
 
             op.len_ = dh->openForRead();
             AutoClose closer(*dh);
-            buffer = new eckit::CountedBuffer(op.len_);
+            buffer = std::make_unique<eckit::CountedBuffer>(op.len_);
             if (dh->read(buffer->data(), op.len_) != static_cast<long>(op.len_)) {
                 op.err_ = errno ? errno : EIO;
             }
@@ -815,12 +824,12 @@ eckit::SharedBuffer Parallel::broadcastFile(const PathName& filepath, size_t roo
     }
 
     if (!isRoot) {
-        buffer = new eckit::CountedBuffer(op.len_);
+        buffer = std::make_unique<eckit::CountedBuffer>(op.len_);
     }
 
     broadcast(*buffer, op.len_, Data::BYTE, root);
 
-    return eckit::SharedBuffer(buffer);
+    return eckit::SharedBuffer(buffer.release());
 }
 
 static CommBuilder<Parallel> ParallelBuilder("parallel");
diff --git a/src/eckit/mpi/Serial.cc b/src/eckit/mpi/Serial.cc
index 67a5bed..947ff20 100644
--- a/src/eckit/mpi/Serial.cc
+++ b/src/eckit/mpi/Serial.cc
@@ -256,23 +256,20 @@ Status Serial::waitAny(std::vector<Request>& requests, int& index) const {
 Status Serial::probe(int source, int tag) const {
     ASSERT(source == 0 || source == Serial::Constants::anySource());
 
-    SerialStatus* st = new SerialStatus();
-
-    bool found = false;
-    while (not found) {
+    while (true) {
         AutoLock<SerialRequestPool> lock(SerialRequestPool::instance());
 
         SendRequest* req = SerialRequestPool::instance().matchNextSendRequest(tag);
         if (req) {
+            SerialStatus* st = new SerialStatus();
+
             (*st).count_  = req->count();
             (*st).tag_    = req->tag();
             (*st).source_ = 0;
             (*st).error_  = 0;
-            found         = true;
+            return Status(st);
         }
     }
-
-    return Status(st);
 }
 
 Status Serial::iProbe(int source, int tag) const {
diff --git a/src/eckit/parser/YAMLParser.cc b/src/eckit/parser/YAMLParser.cc
index 4776fec..c0089bb 100644
--- a/src/eckit/parser/YAMLParser.cc
+++ b/src/eckit/parser/YAMLParser.cc
@@ -771,10 +771,11 @@ void YAMLParser::loadItem() {
                     while (cnt--) {
                         putback('-');
                     }
-                    item = new YAMLItemValue(indent, parseStringOrNumber(isKey));
+                    v = parseStringOrNumber(isKey);
                     if (isKey) {
                         next(true);
                     }
+                    item = new YAMLItemValue(indent, v);
                     break;
             }
 
@@ -794,10 +795,11 @@ void YAMLParser::loadItem() {
                     while (cnt--) {
                         putback('.');
                     }
-                    item = new YAMLItemValue(indent, parseStringOrNumber(isKey));
+                    v = parseStringOrNumber(isKey);
                     if (isKey) {
                         next(true);
                     }
+                    item = new YAMLItemValue(indent, v);
                     break;
             }
 
@@ -814,10 +816,11 @@ void YAMLParser::loadItem() {
             break;
 
         default:
-            item = new YAMLItemValue(indent, parseStringOrNumber(isKey));
+            v = parseStringOrNumber(isKey);
             if (isKey) {
                 next(true);
             }
+            item = new YAMLItemValue(indent, v);
             break;
     }
 
diff --git a/src/eckit/runtime/Application.cc b/src/eckit/runtime/Application.cc
index 3ade668..c114ada 100644
--- a/src/eckit/runtime/Application.cc
+++ b/src/eckit/runtime/Application.cc
@@ -11,6 +11,7 @@
 #include <unistd.h>
 #include <fstream>
 #include <iostream>
+#include <memory>
 
 #include "eckit/bases/Loader.h"
 #include "eckit/config/Resource.h"
@@ -146,7 +147,7 @@ void Application::unique() {
         lockFile.touch();
     }
 
-    Semaphore* sem = new Semaphore(lockFile);
+    auto sem = std::make_unique<Semaphore>(lockFile);
 
     if (sem->test()) {
         std::ifstream os(lockFile.localPath());
@@ -156,6 +157,7 @@ void Application::unique() {
     }
 
     sem->lock();  // OS should reset the semaphore
+    sem.release();
 
     std::ofstream os(lockFile.localPath());
     os << ::getpid();
diff --git a/src/eckit/system/Library.cc b/src/eckit/system/Library.cc
index 3e490ba..df28da9 100644
--- a/src/eckit/system/Library.cc
+++ b/src/eckit/system/Library.cc
@@ -15,6 +15,7 @@
 #include <algorithm>
 #include <cctype>
 #include <map>
+#include <memory>
 
 #include "eckit/system/Library.h"
 
@@ -139,12 +140,12 @@ const Configuration& Library::configuration() const {
 
     Log::debug() << "Parsing Lib " << name_ << " config file " << cfgpath << std::endl;
 
-    eckit::Configuration* cfg =
-        cfgpath.exists() ? new eckit::YAMLConfiguration(cfgpath) : new eckit::YAMLConfiguration(std::string(""));
+    auto cfg = cfgpath.exists() ? std::make_unique<eckit::YAMLConfiguration>(cfgpath)
+                                : std::make_unique<eckit::YAMLConfiguration>(std::string(""));
 
     Log::debug() << "Lib " << name_ << " configuration: " << *cfg << std::endl;
 
-    configuration_.reset(cfg);
+    configuration_ = std::move(cfg);
 
     return *configuration_;
 }
diff --git a/src/eckit/value/OrderedMapContent.cc b/src/eckit/value/OrderedMapContent.cc
index dfcedbc..77498ef 100644
--- a/src/eckit/value/OrderedMapContent.cc
+++ b/src/eckit/value/OrderedMapContent.cc
@@ -175,12 +175,14 @@ void OrderedMapContent::json(JSON& s) const {
 
 Content* OrderedMapContent::clone() const {
 
-    OrderedMapContent* m = new OrderedMapContent();
+    ValueMap v;
+    ValueList keys;
 
     for (const auto& key : keys_) {
-        m->element(key.clone()) = value(key).clone();
+        keys.push_back(key.clone());
+        v[keys.back()] = value(key).clone();
     }
-    return m;
+    return new OrderedMapContent(v, keys);
 }
 
 Content* OrderedMapContent::add(const Content& other) const {
-- 
2.43.0


From a5177bbfc6dea01edd7b1389eb2ab8b465229661 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:46:48 +0000
Subject: [PATCH 79/98] fix: tables of a select that fetches nothing were never
 deleted

---
 src/eckit/sql/SQLSelect.cc | 4 +++-
 src/eckit/sql/SQLSelect.h  | 1 +
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/eckit/sql/SQLSelect.cc b/src/eckit/sql/SQLSelect.cc
index a684a9a..4945fdb 100644
--- a/src/eckit/sql/SQLSelect.cc
+++ b/src/eckit/sql/SQLSelect.cc
@@ -334,7 +334,8 @@ void SQLSelect::prepareExecute() {
     // Needed, for example, if we do: select count(*) from "file.oda"
     if (sortedTables_.size() == 0) {
         for (std::vector<const SQLTable*>::iterator i = tables_.begin(); i != tables_.end(); ++i) {
-            sortedTables_.push_back(new SelectOneTable(*i));  // TODO: release the objects!
+            otherTables_.push_back(std::make_unique<SelectOneTable>(*i));
+            sortedTables_.push_back(otherTables_.back().get());
         }
     }
 
@@ -505,6 +506,7 @@ void SQLSelect::reset() {
     allTables_.clear();
 
     sortedTables_.clear();
+    otherTables_.clear();
 
     skips_ = total_ = 0;
 
diff --git a/src/eckit/sql/SQLSelect.h b/src/eckit/sql/SQLSelect.h
index e4df64f..c0e144b 100644
--- a/src/eckit/sql/SQLSelect.h
+++ b/src/eckit/sql/SQLSelect.h
@@ -90,6 +90,7 @@ private:
     Expressions select_;
     std::vector<const SQLTable*> tables_;
     SortedTables sortedTables_;
+    std::vector<std::unique_ptr<SelectOneTable>> otherTables_;  ///< those nothing is fetched from
 
     std::shared_ptr<expression::SQLExpression> where_;
     std::shared_ptr<expression::SQLExpression> simplifiedWhere_;
-- 
2.43.0


From f58c348c1237b011ce21a18bc197b325d1d155fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:57:55 +0000
Subject: [PATCH 80/98] fix: ProducerConsumer::execute joins its consumer when
 the producer throws

---
 src/eckit/runtime/ProducerConsumer.h | 51 +++++++++++++++++++++++++---
 1 file changed, 47 insertions(+), 4 deletions(-)

diff --git a/src/eckit/runtime/ProducerConsumer.h b/src/eckit/runtime/ProducerConsumer.h
index a3b4055..cb2dc15 100644
--- a/src/eckit/runtime/ProducerConsumer.h
+++ b/src/eckit/runtime/ProducerConsumer.h
@@ -11,6 +11,8 @@
 #ifndef eckit_ProducerConsumer_h
 #define eckit_ProducerConsumer_h
 
+#include <memory>
+
 #include "eckit/eckit.h"
 #include "eckit/exception/Exceptions.h"
 #include "eckit/thread/AutoLock.h"
@@ -88,6 +90,8 @@ private:
     // -- Friends
 
     friend class ProducerConsumerTask<PAYLOAD>;
+
+    class ConsumerGuard;
 };
 
 //-----------------------------------------------------------------------------
@@ -136,17 +140,57 @@ inline bool ProducerConsumer<PAYLOAD>::error() {
 }
 
 
+// The consumer thread uses the payloads: it must not outlive them
+
+template <class PAYLOAD>
+class ProducerConsumer<PAYLOAD>::ConsumerGuard {
+    ProducerConsumer<PAYLOAD>& owner_;
+    ThreadControler& thread_;
+    ProducedPayload<PAYLOAD>* payloads_;
+    bool waited_ = false;
+
+public:
+
+    ConsumerGuard(ProducerConsumer<PAYLOAD>& owner, ThreadControler& thread, ProducedPayload<PAYLOAD>* payloads) :
+        owner_(owner), thread_(thread), payloads_(payloads) {}
+
+    ~ConsumerGuard() {
+        if (!waited_) {
+            try {
+                owner_.error("Producing failed");
+                for (long j = 0; j < owner_.count_; j++) {
+                    AutoLock<MutexCond> lock(payloads_[j].cond_);
+                    payloads_[j].ready_ = true;
+                    payloads_[j].cond_.signal();
+                }
+                thread_.wait();
+            }
+            catch (std::exception& e) {
+                Log::error() << "** " << e.what() << " Caught in " << Here() << std::endl;
+                Log::error() << "** Exception is ignored" << std::endl;
+            }
+        }
+    }
+
+    void wait() {
+        waited_ = true;
+        thread_.wait();
+    }
+};
+
 template <class PAYLOAD>
 void ProducerConsumer<PAYLOAD>::execute(Producer<PAYLOAD>& producer, Consumer<PAYLOAD>& consumer) {
 
-    ProducedPayload<PAYLOAD>* payloads = new ProducedPayload<PAYLOAD>[count_];
+    std::unique_ptr<ProducedPayload<PAYLOAD>[]> payloads(new ProducedPayload<PAYLOAD>[count_]);
 
     error_ = false;
 
-    ThreadControler thread(new ProducerConsumerTask<PAYLOAD>(consumer, *this, payloads), false);
+    ThreadControler thread(new ProducerConsumerTask<PAYLOAD>(consumer, *this, payloads.get()), false);
 
     thread.start();
 
+    ConsumerGuard guard(*this, thread, payloads.get());
+
     int i = 0;
 
     while (!error()) {
@@ -184,8 +228,7 @@ void ProducerConsumer<PAYLOAD>::execute(Producer<PAYLOAD>& producer, Consumer<PA
     }
 
 
-    thread.wait();
-    delete[] payloads;
+    guard.wait();
 
     if (error_) {
         throw SeriousBug(why_);
-- 
2.43.0


From f06e481977804de906ef61f48f278fa2384ec3b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:35:41 +0000
Subject: [PATCH 81/98] fix: objects made for FilePool, NetService, Reanimator
 and TxnLog are released when the next step throws

---
 src/eckit/io/FilePool.cc                  |  7 +++++--
 src/eckit/net/NetService.cc               | 11 ++++++++---
 src/eckit/serialisation/ReanimatorBase.cc |  6 ++++--
 src/eckit/transaction/TxnLog.cc           |  4 ++--
 4 files changed, 19 insertions(+), 9 deletions(-)

diff --git a/src/eckit/io/FilePool.cc b/src/eckit/io/FilePool.cc
index 40098b3..4e2e54f 100644
--- a/src/eckit/io/FilePool.cc
+++ b/src/eckit/io/FilePool.cc
@@ -13,6 +13,8 @@
 
 #include "eckit/io/FilePool.h"
 
+#include <memory>
+
 #include "eckit/config/Resource.h"
 #include "eckit/exception/Exceptions.h"
 #include "eckit/io/DataHandle.h"
@@ -60,8 +62,9 @@ DataHandle* FilePool::checkout(const PathName& path) {
         if (inCache) {
             cache_.remove(path);
         }
-        dh = path.fileHandle(false);  // append mode (no overwrite)
-        dh->openForAppend(0);
+        std::unique_ptr<DataHandle> created(path.fileHandle(false));  // append mode (no overwrite)
+        created->openForAppend(0);
+        dh = created.release();
     }
 
     ASSERT(dh);
diff --git a/src/eckit/net/NetService.cc b/src/eckit/net/NetService.cc
index 38e6595..3bab4ce 100644
--- a/src/eckit/net/NetService.cc
+++ b/src/eckit/net/NetService.cc
@@ -10,6 +10,9 @@
 
 
 #include "eckit/net/NetService.h"
+
+#include <memory>
+
 #include "eckit/config/Resource.h"
 #include "eckit/io/Select.h"
 #include "eckit/log/Log.h"
@@ -72,14 +75,16 @@ void NetService::run() {
             }
         }
 
-        NetUser* user = newUser(server_.accept(oss.str()));
+        std::unique_ptr<NetUser> user(newUser(server_.accept(oss.str())));
 
         if (runAsProcess()) {
-            NetServiceProcessControler t(name(), user, server_, Monitor::instance().self(), visible_);
+            const std::string title = name();
+            const long self         = Monitor::instance().self();
+            NetServiceProcessControler t(title, user.release(), server_, self, visible_);
             t.start();
         }
         else {
-            ThreadControler t(user);
+            ThreadControler t(user.release());
             t.start();
         }
     }
diff --git a/src/eckit/serialisation/ReanimatorBase.cc b/src/eckit/serialisation/ReanimatorBase.cc
index 1a77bc6..2cc7d34 100644
--- a/src/eckit/serialisation/ReanimatorBase.cc
+++ b/src/eckit/serialisation/ReanimatorBase.cc
@@ -8,6 +8,8 @@
  * does it submit to any jurisdiction.
  */
 
+#include <memory>
+
 #include "eckit/exception/Exceptions.h"
 #include "eckit/serialisation/Streamable.h"
 
@@ -90,9 +92,9 @@ Streamable* ReanimatorBase::reanimate(Stream& s, const ClassSpec* c) {
         }
     }
 
-    Streamable* x = r->ressucitate(s);
+    std::unique_ptr<Streamable> x(r->ressucitate(s));
     s.skipEndObject();
-    return x;
+    return x.release();
 }
 
 //----------------------------------------------------------------------------------------------------------------------
diff --git a/src/eckit/transaction/TxnLog.cc b/src/eckit/transaction/TxnLog.cc
index 87e3a89..0234bb0 100644
--- a/src/eckit/transaction/TxnLog.cc
+++ b/src/eckit/transaction/TxnLog.cc
@@ -243,10 +243,10 @@ void RecoverThread<T>::recover() {
             try {
                 FileStream log(result_[i], "r");
                 auto c  = closer(log);
-                T* task = Reanimator<T>::reanimate(log);
+                std::unique_ptr<T> task(Reanimator<T>::reanimate(log));
                 if (task) {
                     ASSERT(task->transactionID() < nextID_[0]);
-                    client_.push(task);
+                    client_.push(task.release());
                 }
             }
             catch (std::exception& e) {
-- 
2.43.0


From 2c303561fe6c7c32430d191cc92c4f0ab238ae0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:52:36 +0000
Subject: [PATCH 82/98] fix: Recycler::lock waits for another process to
 release the file, instead of failing

---
 src/eckit/container/Recycler.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/eckit/container/Recycler.h b/src/eckit/container/Recycler.h
index 61df51b..6def17e 100644
--- a/src/eckit/container/Recycler.h
+++ b/src/eckit/container/Recycler.h
@@ -162,7 +162,7 @@ void Recycler<T>::lock() {
     lock.l_start  = 0;
     lock.l_len    = 0;
 
-    SYSCALL(::fcntl(fd_, F_SETLK, &lock));
+    SYSCALL(::fcntl(fd_, F_SETLKW, &lock));
 }
 
 template <class T>
-- 
2.43.0


From 5ad22a77308b36e24e11ce150951157b64f25d9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:52:36 +0000
Subject: [PATCH 83/98] fix: BTree counts and preloads its pages under one
 shared lock, and flock() excludes other writers

---
 src/eckit/container/BTree.cc | 14 +++++++++++---
 src/eckit/container/BTree.h  |  1 +
 2 files changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/eckit/container/BTree.cc b/src/eckit/container/BTree.cc
index 33de294..7c6a29c 100644
--- a/src/eckit/container/BTree.cc
+++ b/src/eckit/container/BTree.cc
@@ -93,6 +93,8 @@ BTree<K, V, S, L>::BTree(const PathName& path, bool readOnly, off_t offset) :
 
 template <class K, class V, int S, class L>
 void BTree<K, V, S, L>::preload() {
+    AutoSharedLock<BTree<K, V, S, L> > lock(this);
+
     Page p;
     loadPage(1, p);
 
@@ -633,6 +635,12 @@ size_t BTree<K, V, S, L>::count() const {
 template <class K, class V, int S, class L>
 size_t BTree<K, V, S, L>::count(unsigned long page) const {
     AutoSharedLock<BTree<K, V, S, L> > lock(const_cast<BTree*>(this));
+    return _count(page);
+}
+
+// The lock does not nest: releasing it once gives it up
+template <class K, class V, int S, class L>
+size_t BTree<K, V, S, L>::_count(unsigned long page) const {
 
     Page p;
     loadPage(page, p);
@@ -640,9 +648,9 @@ size_t BTree<K, V, S, L>::count(unsigned long page) const {
     size_t c = 0;
 
     if (p.node_) {
-        c += this->count(p.left_);
+        c += _count(p.left_);
         for (unsigned long i = 0; i < p.count_; i++)
-            c += count(p.nodePage().nentries_[i].page_);
+            c += _count(p.nodePage().nentries_[i].page_);
     }
     else  // leaf
     {
@@ -673,7 +681,7 @@ void BTree<K, V, S, L>::unlock() {
 template <class K, class V, int S, class L>
 void BTree<K, V, S, L>::flock() {
 
-    if (::flock(file_.fileno(), readOnly_ ? LOCK_EX : LOCK_SH) < 0) {
+    if (::flock(file_.fileno(), readOnly_ ? LOCK_SH : LOCK_EX) < 0) {
         bool skip = false;
 #ifdef ENOTSUP
         if (errno == ENOTSUP) {
diff --git a/src/eckit/container/BTree.h b/src/eckit/container/BTree.h
index 50141b0..2065ba4 100644
--- a/src/eckit/container/BTree.h
+++ b/src/eckit/container/BTree.h
@@ -266,6 +266,7 @@ private:
     void _savePage(const Page&);
     void _loadPage(unsigned long, Page&) const;
     void _newPage(Page&);
+    size_t _count(unsigned long page) const;
 
     bool insert(unsigned long page, const K& key, const V& value, std::vector<unsigned long>& path);
     bool store(unsigned long page, const K& key, const V& value, std::vector<unsigned long>& path);
-- 
2.43.0


From 122a284513123ff5d835bf7d965c0de6ddaaf278 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:14:37 +0000
Subject: [PATCH 84/98] fix: Hour, hexadecimal TimeStamp and codec's byte
 counts leave the fill, base and precision of the stream as they were

---
 src/eckit/codec/print/Bytes.cc | 4 ++++
 src/eckit/log/TimeStamp.cc     | 6 +++++-
 src/eckit/types/Hour.cc        | 6 ++++--
 3 files changed, 13 insertions(+), 3 deletions(-)

diff --git a/src/eckit/codec/print/Bytes.cc b/src/eckit/codec/print/Bytes.cc
index 231ce78..0dd5fb0 100644
--- a/src/eckit/codec/print/Bytes.cc
+++ b/src/eckit/codec/print/Bytes.cc
@@ -32,8 +32,12 @@ public:
     void print(std::ostream& out) const {
         for (long precision = 0; precision <= precision_; ++precision) {
             if (is_precision(precision) || precision == precision_) {
+                const auto oldflags     = out.flags();
+                const auto oldprecision = out.precision();
                 out << std::setprecision(precision);
                 out << std::fixed << x_;
+                out.precision(oldprecision);
+                out.flags(oldflags);
                 break;
             }
         }
diff --git a/src/eckit/log/TimeStamp.cc b/src/eckit/log/TimeStamp.cc
index 2dfc715..8e59edc 100644
--- a/src/eckit/log/TimeStamp.cc
+++ b/src/eckit/log/TimeStamp.cc
@@ -29,7 +29,11 @@ TimeStamp::TimeStamp(time_t t, const std::string& format) : time_(t), format_(fo
 std::ostream& operator<<(std::ostream& s, const TimeStamp& x) {
 
     if (x.format_ == "hex") {
-        s << std::setw(16) << std::setfill('0') << std::hex << static_cast<std::uint64_t>(x.time_);
+        const auto oldflags = s.flags();
+        const char oldfill  = s.fill();
+        s << std::setw(16) << std::setfill('0') << std::hex << static_cast<std::uint64_t>(x.time_)
+          << std::setfill(oldfill);
+        s.flags(oldflags);
         return s;
     }
 
diff --git a/src/eckit/types/Hour.cc b/src/eckit/types/Hour.cc
index ebc6b9e..167a08f 100644
--- a/src/eckit/types/Hour.cc
+++ b/src/eckit/types/Hour.cc
@@ -85,14 +85,16 @@ void Hour::print(std::ostream& out) const {
     long minutes = (seconds_ / 60) % 60;
     long hours   = seconds_ / 3600;
 
+    const char oldfill = out.fill();
+
     if (seconds) {
         out << hours << ':' << std::setw(2) << std::setfill('0') << minutes << ':' << std::setw(2) << std::setfill('0')
-            << seconds;
+            << seconds << std::setfill(oldfill);
         return;
     }
 
     if (minutes) {
-        out << hours << ':' << std::setw(2) << std::setfill('0') << minutes;
+        out << hours << ':' << std::setw(2) << std::setfill('0') << minutes << std::setfill(oldfill);
         return;
     }
 
-- 
2.43.0


From 74fb6dc6503679dca483f92d743721f22dc555d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:14:37 +0000
Subject: [PATCH 85/98] fix: the signal mask, the alarm's handler and the alarm
 are put back when fork() fails, a connection times out or an AutoAlarm ends

---
 src/eckit/net/TCPSocket.cc            | 9 +++++----
 src/eckit/os/AutoAlarm.cc             | 2 +-
 src/eckit/runtime/ProcessControler.cc | 1 +
 3 files changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/eckit/net/TCPSocket.cc b/src/eckit/net/TCPSocket.cc
index 187341e..c4902b6 100644
--- a/src/eckit/net/TCPSocket.cc
+++ b/src/eckit/net/TCPSocket.cc
@@ -329,10 +329,10 @@ void TCPSocket::close() {
     localAddr_ = remoteAddr_ = none;
 }
 
-static jmp_buf env;
+static sigjmp_buf env;
 
 static void catch_alarm(int) {
-    longjmp(env, 1);
+    siglongjmp(env, 1);
 }
 
 
@@ -400,8 +400,8 @@ TCPSocket& TCPClient::connect(const std::string& remote, int port, int retries,
         bind();
 
         if (timeout) {
-            if (setjmp(env) == 0) {
-                void (*old)(int) = signal(SIGALRM, catch_alarm);
+            void (*old)(int) = signal(SIGALRM, catch_alarm);
+            if (sigsetjmp(env, 1) == 0) {
                 alarm(timeout);
                 status     = ::connect(socket_, reinterpret_cast<sockaddr*>(&sin), sizeof(sin));
                 save_errno = errno;
@@ -410,6 +410,7 @@ TCPSocket& TCPClient::connect(const std::string& remote, int port, int retries,
                 signal(SIGALRM, old);
             }
             else {
+                signal(SIGALRM, old);
                 throw TimeOut("connect", timeout);
             }
         }
diff --git a/src/eckit/os/AutoAlarm.cc b/src/eckit/os/AutoAlarm.cc
index c283cf2..22259b2 100644
--- a/src/eckit/os/AutoAlarm.cc
+++ b/src/eckit/os/AutoAlarm.cc
@@ -47,10 +47,10 @@ AutoAlarm::AutoAlarm(int sec, bool t) {
 }
 
 AutoAlarm::~AutoAlarm() {
+    ::alarm(0);  // first, so that it does not go off under the handler that is put back
     throw_ = saveThrow_;
     sec_   = saveSec_;
     ::signal(SIGALRM, old_);
-    ::alarm(0);
 }
 
 //----------------------------------------------------------------------------------------------------------------------
diff --git a/src/eckit/runtime/ProcessControler.cc b/src/eckit/runtime/ProcessControler.cc
index 81b502c..105a5d6 100644
--- a/src/eckit/runtime/ProcessControler.cc
+++ b/src/eckit/runtime/ProcessControler.cc
@@ -147,6 +147,7 @@ void ProcessControler::start() {
 
         case -1:
             Log::error() << "Cannot fork " << Log::syserr << std::endl;
+            pthread_sigmask(SIG_SETMASK, &oldmask, nullptr);
             throw FailedSystemCall("fork");
 
         default:
-- 
2.43.0


From 133cfc9a5b0df618bbec2ac6b00911dcd8d464c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:40:32 +0000
Subject: [PATCH 86/98] fix: BufferedHandle writes what it holds before it
 seeks or rewinds, and never while it reads

---
 src/eckit/io/BufferedHandle.cc | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/eckit/io/BufferedHandle.cc b/src/eckit/io/BufferedHandle.cc
index 4206053..3dbd8c2 100644
--- a/src/eckit/io/BufferedHandle.cc
+++ b/src/eckit/io/BufferedHandle.cc
@@ -161,11 +161,16 @@ void BufferedHandle::close() {
 }
 
 void BufferedHandle::flush() {
-    bufferFlush();
+    if (!read_) {
+        bufferFlush();
+    }
     handle().flush();
 }
 
 void BufferedHandle::rewind() {
+    if (!read_) {
+        bufferFlush();
+    }
     position_ = 0;
     used_ = pos_ = 0;
     eof_         = false;
@@ -173,6 +178,9 @@ void BufferedHandle::rewind() {
 }
 
 Offset BufferedHandle::seek(const Offset& off) {
+    if (!read_) {
+        bufferFlush();
+    }
     used_ = pos_ = 0;
     eof_         = false;
     position_    = handle().seek(off);
-- 
2.43.0


From 8139d079e354f4ba8073dfeea6e4b95efcea2710 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:40:32 +0000
Subject: [PATCH 87/98] fix: MemoryHandle grows to the end of what is written,
 wherever that begins

---
 src/eckit/io/MemoryHandle.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/eckit/io/MemoryHandle.cc b/src/eckit/io/MemoryHandle.cc
index 674de45..ef9974f 100644
--- a/src/eckit/io/MemoryHandle.cc
+++ b/src/eckit/io/MemoryHandle.cc
@@ -143,7 +143,7 @@ long MemoryHandle::write(const void* buffer, long length) {
             capacity_ = newcapacity;
         }
 
-        size_ += length;
+        size_ = size_t(position_) + size_t(length);
 
         left = size_ - position_;
     }
-- 
2.43.0


From 2937218ff00bc9fecabfaea45e78fa3b7498b7b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:40:32 +0000
Subject: [PATCH 88/98] fix: SQLOrderOutput forgets the rows of the last query
 when reset, and hands on changes of type

---
 src/eckit/sql/SQLOrderOutput.cc | 6 ++++++
 src/eckit/sql/SQLOrderOutput.h  | 1 +
 2 files changed, 7 insertions(+)

diff --git a/src/eckit/sql/SQLOrderOutput.cc b/src/eckit/sql/SQLOrderOutput.cc
index d565b7b..96b2f47 100644
--- a/src/eckit/sql/SQLOrderOutput.cc
+++ b/src/eckit/sql/SQLOrderOutput.cc
@@ -44,6 +44,7 @@ unsigned long long SQLOrderOutput::count() {
 
 void SQLOrderOutput::reset() {
     output_.reset();
+    sortedResults_.clear();
 }
 
 void SQLOrderOutput::flush() {
@@ -108,6 +109,7 @@ void SQLOrderOutput::preprepare(SQLSelect& sql) {
 
 void SQLOrderOutput::prepare(SQLSelect& sql) {
     output_.prepare(sql);
+    byIndices_.clear();
     Expressions& ex(by_.first);
     for (size_t i(0); i < ex.size(); ++i) {
         if (!ex[i]->isConstant()) {
@@ -126,6 +128,10 @@ void SQLOrderOutput::prepare(SQLSelect& sql) {
     }
 }
 
+void SQLOrderOutput::updateTypes(SQLSelect& sql) {
+    output_.updateTypes(sql);
+}
+
 void SQLOrderOutput::cleanup(SQLSelect& sql) {
     output_.cleanup(sql);
     for (Expressions::iterator j = by_.first.begin(); j != by_.first.end(); ++j) {
diff --git a/src/eckit/sql/SQLOrderOutput.h b/src/eckit/sql/SQLOrderOutput.h
index d572757..403ba63 100644
--- a/src/eckit/sql/SQLOrderOutput.h
+++ b/src/eckit/sql/SQLOrderOutput.h
@@ -56,6 +56,7 @@ private:  // methods
     bool output(const expression::Expressions&) override;
     void preprepare(SQLSelect&) override;
     void prepare(SQLSelect&) override;
+    void updateTypes(SQLSelect&) override;
     void cleanup(SQLSelect&) override;
     unsigned long long count() override;
 
-- 
2.43.0


From 7ddc455e7d41b90fdf166a3a7d9c49bcd82845dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:40:32 +0000
Subject: [PATCH 89/98] fix: LineBasedTarget keeps the beginning of a line when
 its buffer grows

---
 src/eckit/log/LineBasedTarget.cc | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/eckit/log/LineBasedTarget.cc b/src/eckit/log/LineBasedTarget.cc
index 51735d5..5702148 100644
--- a/src/eckit/log/LineBasedTarget.cc
+++ b/src/eckit/log/LineBasedTarget.cc
@@ -8,6 +8,8 @@
  * does it submit to any jurisdiction.
  */
 
+#include <algorithm>
+
 #include "eckit/exception/Exceptions.h"
 #include "eckit/maths/Functions.h"
 
@@ -27,10 +29,13 @@ LineBasedTarget::~LineBasedTarget() {
 
 void LineBasedTarget::reserve(size_t size) {
     if (size_ < size) {
+        size         = round(size, 1024 * 1024);
+        char* buffer = new char[size];
+        ASSERT(buffer);
+        std::copy(buffer_, buffer_ + position_, buffer);
         delete[] buffer_;
-        size_   = round(size, 1024 * 1024);
-        buffer_ = new char[size_];
-        ASSERT(buffer_);
+        buffer_ = buffer;
+        size_   = size;
     }
 }
 
-- 
2.43.0


From 6c09b47c5402f8504b9343c7dea6c00742102d5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:40:32 +0000
Subject: [PATCH 90/98] fix: FileHandle and TransportHandle start afresh when
 they are opened again

---
 src/eckit/distributed/TransportHandle.cc | 6 ++++--
 src/eckit/io/FileHandle.cc               | 1 +
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/eckit/distributed/TransportHandle.cc b/src/eckit/distributed/TransportHandle.cc
index 65b335d..ee97149 100644
--- a/src/eckit/distributed/TransportHandle.cc
+++ b/src/eckit/distributed/TransportHandle.cc
@@ -45,7 +45,8 @@ eckit::Length TransportHandle::openForRead() {
 }
 
 void TransportHandle::openForWrite(const eckit::Length& length) {
-    append_ = false;
+    append_   = false;
+    position_ = 0;
 
     Message message(Actor::OPEN, eckit::round(path_.length() + 64, 1024));
     message << path_;
@@ -56,7 +57,8 @@ void TransportHandle::openForWrite(const eckit::Length& length) {
 }
 
 void TransportHandle::openForAppend(const eckit::Length& length) {
-    append_ = true;
+    append_   = true;
+    position_ = 0;
 
     Message message(Actor::OPEN, eckit::round(path_.length() + 64, 1024));
     message << path_;
diff --git a/src/eckit/io/FileHandle.cc b/src/eckit/io/FileHandle.cc
index 6e65021..f3688b9 100644
--- a/src/eckit/io/FileHandle.cc
+++ b/src/eckit/io/FileHandle.cc
@@ -107,6 +107,7 @@ void FileHandle::openForWrite(const Length& length) {
 }
 
 void FileHandle::openForAppend(const Length&) {
+    read_ = false;
     open("a");
 }
 
-- 
2.43.0


From b3ba5c426832d59adc6c7e469e0aad7b31e74f34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:40:32 +0000
Subject: [PATCH 91/98] fix: AIOHandle waits for the requests that use its
 buffers before it releases them

---
 src/eckit/io/AIOHandle.cc | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/eckit/io/AIOHandle.cc b/src/eckit/io/AIOHandle.cc
index f2846ac..117b8fe 100644
--- a/src/eckit/io/AIOHandle.cc
+++ b/src/eckit/io/AIOHandle.cc
@@ -279,6 +279,17 @@ void AIOHandle::flush() {
 //----------------------------------------------------------------------------------------------------------------------
 
 AIOHandle::~AIOHandle() {
+    // the requests under way use the buffers until they are done: each attempt leaves out the one that failed
+    size_t attempts = 0;
+    do {
+        try {
+            close();
+        }
+        catch (std::exception& e) {
+            Log::error() << "AIOHandle: " << path_ << ": " << e.what() << std::endl;
+        }
+    } while (fd_ != -1 && ++attempts <= count_);
+
     for (size_t i = 0; i < count_; i++) {
         delete buffers_[i];
     }
-- 
2.43.0


From 9c85a77072b7ae39acad268fa527995f96f73a1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:41:06 +0000
Subject: [PATCH 92/98] fix: ArgContentOption does not use an iterator after
 what it points into has grown

---
 src/eckit/cmd/Arg.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/eckit/cmd/Arg.cc b/src/eckit/cmd/Arg.cc
index 8621bef..241d24b 100644
--- a/src/eckit/cmd/Arg.cc
+++ b/src/eckit/cmd/Arg.cc
@@ -54,7 +54,10 @@ class ArgContentOption : public ArgContent {
             for (std::vector<std::string>::iterator j = v.begin(); j != v.end(); ++j) {
                 if ((*j) == name_) {
                     more = true;
+                    // this may move the elements
+                    const auto at = j - v.begin();
                     v.push_back("** marker **");
+                    j = v.begin() + at;
                     if ((*(j + 1))[0] != '-') {
                         v.erase(j + 1);
                     }
-- 
2.43.0


From c5494befedbd164e2932280eb84242d6010599b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:47:21 +0000
Subject: [PATCH 93/98] fix: TimeStamp keeps its own copy of the format, which
 may be a temporary

---
 src/eckit/log/TimeStamp.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/eckit/log/TimeStamp.h b/src/eckit/log/TimeStamp.h
index f22e3b6..a97b1bd 100644
--- a/src/eckit/log/TimeStamp.h
+++ b/src/eckit/log/TimeStamp.h
@@ -37,7 +37,7 @@ public:  // methods
 private:  // members
 
     time_t time_;
-    const std::string& format_;
+    std::string format_;
 
     static const char* defaultFormat_;
 };
-- 
2.43.0


From 82393a65e20b17805f52f061377c28441e148871 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:47:21 +0000
Subject: [PATCH 94/98] fix: ConvexHull::Exception keeps its own copy of the
 command, which may end before it is caught

---
 src/eckit/maths/ConvexHull.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/eckit/maths/ConvexHull.h b/src/eckit/maths/ConvexHull.h
index 6cbd114..34ef81d 100644
--- a/src/eckit/maths/ConvexHull.h
+++ b/src/eckit/maths/ConvexHull.h
@@ -32,7 +32,7 @@ public:
         Exception(const std::string& what, int _errorCode, const std::string& _command) :
             eckit::Exception(what), errorCode(_errorCode), command(_command) {}
         const int errorCode;
-        const std::string& command;
+        const std::string command;
     };
 
     struct DimensionError : Exception {
-- 
2.43.0


From f34bdf7d6f8ab8014fdfce828ecd1c12bf0c99e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:09:17 +0000
Subject: [PATCH 95/98] fix: PipeHandler does not refer to the pipe that it has
 deleted, or that there is not

---
 src/eckit/runtime/PipeHandler.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/eckit/runtime/PipeHandler.cc b/src/eckit/runtime/PipeHandler.cc
index 95ea9a6..7d8b6a3 100644
--- a/src/eckit/runtime/PipeHandler.cc
+++ b/src/eckit/runtime/PipeHandler.cc
@@ -118,7 +118,9 @@ void PipeHandler<Request>::handle(const std::vector<Request*>& v) {
 
     try {
         // Send the end batch flag
-        *pipe_ << bool(true);
+        if (pipe_) {
+            *pipe_ << bool(true);
+        }
     }
     catch (std::exception& e) {
         Log::error() << "** " << e.what() << " Caught in " << Here() << std::endl;
@@ -154,6 +156,7 @@ void PipeHandler<Request>::start() {
 
 
     delete pipe_;
+    pipe_ = nullptr;
     pipe_ = new PipeStream();
 
     ProcessControler::start();
-- 
2.43.0


From e95527cfdeb04ab337d25da7b04dc8498b08dced Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:27:03 +0000
Subject: [PATCH 96/98] fix: a cloned ConstantExpression keeps its title

---
 src/eckit/sql/expression/ConstantExpression.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/eckit/sql/expression/ConstantExpression.cc b/src/eckit/sql/expression/ConstantExpression.cc
index 5f562be..db92d4b 100644
--- a/src/eckit/sql/expression/ConstantExpression.cc
+++ b/src/eckit/sql/expression/ConstantExpression.cc
@@ -18,6 +18,7 @@ ConstantExpression::ConstantExpression(double v, bool missing, const type::SQLTy
     value_(v), missing_(missing), type_(*type) {}
 
 ConstantExpression::ConstantExpression(const ConstantExpression& rhs, const ConstantExpression::PrivateKey&) :
+    SQLExpression(rhs),
     isBitfield_(rhs.isBitfield_),
     bitfieldDef_(rhs.bitfieldDef_),
     hasMissingValue_(rhs.hasMissingValue_),
-- 
2.43.0


From f5e71e52581cb7bc8dda5e26bd79c1cbb4d1041c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:28:45 +0000
Subject: [PATCH 97/98] fix: FileBase::read leaves the caller's data alone when
 the record is not valid

---
 src/eckit/io/FileBase.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/eckit/io/FileBase.cc b/src/eckit/io/FileBase.cc
index 6a19f95..9b278e2 100644
--- a/src/eckit/io/FileBase.cc
+++ b/src/eckit/io/FileBase.cc
@@ -51,8 +51,11 @@ bool FileBase<T>::read(long rec, T& data) {
     if (size != sizeof(Record))  // EOF reached
         return false;
 
+    if (!buffer_.valid_)
+        return false;
+
     ::memcpy(&data, &buffer_, sizeof(T));
-    return buffer_.valid_;
+    return true;
 }
 
 template <class T>
-- 
2.43.0


From 8c18a374f8ed8f12fdfcce55688f19893a8a9e15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:30:06 +0000
Subject: [PATCH 98/98] fix: PooledFile reports that the position after a read
 is not known

---
 src/eckit/io/PooledFile.cc | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/eckit/io/PooledFile.cc b/src/eckit/io/PooledFile.cc
index 8b7f0f9..f14dc04 100644
--- a/src/eckit/io/PooledFile.cc
+++ b/src/eckit/io/PooledFile.cc
@@ -172,7 +172,11 @@ public:
             throw PooledFileError(name_, "Read error", Here());
         }
 
-        s->second.position_ = ::ftello(file_);
+        off_t position = ::ftello(file_);
+        if (position < 0) {
+            throw PooledFileError(name_, "Failed to tell the position", Here());
+        }
+        s->second.position_ = position;
 
         nbReads_++;
 
-- 
2.43.0

