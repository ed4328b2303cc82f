From 07a247e174127542cca793026c6c98c9373ffa70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:21 +0000
Subject: [PATCH 01/38] fix: free the new buffer when
 circular_buffer::set_capacity fails

---
 src/utility/circular_buffer.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/utility/circular_buffer.hpp b/src/utility/circular_buffer.hpp
index f257d26..fa7d5d8 100644
--- a/src/utility/circular_buffer.hpp
+++ b/src/utility/circular_buffer.hpp
@@ -278,7 +278,7 @@ namespace gapp::detail
             if (new_capacity == capacity()) return;
 
             pointer new_buffer = detail::allocate<T>(alloc_, new_capacity).data;
-            detail::scope_exit guard{ [&] { detail::deallocate(alloc_, buffer_, new_capacity); } };
+            detail::scope_exit guard{ [&] { detail::deallocate(alloc_, new_buffer, new_capacity); } };
             const size_type new_size = std::min<size_type>(new_capacity, size());
             std::uninitialized_copy_n(detail::make_move_iterator_if_noexcept(begin()), new_size, new_buffer);
             destroy();
-- 
2.43.0


From 43350881a307a81f7dd2adf801b8d94109359a5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:21 +0000
Subject: [PATCH 02/38] fix: let exceptions of an element's copy leave
 circular_buffer::push_front

---
 src/utility/circular_buffer.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/utility/circular_buffer.hpp b/src/utility/circular_buffer.hpp
index fa7d5d8..9b0d887 100644
--- a/src/utility/circular_buffer.hpp
+++ b/src/utility/circular_buffer.hpp
@@ -202,7 +202,7 @@ namespace gapp::detail
         }
 
         constexpr void push_front(const value_type& value)
-        noexcept(std::is_nothrow_move_constructible_v<T>)
+        noexcept(std::is_nothrow_copy_constructible_v<T>)
         {
             GAPP_ASSERT(capacity() > 0);
             emplace_front(value);
-- 
2.43.0


From 60fb234ba43eaf683aa765316e2c6105658f032d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:24 +0000
Subject: [PATCH 03/38] fix: destroy the last element in small_vector::pop_back

---
 src/utility/small_vector.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/utility/small_vector.hpp b/src/utility/small_vector.hpp
index 7e1408f..b993b91 100644
--- a/src/utility/small_vector.hpp
+++ b/src/utility/small_vector.hpp
@@ -767,7 +767,7 @@ namespace gapp
             return *last_++;
         }
 
-        constexpr void pop_back() noexcept { GAPP_ASSERT(!empty()); detail::destroy(alloc_, last_--); }
+        constexpr void pop_back() noexcept { GAPP_ASSERT(!empty()); detail::destroy(alloc_, --last_); }
 
         constexpr void resize(size_type count) { resize_impl(count); }
         constexpr void resize(size_type count, const T& value) { resize_impl(count, value); }
-- 
2.43.0


From 9dee483b915dcd7bed51afbbc17793e65379e685 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:24 +0000
Subject: [PATCH 04/38] fix: insert multiple elements at the requested position
 of a small_vector

---
 src/utility/small_vector.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/utility/small_vector.hpp b/src/utility/small_vector.hpp
index b993b91..a779d12 100644
--- a/src/utility/small_vector.hpp
+++ b/src/utility/small_vector.hpp
@@ -814,7 +814,8 @@ namespace gapp
                 last_ = new_middle;
                 detail::relocate_range_weak(alloc_, middle, old_last, new_middle);
                 last_ = new_last;
-                detail::assign_range(middle, old_last, value);
+                std::move_backward(first_ + offset, middle, old_last);
+                detail::assign_range(first_ + offset, first_ + offset + moved_size, value);
 
                 return first_ + offset;
             }
@@ -841,7 +842,8 @@ namespace gapp
                 last_ = new_middle;
                 detail::relocate_range_weak(alloc_, middle, old_last, new_middle);
                 last_ = new_last;
-                detail::assign_range(middle, old_last, src_first);
+                std::move_backward(first_ + offset, middle, old_last);
+                detail::assign_range(first_ + offset, first_ + offset + moved_size, src_first);
 
                 return first_ + offset;
             }
-- 
2.43.0


From 4115c255d134dd19b7b87ab46530777f0eb4ba57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:24 +0000
Subject: [PATCH 05/38] fix: destroy the elements of a small_vector when its
 construction from input iterators fails

---
 src/utility/small_vector.hpp | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/src/utility/small_vector.hpp b/src/utility/small_vector.hpp
index a779d12..2b6018c 100644
--- a/src/utility/small_vector.hpp
+++ b/src/utility/small_vector.hpp
@@ -406,10 +406,7 @@ namespace gapp
 
         template<std::input_iterator Iter>
         constexpr small_vector(Iter src_first, Iter src_last, const A& allocator = A()) :
-            first_(buffer_.begin()),
-            last_(buffer_.begin()),
-            last_alloc_(buffer_.end()),
-            alloc_(allocator)
+            small_vector(allocator)
         {
             while (src_first != src_last) emplace_back(*src_first++);
         }
-- 
2.43.0


From 4c0a88fd51444b1c56519677af0c5c462cba5fb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:20 +0000
Subject: [PATCH 06/38] fix: allow small_vector::insert and resize with an
 element of the vector itself

---
 src/utility/small_vector.hpp | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/src/utility/small_vector.hpp b/src/utility/small_vector.hpp
index 2b6018c..1b368e8 100644
--- a/src/utility/small_vector.hpp
+++ b/src/utility/small_vector.hpp
@@ -767,7 +767,13 @@ namespace gapp
         constexpr void pop_back() noexcept { GAPP_ASSERT(!empty()); detail::destroy(alloc_, --last_); }
 
         constexpr void resize(size_type count) { resize_impl(count); }
-        constexpr void resize(size_type count, const T& value) { resize_impl(count, value); }
+        constexpr void resize(size_type count, const T& value)
+        {
+            if (count <= capacity()) return resize_impl(count, value);
+
+            const detail::allocator_managed<T, A> new_value(alloc_, value);
+            resize_impl(count, *new_value);
+        }
 
         constexpr iterator insert(const_iterator pos, const T& value) { return emplace(pos, value); }
         constexpr iterator insert(const_iterator pos, T&& value) { return emplace(pos, std::move(value)); }
@@ -798,6 +804,8 @@ namespace gapp
         {
             if (last_alloc_ - last_ >= count)
             {
+                const detail::allocator_managed<T, A> new_value(alloc_, value);
+
                 const difference_type offset = std::distance(cbegin(), pos);
                 const difference_type src_size = difference_type(count);
 
@@ -807,12 +815,12 @@ namespace gapp
                 const auto new_last   = last_ + src_size;
                 const auto new_middle = middle + src_size;
 
-                detail::construct_range(alloc_, last_, new_middle, value);
+                detail::construct_range(alloc_, last_, new_middle, *new_value);
                 last_ = new_middle;
                 detail::relocate_range_weak(alloc_, middle, old_last, new_middle);
                 last_ = new_last;
                 std::move_backward(first_ + offset, middle, old_last);
-                detail::assign_range(first_ + offset, first_ + offset + moved_size, value);
+                detail::assign_range(first_ + offset, first_ + offset + moved_size, *new_value);
 
                 return first_ + offset;
             }
@@ -966,10 +974,10 @@ namespace gapp
 
             detail::alloc_result_t<A> alloc_result = detail::allocate<T>(alloc_, new_capacity);
             detail::scope_exit guard1{ [&] { detail::deallocate(alloc_, alloc_result.data, alloc_result.size); } };
-            detail::relocate_range_weak(alloc_, first_, first_ + offset, alloc_result.data);
-            detail::scope_exit guard2{ [&] { detail::destroy_range(alloc_, alloc_result.data, alloc_result.data + offset); } };
             detail::construct_range(alloc_, alloc_result.data + offset, alloc_result.data + offset + src_size, value);
-            detail::scope_exit guard3{ [&] { detail::destroy_range(alloc_, alloc_result.data + offset, alloc_result.data + offset + src_size); } };
+            detail::scope_exit guard2{ [&] { detail::destroy_range(alloc_, alloc_result.data + offset, alloc_result.data + offset + src_size); } };
+            detail::relocate_range_weak(alloc_, first_, first_ + offset, alloc_result.data);
+            detail::scope_exit guard3{ [&] { detail::destroy_range(alloc_, alloc_result.data, alloc_result.data + offset); } };
             detail::relocate_range_weak(alloc_, first_ + offset, last_, alloc_result.data + offset + src_size);
             { guard1.release(); guard2.release(); guard3.release(); }
             detail::destroy_range(alloc_, first_, last_);
-- 
2.43.0


From 155b56a0137a9a10d94b87f81d38a16eb5f562dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:28 +0000
Subject: [PATCH 07/38] fix: set the new bits in the previously last block when
 growing a dynamic_bitset

---
 src/utility/dynamic_bitset.hpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/utility/dynamic_bitset.hpp b/src/utility/dynamic_bitset.hpp
index a00c74d..53f10cd 100644
--- a/src/utility/dynamic_bitset.hpp
+++ b/src/utility/dynamic_bitset.hpp
@@ -121,10 +121,11 @@ namespace gapp::detail
         {
             blocks_.resize(new_size / block_size + bool(new_size % block_size), block_of<block_type>(value));
 
-            if (new_size > size_)
+            if (new_size > size_ && partial_block_size() != 0)
             {
-                blocks_.back() &= partial_block_mask();
-                blocks_.back() |= ~partial_block_mask() & block_of<block_type>(value);
+                block_type& old_last = blocks_[full_block_count()];
+                old_last &= partial_block_mask();
+                old_last |= ~partial_block_mask() & block_of<block_type>(value);
             }
 
             size_ = new_size;
-- 
2.43.0


From 42b6b44326bb1d6cae4f0d3ecfc9f390e05537b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:28 +0000
Subject: [PATCH 08/38] fix: make the queries of an empty dynamic_bitset valid

---
 src/utility/dynamic_bitset.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/utility/dynamic_bitset.hpp b/src/utility/dynamic_bitset.hpp
index 53f10cd..bb35658 100644
--- a/src/utility/dynamic_bitset.hpp
+++ b/src/utility/dynamic_bitset.hpp
@@ -246,7 +246,7 @@ namespace gapp::detail
 
         constexpr block_type partial_block() const noexcept
         {
-            return blocks_.back() & partial_block_mask();
+            return blocks_.empty() ? zeros<block_type> : (blocks_.back() & partial_block_mask());
         }
     };
 
-- 
2.43.0


From 651e7e5170972aca90bb53bd005d5400ece5c971 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:07 +0000
Subject: [PATCH 09/38] fix: ignore the cache size when the fitness function is
 dynamic

---
 src/core/ga_base.impl.hpp | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/core/ga_base.impl.hpp b/src/core/ga_base.impl.hpp
index 40d204f..e3d5356 100644
--- a/src/core/ga_base.impl.hpp
+++ b/src/core/ga_base.impl.hpp
@@ -463,10 +463,8 @@ namespace gapp
          * is no point doing it again. */
         if (!fitness_function_->is_dynamic() && sol.is_evaluated) return;
         
-        if (cached_generations_)
+        if (cached_generations_ && !fitness_function_->is_dynamic())
         {
-            GAPP_ASSERT(!fitness_function_->is_dynamic());
-
             const FitnessVector* fitness = fitness_cache_.get(sol);
             if (fitness)
             {
-- 
2.43.0


From f2421d3159f652bde21c6a37b75cec92b59fc9e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:07 +0000
Subject: [PATCH 10/38] fix: advance the generation counter before the metrics
 and the callback of the new generation

---
 src/core/ga_base.impl.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/ga_base.impl.hpp b/src/core/ga_base.impl.hpp
index e3d5356..83a4201 100644
--- a/src/core/ga_base.impl.hpp
+++ b/src/core/ga_base.impl.hpp
@@ -527,12 +527,12 @@ namespace gapp
         });
 
         updatePopulation(std::move(children));
+        generation_cntr_++;
 
         if (keep_all_optimal_sols_) updateOptimalSolutions(solutions_, population_);
         metrics_.update(*this);
 
         if (on_generation_end_) on_generation_end_(*this);
-        generation_cntr_++;
     }
 
     template<typename T>
-- 
2.43.0


From 4663a66387aa15932afca98c6a69827de0c7302a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:07 +0000
Subject: [PATCH 11/38] fix: keep the optimal solutions of the initial
 population without duplicates

---
 src/core/ga_base.impl.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/core/ga_base.impl.hpp b/src/core/ga_base.impl.hpp
index 83a4201..7748c36 100644
--- a/src/core/ga_base.impl.hpp
+++ b/src/core/ga_base.impl.hpp
@@ -338,7 +338,6 @@ namespace gapp
         population_ = generatePopulation(population_size_, std::move(initial_population));
         detail::parallel_for(population_.begin(), population_.end(), [this](Candidate<T>& sol) { evaluate(sol); });
         fitness_matrix_ = detail::toFitnessMatrix(population_);
-        if (keep_all_optimal_sols_) solutions_ = detail::findParetoFront(population_);
 
         GAPP_ASSERT(isValidEvaluatedPopulation(population_));
         GAPP_ASSERT(fitnessMatrixIsSynced());
@@ -349,6 +348,8 @@ namespace gapp
         if (use_default_algorithm_) algorithm_ = defaultAlgorithm();
         algorithm_->initialize(*this);
 
+        if (keep_all_optimal_sols_) updateOptimalSolutions(solutions_, population_);
+
         if (use_default_mutation_rate_) mutation_rate(defaultMutationRate());
 
         stop_condition_->initialize(*this);
-- 
2.43.0


From 145b8bb34542279e7ebbcfa3ad29f7165d70abb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:07 +0000
Subject: [PATCH 12/38] fix: deduce the default mutation rate for every run

---
 src/core/ga_base.impl.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/ga_base.impl.hpp b/src/core/ga_base.impl.hpp
index 7748c36..b23d41a 100644
--- a/src/core/ga_base.impl.hpp
+++ b/src/core/ga_base.impl.hpp
@@ -350,7 +350,7 @@ namespace gapp
 
         if (keep_all_optimal_sols_) updateOptimalSolutions(solutions_, population_);
 
-        if (use_default_mutation_rate_) mutation_rate(defaultMutationRate());
+        if (use_default_mutation_rate_) mutation_->mutation_rate(defaultMutationRate());
 
         stop_condition_->initialize(*this);
 
-- 
2.43.0


From 04dfb7f4ccd7d1928e69896df97ff9dc9b3418f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:07 +0000
Subject: [PATCH 13/38] fix: deduce the algorithm when a constructor was given
 none

---
 src/core/ga_base.impl.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/core/ga_base.impl.hpp b/src/core/ga_base.impl.hpp
index b23d41a..c1cf53c 100644
--- a/src/core/ga_base.impl.hpp
+++ b/src/core/ga_base.impl.hpp
@@ -54,7 +54,6 @@ namespace gapp
     GA<T>::GA(Positive<size_t> population_size, std::unique_ptr<typename algorithm::Algorithm> algorithm) :
         GA(population_size, std::move(algorithm), std::make_unique<typename GaTraits<T>::DefaultCrossover>(), std::make_unique<typename GaTraits<T>::DefaultMutation>(0.01))
     {
-        use_default_algorithm_ = false;
         use_default_mutation_rate_ = true;
     }
 
@@ -87,7 +86,9 @@ namespace gapp
            std::make_unique<CrossoverType>(std::move(crossover)),
            std::make_unique<MutationType>(std::move(mutation)),
            std::make_unique<StoppingType>(std::move(stop_condition)))
-    {}
+    {
+        use_default_algorithm_ = true;
+    }
 
     template<typename T>
     template<typename AlgorithmType, typename CrossoverType, typename MutationType, typename StoppingType>
-- 
2.43.0


From 44f9546e4540069fa6694fc1688fe4e8e2f37819 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:07 +0000
Subject: [PATCH 14/38] fix: evaluate both operands of a disjunction of stop
 conditions

---
 src/stop_condition/composite.hpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/stop_condition/composite.hpp b/src/stop_condition/composite.hpp
index 3be47c6..6fc32c7 100644
--- a/src/stop_condition/composite.hpp
+++ b/src/stop_condition/composite.hpp
@@ -29,8 +29,12 @@ namespace gapp::stopping::dtl
 
         bool stop_condition(const GaInfo& ga) override
         {
-            // short-circuiting is fine here, since the GA will be stopped anyway if left_ returns true.
-            return std::invoke(left_, ga) || std::invoke(right_, ga);   
+            // Both of the stop conditions should be evaluated even if the first one is true, as this
+            // condition might only be a part of another one, and the run might continue.
+            const bool left = std::invoke(left_, ga);
+            const bool right = std::invoke(right_, ga);
+
+            return left || right;
         }
 
         Left left_;
-- 
2.43.0


From 1280e316b783e20d1ab52e3125b8d48d0dc60869 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:07 +0000
Subject: [PATCH 15/38] fix: require every objective to reach the threshold in
 the FitnessValue stop condition

---
 src/stop_condition/stop_condition.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/stop_condition/stop_condition.cpp b/src/stop_condition/stop_condition.cpp
index 953d0b4..9bab72f 100644
--- a/src/stop_condition/stop_condition.cpp
+++ b/src/stop_condition/stop_condition.cpp
@@ -48,7 +48,8 @@ namespace gapp::stopping
         return std::any_of(fitness_matrix.begin(), fitness_matrix.end(),
         [&](const auto& fitness_vector) noexcept
         {
-            return !math::paretoCompareLess(fitness_vector, fitness_threshold_);
+            return std::equal(fitness_vector.begin(), fitness_vector.end(), fitness_threshold_.begin(), fitness_threshold_.end(),
+            [](double fitness, double threshold) noexcept { return !math::floatIsLess(fitness, threshold); });
         });
     }
 
-- 
2.43.0


From 51ec616316b683b5146bf7a9764b2ce73df4fdb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:28 +0000
Subject: [PATCH 16/38] fix: wait for every task of a parallel loop when the
 calling thread's own part throws

---
 src/utility/thread_pool.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/utility/thread_pool.hpp b/src/utility/thread_pool.hpp
index 05b26dd..fc141e4 100644
--- a/src/utility/thread_pool.hpp
+++ b/src/utility/thread_pool.hpp
@@ -65,7 +65,8 @@ namespace gapp::detail
                 if (!success) GAPP_THROW(std::runtime_error, "Attempting to submit a task to a stopped thread pool.");
             }
 
-            while (first != last) { std::invoke(unary_op, *first++); }
+            GAPP_TRY { while (first != last) { std::invoke(unary_op, *first++); } }
+            GAPP_CATCH (...) { thread_guard(); }
 
             if (auto* local_queue = local_worker_queue(); !local_queue)
             {
-- 
2.43.0


From 05e0a5bc1a0283da010b182e17d67da606203327 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:11 +0000
Subject: [PATCH 17/38] fix: convert the elements when constructing a
 small_vector from a range of another type

---
 src/utility/small_vector.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/utility/small_vector.hpp b/src/utility/small_vector.hpp
index 1b368e8..68a078c 100644
--- a/src/utility/small_vector.hpp
+++ b/src/utility/small_vector.hpp
@@ -196,7 +196,7 @@ namespace gapp::detail
     {
         using R = std::iter_reference_t<Iter>;
 
-        if constexpr (std::contiguous_iterator<Iter> && std::is_trivially_constructible_v<T, R> && has_trivial_construct_v<A&, T, R>)
+        if constexpr (std::contiguous_iterator<Iter> && std::is_same_v<std::iter_value_t<Iter>, T> && std::is_trivially_constructible_v<T, R> && has_trivial_construct_v<A&, T, R>)
         {
             if (!std::is_constant_evaluated())
             {
-- 
2.43.0


From cb73fead873df84610da548e3a4c8959ac2facc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:08 +0000
Subject: [PATCH 18/38] fix: correct the earlier hypervolumes of
 AutoHypervolume exactly for any number of objectives

---
 src/metrics/distribution_metrics.cpp | 15 +++++++--------
 src/metrics/distribution_metrics.hpp |  3 ++-
 2 files changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/metrics/distribution_metrics.cpp b/src/metrics/distribution_metrics.cpp
index 278aea6..cfd0c0c 100644
--- a/src/metrics/distribution_metrics.cpp
+++ b/src/metrics/distribution_metrics.cpp
@@ -51,8 +51,8 @@ namespace gapp::metrics
         data_.clear();
         data_.reserve(ga.max_gen());
 
-        ideal_points_.clear();
-        ideal_points_.reserve(ga.max_gen(), ga.num_objectives());
+        pareto_fronts_.clear();
+        pareto_fronts_.reserve(ga.max_gen());
 
         worst_point_ = FitnessVector(ga.num_objectives(), math::inf<double>);
     }
@@ -62,7 +62,6 @@ namespace gapp::metrics
         const auto& fitness_matrix = ga.fitness_matrix();
 
         FitnessVector worst_point = detail::minFitness(fitness_matrix.begin(), fitness_matrix.end());
-        FitnessVector ideal_point = detail::maxFitness(fitness_matrix.begin(), fitness_matrix.end());
 
         FitnessVector prev_worst_point = worst_point_;
         detail::elementwise_min(worst_point_, worst_point, detail::inplace_t{});
@@ -71,15 +70,15 @@ namespace gapp::metrics
         {
             for (size_t i = 0; i < data_.size(); i++)
             {
-                const double old_vol = math::volumeBetween(ideal_points_[i], prev_worst_point);
-                const double new_vol = math::volumeBetween(ideal_points_[i], worst_point_);
-
-                data_[i] += (new_vol - old_vol);
+                data_[i] = detail::hypervolume(pareto_fronts_[i], worst_point_);
             }
         }
 
         data_.push_back(detail::hypervolume(fitness_matrix, worst_point_));
-        ideal_points_.append_row(std::move(ideal_point));
+
+        FitnessMatrix pareto_front;
+        for (size_t idx : detail::findParetoFront(fitness_matrix)) pareto_front.append_row(fitness_matrix[idx]);
+        pareto_fronts_.push_back(std::move(pareto_front));
     }
 
 } // namespace gapp::metrics
diff --git a/src/metrics/distribution_metrics.hpp b/src/metrics/distribution_metrics.hpp
index 935bbc0..f4fbf4c 100644
--- a/src/metrics/distribution_metrics.hpp
+++ b/src/metrics/distribution_metrics.hpp
@@ -6,6 +6,7 @@
 #include "monitor.hpp"
 #include "../core/candidate.hpp"
 #include <span>
+#include <vector>
 
 namespace gapp::metrics
 {
@@ -79,7 +80,7 @@ namespace gapp::metrics
         void update(const GaInfo& ga) override;
 
         FitnessVector worst_point_;
-        FitnessMatrix ideal_points_;
+        std::vector<FitnessMatrix> pareto_fronts_;
     };
 
 } // namespace gapp::metrics
-- 
2.43.0


From ddebd49b4db6e22ef4c45bc32865aae0a764d7fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:52:38 +0000
Subject: [PATCH 19/38] fix: keep the crowding distances of NSGA-II in the
 order of the new population

---
 src/algorithm/nsga2.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/algorithm/nsga2.cpp b/src/algorithm/nsga2.cpp
index 0843784..e4162fa 100644
--- a/src/algorithm/nsga2.cpp
+++ b/src/algorithm/nsga2.cpp
@@ -100,7 +100,7 @@ namespace gapp::algorithm
         });
 
         pareto_fronts.resize(popsize);
-        dists_ = crowdingDistances(fmat, pareto_fronts.fronts());
+        const std::vector<double> distances = crowdingDistances(fmat, pareto_fronts.fronts());
         dists_.resize(popsize);
 
         small_vector<size_t> new_pop(popsize);
@@ -108,6 +108,7 @@ namespace gapp::algorithm
         {
             new_pop[i] = pareto_fronts[i].idx;
             ranks_[i]  = pareto_fronts[i].rank;
+            dists_[i]  = distances[pareto_fronts[i].idx];
         }
 
         return new_pop;
-- 
2.43.0


From b541bc4c1cee189a36484bd3c33708b81b73c70e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:52:38 +0000
Subject: [PATCH 20/38] fix: pick only remaining members of the last front in
 NSGA-III

---
 src/algorithm/nsga3.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/algorithm/nsga3.cpp b/src/algorithm/nsga3.cpp
index e40f721..b314dc6 100644
--- a/src/algorithm/nsga3.cpp
+++ b/src/algorithm/nsga3.cpp
@@ -374,12 +374,15 @@ namespace gapp::algorithm
             const size_t selected_ref_idx = *rng::randomElement(ref_indices.begin(), last_minimal_ref);
             pimpl_->incrementNicheCount(ref_indices, selected_ref_idx);
 
-            const size_t associated_sol_count = std::count_if(pareto_fronts.begin(), pareto_fronts.end(), [&](const FrontElement& sol)
+            /* The first i elements of the partial front have already been selected. */
+            const ParetoFrontsRange remaining{ partial_front.begin() + i, partial_front.end() };
+
+            const size_t associated_sol_count = std::count_if(remaining.begin(), remaining.end(), [&](const FrontElement& sol)
             {
                 return pimpl_->refIndexOf(sol) == selected_ref_idx;
             });
 
-            FrontElement& closest = pimpl_->findClosestAssociated(partial_front, selected_ref_idx);
+            FrontElement& closest = pimpl_->findClosestAssociated(remaining, selected_ref_idx);
 
             /* Move the selected candidate to the front of the partial front so it can't be selected again. */
             std::swap(closest, partial_front[i]);
-- 
2.43.0


From bc082d44fd9fc2b1b522398d6e1e3a015a201a09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:52:38 +0000
Subject: [PATCH 21/38] fix: keep the rank selection weights finite for a
 single candidate

---
 src/algorithm/soga_selection.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/algorithm/soga_selection.cpp b/src/algorithm/soga_selection.cpp
index a868b83..11f4cca 100644
--- a/src/algorithm/soga_selection.cpp
+++ b/src/algorithm/soga_selection.cpp
@@ -99,7 +99,7 @@ namespace gapp::selection
         std::vector<double> weights(fmat.size());
         for (size_t i = 0; i < indices.size(); i++)
         {
-            const double t = i / (weights.size() - 1.0);
+            const double t = i / std::max(weights.size() - 1.0, 1.0);
             weights[indices[i]] = std::lerp(min_weight_, max_weight_, t);
         }
 
-- 
2.43.0


From 3fb89c55b4fe88227e71455e3df1b4ea7a0eb743 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:52:38 +0000
Subject: [PATCH 22/38] fix: use the scale parameter of the sigma selection

---
 src/algorithm/soga_selection.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/algorithm/soga_selection.cpp b/src/algorithm/soga_selection.cpp
index 11f4cca..6283f21 100644
--- a/src/algorithm/soga_selection.cpp
+++ b/src/algorithm/soga_selection.cpp
@@ -117,7 +117,7 @@ namespace gapp::selection
         FitnessVector fvec = detail::toFitnessVector(fmat.begin(), fmat.end());
         const double fmean = math::mean(fvec);
         const double fdev = math::stdDev(fvec, fmean);
-        const double idiv = 1.0 / std::clamp(fdev, math::small<double>, math::large<double>);
+        const double idiv = 1.0 / std::clamp(scale_ * fdev, math::small<double>, math::large<double>);
 
         std::transform(fvec.begin(), fvec.end(), fvec.begin(), [&](double f)
         {
-- 
2.43.0


From 4af0051f3e459fd2e8427c3391b5ba5e2792a4f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:52:38 +0000
Subject: [PATCH 23/38] fix: don't write through an invalidated node reference
 in ConeTree::buildTree

---
 src/utility/cone_tree.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/utility/cone_tree.cpp b/src/utility/cone_tree.cpp
index dccb94c..e36782a 100644
--- a/src/utility/cone_tree.cpp
+++ b/src/utility/cone_tree.cpp
@@ -162,8 +162,9 @@ namespace gapp::detail
                 nodes_.push_back(left_child);
                 nodes_.push_back(right_child);
 
-                node.left = nodes_.size() - 2;
-                node.right = nodes_.size() - 1;
+                /* The node reference might have been invalidated by the insertions. */
+                nodes_[i].left = nodes_.size() - 2;
+                nodes_[i].right = nodes_.size() - 1;
             }
         }
     }
-- 
2.43.0


From 50d20fe7fd3910eb81c93e4835af3e02347be1a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:52:38 +0000
Subject: [PATCH 24/38] fix: use the same tolerance in paretoCompareLess as in
 the other comparisons

---
 src/utility/math.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/utility/math.hpp b/src/utility/math.hpp
index d4daad7..5fa30f0 100644
--- a/src/utility/math.hpp
+++ b/src/utility/math.hpp
@@ -216,7 +216,7 @@ namespace gapp::math
     template<std::floating_point T>
     bool floatIsLessAssumeNotGreater(T lhs, T rhs) noexcept
     {
-        const T scale = std::abs(rhs);
+        const T scale = std::max(std::abs(lhs), std::abs(rhs));
 
         if (scale == inf<T>) return lhs < rhs; // for infinities
 
-- 
2.43.0


From 71fd44828c6d488c8ce57c5fc873dcc48ad36f32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:53:15 +0000
Subject: [PATCH 25/38] fix: respect the comparison tolerances in
 efficientNonDominatedSort

---
 src/algorithm/nd_sort.cpp | 36 +++++++++++++++++++++++++++++++++++-
 1 file changed, 35 insertions(+), 1 deletion(-)

diff --git a/src/algorithm/nd_sort.cpp b/src/algorithm/nd_sort.cpp
index 3f41192..63396e7 100644
--- a/src/algorithm/nd_sort.cpp
+++ b/src/algorithm/nd_sort.cpp
@@ -323,12 +323,46 @@ namespace gapp::algorithm::dtl
      *  evolutionary multiobjective optimization." IEEE Transactions on Evolutionary Computation 19, no. 2 (2014): 201-213.
      */
 
+    /* Replace the fitness values with their levels along each objective. Values that are equal within the tolerances are on the same level. */
+    static detail::Matrix<size_t> fitnessLevels(FitnessMatrix::const_iterator first, FitnessMatrix::const_iterator last)
+    {
+        const size_t popsize = std::distance(first, last);
+        detail::Matrix<size_t> levels(popsize, first->size());
+
+        for (size_t obj = 0; obj < first->size(); obj++)
+        {
+            FitnessVector fvec(popsize);
+            std::transform(first, last, fvec.begin(), detail::element_at(obj));
+
+            const auto indices = detail::argsort(fvec.begin(), fvec.end()); // ascending
+
+            size_t level = 0;
+            size_t level_first = indices[0];
+
+            for (size_t idx : indices)
+            {
+                if (!math::floatIsEqual(fvec[level_first], fvec[idx]))
+                {
+                    level_first = idx;
+                    level++;
+                }
+                levels(idx, obj) = level;
+            }
+        }
+
+        return levels;
+    }
+
     std::vector<FrontElement> efficientNonDominatedSort(FitnessMatrix::const_iterator first, FitnessMatrix::const_iterator last)
     {
+        if (first == last) return {};
+
         std::vector<FrontElement> pareto_fronts;
         pareto_fronts.reserve(std::distance(first, last));
 
-        const auto indices = detail::argsort(first, last, [](const auto& lhs, const auto& rhs) noexcept
+        /* A solution can only be dominated by the ones before it in this order. */
+        const auto levels = fitnessLevels(first, last);
+        const auto indices = detail::argsort(levels.begin(), levels.end(), [](const auto& lhs, const auto& rhs) noexcept
         {
             for (size_t i = 0; i < lhs.size(); i++)
             {
-- 
2.43.0


From 8baf494d132e1ff89c8221b87b6a3d8112a19c77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:56:41 +0000
Subject: [PATCH 26/38] fix: respect the comparison tolerances when finding
 pareto fronts

---
 src/core/population.cpp | 36 +++++++++++++++++++++++++-----------
 1 file changed, 25 insertions(+), 11 deletions(-)

diff --git a/src/core/population.cpp b/src/core/population.cpp
index 9f84a92..f51ae45 100644
--- a/src/core/population.cpp
+++ b/src/core/population.cpp
@@ -62,7 +62,16 @@ namespace gapp::detail
             {
                 return math::paretoCompareLess(fmat[idx], fmat[optimal_idx]);
             });
-            if (!dominated) optimal_indices.push_back(idx);
+            if (dominated) continue;
+
+            // the solutions are sorted based on their exact fitness values, so because of the tolerances,
+            // a solution may be dominated by another one that comes after it
+            const auto new_end = std::remove_if(optimal_indices.begin(), optimal_indices.end(), [&](size_t optimal_idx) noexcept
+            {
+                return math::paretoCompareLess(fmat[optimal_idx], fmat[idx]);
+            });
+            optimal_indices.erase(new_end, optimal_indices.end());
+            optimal_indices.push_back(idx);
         }
 
         return optimal_indices;
@@ -138,19 +147,24 @@ namespace gapp::detail
         auto top_half    = findParetoFrontKungImpl(fmat, first, middle);
         auto bottom_half = findParetoFrontKungImpl(fmat, middle, last);
 
-        for (const auto& bad : bottom_half)
+        const auto erase_dominated = [&](small_vector<size_t>& half, const small_vector<size_t>& other_half)
         {
-            bool is_dominated = false;
-            for (const auto& good : top_half)
+            const auto new_end = std::remove_if(half.begin(), half.end(), [&](size_t bad) noexcept
             {
-                if (math::paretoCompareLess(fmat[bad], fmat[good]))
+                return std::any_of(other_half.begin(), other_half.end(), [&](size_t good) noexcept
                 {
-                    is_dominated = true;
-                    break;
-                }
-            }
-            if (!is_dominated) top_half.push_back(bad);
-        }
+                    return math::paretoCompareLess(fmat[bad], fmat[good]);
+                });
+            });
+            half.erase(new_end, half.end());
+        };
+
+        // the solutions are sorted based on their exact fitness values, so because of the tolerances,
+        // the solutions of the top half may also be dominated by the ones in the bottom half
+        erase_dominated(bottom_half, top_half);
+        erase_dominated(top_half, bottom_half);
+
+        top_half.insert(top_half.end(), bottom_half.begin(), bottom_half.end());
 
         return top_half;
     }
-- 
2.43.0


From 0f2a07e7796d41da379208de977f017a99976f7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:43:03 +0000
Subject: [PATCH 27/38] fix: rcu read sections and synchronize order their
 accesses with full fences

A reader's announcement could become visible after its read of the pointer
(store-load reordering), so that a writer freed an object in use.
---
 src/utility/rcu.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/utility/rcu.hpp b/src/utility/rcu.hpp
index 2851351..904fc8d 100644
--- a/src/utility/rcu.hpp
+++ b/src/utility/rcu.hpp
@@ -22,7 +22,7 @@ namespace gapp::detail
         static void read_lock() noexcept
         {
             reader.epoch.store(writer_epoch.load(std::memory_order_relaxed), std::memory_order_release);
-            std::ignore = reader.epoch.load(std::memory_order_acquire);
+            std::atomic_thread_fence(std::memory_order_seq_cst);
         }
 
         static void read_unlock() noexcept
@@ -32,6 +32,8 @@ namespace gapp::detail
 
         static void synchronize() noexcept
         {
+            std::atomic_thread_fence(std::memory_order_seq_cst);
+
             uint64_t current = writer_epoch.load(std::memory_order_acquire);
             uint64_t target  = current + 1;
             writer_epoch.compare_exchange_strong(current, target, std::memory_order_release);
-- 
2.43.0


From 22c5e1298fa1c9603c17cda765ddcaef8651b3e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:30 +0000
Subject: [PATCH 28/38] fix: integer uniform mutation skips genes that only
 have a single allowed value

---
 src/mutation/integer.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/mutation/integer.cpp b/src/mutation/integer.cpp
index c2d6791..83c53c0 100644
--- a/src/mutation/integer.cpp
+++ b/src/mutation/integer.cpp
@@ -21,6 +21,9 @@ namespace gapp::mutation::integer
 
         for (const auto& idx : mutated_indices)
         {
+            /* There is no other value to choose if the bounds only allow a single one. */
+            if (bounds[idx].lower() == bounds[idx].upper()) continue;
+
             GeneType old_gene = chromosome[idx];
             GeneType new_gene = rng::randomInt(bounds[idx].lower(), bounds[idx].upper());
 
-- 
2.43.0


From 12d5c59e2a1e289ff7aca80420df4d8cf23dc792 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:30 +0000
Subject: [PATCH 29/38] fix: shift mutation never moves the whole chromosome

---
 src/mutation/permutation.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mutation/permutation.cpp b/src/mutation/permutation.cpp
index 5b31047..0b85ed6 100644
--- a/src/mutation/permutation.cpp
+++ b/src/mutation/permutation.cpp
@@ -87,7 +87,7 @@ namespace gapp::mutation::perm
         if (rng::randomReal() <= mutation_rate())
         {
             const size_t min_len = 1;
-            const size_t max_len = std::max(min_len, size_t(range_max_ * chrom_len));
+            const size_t max_len = std::clamp(size_t(range_max_ * chrom_len), min_len, chrom_len - 1); // there must be somewhere to move the range to
             const size_t range_len = rng::randomInt(min_len, max_len);
 
             const auto idxs = rng::sampleUnique(0_sz, chrom_len - range_len + 1, 2);
-- 
2.43.0


From 95d374eda03c4b86c9fa3dddaedd1fb135581156 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:30 +0000
Subject: [PATCH 30/38] fix: a rate of zero never selects anything in
 permutation mutations and binomial sampling

---
 src/mutation/permutation.cpp | 8 ++++----
 src/utility/rng.hpp          | 2 +-
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/mutation/permutation.cpp b/src/mutation/permutation.cpp
index 0b85ed6..b8029ac 100644
--- a/src/mutation/permutation.cpp
+++ b/src/mutation/permutation.cpp
@@ -36,7 +36,7 @@ namespace gapp::mutation::perm
     {
         if (chromosome.size() < 2) return;
 
-        if (rng::randomReal() <= mutation_rate())
+        if (rng::randomReal() < mutation_rate())
         {
             const auto idxs = rng::sampleUnique(0_sz, chromosome.size(), 2_sz);
 
@@ -49,7 +49,7 @@ namespace gapp::mutation::perm
     {
         if (chromosome.size() < 3) return;
 
-        if (rng::randomReal() <= mutation_rate())
+        if (rng::randomReal() < mutation_rate())
         {
             const auto idxs = rng::sampleUnique(0_sz, chromosome.size(), 3_sz);
 
@@ -65,7 +65,7 @@ namespace gapp::mutation::perm
 
         if (chrom_len < 2) return;
 
-        if (rng::randomReal() <= mutation_rate())
+        if (rng::randomReal() < mutation_rate())
         {
             const size_t min_len = 2;
             const size_t max_len = std::max(size_t(range_max_ * chrom_len), min_len);
@@ -84,7 +84,7 @@ namespace gapp::mutation::perm
 
         if (chrom_len < 2) return;
 
-        if (rng::randomReal() <= mutation_rate())
+        if (rng::randomReal() < mutation_rate())
         {
             const size_t min_len = 1;
             const size_t max_len = std::clamp(size_t(range_max_ * chrom_len), min_len, chrom_len - 1); // there must be somewhere to move the range to
diff --git a/src/utility/rng.hpp b/src/utility/rng.hpp
index b5c90ec..e427b35 100644
--- a/src/utility/rng.hpp
+++ b/src/utility/rng.hpp
@@ -416,7 +416,7 @@ namespace gapp::rng
         GAPP_ASSERT(0.0 <= p && p <= 1.0);
 
         IntType res = 0;
-        while (n--) { res += (randomReal() <= p); }
+        while (n--) { res += (randomReal() < p); }
         return res;
     }
 
-- 
2.43.0


From fa68a5ef44ed4346ef828501dab24848b4bd48b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:30 +0000
Subject: [PATCH 31/38] fix: sampling from large ranges never returns the same
 value twice

---
 src/utility/rng.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/utility/rng.hpp b/src/utility/rng.hpp
index e427b35..5023533 100644
--- a/src/utility/rng.hpp
+++ b/src/utility/rng.hpp
@@ -467,7 +467,7 @@ namespace gapp::rng
         {
             const auto n = rng::randomInt(lbound, limit);
             *number = selected.contains(n) ? limit : n;
-            selected.insert(n);
+            selected.insert(*number);
         }
 
         return numbers;
-- 
2.43.0


From ac17d9611143a49bd15069929da6e6029ec8d2ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:30 +0000
Subject: [PATCH 32/38] fix: randomReal returns values in [0, 1) for every
 floating-point type

---
 src/utility/rng.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/utility/rng.hpp b/src/utility/rng.hpp
index 5023533..28a6ff0 100644
--- a/src/utility/rng.hpp
+++ b/src/utility/rng.hpp
@@ -339,7 +339,9 @@ namespace gapp::rng
     template<std::floating_point RealType>
     RealType randomReal()
     {
-        return (rng::prng() >> detail::exponent_bits<RealType>) * (std::numeric_limits<RealType>::epsilon() / 2.0);
+        constexpr auto excess_bits = std::numeric_limits<std::uint64_t>::digits - std::numeric_limits<RealType>::digits;
+
+        return (rng::prng() >> excess_bits) * (std::numeric_limits<RealType>::epsilon() / 2.0);
     }
 
     template<std::floating_point RealType>
-- 
2.43.0


From ab422204cd3f369b2ae9904158daff82b1bb1262 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:30 +0000
Subject: [PATCH 33/38] fix: randomReal never rounds up to its upper bound

---
 src/utility/rng.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/utility/rng.hpp b/src/utility/rng.hpp
index 28a6ff0..2796a1e 100644
--- a/src/utility/rng.hpp
+++ b/src/utility/rng.hpp
@@ -315,6 +315,7 @@ namespace gapp::rng
 
 /* IMPLEMENTATION */
 
+#include <algorithm>
 #include <utility>
 #include <numeric>
 #include <iterator>
@@ -349,7 +350,9 @@ namespace gapp::rng
     {
         GAPP_ASSERT(lbound <= ubound);
 
-        return lbound + (ubound - lbound) * rng::randomReal();
+        const RealType result = lbound + (ubound - lbound) * rng::randomReal();
+
+        return std::min(result, std::nextafter(ubound, lbound)); // the result could be rounded up to ubound
     }
 
     template<std::floating_point RealType>
-- 
2.43.0


From f897c16193b3d23882780a65b5cda2d32ecbaee4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:30 +0000
Subject: [PATCH 34/38] fix: sampleCdf never selects an element with zero
 weight

---
 src/utility/rng.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/utility/rng.hpp b/src/utility/rng.hpp
index 2796a1e..1e34efe 100644
--- a/src/utility/rng.hpp
+++ b/src/utility/rng.hpp
@@ -536,7 +536,11 @@ namespace gapp::rng
 
         const RealType threshold = rng::randomReal<RealType>(0.0, cdf.back()); // use cdf.back() in case it's not exactly 1.0
 
-        return std::distance(cdf.begin(), detail::lower_bound(cdf.begin(), cdf.end(), threshold));
+        const auto selected = std::upper_bound(cdf.begin(), cdf.end(), threshold); // elements with zero weight are never selected
+
+        if (selected == cdf.end()) return std::distance(cdf.begin(), detail::lower_bound(cdf.begin(), cdf.end(), cdf.back()));
+
+        return std::distance(cdf.begin(), selected);
     }
 
 } // namespace gapp::rng
-- 
2.43.0


From eecdbdcc574904492f90c0d4d50be2a11c96e375 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:21 +0000
Subject: [PATCH 35/38] fix: the difference of two stable iterators is signed

---
 src/utility/iterators.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/utility/iterators.hpp b/src/utility/iterators.hpp
index bdfd385..c8a2d6f 100644
--- a/src/utility/iterators.hpp
+++ b/src/utility/iterators.hpp
@@ -406,7 +406,7 @@ namespace gapp::detail
 
             GAPP_ASSERT(distance <= size_t(std::numeric_limits<difference_type>::max()), "Can't represent the result of the operation as difference_type.");
 
-            return difference_type(distance);
+            return lhs.idx_ >= rhs.idx_ ? difference_type(distance) : -difference_type(distance);
         }
 
     protected:
-- 
2.43.0


From 16e38105ff160ad793ac049f346026c63dec3925 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:00 +0000
Subject: [PATCH 36/38] fix: the shift mutation moves ranges of genes in both
 directions

---
 src/mutation/permutation.cpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/mutation/permutation.cpp b/src/mutation/permutation.cpp
index b8029ac..7b17f3d 100644
--- a/src/mutation/permutation.cpp
+++ b/src/mutation/permutation.cpp
@@ -90,9 +90,12 @@ namespace gapp::mutation::perm
             const size_t max_len = std::clamp(size_t(range_max_ * chrom_len), min_len, chrom_len - 1); // there must be somewhere to move the range to
             const size_t range_len = rng::randomInt(min_len, max_len);
 
-            const auto idxs = rng::sampleUnique(0_sz, chrom_len - range_len + 1, 2);
-            const auto src_first  = chromosome.begin() + ptrdiff_t(idxs[0]);
-            const auto dest_first = chromosome.begin() + ptrdiff_t(idxs[1]);
+            const size_t src_idx = rng::randomInt(0_sz, chrom_len - range_len);
+            size_t dest_idx = rng::randomInt(0_sz, chrom_len - range_len - 1);
+            if (dest_idx >= src_idx) ++dest_idx; // any position other than the source, in both directions
+
+            const auto src_first  = chromosome.begin() + ptrdiff_t(src_idx);
+            const auto dest_first = chromosome.begin() + ptrdiff_t(dest_idx);
 
             const auto [first, middle, last] = (dest_first < src_first) ?
                 std::tuple(dest_first, src_first, src_first + range_len) :
-- 
2.43.0


From 9849ccc147edd190cafeb2c3912c9a5d667656b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:18:25 +0000
Subject: [PATCH 37/38] fix: move assignment of small_vectors with unequal,
 non-propagating allocators keeps the memory with its allocator

---
 src/utility/small_vector.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/utility/small_vector.hpp b/src/utility/small_vector.hpp
index 68a078c..5e90c18 100644
--- a/src/utility/small_vector.hpp
+++ b/src/utility/small_vector.hpp
@@ -554,7 +554,7 @@ namespace gapp
         {
             if (std::addressof(other) == this) [[unlikely]] return *this;
 
-            if (!this->is_small() && !other.is_small())
+            if (!this->is_small() && !other.is_small() && (detail::steal_pointers_v<A> || alloc_ == other.alloc_))
             {
                 using std::swap;
 
-- 
2.43.0


From bc37c5b96894b8b4d9a4077142d55cc24d1e863a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:25:55 +0000
Subject: [PATCH 38/38] fix: a failing circular_buffer::reset doesn't keep the
 buffer that it has freed

---
 src/utility/circular_buffer.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/utility/circular_buffer.hpp b/src/utility/circular_buffer.hpp
index 9b0d887..e09dbf6 100644
--- a/src/utility/circular_buffer.hpp
+++ b/src/utility/circular_buffer.hpp
@@ -299,8 +299,9 @@ namespace gapp::detail
         {
             clear();
             if (new_capacity == capacity_) return;
+            pointer new_buffer = detail::allocate<T>(alloc_, new_capacity).data;
             if (buffer_) detail::deallocate(alloc_, buffer_, capacity_);
-            buffer_ = detail::allocate<T>(alloc_, new_capacity).data;
+            buffer_ = new_buffer;
             capacity_ = new_capacity;
         }
 
-- 
2.43.0

