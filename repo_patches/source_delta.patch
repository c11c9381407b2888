From a79549aa42d7a69e28e08b74898deceeb2ea0777 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:48 +0000
Subject: [PATCH 01/46] fix: ring buffer copies and assignments keep their
 contents

The copying constructors never set size_, so a copied buffer was empty, and
the assignment operator returned nothing and lost its contents too.
---
 cxxmetrics/ringbuf.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/cxxmetrics/ringbuf.hpp b/cxxmetrics/ringbuf.hpp
index a954d79..b35ffd7 100644
--- a/cxxmetrics/ringbuf.hpp
+++ b/cxxmetrics/ringbuf.hpp
@@ -195,6 +195,7 @@ ringbuf<TElemType, TSize>::ringbuf(TInputIterator start, const TInputIterator &e
         data_[i] = *start;
 
     tail_ = i;
+    size_ = i;
 }
 
 
@@ -207,6 +208,9 @@ ringbuf<TElemType, TSize>::ringbuf(const ringbuf &other) noexcept :
 template<typename TElemType, size_t TSize>
 ringbuf<TElemType, TSize> &ringbuf<TElemType, TSize>::operator=(const ringbuf &other) noexcept
 {
+    if (this == &other)
+        return *this;
+
     tail_ = 0;
     size_ = 0;
 
@@ -216,6 +220,8 @@ ringbuf<TElemType, TSize> &ringbuf<TElemType, TSize>::operator=(const ringbuf &o
         data_[i] = *it;
 
     tail_ = i;
+    size_ = i;
+    return *this;
 }
 
 template<typename TElemType, size_t TSize>
-- 
2.43.0


From 154239d3af622609fb39d801aecf9ad268e73a07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:05 +0000
Subject: [PATCH 02/46] fix: return the reservoir from the sliding window
 assignment

---
 cxxmetrics/sliding_window.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/cxxmetrics/sliding_window.hpp b/cxxmetrics/sliding_window.hpp
index daf46f1..b10c5e0 100644
--- a/cxxmetrics/sliding_window.hpp
+++ b/cxxmetrics/sliding_window.hpp
@@ -250,6 +250,7 @@ sliding_window_reservoir<TElem, TMaxSize, TClockGet>::operator=(const sliding_wi
     data_ = other.data_;
     clock_ = other.clock_;
     window_ = other.window_;
+    return *this;
 }
 
 template<typename TElem, size_t TMaxSize, typename TClockGet>
-- 
2.43.0


From 6bf191c505d4e23a32b510232ebe60f488d28e32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:12 +0000
Subject: [PATCH 03/46] fix: do not replace the element behind the end of a
 uniform reservoir

---
 cxxmetrics/uniform_reservoir.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cxxmetrics/uniform_reservoir.hpp b/cxxmetrics/uniform_reservoir.hpp
index fda6148..1742589 100644
--- a/cxxmetrics/uniform_reservoir.hpp
+++ b/cxxmetrics/uniform_reservoir.hpp
@@ -110,7 +110,7 @@ void uniform_reservoir<TElem, TSize>::update(const TElem &value) noexcept
     // so we don't run out of count
     count_.store(TSize);
 
-    std::uniform_int_distribution<> d(0, TSize);
+    std::uniform_int_distribution<> d(0, TSize - 1);
     elems_[d(gen_)] = value;
 }
 
-- 
2.43.0


From 201ec224c468a26dde8889791bb6b378e79011f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:48 +0000
Subject: [PATCH 04/46] fix: make uniform reservoirs assignable and copy no
 more than their capacity

---
 cxxmetrics/uniform_reservoir.hpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/cxxmetrics/uniform_reservoir.hpp b/cxxmetrics/uniform_reservoir.hpp
index 1742589..2e6701f 100644
--- a/cxxmetrics/uniform_reservoir.hpp
+++ b/cxxmetrics/uniform_reservoir.hpp
@@ -82,7 +82,7 @@ uniform_reservoir<TElem, TSize>::uniform_reservoir() noexcept :
 template<typename TElem, std::size_t TSize>
 uniform_reservoir<TElem, TSize>::uniform_reservoir(const uniform_reservoir &other) noexcept :
         gen_(generate_seed()),
-        count_(other.count_.load())
+        count_(std::min(other.count_.load(), static_cast<decltype(count_.load())>(TSize)))
 {
     for (std::size_t i = 0; i < count_; i++)
         elems_[i] = other.elems_[i];
@@ -91,8 +91,11 @@ uniform_reservoir<TElem, TSize>::uniform_reservoir(const uniform_reservoir &othe
 template<typename TElem, std::size_t TSize>
 uniform_reservoir<TElem, TSize> &uniform_reservoir<TElem, TSize>::operator=(const uniform_reservoir &other) noexcept
 {
-    elems_ = other.elems_;
-    count_ = other.count_;
+    auto count = std::min(other.count_.load(), static_cast<decltype(count_.load())>(TSize));
+    for (std::size_t i = 0; i < count; i++)
+        elems_[i] = other.elems_[i];
+
+    count_.store(count);
     return *this;
 }
 
-- 
2.43.0


From cd0c59b160aab47cbcdfbf73843db9a4bc45169d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:07 +0000
Subject: [PATCH 05/46] fix: make concurrent updates and snapshots of a uniform
 reservoir safe

---
 cxxmetrics/uniform_reservoir.hpp | 59 ++++++++++++++++++++++++--------
 1 file changed, 45 insertions(+), 14 deletions(-)

diff --git a/cxxmetrics/uniform_reservoir.hpp b/cxxmetrics/uniform_reservoir.hpp
index 2e6701f..569a2ad 100644
--- a/cxxmetrics/uniform_reservoir.hpp
+++ b/cxxmetrics/uniform_reservoir.hpp
@@ -18,8 +18,10 @@ namespace cxxmetrics
 template<typename TElem, std::size_t TSize>
 class uniform_reservoir
 {
-    std::default_random_engine gen_;
-    TElem elems_[TSize];
+    std::atomic<TElem> elems_[TSize];
+
+    // an update counts its element before it is in place. Until then, there's nothing to see in its slot
+    std::atomic_bool written_[TSize];
     std::atomic_uint_fast64_t count_;
 
     static unsigned generate_seed() noexcept
@@ -37,6 +39,15 @@ class uniform_reservoir
 
         return seed;
     }
+
+    // an engine can't be shared between threads that update at the same time
+    static std::default_random_engine &generator() noexcept
+    {
+        static thread_local std::default_random_engine gen(generate_seed());
+        return gen;
+    }
+
+    void copy_elements(const uniform_reservoir &other) noexcept;
 public:
     using value_type = TElem;
 
@@ -68,34 +79,51 @@ public:
      */
     reservoir_snapshot snapshot() const noexcept
     {
-        return reservoir_snapshot(&elems_[0], std::min(count_.load(), static_cast<decltype(count_.load())>(TSize)));
+        std::vector<TElem> values;
+        values.reserve(TSize);
+        for (std::size_t i = 0; i < TSize; i++)
+        {
+            if (written_[i].load())
+                values.push_back(elems_[i].load());
+        }
+
+        return reservoir_snapshot(values.begin(), values.end(), values.size());
     }
 };
 
 template<typename TElem, std::size_t TSize>
 uniform_reservoir<TElem, TSize>::uniform_reservoir() noexcept :
-        gen_(generate_seed()),
+        written_{},
         count_(0)
 {
 }
 
+template<typename TElem, std::size_t TSize>
+void uniform_reservoir<TElem, TSize>::copy_elements(const uniform_reservoir &other) noexcept
+{
+    std::size_t count = 0;
+    for (std::size_t i = 0; i < TSize; i++)
+    {
+        if (other.written_[i].load())
+            elems_[count++] = other.elems_[i].load();
+    }
+
+    for (std::size_t i = 0; i < TSize; i++)
+        written_[i].store(i < count);
+    count_.store(count);
+}
+
 template<typename TElem, std::size_t TSize>
 uniform_reservoir<TElem, TSize>::uniform_reservoir(const uniform_reservoir &other) noexcept :
-        gen_(generate_seed()),
-        count_(std::min(other.count_.load(), static_cast<decltype(count_.load())>(TSize)))
+        uniform_reservoir()
 {
-    for (std::size_t i = 0; i < count_; i++)
-        elems_[i] = other.elems_[i];
+    copy_elements(other);
 }
 
 template<typename TElem, std::size_t TSize>
 uniform_reservoir<TElem, TSize> &uniform_reservoir<TElem, TSize>::operator=(const uniform_reservoir &other) noexcept
 {
-    auto count = std::min(other.count_.load(), static_cast<decltype(count_.load())>(TSize));
-    for (std::size_t i = 0; i < count; i++)
-        elems_[i] = other.elems_[i];
-
-    count_.store(count);
+    copy_elements(other);
     return *this;
 }
 
@@ -107,6 +135,7 @@ void uniform_reservoir<TElem, TSize>::update(const TElem &value) noexcept
     if (c < TSize)
     {
         elems_[c] = value;
+        written_[c].store(true);
         return;
     }
 
@@ -114,7 +143,9 @@ void uniform_reservoir<TElem, TSize>::update(const TElem &value) noexcept
     count_.store(TSize);
 
     std::uniform_int_distribution<> d(0, TSize - 1);
-    elems_[d(gen_)] = value;
+    auto slot = d(generator());
+    elems_[slot] = value;
+    written_[slot].store(true);
 }
 
 }
-- 
2.43.0


From c2f6fc26f45c0331340a087ac289dddfc1e24983 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:35 +0000
Subject: [PATCH 06/46] fix: do not show elements of a ring buffer before they
 are written

---
 cxxmetrics/ringbuf.hpp | 39 ++++++++++++++++++++++++++++++++++-----
 1 file changed, 34 insertions(+), 5 deletions(-)

diff --git a/cxxmetrics/ringbuf.hpp b/cxxmetrics/ringbuf.hpp
index b35ffd7..56adf0e 100644
--- a/cxxmetrics/ringbuf.hpp
+++ b/cxxmetrics/ringbuf.hpp
@@ -25,6 +25,9 @@ class ringbuf
 {
     std::array<std::atomic<TElemType>, TSize> data_;
 
+    // which elements have been written so far. A writer claims its location before it gets to write to it
+    std::array<std::atomic_bool, TSize> written_;
+
     // where the end of the list is.
     std::atomic_uint_fast64_t tail_;
 
@@ -38,6 +41,8 @@ public:
         std::size_t remaining_;
         TElemType current_;
         const ringbuf *buf_;
+
+        void fetch() noexcept;
     public:
         using value_type = TElemType;
 
@@ -136,8 +141,22 @@ ringbuf<TElemType, TSize>::iterator::iterator(const ringbuf *rb, int64_t offset)
         buf_(rb)
 {
     remaining_ = buf_->size_.load();
-    if (remaining_ && buf_)
-        current_ = buf_->data_[offset_++];
+    fetch();
+}
+
+template<typename TElemType, size_t TSize>
+void ringbuf<TElemType, TSize>::iterator::fetch() noexcept
+{
+    // get the next element, skipping the ones that are still to be written
+    for (; remaining_; remaining_--)
+    {
+        auto at = (offset_++) % TSize;
+        if (!buf_->written_[at].load())
+            continue;
+
+        current_ = buf_->data_[at];
+        return;
+    }
 }
 
 template<typename TElemType, size_t TSize>
@@ -164,8 +183,8 @@ typename ringbuf<TElemType, TSize>::iterator &ringbuf<TElemType, TSize>::iterato
     if (!remaining_)
         return *this;
 
-    current_ = buf_->data_[(offset_++) % TSize];
     remaining_--;
+    fetch();
 
     return *this;
 }
@@ -178,6 +197,7 @@ const TElemType *ringbuf<TElemType, TSize>::iterator::operator->() const noexcep
 
 template<typename TElemType, size_t TSize>
 ringbuf<TElemType, TSize>::ringbuf() noexcept :
+        written_{},
         tail_(0),
         size_(0)
 {
@@ -187,12 +207,14 @@ ringbuf<TElemType, TSize>::ringbuf() noexcept :
 template<typename TElemType, size_t TSize>
 template<typename TInputIterator>
 ringbuf<TElemType, TSize>::ringbuf(TInputIterator start, const TInputIterator &end) noexcept :
-        tail_(0),
-        size_(0)
+        ringbuf()
 {
     std::size_t i = 0;
     for (; start != end && i < TSize; ++i, ++start)
+    {
         data_[i] = *start;
+        written_[i] = true;
+    }
 
     tail_ = i;
     size_ = i;
@@ -217,7 +239,13 @@ ringbuf<TElemType, TSize> &ringbuf<TElemType, TSize>::operator=(const ringbuf &o
     auto it = other.begin();
     std::size_t i = 0;
     for (; it != other.end() && i < TSize; ++i, ++it)
+    {
         data_[i] = *it;
+        written_[i] = true;
+    }
+
+    for (auto left = i; left < TSize; ++left)
+        written_[left] = false;
 
     tail_ = i;
     size_ = i;
@@ -245,6 +273,7 @@ void ringbuf<TElemType, TSize>::push(const TElemType &elem) noexcept
 {
     auto writeloc = tail_.fetch_add(1);
     data_[writeloc % TSize] = elem;
+    written_[writeloc % TSize] = true;
 
     if (++writeloc > TSize)
         writeloc = TSize;
-- 
2.43.0


From 0e17ef22ca48fc619c8de58efe57f388493971a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:17 +0000
Subject: [PATCH 07/46] fix: decay moving averages by the same factor for every
 idle interval

---
 cxxmetrics/ewma.hpp | 41 +++++++++++++++++------------------------
 1 file changed, 17 insertions(+), 24 deletions(-)

diff --git a/cxxmetrics/ewma.hpp b/cxxmetrics/ewma.hpp
index 0127f15..c8f4ece 100644
--- a/cxxmetrics/ewma.hpp
+++ b/cxxmetrics/ewma.hpp
@@ -89,6 +89,16 @@ private:
         return 1 - exp((TInterval * -1.0l) / (TWindow * 2.0l));
     }
 
+    // average in a zero for each of the elapsed intervals that we missed
+    static long double decay(long double rate, const clock_diff &elapsed) noexcept
+    {
+        long double missed_intervals = static_cast<long double>(elapsed / period(TInterval)) - 1;
+        if (missed_intervals > 0)
+            rate *= pow(1 - alpha_, missed_intervals);
+
+        return rate;
+    }
+
     template<bool TWrite = true>
     TValue tick(const clock_point &at) noexcept;
 
@@ -173,7 +183,6 @@ template<typename TClockGet, period::value TWindow, period::value TInterval, typ
 template<bool TWrite>
 TValue ewma<TClockGet, TWindow, TInterval, TValue>::tick(const clock_point &at) noexcept
 {
-    int missed_intervals;
     clock_point last;
 
     last = last_;
@@ -189,6 +198,8 @@ TValue ewma<TClockGet, TWindow, TInterval, TValue>::tick(const clock_point &at)
         if ((at - last) < period(TInterval))
             return pending;
 
+        TValue seed = decay(pending, at - last);
+
         bool ticked = false;
         if (ticked_.compare_exchange_weak(ticked, true))
         {
@@ -199,41 +210,23 @@ TValue ewma<TClockGet, TWindow, TInterval, TValue>::tick(const clock_point &at)
                 if (!pending_.compare_exchange_weak(pending, 0))
                     return pending; // someone else ticked from under us
 
-                if (rate_.compare_exchange_weak(nrate, pending))
+                if (rate_.compare_exchange_weak(nrate, seed))
                     last_ = at;
             }
 
-            return pending;
+            return seed;
         }
     }
 
     // apply the pending value to our current rate
     // if someone else already snagged the pending value, start over
-    auto rate = nrate + (alpha_ * (pending - nrate));
+    long double rate = nrate + (alpha_ * (static_cast<long double>(pending) - nrate));
 
     // figure out how many intervals we've missed
-    missed_intervals = ((at - last) / period(TInterval)) - 1;
-    if (missed_intervals > 0)
-    {
-        // we missed some intervals - we'll average in zeros
-        if ((TWindow > TInterval) && (at - last) > period(TWindow))
-        {
-            constexpr auto intervals_per_window = TWindow / TInterval;
-            period::value missed_windows = missed_intervals / intervals_per_window;
-            rate = pow(rate, 1/pow(missed_windows, 2));
-
-            // figure out the missed intervals now
-            missed_intervals -= (missed_windows * intervals_per_window);
-        }
-
-        // this is the fastest way to do this - the alternative is a standard repeated integral
-        // but this is faster
-        for (int i = 0; i < missed_intervals; i++)
-            rate = rate + (alpha_ * -rate);
-    }
+    rate = decay(rate, at - last);
 
     if (std::isnan(rate) || std::isinf(rate))
-        rate = TValue{};
+        rate = 0;
 
     // make sure that last_ didn't catch up with us
     if (!TWrite || (at - last) < period(TInterval))
-- 
2.43.0


From 7d47a5cad0346ab7d611e12bb2587dc9be777641 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:52 +0000
Subject: [PATCH 08/46] fix: assign the whole state of a moving average

---
 cxxmetrics/ewma.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cxxmetrics/ewma.hpp b/cxxmetrics/ewma.hpp
index c8f4ece..c3abb12 100644
--- a/cxxmetrics/ewma.hpp
+++ b/cxxmetrics/ewma.hpp
@@ -245,9 +245,9 @@ TValue ewma<TClockGet, TWindow, TInterval, TValue>::tick(const clock_point &at)
 template<typename TClockGet, period::value TWindow, period::value TInterval, typename TValue>
 ewma<TClockGet, TWindow, TInterval, TValue> &ewma<TClockGet, TWindow, TInterval, TValue>::operator=(const ewma &c) noexcept
 {
-    alpha_ = c.alpha_;
     rate_.store(c.rate_.load());
     pending_.store(c.pending_.load());
+    ticked_.store(c.ticked_.load());
     last_ = c.last_;
     return *this;
 }
-- 
2.43.0


From 0d7e8170a2ab8c1b64785d9226054a50c0c86c31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:01 +0000
Subject: [PATCH 09/46] fix: neither lose nor tear concurrent marks and ticks
 of a moving average

---
 cxxmetrics/ewma.hpp | 140 +++++++++++++++++++++++++-------------------
 1 file changed, 81 insertions(+), 59 deletions(-)

diff --git a/cxxmetrics/ewma.hpp b/cxxmetrics/ewma.hpp
index c3abb12..11f9758 100644
--- a/cxxmetrics/ewma.hpp
+++ b/cxxmetrics/ewma.hpp
@@ -5,6 +5,7 @@
 #include <cmath>
 #include <chrono>
 #include <atomic>
+#include <thread>
 
 namespace cxxmetrics
 {
@@ -80,10 +81,13 @@ private:
 
     TClockGet clk_;
     std::atomic<TValue> rate_;
-    clock_point last_;
+    std::atomic<clock_point> last_;
     std::atomic<TValue> pending_;
     std::atomic<bool> ticked_;
 
+    // the number of changes to the values above. It's odd while a thread is ticking
+    std::atomic_uint_fast64_t changes_;
+
     static constexpr double get_alpha()
     {
         return 1 - exp((TInterval * -1.0l) / (TWindow * 2.0l));
@@ -99,8 +103,14 @@ private:
         return rate;
     }
 
-    template<bool TWrite = true>
-    TValue tick(const clock_point &at) noexcept;
+    // the rate after the elapsed time
+    static TValue calculate(TValue rate, TValue pending, bool ticked, const clock_diff &elapsed) noexcept;
+
+    // complete the interval if it's over, returns whether it did. This never waits on another thread that ticks
+    bool tick(const clock_point &at, TValue &rate) noexcept;
+
+    // get the rate without completing the interval
+    TValue rate_at(const clock_point &at) const noexcept;
 
 public:
     ewma(const TClockGet &clock = TClockGet()) noexcept;
@@ -129,7 +139,8 @@ ewma<TClockGet, TWindow, TInterval, TValue>::ewma(const TClockGet &clock) noexce
         rate_(0),
         last_(clk_()),
         pending_(0),
-        ticked_(false)
+        ticked_(false),
+        changes_(0)
 {
 }
 
@@ -137,9 +148,10 @@ template<typename TClockGet, period::value TWindow, period::value TInterval, typ
 ewma<TClockGet, TWindow, TInterval, TValue>::ewma(const ewma &c) noexcept :
     clk_(c.clk_),
     rate_(c.rate_.load()),
-    last_(c.last_),
+    last_(c.last_.load()),
     pending_(c.pending_.load()),
-    ticked_(c.ticked_.load())
+    ticked_(c.ticked_.load()),
+    changes_(0)
 {
 
 }
@@ -148,13 +160,16 @@ template<typename TClockGet, period::value TWindow, period::value TInterval, typ
 template<typename TMark>
 void ewma<TClockGet, TWindow, TInterval, TValue>::mark(TMark amount) noexcept
 {
+    // another thread may tick after we got the time, so compare to the last one from before
+    auto last = last_.load();
     auto now = clk_();
 
     // our clock went backwards
-    if (now < last_)
+    if (now < last)
         return;
 
-    tick(now);
+    TValue rate;
+    tick(now, rate);
     atomic_add(pending_, amount);
 }
 
@@ -168,78 +183,85 @@ template<typename TClockGet, period::value TWindow, period::value TInterval, typ
 TValue ewma<TClockGet, TWindow, TInterval, TValue>::rate() noexcept
 {
     auto now = clk_();
-    return tick(now);
+    TValue rate;
+    if (tick(now, rate))
+        return rate;
+
+    return rate_at(now);
 }
 
 template<typename TClockGet, period::value TWindow, period::value TInterval, typename TValue>
 TValue ewma<TClockGet, TWindow, TInterval, TValue>::rate() const noexcept
 {
     auto now = clk_();
-    // the const_cast is safe with the false template parameter
-    return const_cast<ewma*>(this)->tick<false>(now);
+    return rate_at(now);
 }
 
 template<typename TClockGet, period::value TWindow, period::value TInterval, typename TValue>
-template<bool TWrite>
-TValue ewma<TClockGet, TWindow, TInterval, TValue>::tick(const clock_point &at) noexcept
+TValue ewma<TClockGet, TWindow, TInterval, TValue>::calculate(TValue nrate, TValue pending, bool ticked, const clock_diff &elapsed) noexcept
 {
-    clock_point last;
-
-    last = last_;
+    if (!ticked && elapsed < period(TInterval))
+        return pending;
 
-    auto pending = pending_.load();
-    auto nrate = rate_.load();
+    // the first interval is the rate, from then on we apply the pending value to our current rate
+    long double rate = pending;
+    if (ticked)
+        rate = nrate + (alpha_ * (static_cast<long double>(pending) - nrate));
 
-    if (at < last)
-        return nrate;
+    // figure out how many intervals we've missed
+    rate = decay(rate, elapsed);
 
-    if (nrate == TValue{} && !ticked_.load())
-    {
-        if ((at - last) < period(TInterval))
-            return pending;
+    if (std::isnan(rate) || std::isinf(rate))
+        rate = 0;
 
-        TValue seed = decay(pending, at - last);
+    return rate;
+}
 
-        bool ticked = false;
-        if (ticked_.compare_exchange_weak(ticked, true))
-        {
-            // use constexpr if with 17
-            if (TWrite)
-            {
-                // one thread sets the last timestamp
-                if (!pending_.compare_exchange_weak(pending, 0))
-                    return pending; // someone else ticked from under us
-
-                if (rate_.compare_exchange_weak(nrate, seed))
-                    last_ = at;
-            }
-
-            return seed;
-        }
-    }
+template<typename TClockGet, period::value TWindow, period::value TInterval, typename TValue>
+bool ewma<TClockGet, TWindow, TInterval, TValue>::tick(const clock_point &at, TValue &rate) noexcept
+{
+    auto changes = changes_.load();
+    auto last = last_.load();
 
-    // apply the pending value to our current rate
-    // if someone else already snagged the pending value, start over
-    long double rate = nrate + (alpha_ * (static_cast<long double>(pending) - nrate));
+    if (at < last || (at - last) < period(TInterval))
+        return false;
 
-    // figure out how many intervals we've missed
-    rate = decay(rate, at - last);
+    // make sure that we're the one to tick and that last_ didn't catch up with us
+    if ((changes % 2) || !changes_.compare_exchange_strong(changes, changes + 1))
+        return false;
 
-    if (std::isnan(rate) || std::isinf(rate))
-        rate = 0;
+    rate = calculate(rate_.load(), pending_.exchange(0), ticked_.load(), at - last);
+    rate_.store(rate);
+    ticked_.store(true);
+    last_.store(at);
 
-    // make sure that last_ didn't catch up with us
-    if (!TWrite || (at - last) < period(TInterval))
-        return rate;
+    changes_.store(changes + 2);
+    return true;
+}
 
-    if (!pending_.compare_exchange_weak(pending, 0))
-        return rate; // someone else already either ticked or added a pending value
+template<typename TClockGet, period::value TWindow, period::value TInterval, typename TValue>
+TValue ewma<TClockGet, TWindow, TInterval, TValue>::rate_at(const clock_point &at) const noexcept
+{
+    while (true)
+    {
+        auto changes = changes_.load();
+        clock_point last = last_.load();
+        auto ticked = ticked_.load();
+        auto nrate = rate_.load();
+        auto pending = pending_.load();
+
+        // the values only belong together if nobody ticked while we got them
+        if ((changes % 2) || changes_.load() != changes)
+        {
+            std::this_thread::yield();
+            continue;
+        }
 
-    rate_.store(rate);
-    if (last_ < at)
-        last_ = at;
+        if (at < last)
+            return nrate;
 
-    return rate;
+        return calculate(nrate, pending, ticked, at - last);
+    }
 }
 
 template<typename TClockGet, period::value TWindow, period::value TInterval, typename TValue>
@@ -248,7 +270,7 @@ ewma<TClockGet, TWindow, TInterval, TValue> &ewma<TClockGet, TWindow, TInterval,
     rate_.store(c.rate_.load());
     pending_.store(c.pending_.load());
     ticked_.store(c.ticked_.load());
-    last_ = c.last_;
+    last_.store(c.last_.load());
     return *this;
 }
 
-- 
2.43.0


From 3e04db5ab97f4a58d613c732bb7df7a8cad5cafb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:28 +0000
Subject: [PATCH 10/46] fix: never report fewer values than a histogram
 snapshot contains

---
 cxxmetrics/histogram.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/cxxmetrics/histogram.hpp b/cxxmetrics/histogram.hpp
index 6290180..5362df1 100644
--- a/cxxmetrics/histogram.hpp
+++ b/cxxmetrics/histogram.hpp
@@ -61,8 +61,9 @@ public:
      */
     histogram_snapshot snapshot() const noexcept
     {
-        auto c = count_.value();
-        return histogram_snapshot(reservoir_.snapshot(), c);
+        // every value is counted before it gets into the reservoir, so the count has to be read last
+        auto values = reservoir_.snapshot();
+        return histogram_snapshot(std::move(values), count_.value());
     }
 };
 
-- 
2.43.0


From b3eebf1a1cea07e25541ec44a501045451f44062 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:38 +0000
Subject: [PATCH 11/46] fix: let concurrent first marks of a meter agree on the
 start

---
 cxxmetrics/meter.hpp | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/cxxmetrics/meter.hpp b/cxxmetrics/meter.hpp
index 3cd3f8a..318561b 100644
--- a/cxxmetrics/meter.hpp
+++ b/cxxmetrics/meter.hpp
@@ -246,18 +246,18 @@ template<typename TClockGet, period::value TInterval, period::value ...TWindows>
 class _meter_impl : public _meter_impl_base<TClockGet, TInterval, TWindows...>
 {
     using clock_point = typename clock_traits<TClockGet>::clock_point;
-    clock_point start_;
+    std::atomic<clock_point> start_;
     std::atomic_int_fast64_t total_;
 public:
     explicit _meter_impl(const TClockGet &clkget) noexcept :
             _meter_impl_base<TClockGet, TInterval, TWindows...>(clkget),
-            start_{},
+            start_(clock_point{}),
             total_(0)
     { }
 
     _meter_impl(const _meter_impl &c) noexcept :
             _meter_impl_base<TClockGet, TInterval, TWindows...>(c),
-            start_(c.start_),
+            start_(c.start_.load()),
             total_(c.total_.load())
     {
 
@@ -266,7 +266,7 @@ public:
     _meter_impl &operator=(const _meter_impl &c) noexcept
     {
         _meter_impl_base<TClockGet, TInterval, TWindows...>::operator=(c);
-        start_ = c.start_;
+        start_ = c.start_.load();
         total_.store(c.total_.load());
 
         return *this;
@@ -274,9 +274,10 @@ public:
 
     inline double mean() const noexcept
     {
-        auto since = this->now() - start_;
+        auto start = start_.load();
+        auto since = this->now() - start;
         auto units = (since * 1.0l) / this->interval();
-        if (start_ == clock_point{})
+        if (start == clock_point{})
             units = 1;
         if (!units)
             return (total_ * 1.0l);
@@ -286,8 +287,9 @@ public:
     void mark(int64_t by = 1)
     {
         // this will be imperfect but it should be close enough
-        if (start_ == clock_point{})
-            start_ = this->now();
+        auto start = start_.load();
+        if (start == clock_point{})
+            start_.compare_exchange_strong(start, this->now());
 
         _meter_impl_base<TClockGet, TInterval, TWindows...>::mark(by);
         total_ += by;
-- 
2.43.0


From 036ba449a0b8987af451c8a56b560c0f54ec94c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:43 +0000
Subject: [PATCH 12/46] fix: see the contents of nodes popped from the
 lock-free stack

---
 cxxmetrics/internal/atomic_lifo.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cxxmetrics/internal/atomic_lifo.hpp b/cxxmetrics/internal/atomic_lifo.hpp
index bf31d2c..4f4d1da 100644
--- a/cxxmetrics/internal/atomic_lifo.hpp
+++ b/cxxmetrics/internal/atomic_lifo.hpp
@@ -289,13 +289,13 @@ namespace cxxmetrics {
 
             pointer_type pop()
             {
-                auto h = head_.load(std::memory_order_relaxed);
+                auto h = head_.load(std::memory_order_acquire);
                 head_t next;
                 while (h.nodev)
                 {
                     next.aba = h.aba + 1;
                     next.nodev = list_node_traits<node>::next_of(*h.nodev);
-                    if (head_.compare_exchange_weak(h, next, std::memory_order_release, std::memory_order_relaxed)) {
+                    if (head_.compare_exchange_weak(h, next, std::memory_order_acq_rel, std::memory_order_acquire)) {
                         break;
                     }
                 }
-- 
2.43.0


From 5dd74bdcdc323972f43ed64681ce4517799e1bad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:03 +0000
Subject: [PATCH 13/46] fix: make the links of the lock-free stack's own nodes
 atomic

---
 cxxmetrics/internal/atomic_lifo.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/cxxmetrics/internal/atomic_lifo.hpp b/cxxmetrics/internal/atomic_lifo.hpp
index 4f4d1da..83d831e 100644
--- a/cxxmetrics/internal/atomic_lifo.hpp
+++ b/cxxmetrics/internal/atomic_lifo.hpp
@@ -87,7 +87,7 @@ namespace cxxmetrics {
         {
             struct contained_node {
                 T value_;
-                contained_node* next_;
+                std::atomic<contained_node*> next_;
 
                 template<typename... TInitArgs>
                 contained_node(TInitArgs&&... args) :
@@ -96,12 +96,12 @@ namespace cxxmetrics {
                 { }
 
                 contained_node* next() const {
-                    return next_;
+                    return next_.load(std::memory_order_relaxed);
                 }
 
                 void set_next(contained_node* n)
                 {
-                    next_ = n;
+                    next_.store(n, std::memory_order_relaxed);
                 }
 
                 operator T&() {
-- 
2.43.0


From f8b250361dd8de47ad6bef498f3332242d5be302 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:19 +0000
Subject: [PATCH 14/46] fix: compare metric values as the numbers they hold

---
 cxxmetrics/metric_value.hpp | 20 +++++++++-----------
 1 file changed, 9 insertions(+), 11 deletions(-)

diff --git a/cxxmetrics/metric_value.hpp b/cxxmetrics/metric_value.hpp
index 55271e1..b2d8526 100644
--- a/cxxmetrics/metric_value.hpp
+++ b/cxxmetrics/metric_value.hpp
@@ -145,17 +145,13 @@ public:
     int compare(const variant_data& other) const noexcept override
     {
         bool valid;
-        auto lv = static_cast<T>(other.to_integral(&valid));
+        auto fv = other.to_float(&valid);
         if (!valid)
-        {
-            auto fv = other.to_float(&valid);
-            if (!valid)
-                return -1;
-
-            return val_ < fv ? -1 : val_ == fv ? 0 : 1;
-        }
+            return -1;
 
-        return val_ - lv;
+        // a long double holds the value of every other type exactly
+        auto v = static_cast<long double>(val_);
+        return v < fv ? -1 : v == fv ? 0 : 1;
     }
 };
 
@@ -248,11 +244,13 @@ public:
     int compare(const variant_data& other) const noexcept override
     {
         bool valid;
-        auto fv = static_cast<T>(other.to_float(&valid));
+        auto fv = other.to_float(&valid);
         if (!valid)
             return -1;
 
-        return val_ < fv ? -1 : val_ == fv ? 0 : 1;
+        // a long double holds the value of every other type exactly
+        auto v = static_cast<long double>(val_);
+        return v < fv ? -1 : v == fv ? 0 : 1;
     }
 };
 
-- 
2.43.0


From 042bde149e10b1b735cb152025a6acd22a36d8d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:28 +0000
Subject: [PATCH 15/46] fix: cast durations held by metric values in their own
 unit

---
 cxxmetrics/metric_value.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/cxxmetrics/metric_value.hpp b/cxxmetrics/metric_value.hpp
index b2d8526..30a343b 100644
--- a/cxxmetrics/metric_value.hpp
+++ b/cxxmetrics/metric_value.hpp
@@ -889,9 +889,11 @@ namespace chrono
 {
 
 template<typename _ToDur>
-constexpr _ToDur duration_cast(const cxxmetrics::metric_value &v)
+_ToDur duration_cast(const cxxmetrics::metric_value &v)
 {
-    return duration_cast<_ToDur>(static_cast<std::chrono::nanoseconds>(v));
+    // not a cast, which would construct the nanoseconds from the plain number
+    std::chrono::nanoseconds nanos = v;
+    return duration_cast<_ToDur>(nanos);
 }
 
 }
-- 
2.43.0


From 00b9fb44bab2ed93996cedb522c07a50af90712b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:36 +0000
Subject: [PATCH 16/46] fix: convert floating point metric values to all
 unsigned integers

---
 cxxmetrics/metric_value.hpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/cxxmetrics/metric_value.hpp b/cxxmetrics/metric_value.hpp
index 30a343b..ad2abdf 100644
--- a/cxxmetrics/metric_value.hpp
+++ b/cxxmetrics/metric_value.hpp
@@ -174,7 +174,12 @@ public:
     {
         if (valid)
             *valid = true;
-        return static_cast<long long>(std::round(val_));
+
+        // the upper half of the unsigned numbers is converted like that of an unsigned integral
+        auto rounded = std::round(val_);
+        if (rounded >= 9223372036854775808.0L && rounded < 18446744073709551616.0L)
+            return static_cast<long long>(static_cast<unsigned long long>(rounded));
+        return static_cast<long long>(rounded);
     }
 
     virtual long double to_float(bool* valid) const override
-- 
2.43.0


From 124edcbab63ef4740cada2ecb8e0a604f6d5ff64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:07:46 +0000
Subject: [PATCH 17/46] fix: subtract and divide metric values in the order of
 their operands

---
 cxxmetrics/metric_value.hpp | 84 +++++++++++++++++++++++++++++++++++--
 1 file changed, 81 insertions(+), 3 deletions(-)

diff --git a/cxxmetrics/metric_value.hpp b/cxxmetrics/metric_value.hpp
index ad2abdf..43a852a 100644
--- a/cxxmetrics/metric_value.hpp
+++ b/cxxmetrics/metric_value.hpp
@@ -25,7 +25,9 @@ public:
     virtual std::size_t hash_value() const = 0;
     virtual void copy(void* into) const noexcept = 0;
     virtual void move(void* into) noexcept { return copy(into); }
+    virtual void assign(const variant_data& other) noexcept = 0;
     virtual void add(const variant_data& other) noexcept = 0;
+    virtual void subtract(const variant_data& other) noexcept = 0;
     virtual void multiply(const variant_data& other) noexcept = 0;
     virtual void divide(const variant_data& other) noexcept = 0;
     virtual void negate() noexcept = 0;
@@ -82,6 +84,16 @@ public:
         return (sizeof(T) * 10) + (std::is_signed<T>::value ? 0 : 1);
     }
 
+    void assign(const variant_data& other) noexcept override
+    {
+        bool valid;
+        auto lv = other.to_integral(&valid);
+        if (valid)
+            val_ = lv;
+        else
+            val_ = other.to_float(nullptr);
+    }
+
     void add(const variant_data& other) noexcept override
     {
         bool valid;
@@ -92,6 +104,16 @@ public:
             val_ += other.to_float(nullptr);
     }
 
+    void subtract(const variant_data& other) noexcept override
+    {
+        bool valid;
+        auto lv = other.to_integral(&valid);
+        if (valid)
+            val_ -= lv;
+        else
+            val_ -= other.to_float(nullptr);
+    }
+
     void multiply(const variant_data& other) noexcept override
     {
         bool valid;
@@ -211,11 +233,21 @@ public:
         return (sizeof(T) * 20);
     }
 
+    void assign(const variant_data& other) noexcept override
+    {
+        val_ = other.to_float(nullptr);
+    }
+
     void add(const variant_data& other) noexcept override
     {
         val_ += other.to_float(nullptr);
     }
 
+    void subtract(const variant_data& other) noexcept override
+    {
+        val_ -= other.to_float(nullptr);
+    }
+
     void multiply(const variant_data& other) noexcept override
     {
         bool valid;
@@ -359,11 +391,23 @@ public:
         return 1;
     }
 
+    void assign(const variant_data& other) noexcept override
+    {
+        val_ = other.to_string();
+    }
+
     void add(const variant_data& other) noexcept override
     {
         val_ += other.to_string();
     }
 
+    void subtract(const variant_data& other) noexcept override
+    {
+        string_variant_data negated(other.to_string());
+        negated.negate();
+        add(negated);
+    }
+
     void multiply(const variant_data& other) noexcept override
     {
     }
@@ -457,11 +501,21 @@ public:
             return (sizeof(TRep) * 10) + 2;
     }
 
+    void assign(const variant_data& other) noexcept override
+    {
+        dur_ = std::chrono::duration_cast<std::chrono::duration<TRep, TPeriod>>(other.to_nanos(nullptr));
+    }
+
     void add(const variant_data& other) noexcept override
     {
         dur_ += std::chrono::duration_cast<std::chrono::duration<TRep, TPeriod>>(other.to_nanos(nullptr));
     }
 
+    void subtract(const variant_data& other) noexcept override
+    {
+        dur_ -= std::chrono::duration_cast<std::chrono::duration<TRep, TPeriod>>(other.to_nanos(nullptr));
+    }
+
     void multiply(const variant_data& other) noexcept override
     {
         bool valid;
@@ -570,6 +624,23 @@ class variant_data_holder
         return result;
     }
 
+    variant_data_holder uc_sub(const variant_data_holder& other) const
+    {
+        variant_data_holder result(as<variant_data>());
+        result.as<variant_data>()->subtract(*other.as<variant_data>());
+
+        return result;
+    }
+
+    // this value in the type of another one
+    variant_data_holder converted_to(const variant_data_holder& other) const
+    {
+        variant_data_holder result(other.as<variant_data>());
+        result.as<variant_data>()->assign(*as<variant_data>());
+
+        return result;
+    }
+
     template<typename T, typename>
     struct float_int_initializer;
 
@@ -685,6 +756,13 @@ public:
         return uc_add(other);
     }
 
+    variant_data_holder subtract(const variant_data_holder& other) const
+    {
+        if (other.as<variant_data>()->type_score() > as<variant_data>()->type_score())
+            return converted_to(other).uc_sub(other);
+        return uc_sub(other);
+    }
+
     variant_data_holder multiply(const variant_data_holder& other) const
     {
         if (other.as<variant_data>()->type_score() > as<variant_data>()->type_score())
@@ -695,7 +773,7 @@ public:
     variant_data_holder divide(const variant_data_holder& other) const
     {
         if (other.as<variant_data>()->type_score() > as<variant_data>()->type_score())
-            return other.uc_div(*this);
+            return converted_to(other).uc_div(other);
         return uc_div(other);
     }
 
@@ -756,7 +834,7 @@ public:
 
     metric_value& operator-=(const metric_value& other)
     {
-        value_ = (value_.add(other.value_.negate()));
+        value_ = (value_.subtract(other.value_));
         return *this;
     }
 
@@ -779,7 +857,7 @@ public:
 
     metric_value operator-(const metric_value& other) const
     {
-        return metric_value(value_.add(other.value_.negate()));
+        return metric_value(value_.subtract(other.value_));
     }
 
     metric_value operator/(const metric_value& other) const
-- 
2.43.0


From 71aaae8760372541482ac3e292d36ed88527975d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:07:55 +0000
Subject: [PATCH 18/46] fix: do not round floats in arithmetic with long
 integers

---
 cxxmetrics/metric_value.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cxxmetrics/metric_value.hpp b/cxxmetrics/metric_value.hpp
index 43a852a..4e732ea 100644
--- a/cxxmetrics/metric_value.hpp
+++ b/cxxmetrics/metric_value.hpp
@@ -230,7 +230,8 @@ public:
 
     int type_score() const override
     {
-        return (sizeof(T) * 20);
+        // above the integrals and durations, which would round it
+        return (sizeof(T) * 20) + 4;
     }
 
     void assign(const variant_data& other) noexcept override
-- 
2.43.0


From adbe51b878c4981c299bafb686d5eb174e839bd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:03 +0000
Subject: [PATCH 19/46] fix: let the inequality operators of snapshots tell
 differences

---
 cxxmetrics/snapshots.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cxxmetrics/snapshots.hpp b/cxxmetrics/snapshots.hpp
index 89eca9e..3fc081f 100644
--- a/cxxmetrics/snapshots.hpp
+++ b/cxxmetrics/snapshots.hpp
@@ -67,12 +67,12 @@ inline bool value_snapshot::operator==(const metric_value &value) const noexcept
 
 inline bool value_snapshot::operator!=(const value_snapshot &other) const noexcept
 {
-    return value_ == other.value_;
+    return value_ != other.value_;
 }
 
 inline bool value_snapshot::operator!=(const metric_value &value) const noexcept
 {
-    return value_ == value;
+    return value_ != value;
 }
 
 class cumulative_value_snapshot : public value_snapshot
-- 
2.43.0


From 8a2d27ec439f174198249a633985f5e18c251901 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:11 +0000
Subject: [PATCH 20/46] fix: interpolate quantiles without overflow of the
 sample type

---
 cxxmetrics/snapshots.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cxxmetrics/snapshots.hpp b/cxxmetrics/snapshots.hpp
index 3fc081f..17902db 100644
--- a/cxxmetrics/snapshots.hpp
+++ b/cxxmetrics/snapshots.hpp
@@ -286,7 +286,7 @@ public:
         if (static_cast<std::size_t>(index) >= values_.size())
             return max();
 
-        return values_[index - 1] + metric_value((pos - index) * static_cast<long double>(values_[index] - values_[index - 1]));
+        return values_[index - 1] + metric_value((pos - index) * (static_cast<long double>(values_[index]) - static_cast<long double>(values_[index - 1])));
     }
 
     /**
@@ -328,7 +328,7 @@ public:
             hnd(values_[index - 1] +
                     metric_value(
                         (pos - static_cast<double>(index)) *
-                        static_cast<long double>(values_[index] - values_[index - 1])),
+                        (static_cast<long double>(values_[index]) - static_cast<long double>(values_[index - 1]))),
                 pos * 100 / static_cast<long double>(values_.size() + 1));
         }
     }
-- 
2.43.0


From 0922ddbb14d49148bda168637e567f0fcbf6fecb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:19 +0000
Subject: [PATCH 21/46] fix: sample a snapshot of a single value

---
 cxxmetrics/snapshots.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/cxxmetrics/snapshots.hpp b/cxxmetrics/snapshots.hpp
index 17902db..bc0deda 100644
--- a/cxxmetrics/snapshots.hpp
+++ b/cxxmetrics/snapshots.hpp
@@ -303,6 +303,12 @@ public:
     template <typename Handler>
     void sample(std::size_t max_to_visit, Handler hnd) const
     {
+        if (values_.size() == 1 && max_to_visit > 0) {
+            // the proportion below would be infinite
+            hnd(min(), 50.0L);
+            return;
+        }
+
         long double q_proportion = 1.0L / std::min(
             static_cast<long double>(max_to_visit + 1),
             static_cast<long double>(values_.size() - 1));
-- 
2.43.0


From d73da1fb196d5f623d561ade64d5979eb16d3c35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:26 +0000
Subject: [PATCH 22/46] fix: pool all samples of merged histogram snapshots

---
 cxxmetrics/snapshots.hpp | 120 ++-------------------------------------
 1 file changed, 6 insertions(+), 114 deletions(-)

diff --git a/cxxmetrics/snapshots.hpp b/cxxmetrics/snapshots.hpp
index bc0deda..36c1675 100644
--- a/cxxmetrics/snapshots.hpp
+++ b/cxxmetrics/snapshots.hpp
@@ -432,118 +432,6 @@ class histogram_snapshot : public reservoir_snapshot
 {
     uint64_t count_;
 
-    template<typename TContainer1, typename TContainer2>
-    class alternating_iterator : public std::iterator<std::forward_iterator_tag, metric_value>
-    {
-        using iterator1 = typename TContainer1::const_iterator;
-        using iterator2 = typename TContainer2::const_iterator;
-
-        const TContainer1& srca_;
-        const TContainer2& srcb_;
-
-        iterator1 a_;
-        iterator2 b_;
-
-        bool ata_;
-
-        metric_value current_;
-        void set_current()
-        {
-            if ((ata_ || b_ == srcb_.end()) && a_ != srca_.end())
-                current_ = metric_value(*a_);
-            else if (b_ != srcb_.end())
-                current_ = metric_value(*b_);
-        }
-    public:
-
-        alternating_iterator(const TContainer1& first, const TContainer2& second, iterator1&& a, iterator2&& b) :
-                srca_(first),
-                srcb_(second),
-                a_(std::forward<iterator1>(a)),
-                b_(std::forward<iterator2>(b)),
-                ata_(false),
-                current_(0)
-        {
-            if (a_ != srca_.end() && b_ != srcb_.end())
-                set_current();
-        }
-        alternating_iterator(const TContainer1& first, const TContainer2& second) :
-                alternating_iterator(first, second, first.begin(), second.begin())
-        { }
-
-        alternating_iterator begin() const
-        {
-            return alternating_iterator(srca_, srcb_);
-        }
-
-        alternating_iterator end()
-        {
-            return alternating_iterator(srca_, srcb_, srca_.end(), srcb_.end());
-        }
-
-        alternating_iterator& operator++()
-        {
-            if (a_ == srca_.end() && b_ == srcb_.end())
-                return *this;
-
-            ata_ = !ata_;
-            if (ata_ && a_ != srca_.end())
-            {
-                while (a_ != srca_.end() && *a_ <= current_)
-                    ++a_;
-
-                if (a_ == srca_.end() && b_ != srcb_.end())
-                    ++b_;
-            }
-            else
-            {
-                while (b_ != srcb_.end() && *b_ <= current_)
-                    ++b_;
-
-                if (b_ == srcb_.end() && a_ != srca_.end())
-                    ++a_;
-            }
-
-            if (a_ == srca_.end() && b_ == srcb_.end())
-                return *this;
-
-            set_current();
-            return *this;
-        }
-
-        void operator++(int)
-        {
-            this->operator++();
-        }
-
-        const metric_value* operator->() const
-        {
-            return &current_;
-        }
-
-        const metric_value& operator*() const
-        {
-            return current_;
-        }
-
-        bool operator==(const alternating_iterator& other) const
-        {
-            if (a_ == srca_.end() && b_ == srcb_.end())
-                return other.a_ == other.srca_.end() && other.b_ == other.srcb_.end();
-            return a_ == other.a_ && b_ == other.b_;
-        }
-
-        bool operator!=(const alternating_iterator& other) const
-        {
-            return !operator==(other);
-        }
-    };
-
-    template<typename TContainer1, typename TContainer2>
-    static constexpr alternating_iterator<TContainer1, TContainer2> make_alternating_iterator(const TContainer1& a, const TContainer2& b)
-    {
-        return alternating_iterator<TContainer1, TContainer2>(a, b);
-    }
 public:
     histogram_snapshot(reservoir_snapshot&& q, uint64_t count) :
             reservoir_snapshot(std::move(q)),
@@ -564,8 +452,12 @@ public:
 
     void merge(const histogram_snapshot& other)
     {
-        auto b = make_alternating_iterator(values_, other.values_);
-        reservoir_snapshot::operator=(reservoir_snapshot(b, b.end(), std::max(count_, other.count_)));
+        auto added = other.values_.size();
+        values_.reserve(values_.size() + added);
+        for (std::size_t i = 0; i < added; ++i)
+            values_.emplace_back(other.values_[i]);
+        std::sort(values_.begin(), values_.end());
+
         count_ += other.count_;
     }
 
-- 
2.43.0


From 7437638b41490b340d21e37927fc05972c13fb56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:12 +0000
Subject: [PATCH 23/46] fix: hash equal tag collections equally

---
 cxxmetrics/tag_collection.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cxxmetrics/tag_collection.hpp b/cxxmetrics/tag_collection.hpp
index bc5f4ce..8cbb2af 100644
--- a/cxxmetrics/tag_collection.hpp
+++ b/cxxmetrics/tag_collection.hpp
@@ -69,8 +69,9 @@ struct hash<cxxmetrics::tag_collection>
         std::size_t result = 0;
         std::hash<std::string> h;
         std::hash<cxxmetrics::metric_value> v;
+        // equal collections may list their tags in different orders
         for (const auto& p : collection)
-            result = (result * 397) ^ (h(p.first) ^ v(p.second));
+            result += (h(p.first) * 397) ^ v(p.second);
 
         return result;
     }
-- 
2.43.0


From 6c364097fab882fa8e02bcda07d4bd3728ff6f0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:20 +0000
Subject: [PATCH 24/46] fix: prepending an empty literal to a path adds no
 element

---
 cxxmetrics/metric_path.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cxxmetrics/metric_path.hpp b/cxxmetrics/metric_path.hpp
index af3d62e..7f98e2c 100644
--- a/cxxmetrics/metric_path.hpp
+++ b/cxxmetrics/metric_path.hpp
@@ -124,7 +124,8 @@ inline metric_path operator/(const char (&pstr)[Size], const metric_path& other)
     std::vector<std::string> paths;
     paths.reserve(other.paths_.size() + 1);
 
-    paths.emplace_back(pstr);
+    if (*pstr)
+        paths.emplace_back(pstr);
     paths.insert(paths.end(), other.paths_.begin(), other.paths_.end());
 
     return metric_path(std::move(paths));
-- 
2.43.0


From 088f89f1082da358cb5154c6b35b4935ff5cad93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:01 +0000
Subject: [PATCH 25/46] fix: assign values to gauges of any aggregation

---
 cxxmetrics/gauge.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cxxmetrics/gauge.hpp b/cxxmetrics/gauge.hpp
index 2e4f767..bf5a85e 100644
--- a/cxxmetrics/gauge.hpp
+++ b/cxxmetrics/gauge.hpp
@@ -225,7 +225,7 @@ public:
 
     gauge& operator=(const TGaugeType& value) noexcept
     {
-        gauges::primitive_gauge<TGaugeType>::operator=(value);
+        gauges::primitive_gauge<TGaugeType, TAggregation>::operator=(value);
         return *this;
     }
     gauge& operator=(const gauge& other) = default;
-- 
2.43.0


From d39e3501441c52d2f8f2dd850ffcec937a21755c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:10 +0000
Subject: [PATCH 26/46] fix: combine function, pointer and reference gauges by
 their aggregation

---
 cxxmetrics/gauge.hpp | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/cxxmetrics/gauge.hpp b/cxxmetrics/gauge.hpp
index bf5a85e..00c8a23 100644
--- a/cxxmetrics/gauge.hpp
+++ b/cxxmetrics/gauge.hpp
@@ -146,7 +146,7 @@ typename functional_gauge<TFn, TAggregation>::gauge_type functional_gauge<TFn, T
 }
 
 template<typename TRefType, gauge_aggregation_type TAggregation = aggregation_average>
-class referential_gauge : public gauge<TRefType>
+class referential_gauge : public gauge<TRefType, TAggregation>
 {
     std::reference_wrapper<TRefType> value_;
 public:
@@ -233,14 +233,14 @@ public:
 };
 
 template<typename T, gauges::gauge_aggregation_type TAggregation>
-class gauge<std::function<T()>, TAggregation> : public gauges::functional_gauge<std::function<T()>>, public metric<gauge<std::function<T()>>>
+class gauge<std::function<T()>, TAggregation> : public gauges::functional_gauge<std::function<T()>, TAggregation>, public metric<gauge<std::function<T()>>>
 {
 public:
     explicit gauge(const std::function<T()> &fn) :
-            gauges::functional_gauge<std::function<T()>>(fn)
+            gauges::functional_gauge<std::function<T()>, TAggregation>(fn)
     { }
     explicit gauge(std::function<T()> &&fn) noexcept :
-            gauges::functional_gauge<std::function<T()>>(std::move(fn))
+            gauges::functional_gauge<std::function<T()>, TAggregation>(std::move(fn))
     { }
     gauge(const gauge& copy) = default;
     gauge(gauge&& mv) = default;
@@ -251,11 +251,11 @@ public:
 };
 
 template<typename TGaugeType, gauges::gauge_aggregation_type TAggregation>
-class gauge<TGaugeType*, TAggregation> : public gauges::referential_gauge<TGaugeType>, public metric<gauge<TGaugeType &>>
+class gauge<TGaugeType*, TAggregation> : public gauges::referential_gauge<TGaugeType, TAggregation>, public metric<gauge<TGaugeType &>>
 {
 public:
     inline explicit gauge(TGaugeType* ptr) noexcept :
-            gauges::referential_gauge<TGaugeType>(*ptr)
+            gauges::referential_gauge<TGaugeType, TAggregation>(*ptr)
     { }
     gauge(const gauge& copy) = default;
     ~gauge() = default;
@@ -264,11 +264,11 @@ public:
 };
 
 template<typename TGaugeType, gauges::gauge_aggregation_type TAggregation>
-class gauge<TGaugeType &, TAggregation> : public gauges::referential_gauge<TGaugeType>, public metric<gauge<TGaugeType &>>
+class gauge<TGaugeType &, TAggregation> : public gauges::referential_gauge<TGaugeType, TAggregation>, public metric<gauge<TGaugeType &>>
 {
 public:
     inline explicit gauge(TGaugeType& ref) noexcept :
-            gauges::referential_gauge<TGaugeType>(ref)
+            gauges::referential_gauge<TGaugeType, TAggregation>(ref)
     { }
     gauge(const gauge& copy) = default;
     ~gauge() = default;
-- 
2.43.0


From a7c1c2dbf611e6352cc52c399e4230bfe1a52b36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:19 +0000
Subject: [PATCH 27/46] fix: name gauges after their kind and aggregation

---
 cxxmetrics/gauge.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/cxxmetrics/gauge.hpp b/cxxmetrics/gauge.hpp
index 00c8a23..f2bfc5a 100644
--- a/cxxmetrics/gauge.hpp
+++ b/cxxmetrics/gauge.hpp
@@ -212,7 +212,7 @@ TRefType referential_gauge<TRefType, TAggregation>::get() const noexcept
  * \tparam TGaugeType The type of data for the gauge
  */
 template<typename TGaugeType, gauges::gauge_aggregation_type TAggregation = gauges::aggregation_average>
-class gauge : public gauges::primitive_gauge<TGaugeType, TAggregation>, public metric<gauge<TGaugeType>>
+class gauge : public gauges::primitive_gauge<TGaugeType, TAggregation>, public metric<gauge<TGaugeType, TAggregation>>
 {
 public:
     explicit gauge(const TGaugeType& value = TGaugeType()) noexcept :
@@ -233,7 +233,7 @@ public:
 };
 
 template<typename T, gauges::gauge_aggregation_type TAggregation>
-class gauge<std::function<T()>, TAggregation> : public gauges::functional_gauge<std::function<T()>, TAggregation>, public metric<gauge<std::function<T()>>>
+class gauge<std::function<T()>, TAggregation> : public gauges::functional_gauge<std::function<T()>, TAggregation>, public metric<gauge<std::function<T()>, TAggregation>>
 {
 public:
     explicit gauge(const std::function<T()> &fn) :
@@ -251,7 +251,7 @@ public:
 };
 
 template<typename TGaugeType, gauges::gauge_aggregation_type TAggregation>
-class gauge<TGaugeType*, TAggregation> : public gauges::referential_gauge<TGaugeType, TAggregation>, public metric<gauge<TGaugeType &>>
+class gauge<TGaugeType*, TAggregation> : public gauges::referential_gauge<TGaugeType, TAggregation>, public metric<gauge<TGaugeType*, TAggregation>>
 {
 public:
     inline explicit gauge(TGaugeType* ptr) noexcept :
@@ -264,7 +264,7 @@ public:
 };
 
 template<typename TGaugeType, gauges::gauge_aggregation_type TAggregation>
-class gauge<TGaugeType &, TAggregation> : public gauges::referential_gauge<TGaugeType, TAggregation>, public metric<gauge<TGaugeType &>>
+class gauge<TGaugeType &, TAggregation> : public gauges::referential_gauge<TGaugeType, TAggregation>, public metric<gauge<TGaugeType &, TAggregation>>
 {
 public:
     inline explicit gauge(TGaugeType& ref) noexcept :
-- 
2.43.0


From 98702fb496f936360d4056e5cc6fbebaef5ca6ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:27 +0000
Subject: [PATCH 28/46] fix: do not bind gauges to null references

---
 cxxmetrics/gauge.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/cxxmetrics/gauge.hpp b/cxxmetrics/gauge.hpp
index f2bfc5a..3579530 100644
--- a/cxxmetrics/gauge.hpp
+++ b/cxxmetrics/gauge.hpp
@@ -294,8 +294,8 @@ struct default_metric_builder<cxxmetrics::gauge<TGaugeType &, TAggregation>>
 {
     cxxmetrics::gauge<TGaugeType&, TAggregation> operator()() const
     {
-        static TGaugeType *r = nullptr;
-        return cxxmetrics::gauge<TGaugeType&, TAggregation>(*r);
+        static typename std::aligned_storage<sizeof(TGaugeType), alignof(TGaugeType)>::type r; // never read
+        return cxxmetrics::gauge<TGaugeType&, TAggregation>(reinterpret_cast<TGaugeType&>(r));
     }
 };
 
@@ -304,8 +304,8 @@ struct default_metric_builder<cxxmetrics::gauge<TGaugeType *, TAggregation>>
 {
     cxxmetrics::gauge<TGaugeType*, TAggregation> operator()() const
     {
-        static TGaugeType *r = nullptr;
-        return cxxmetrics::gauge<TGaugeType*, TAggregation>(r);
+        static typename std::aligned_storage<sizeof(TGaugeType), alignof(TGaugeType)>::type r; // never read
+        return cxxmetrics::gauge<TGaugeType*, TAggregation>(reinterpret_cast<TGaugeType*>(&r));
     }
 };
 
-- 
2.43.0


From 86a28cc09f47590795a4b54fe37507e9a2dfe1a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:38 +0000
Subject: [PATCH 29/46] fix: set and read the values of gauges atomically

---
 cxxmetrics/gauge.hpp | 45 ++++++++++++++++++++++++++++++++++++++------
 1 file changed, 39 insertions(+), 6 deletions(-)

diff --git a/cxxmetrics/gauge.hpp b/cxxmetrics/gauge.hpp
index 3579530..11d89f0 100644
--- a/cxxmetrics/gauge.hpp
+++ b/cxxmetrics/gauge.hpp
@@ -2,6 +2,7 @@
 #define CXXMETRICS_GAUGE_HPP
 
 #include "metric.hpp"
+#include <atomic>
 #include <type_traits>
 
 namespace cxxmetrics
@@ -35,15 +36,47 @@ public:
     }
 };
 
+/**
+ * \brief Holds the value of a primitive gauge, atomically if the type allows it
+ */
+template<typename TValue, bool Atomic = std::is_trivially_copyable<TValue>::value && (sizeof(TValue) & (sizeof(TValue) - 1)) == 0 && sizeof(TValue) <= sizeof(void*)>
+class gauge_value
+{
+    TValue value_;
+public:
+    gauge_value(TValue value) : value_(std::move(value)) { }
+
+    const TValue& get() const noexcept { return value_; }
+    void set(TValue value) noexcept { value_ = std::move(value); }
+};
+
+template<typename TValue>
+class gauge_value<TValue, true>
+{
+    std::atomic<TValue> value_;
+public:
+    gauge_value(TValue value) noexcept : value_(value) { }
+    gauge_value(const gauge_value& other) noexcept : value_(other.get()) { }
+
+    gauge_value& operator=(const gauge_value& other) noexcept
+    {
+        set(other.get());
+        return *this;
+    }
+
+    TValue get() const noexcept { return value_.load(std::memory_order_acquire); }
+    void set(TValue value) noexcept { value_.store(value, std::memory_order_release); }
+};
+
 template<typename TGaugeType, gauge_aggregation_type TAggregation = aggregation_average>
 class primitive_gauge : gauge<TGaugeType, TAggregation>
 {
-    TGaugeType value_;
+    gauge_value<TGaugeType> value_;
 public:
     primitive_gauge(const TGaugeType& initial_value = TGaugeType()) noexcept;
     primitive_gauge(const primitive_gauge& copy) = default;
     primitive_gauge(primitive_gauge&& mv) :
-            value_(std::forward<TGaugeType>(mv.value_))
+            value_(std::move(mv.value_))
     { }
     ~primitive_gauge() = default;
 
@@ -71,26 +104,26 @@ primitive_gauge<TGaugeType, TAggregation>::primitive_gauge(const TGaugeType& ini
 template<typename TGaugeType, gauge_aggregation_type TAggregation>
 primitive_gauge<TGaugeType, TAggregation> &primitive_gauge<TGaugeType, TAggregation>::operator=(const TGaugeType& value) noexcept
 {
-    value_ = value;
+    value_.set(value);
     return *this;
 }
 
 template<typename TGaugeType, gauge_aggregation_type TAggregation>
 void primitive_gauge<TGaugeType, TAggregation>::set(TGaugeType value) noexcept
 {
-    value_ = value;
+    value_.set(value);
 }
 
 template<typename TGaugeType, gauge_aggregation_type TAggregation>
 TGaugeType primitive_gauge<TGaugeType, TAggregation>::get() noexcept
 {
-    return value_;
+    return value_.get();
 }
 
 template<typename TGaugeType, gauge_aggregation_type TAggregation>
 TGaugeType primitive_gauge<TGaugeType, TAggregation>::get() const noexcept
 {
-    return value_;
+    return value_.get();
 }
 
 template<typename TFn>
-- 
2.43.0


From 8a12da9e4030f8e78d2210576150b3206688bbe8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:31:32 +0000
Subject: [PATCH 30/46] fix: visit any number of tag sets with a bounded stack

---
 cxxmetrics/metrics_registry.hpp | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/cxxmetrics/metrics_registry.hpp b/cxxmetrics/metrics_registry.hpp
index 259ecf2..b77bc4d 100644
--- a/cxxmetrics/metrics_registry.hpp
+++ b/cxxmetrics/metrics_registry.hpp
@@ -272,13 +272,15 @@ template<typename TMetricType>
 void registered_metric<TMetricType>::visit_each(cxxmetrics::internal::registered_snapshot_visitor_builder &builder)
 {
     std::lock_guard<std::mutex> lock(lock_);
+
+    // one piece of the stack for all of the visitors, which exist one after the other
+    auto sz = builder.visitor_size() + sizeof(std::max_align_t);
+    void* ptr = alloca(sz);
+    std::align(sizeof(std::max_align_t), sz, ptr, sz);
+    auto loc = reinterpret_cast<snapshot_visitor*>(ptr);
+
     for (auto& p : metrics_)
     {
-        auto sz = builder.visitor_size() + sizeof(std::max_align_t);
-        void* ptr = alloca(sz);
-
-        std::align(sizeof(std::max_align_t), sz, ptr, sz);
-        auto loc = reinterpret_cast<snapshot_visitor*>(ptr);
         builder.construct(loc, p.first);
         try
         {
-- 
2.43.0


From 90eef799d77f1e4a68836d9e3535eaba8b1e85ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:48:01 +0000
Subject: [PATCH 31/46] fix: keep the scale, rates and quantiles of timer
 publish options

---
 cxxmetrics/publisher.hpp | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/cxxmetrics/publisher.hpp b/cxxmetrics/publisher.hpp
index 0cc6918..315fe6c 100644
--- a/cxxmetrics/publisher.hpp
+++ b/cxxmetrics/publisher.hpp
@@ -275,24 +275,28 @@ class timer_publish_options : public histogram_publish_options, public meter_pub
     bool rates_;
 public:
     timer_publish_options(timer_publish_options&& other) noexcept :
+            value_publish_options(other),
             histogram_publish_options(std::move(other)),
-            meter_publish_options(std::move(other)),
+            meter_publish_options(other),
             rates_(other.rates_)
     { }
 
     timer_publish_options(bool rates = true, const scale_factor& sf = scale_factor()) noexcept :
+            value_publish_options(sf),
             histogram_publish_options(sf),
             meter_publish_options(sf),
             rates_(rates)
     { }
 
     timer_publish_options(bool rates, bool publish_count, const scale_factor& sf = scale_factor()) noexcept :
+            value_publish_options(sf),
             histogram_publish_options(publish_count, sf),
             meter_publish_options(sf),
             rates_(rates)
     { }
 
     timer_publish_options(bool rates, bool publish_count, bool publish_mean, const scale_factor& sf = scale_factor()) noexcept :
+            value_publish_options(sf),
             histogram_publish_options(publish_count, sf),
             meter_publish_options(publish_mean, sf),
             rates_(rates)
@@ -300,7 +304,8 @@ public:
 
     template<typename TQuantileOptions, typename = typename std::enable_if<std::is_base_of<basic_quantile_options, TQuantileOptions>::value, void>::type>
     timer_publish_options(TQuantileOptions&& quantile_options, bool rates, bool publish_count = true, const scale_factor& sf = scale_factor()) :
-            histogram_publish_options(quantile_options, publish_count, sf),
+            value_publish_options(sf),
+            histogram_publish_options(std::forward<TQuantileOptions>(quantile_options), publish_count, false, sf),
             meter_publish_options(sf),
             rates_(rates)
     { }
@@ -308,7 +313,8 @@ public:
 
     template<typename TQuantileOptions, typename = typename std::enable_if<std::is_base_of<basic_quantile_options, TQuantileOptions>::value, void>::type>
     timer_publish_options(TQuantileOptions&& quantile_options, bool rates, bool publish_count, bool publish_mean, const scale_factor& sf = scale_factor()) :
-            histogram_publish_options(quantile_options, publish_count, sf),
+            value_publish_options(sf),
+            histogram_publish_options(std::forward<TQuantileOptions>(quantile_options), publish_count, false, sf),
             meter_publish_options(publish_mean, sf),
             rates_(rates)
     { }
@@ -316,7 +322,8 @@ public:
     timer_publish_options& operator=(timer_publish_options&& other) noexcept
     {
         histogram_publish_options::operator=(std::move(other));
-        meter_publish_options::operator=(std::move(other));
+        meter_publish_options::operator=(other);
+        rates_ = other.rates_;
         return *this;
     }
 
-- 
2.43.0


From 64741940546f1929d0a2e49cb4dd8f0b8ab2567e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:22 +0000
Subject: [PATCH 32/46] fix: escape backslashes and line ends in Prometheus
 label values

---
 cxxmetrics_prometheus/snapshot_writer.hpp | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/cxxmetrics_prometheus/snapshot_writer.hpp b/cxxmetrics_prometheus/snapshot_writer.hpp
index 6708ff6..e78fe70 100644
--- a/cxxmetrics_prometheus/snapshot_writer.hpp
+++ b/cxxmetrics_prometheus/snapshot_writer.hpp
@@ -53,10 +53,20 @@ inline std::ostream& format_tag_value(std::ostream& into, const std::string& val
 {
     for (auto c : value)
     {
-        if (c == '"')
-            into << "\\\"";
-        else
-            into << c;
+        switch (c)
+        {
+            case '"':
+                into << "\\\"";
+                break;
+            case '\\':
+                into << "\\\\";
+                break;
+            case '\n':
+                into << "\\n";
+                break;
+            default:
+                into << c;
+        }
     }
 
     return into;
-- 
2.43.0


From 1add4f42e24f402a8a7b65954888f4ae067964d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:28 +0000
Subject: [PATCH 33/46] fix: write valid Prometheus label names

---
 cxxmetrics_prometheus/snapshot_writer.hpp | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/cxxmetrics_prometheus/snapshot_writer.hpp b/cxxmetrics_prometheus/snapshot_writer.hpp
index e78fe70..078fd04 100644
--- a/cxxmetrics_prometheus/snapshot_writer.hpp
+++ b/cxxmetrics_prometheus/snapshot_writer.hpp
@@ -49,6 +49,15 @@ inline std::ostream& format_name(std::ostream& into, const cxxmetrics::metric_pa
     return into;
 }
 
+inline std::ostream& format_tag_name(std::ostream& into, const std::string& name)
+{
+    // label names are neither empty nor start with digits
+    if (name.empty() || std::isdigit(name[0]))
+        into << '_';
+
+    return format_name_element(into, name);
+}
+
 inline std::ostream& format_tag_value(std::ostream& into, const std::string& value)
 {
     for (auto c : value)
@@ -78,13 +87,13 @@ inline std::ostream& format_tags(std::ostream& into, const cxxmetrics::tag_colle
     if (tag == tags.end())
         return into;
 
-    format_name_element(into, tag->first);
+    format_tag_name(into, tag->first);
     into << "=\"";
     format_tag_value(into, tag->second) << "\"";
     for (++tag; tag != tags.end(); ++tag)
     {
         into << ",";
-        format_name_element(into, tag->first) << "=\"";
+        format_tag_name(into, tag->first) << "=\"";
         format_tag_value(into, tag->second) << "\"";
     }
 
-- 
2.43.0


From cfde4181a9b685dad113b730f8d9a2eda07b5dd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:20 +0000
Subject: [PATCH 34/46] fix: escape the help text of timers for Prometheus

---
 cxxmetrics_prometheus/prometheus_timer.hpp |  3 ++-
 cxxmetrics_prometheus/snapshot_writer.hpp  | 15 +++++++++++++++
 2 files changed, 17 insertions(+), 1 deletion(-)

diff --git a/cxxmetrics_prometheus/prometheus_timer.hpp b/cxxmetrics_prometheus/prometheus_timer.hpp
index b5ae3ac..c618f02 100644
--- a/cxxmetrics_prometheus/prometheus_timer.hpp
+++ b/cxxmetrics_prometheus/prometheus_timer.hpp
@@ -11,7 +11,8 @@ class snapshot_writer<cxxmetrics::timer_snapshot>
 {
     void write_header() const
     {
-        stream << "# HELP " << internal::name(path) << " " << path.join("/") << " in microseconds\n";
+        stream << "# HELP " << internal::name(path) << " ";
+        internal::format_help(stream, path.join("/")) << " in microseconds\n";
         stream << "# TYPE " << internal::name(path) << " summary\n";
     }
 
diff --git a/cxxmetrics_prometheus/snapshot_writer.hpp b/cxxmetrics_prometheus/snapshot_writer.hpp
index 078fd04..e0d3401 100644
--- a/cxxmetrics_prometheus/snapshot_writer.hpp
+++ b/cxxmetrics_prometheus/snapshot_writer.hpp
@@ -100,6 +100,21 @@ inline std::ostream& format_tags(std::ostream& into, const cxxmetrics::tag_colle
     return into;
 }
 
+inline std::ostream& format_help(std::ostream& into, const std::string& text)
+{
+    for (auto c : text)
+    {
+        if (c == '\\')
+            into << "\\\\";
+        else if (c == '\n')
+            into << "\\n";
+        else
+            into << c;
+    }
+
+    return into;
+}
+
 template<typename TRep, typename TPer>
 std::ostream& format_window(std::ostream& into, const std::chrono::duration<TRep, TPer>& time)
 {
-- 
2.43.0


From 7cb783e4f66dd0dcb5f51fb7cde38a6e45bb2539 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:25 +0000
Subject: [PATCH 35/46] fix: tell all windows apart in Prometheus labels

---
 cxxmetrics_prometheus/snapshot_writer.hpp | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/cxxmetrics_prometheus/snapshot_writer.hpp b/cxxmetrics_prometheus/snapshot_writer.hpp
index e0d3401..a18b60a 100644
--- a/cxxmetrics_prometheus/snapshot_writer.hpp
+++ b/cxxmetrics_prometheus/snapshot_writer.hpp
@@ -119,27 +119,28 @@ template<typename TRep, typename TPer>
 std::ostream& format_window(std::ostream& into, const std::chrono::duration<TRep, TPer>& time)
 {
     using namespace std::chrono_literals;
-    if (time >= 1h)
+    // in the largest unit that tells this window from all others
+    if (time >= 1h && time % 1h == time.zero())
     {
         into << std::chrono::duration_cast<std::chrono::hours>(time).count() << "hr";
         return into;
     }
-    if (time >= 1min)
+    if (time >= 1min && time % 1min == time.zero())
     {
         into << std::chrono::duration_cast<std::chrono::minutes>(time).count() << "min";
         return into;
     }
-    if (time >= 1s)
+    if (time >= 1s && time % 1s == time.zero())
     {
         into << std::chrono::duration_cast<std::chrono::seconds>(time).count() << "sec";
         return into;
     }
-    if (time >= 1ms)
+    if (time >= 1ms && time % 1ms == time.zero())
     {
         into << std::chrono::duration_cast<std::chrono::milliseconds>(time).count() << "msec";
         return into;
     }
-    if (time >= 1us)
+    if (time >= 1us && time % 1us == time.zero())
     {
         into << std::chrono::duration_cast<std::chrono::microseconds>(time).count() << "usec";
         return into;
-- 
2.43.0


From 4b964fd2d052164efaa47f0c2d9355b756475b80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:17 +0000
Subject: [PATCH 36/46] fix: write quantile and window labels independently of
 the stream's format

---
 .../prometheus_histogram.hpp                  |  2 +-
 cxxmetrics_prometheus/prometheus_timer.hpp    |  2 +-
 cxxmetrics_prometheus/snapshot_writer.hpp     | 22 ++++++++++++++-----
 3 files changed, 18 insertions(+), 8 deletions(-)

diff --git a/cxxmetrics_prometheus/prometheus_histogram.hpp b/cxxmetrics_prometheus/prometheus_histogram.hpp
index 9c4717a..2864721 100644
--- a/cxxmetrics_prometheus/prometheus_histogram.hpp
+++ b/cxxmetrics_prometheus/prometheus_histogram.hpp
@@ -28,7 +28,7 @@ public:
 
         stream << internal::name(path) << "_mean{" << internal::tags(tags) << "} " << internal::scale_value(snapshot.mean(), options.histogram_options()) << "\n";
         options.histogram_options().quantiles()->visit(snapshot, [&](cxxmetrics::quantile q, cxxmetrics::metric_value&& value) {
-            stream << internal::name(path) << '{' << "quantile=\"" << (q.percentile() / 100.0) << "\"" << comma << internal::tags(tags) << "} " << internal::scale_value(std::move(value), options.histogram_options()) << "\n";
+            stream << internal::name(path) << '{' << "quantile=\"" << internal::quantile(q) << "\"" << comma << internal::tags(tags) << "} " << internal::scale_value(std::move(value), options.histogram_options()) << "\n";
         });
     }
 };
diff --git a/cxxmetrics_prometheus/prometheus_timer.hpp b/cxxmetrics_prometheus/prometheus_timer.hpp
index c618f02..634413f 100644
--- a/cxxmetrics_prometheus/prometheus_timer.hpp
+++ b/cxxmetrics_prometheus/prometheus_timer.hpp
@@ -31,7 +31,7 @@ public:
         stream << internal::name(path) << "_mean{" << internal::tags(tags) << "} " << internal::scale_value(std::chrono::duration_cast<std::chrono::microseconds>(static_cast<std::chrono::nanoseconds>(snapshot.mean())), options.timer_options()) << "\n";
         options.timer_options().quantiles()->visit(snapshot, [&](cxxmetrics::quantile q, cxxmetrics::metric_value&& value) {
             stream << internal::name(path) <<
-                    '{' << "quantile=\"" << (q.percentile() / 100.0) << "\"" << comma <<
+                    '{' << "quantile=\"" << internal::quantile(q) << "\"" << comma <<
                     internal::tags(tags) << "} " <<
                     internal::scale_value(std::chrono::duration_cast<std::chrono::microseconds>(static_cast<std::chrono::nanoseconds>(value)), options.timer_options()) << "\n";
         });
diff --git a/cxxmetrics_prometheus/snapshot_writer.hpp b/cxxmetrics_prometheus/snapshot_writer.hpp
index a18b60a..ebd6e95 100644
--- a/cxxmetrics_prometheus/snapshot_writer.hpp
+++ b/cxxmetrics_prometheus/snapshot_writer.hpp
@@ -2,7 +2,9 @@
 #define CXXMETRICS_SNAPSHOT_WRITER_HPP
 
 #include <cctype>
+#include <cstdio>
 #include <ostream>
+#include <string>
 #include <cxxmetrics/snapshots.hpp>
 #include <cxxmetrics/publisher.hpp>
 
@@ -122,31 +124,31 @@ std::ostream& format_window(std::ostream& into, const std::chrono::duration<TRep
     // in the largest unit that tells this window from all others
     if (time >= 1h && time % 1h == time.zero())
     {
-        into << std::chrono::duration_cast<std::chrono::hours>(time).count() << "hr";
+        into << std::to_string(std::chrono::duration_cast<std::chrono::hours>(time).count()) << "hr";
         return into;
     }
     if (time >= 1min && time % 1min == time.zero())
     {
-        into << std::chrono::duration_cast<std::chrono::minutes>(time).count() << "min";
+        into << std::to_string(std::chrono::duration_cast<std::chrono::minutes>(time).count()) << "min";
         return into;
     }
     if (time >= 1s && time % 1s == time.zero())
     {
-        into << std::chrono::duration_cast<std::chrono::seconds>(time).count() << "sec";
+        into << std::to_string(std::chrono::duration_cast<std::chrono::seconds>(time).count()) << "sec";
         return into;
     }
     if (time >= 1ms && time % 1ms == time.zero())
     {
-        into << std::chrono::duration_cast<std::chrono::milliseconds>(time).count() << "msec";
+        into << std::to_string(std::chrono::duration_cast<std::chrono::milliseconds>(time).count()) << "msec";
         return into;
     }
     if (time >= 1us && time % 1us == time.zero())
     {
-        into << std::chrono::duration_cast<std::chrono::microseconds>(time).count() << "usec";
+        into << std::to_string(std::chrono::duration_cast<std::chrono::microseconds>(time).count()) << "usec";
         return into;
     }
 
-    into << std::chrono::duration_cast<std::chrono::nanoseconds>(time).count() << "nsec";
+    into << std::to_string(std::chrono::duration_cast<std::chrono::nanoseconds>(time).count()) << "nsec";
     return into;
 }
 
@@ -169,6 +171,14 @@ std::ostream& operator<<(std::ostream& stream, prometheus_time_window_t<TRep, TP
     return format_window(stream, w.duration);
 }
 
+inline std::string quantile(const cxxmetrics::quantile& q)
+{
+    // independent of the stream's precision and format
+    char text[32];
+    std::snprintf(text, sizeof(text), "%.9Lg", q.percentile() / 100.0L);
+    return text;
+}
+
 struct prometheus_tags_t
 {
     const cxxmetrics::tag_collection& tags;
-- 
2.43.0


From 7c5fa849e8dd54b0d8ffc434a44fc555f06ed348 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:50 +0000
Subject: [PATCH 37/46] fix: forward the clock given to a timer as a clock

---
 cxxmetrics/timer.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cxxmetrics/timer.hpp b/cxxmetrics/timer.hpp
index 56573b1..ce5c242 100644
--- a/cxxmetrics/timer.hpp
+++ b/cxxmetrics/timer.hpp
@@ -38,7 +38,7 @@ public:
      */
     timer(TReservoir &&reservoir, TClock &&clock) :
             histogram_(std::forward<TReservoir>(reservoir)),
-            clock_(std::forward<TReservoir>(clock))
+            clock_(std::forward<TClock>(clock))
     { }
 
 
-- 
2.43.0


From 0070c1d7e31924c2c8032149634ce03c83deffda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:00 +0000
Subject: [PATCH 38/46] fix: timer::time compiles for runnables in C++14

---
 cxxmetrics/metric.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cxxmetrics/metric.hpp b/cxxmetrics/metric.hpp
index 4fbfa07..4145d46 100644
--- a/cxxmetrics/metric.hpp
+++ b/cxxmetrics/metric.hpp
@@ -5,8 +5,8 @@
 
 #if __cplusplus < 201700L
 namespace std {
-template<typename T>
-using invoke_result = result_of<T>;
+template<typename T, typename... TArgs>
+using invoke_result = result_of<T(TArgs...)>;
 }
 #endif
 
-- 
2.43.0


From 78e383bfd18cd4e7c456e8b6a70db4d5395898b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:49 +0000
Subject: [PATCH 39/46] fix: calculate with the times of timers in nanoseconds,
 whatever the clock ticks in

---
 cxxmetrics/snapshots.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/cxxmetrics/snapshots.hpp b/cxxmetrics/snapshots.hpp
index 36c1675..1be2e5b 100644
--- a/cxxmetrics/snapshots.hpp
+++ b/cxxmetrics/snapshots.hpp
@@ -474,7 +474,11 @@ public:
     timer_snapshot(histogram_snapshot&& h, meter_snapshot&& m) :
             histogram_snapshot(std::move(h)),
             meter_(std::move(m))
-    { }
+    {
+        // what's calculated from the times is in nanoseconds, whatever the clock ticks in
+        for (auto& time : values_)
+            time = metric_value(std::chrono::duration_cast<std::chrono::nanoseconds>(time));
+    }
 
     timer_snapshot(timer_snapshot&& other) noexcept :
             histogram_snapshot(std::move(other)),
-- 
2.43.0


From 999b60948b4218c9ec1d59b727b828b0c5dc694f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:11 +0000
Subject: [PATCH 40/46] fix: pool::allocate must not unlink the free list's
 head while others reuse it

---
 cxxmetrics/pool.hpp | 44 ++++++++++++++++++++++++++++++--------------
 1 file changed, 30 insertions(+), 14 deletions(-)

diff --git a/cxxmetrics/pool.hpp b/cxxmetrics/pool.hpp
index 4c936e0..dda4dd9 100644
--- a/cxxmetrics/pool.hpp
+++ b/cxxmetrics/pool.hpp
@@ -229,6 +229,25 @@ class pool
 #endif
     }
 
+#ifndef CXXMETRICS_DISABLE_POOLING
+    // puts back the part of the free list that an allocation had no use for
+    void give_back(data_type *first) noexcept
+    {
+        data_type *head = nullptr;
+        if (first == nullptr || v_.compare_exchange_strong(head, first))
+            return;
+
+        // other objects were returned in the mean time, so they go behind the ones we have
+        data_type *last = first;
+        for (data_type *next = last->next; next != nullptr; next = last->next)
+            last = next;
+
+        do
+            last->next = head;
+        while (!v_.compare_exchange_strong(head, first));
+    }
+#endif
+
     friend class pool_ptr<TValue, TAlloc>;
 public:
     /**
@@ -260,23 +279,20 @@ public:
      */
     pool_ptr<TValue, TAlloc> allocate(const TValue &value = TValue()) noexcept
     {
-        data_type *head = v_.load();
-
-        while (true)
-        {
 #ifndef CXXMETRICS_DISABLE_POOLING
-            if (head == nullptr)
+        // take the whole free list: unlinking just its head would read the head's next
+        // while another thread might be reusing the head (and might put it back later)
+        data_type *head = v_.exchange(nullptr);
+        if (head != nullptr)
+        {
+            give_back(head->next);
+            head->next = reinterpret_cast<data_type *>(0x11);
+            new (&head->value()) TValue(value);
+            return pool_ptr<TValue, TAlloc>(head);
+        }
 #endif
-                return pool_ptr<TValue, TAlloc>(allocnew(value));
 
-            data_type *next = head->next;
-            if (v_.compare_exchange_strong(head, next))
-            {
-                head->next = reinterpret_cast<data_type *>(0x11);
-                new (&head->value()) TValue(value);
-                return pool_ptr<TValue, TAlloc>(head);
-            }
-        }
+        return pool_ptr<TValue, TAlloc>(allocnew(value));
     }
 };
 
-- 
2.43.0


From fe5656817357e4a2d73fc7ef1c060d17f34abe7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:42 +0000
Subject: [PATCH 41/46] fix: a failed compare_exchange_strong must not take
 over a pool object that is gone

---
 cxxmetrics/pool.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/cxxmetrics/pool.hpp b/cxxmetrics/pool.hpp
index dda4dd9..a809d83 100644
--- a/cxxmetrics/pool.hpp
+++ b/cxxmetrics/pool.hpp
@@ -429,9 +429,9 @@ bool pool_ptr<TValue, TAlloc>::compare_exchange_strong(pool_ptr &ptr, const pool
         return true;
     }
 
-    // oldvalue isn't the same value it was before
-    if (oldvalue && oldvalue != origvalue)
-        oldvalue->add_reference();
+    // oldvalue isn't the same value it was before - and might be gone already
+    if (oldvalue && oldvalue != origvalue && !oldvalue->add_reference())
+        oldvalue = nullptr;
     if (newvalue)
         newvalue->remove_reference();
 
-- 
2.43.0


From 6ddecd524b158ce1b9a89f0b6e2d0fb4a0ba2fa3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:24 +0000
Subject: [PATCH 42/46] fix: concurrent inserts into a skip list must not share
 a random engine

---
 cxxmetrics/skiplist.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cxxmetrics/skiplist.hpp b/cxxmetrics/skiplist.hpp
index 9b09c8d..8895652 100644
--- a/cxxmetrics/skiplist.hpp
+++ b/cxxmetrics/skiplist.hpp
@@ -354,7 +354,7 @@ private:
     node_ptr head_;
     node_ptr freelist_head_;
 
-    static std::default_random_engine random_;
+    static thread_local std::default_random_engine random_;
 
     std::pair<pin, pin> find_location(const pin &start, int level, const T &value) const noexcept;
     pin find_location(int level, const T &value) const noexcept;
@@ -531,7 +531,7 @@ skiplist<T, TSize, TLess>::~skiplist()
 }
 
 template<typename T, int TSize, typename TLess>
-std::default_random_engine skiplist<T, TSize, TLess>::random_;
+thread_local std::default_random_engine skiplist<T, TSize, TLess>::random_;
 
 template<typename T, int TSize, typename TLess>
 skiplist<T, TSize, TLess>::skiplist() noexcept :
-- 
2.43.0


From 644e21149605754ccd23a91533ef566e5a9ad72d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:25 +0000
Subject: [PATCH 43/46] fix: copies of skip list iterators must know their list

---
 cxxmetrics/skiplist.hpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/cxxmetrics/skiplist.hpp b/cxxmetrics/skiplist.hpp
index 8895652..1486e0f 100644
--- a/cxxmetrics/skiplist.hpp
+++ b/cxxmetrics/skiplist.hpp
@@ -452,12 +452,14 @@ skiplist<T, TSize, TLess>::iterator::iterator(internal::skiplist_node_pin<T, TSi
 { }
 
 template<typename T, int TSize, typename TLess>
-skiplist<T, TSize, TLess>::iterator::iterator() noexcept
+skiplist<T, TSize, TLess>::iterator::iterator() noexcept :
+    list_(nullptr)
 { }
 
 template<typename T, int TSize, typename TLess>
 skiplist<T, TSize, TLess>::iterator::iterator(const iterator &other) noexcept :
-    node_(other.node_)
+    node_(other.node_),
+    list_(other.list_)
 {
 };
 
@@ -506,6 +508,7 @@ template<typename T, int TSize, typename TLess>
 typename skiplist<T, TSize, TLess>::iterator &skiplist<T, TSize, TLess>::iterator::operator=(const iterator &other) noexcept
 {
     node_ = other.node_;
+    list_ = other.list_;
     return *this;
 }
 
-- 
2.43.0


From e057d953395e18633387fc13fe3bb01b3a9e75bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:50 +0000
Subject: [PATCH 44/46] fix: report no infinite rate in the first interval of a
 moving average

---
 cxxmetrics/ewma.hpp | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/cxxmetrics/ewma.hpp b/cxxmetrics/ewma.hpp
index 11f9758..fbee34c 100644
--- a/cxxmetrics/ewma.hpp
+++ b/cxxmetrics/ewma.hpp
@@ -200,9 +200,6 @@ TValue ewma<TClockGet, TWindow, TInterval, TValue>::rate() const noexcept
 template<typename TClockGet, period::value TWindow, period::value TInterval, typename TValue>
 TValue ewma<TClockGet, TWindow, TInterval, TValue>::calculate(TValue nrate, TValue pending, bool ticked, const clock_diff &elapsed) noexcept
 {
-    if (!ticked && elapsed < period(TInterval))
-        return pending;
-
     // the first interval is the rate, from then on we apply the pending value to our current rate
     long double rate = pending;
     if (ticked)
-- 
2.43.0


From 504a55d9e1b97ae03ce1a51de26f65eccf8a55ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:59 +0000
Subject: [PATCH 45/46] fix: convert texts of metric values without a shared
 flag

---
 cxxmetrics/metric_value.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cxxmetrics/metric_value.hpp b/cxxmetrics/metric_value.hpp
index 4e732ea..835160d 100644
--- a/cxxmetrics/metric_value.hpp
+++ b/cxxmetrics/metric_value.hpp
@@ -307,7 +307,7 @@ public:
 
     long long to_integral(bool* valid) const override
     {
-        static bool ign;
+        bool ign;
         if (valid == nullptr)
             valid = &ign;
         if (!val_.length())
@@ -342,7 +342,7 @@ public:
 
     long double to_float(bool *valid) const override
     {
-        static bool ign;
+        bool ign;
         if (valid == nullptr)
             valid = &ign;
         if (!val_.length())
-- 
2.43.0


From c24e3f75c333fdee6907800f506fdab4e6c6bda4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:43 +0000
Subject: [PATCH 46/46] fix: convert durations and texts of metric values
 without undefined or rounded factors

---
 cxxmetrics/metric_value.hpp | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/cxxmetrics/metric_value.hpp b/cxxmetrics/metric_value.hpp
index 835160d..1483f23 100644
--- a/cxxmetrics/metric_value.hpp
+++ b/cxxmetrics/metric_value.hpp
@@ -369,7 +369,12 @@ public:
         if (lvalid)
             return std::chrono::nanoseconds(lv);
 
-        return std::chrono::duration_cast<std::chrono::nanoseconds>(std::chrono::duration<long double, std::chrono::nanoseconds::period>(to_float(nullptr)));
+        // text that isn't a number is no time
+        auto fv = to_float(&lvalid);
+        if (!lvalid)
+            return std::chrono::nanoseconds::zero();
+
+        return std::chrono::duration_cast<std::chrono::nanoseconds>(std::chrono::duration<long double, std::chrono::nanoseconds::period>(fv));
     }
 
     std::size_t hash_value() const override
@@ -527,7 +532,8 @@ public:
             if (!valid)
                 return;
 
-            dur_ *= fv;
+            // the count can't be multiplied with a fraction in its own type
+            dur_ = std::chrono::duration_cast<std::chrono::duration<TRep, TPeriod>>(dur_ * fv);
             return;
         }
 
@@ -547,7 +553,7 @@ public:
             if (!fv)
                 dur_ = dur_.zero();
             else
-                dur_ /= fv;
+                dur_ = std::chrono::duration_cast<std::chrono::duration<TRep, TPeriod>>(dur_ / fv);
 
             return;
         }
-- 
2.43.0

