From a76570c0291173b6824cc7a8277589cd010f6de0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:46:29 +0000
Subject: [PATCH 01/15] fix: TryAddMoney reported overflow for sums of
 fractions below one unit

Two positive (negative) amounts without units, such as 0.5 + 0.5 or 0.1 + 0.1
with a zero unit sum, were taken for an overflow. Detect overflow before adding,
which also avoids signed integer overflow.
---
 src/money_utils.cc | 42 +++++++++++++++++++-----------------------
 1 file changed, 19 insertions(+), 23 deletions(-)

diff --git a/src/money_utils.cc b/src/money_utils.cc
index c271e4f..384659f 100644
--- a/src/money_utils.cc
+++ b/src/money_utils.cc
@@ -79,42 +79,38 @@ Status TryAddMoney(const Money& a, const Money& b, Money* sum) {
     sum_nanos += kBillion;
   }
 
-  // Calculate the sum of units.
-  int64_t sum_units_no_carry = a.units() + b.units();
-  int64_t sum_units = sum_units_no_carry + carry;
-  // It's possible the sum_units and sum_nanos now have different signs,
-  // for example a.units=-2, a.nanos=-7, b.units=5, b.nanos=3. Adjust if
-  // necessary.
-  if (sum_units > 0 && sum_nanos < 0) {
-    --sum_units;
-    sum_nanos += kBillion;
-  } else if (sum_units < 0 && sum_nanos > 0) {
-    ++sum_units;
-    sum_nanos -= kBillion;
-  }
-
-  // Get the sign of a and b in order to detect overflow.
+  // Get the sign of a and b in order to detect overflow. The sum can only
+  // overflow if both have the same sign, so that the subtractions below are
+  // safe.
   int sign_a = GetAmountSign(a);
   int sign_b = GetAmountSign(b);
 
   // Detect positive overflow.
-  if (sign_a > 0 && sign_b > 0 && sum_units <= 0) {
+  if (sign_a > 0 && sign_b > 0 && a.units() > INT64_MAX - b.units() - carry) {
     sum->set_units(INT64_MAX);
     sum->set_nanos(kBillion - 1);
     return Status(StatusCode::kOutOfRange, "Money addition positive overflow");
   }
-  // Detect negative overflow. Note there is a tricky case that can only happen
-  // to negative overflow: sum_units_no_carry overflows to 0 but adding the
-  // carry makes sum_units a negative number again. So we must check both
-  // sum_units_no_carry and sum_units here. This doesn't happen in the
-  // positive overflow case because two MAX values 0x7FF...FF adds to
-  // 0xFF...FE and the carry won't affect the sign.
-  if (sign_a < 0 && sign_b < 0 && (sum_units_no_carry >= 0 || sum_units >= 0)) {
+  // Detect negative overflow.
+  if (sign_a < 0 && sign_b < 0 && a.units() < INT64_MIN - b.units() - carry) {
     sum->set_units(INT64_MIN);
     sum->set_nanos(-kBillion + 1);
     return Status(StatusCode::kOutOfRange, "Money addition negative overflow");
   }
 
+  // Calculate the sum of units.
+  int64_t sum_units = a.units() + b.units() + carry;
+  // It's possible the sum_units and sum_nanos now have different signs,
+  // for example a.units=-2, a.nanos=-7, b.units=5, b.nanos=3. Adjust if
+  // necessary.
+  if (sum_units > 0 && sum_nanos < 0) {
+    --sum_units;
+    sum_nanos += kBillion;
+  } else if (sum_units < 0 && sum_nanos > 0) {
+    ++sum_units;
+    sum_nanos -= kBillion;
+  }
+
   // The success case.
   sum->set_units(sum_units);
   sum->set_nanos(sum_nanos);
-- 
2.43.0


From 2f2e13f45028c6fc6ec70047b57da5ec3920d0ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:54:09 +0000
Subject: [PATCH 02/15] fix: adding a sample could access buckets out of range

An infinite sample or a quotient beyond the int range was cast to int, and
explicit buckets without bounds were indexed.
---
 utils/distribution_helper.cc | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/utils/distribution_helper.cc b/utils/distribution_helper.cc
index 193c530..cb74c69 100644
--- a/utils/distribution_helper.cc
+++ b/utils/distribution_helper.cc
@@ -136,9 +136,12 @@ void UpdateExponentialBucketCount(double value, Distribution* distribution) {
   int bucket_index = 0;
   if (value >= exponential.scale()) {
     // Should be put into bucket bucket_index, starting from 0.
-    bucket_index = 1 + static_cast<int>(log2(value / exponential.scale()) /
-                                        log2(exponential.growth_factor()));
-    if (bucket_index > exponential.num_finite_buckets() + 1) {
+    // Compared as a double: the quotient may be too big for an int.
+    double finite_index = log2(value / exponential.scale()) /
+                          log2(exponential.growth_factor());
+    if (finite_index < exponential.num_finite_buckets()) {
+      bucket_index = 1 + static_cast<int>(finite_index);
+    } else {
       bucket_index = exponential.num_finite_buckets() + 1;
     }
   }
@@ -158,7 +161,13 @@ void UpdateLinearBucketCount(double value, Distribution* distribution) {
   } else if (value >= upper_bound) {
     bucket_index = linear.num_finite_buckets() + 1;
   } else {
-    bucket_index = 1 + static_cast<int>((value - lower_bound) / linear.width());
+    // Compared as a double: the quotient may be too big for an int.
+    double finite_index = (value - lower_bound) / linear.width();
+    if (finite_index < linear.num_finite_buckets()) {
+      bucket_index = 1 + static_cast<int>(finite_index);
+    } else {
+      bucket_index = linear.num_finite_buckets() + 1;
+    }
   }
 
   distribution->set_bucket_counts(
@@ -168,7 +177,7 @@ void UpdateLinearBucketCount(double value, Distribution* distribution) {
 void UpdateExplicitBucketCount(double value, Distribution* distribution) {
   const auto& bounds = distribution->explicit_buckets().bounds();
   int bucket_index = 0;
-  if (value >= bounds.Get(0)) {
+  if (!bounds.empty() && value >= bounds.Get(0)) {
     // -inf <  b0 <  b1 <  b2 <  b3 < +inf     (4 values in "bounds")
     //   |  0  |  1  |  2  |  3  |  4  |       (5 buckets)
     // std::upper_bound returns the first value that is greater than given one.
-- 
2.43.0


From 3324ebeddb17973a03b7831f46ee38394f88a9df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:58:31 +0000
Subject: [PATCH 03/15] fix: overlapping lookups with different options broke
 the LRU list

An entry looked up both with and without updating the eviction order was
linked twice or lost from the list, and an entry pinned without updating the
order made the expiry assert.
---
 utils/simple_lru_cache_inl.h | 27 +++++++++++++++++----------
 1 file changed, 17 insertions(+), 10 deletions(-)

diff --git a/utils/simple_lru_cache_inl.h b/utils/simple_lru_cache_inl.h
index 23f6fdc..e47de36 100644
--- a/utils/simple_lru_cache_inl.h
+++ b/utils/simple_lru_cache_inl.h
@@ -678,12 +678,11 @@ Value* SimpleLRUCacheBase<Key, Value, MapType, EQ>::LookupWithOptions(
   if (iter != table_.end()) {
     // We set last_use_ upon Release, not during Lookup.
     Elem* e = iter->second;
-    if (e->pin == 0) {
-      pinned_units_ += e->units;
-      // We are pinning this entry, take it off the LRU list if we are in LRU
-      // mode. In strict age-based mode entries stay on the list while pinned.
-      if (lru_ && options.update_eviction_order()) e->Unlink();
-    }
+    if (e->pin == 0) pinned_units_ += e->units;
+    // We are pinning this entry, take it off the LRU list if we are in LRU
+    // mode. In strict age-based mode entries stay on the list while pinned.
+    // The entry may already be pinned by a lookup that left it on the list.
+    if (lru_ && options.update_eviction_order()) e->Unlink();
     e->pin++;
     return e->value;
   }
@@ -738,7 +737,15 @@ void SimpleLRUCacheBase<Key, Value, MapType, EQ>::ReleaseWithOptions(
     e->pin--;
 
     if (e->pin == 0) {
-      if (lru_ && options.update_eviction_order()) e->Link(&head_);
+      if (lru_ && !e->IsLinked()) {
+        // The last release may be one that does not update the eviction order,
+        // so find the place that keeps the list sorted by last use.
+        Elem* newer = &head_;
+        while (newer->next != &head_ && newer->next->last_use_ > e->last_use_) {
+          newer = newer->next;
+        }
+        e->Link(newer);
+      }
       pinned_units_ -= e->units;
       if (IsOverfullInternal()) {
         // This element is no longer needed, and we are full.  So kick it out.
@@ -920,9 +927,9 @@ void SimpleLRUCacheBase<Key, Value, MapType, EQ>::DiscardIdle(
 #endif
 
     Elem* prev = e->prev;
-    // There are no pinned elements on the list in the LRU mode, and in the
-    // age-based mode we push them out of the main table regardless of pinning.
-    assert(e->pin == 0 || !lru_);
+    // In the LRU mode the only pinned elements on the list are those looked up
+    // without updating the eviction order. They, and all pinned elements in the
+    // age-based mode, are pushed out of the main table regardless of pinning.
     Remove(e->key);
     e = prev;
   }
-- 
2.43.0


From 7e4d4c1fc9095ac11f56535a07cbb5be81a4ca8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:20:03 +0000
Subject: [PATCH 04/15] fix: inserting into a full quota cache recursed until
 the stack overflowed

An element evicted to make room was inserted back at once, which evicted the
next one, and so on without end. Elements evicted for room are now dropped
after their aggregated tokens have been sent.
---
 src/quota_aggregator_impl.cc | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/quota_aggregator_impl.cc b/src/quota_aggregator_impl.cc
index 82a89ae..8b67a61 100644
--- a/src/quota_aggregator_impl.cc
+++ b/src/quota_aggregator_impl.cc
@@ -260,6 +260,18 @@ bool QuotaAggregatorImpl::ShouldDrop(const CacheElem& elem) const {
 // no need to consider locking at this point
 void QuotaAggregatorImpl::OnCacheEntryDelete(CacheElem* elem) {
   if (in_flush_all_ == false && ShouldDrop(*elem) == false) {
+    if (cache_->Size() >= cache_->MaxSize()) {
+      // The element was evicted to make room for another one, so it can't be
+      // inserted back: that would evict another element, and so on forever.
+      // Sends its aggregated tokens before dropping it.
+      if (elem->is_aggregated()) {
+        AddRemovedItem(elem->ReturnAllocateQuotaRequestAndClear(
+            service_name_, service_config_id_));
+      }
+      delete elem;
+      return;
+    }
+
     // insert the element back to the cache
     cache_->Insert(elem->signature(), elem, 1);
 
-- 
2.43.0


From 0195cb42abdda40ce9fd629b3d5029f6ea0de3ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:20:13 +0000
Subject: [PATCH 05/15] fix: the quota cache stopped keeping entries after
 FlushAll

in_flush_all_ was never reset, so every entry aged out after a FlushAll was
dropped with its aggregated tokens.
---
 src/quota_aggregator_impl.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/quota_aggregator_impl.cc b/src/quota_aggregator_impl.cc
index 8b67a61..82b1506 100644
--- a/src/quota_aggregator_impl.cc
+++ b/src/quota_aggregator_impl.cc
@@ -253,6 +253,8 @@ bool QuotaAggregatorImpl::ShouldDrop(const CacheElem& elem) const {
     cache_->RemoveAll();
   }
 
+  in_flush_all_ = false;
+
   return OkStatus();
 }
 
-- 
2.43.0


From d87d0bf1855778bcf51eaf7bd2aa5cf0d8a645b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:20:53 +0000
Subject: [PATCH 06/15] fix: a quota refresh answered after the client is gone
 used freed memory

The completion of a quota refresh called quota_aggregator_ through the client.
It now holds a reference to the aggregator, as the other completions do.
---
 src/service_control_client_impl.cc | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/service_control_client_impl.cc b/src/service_control_client_impl.cc
index 40aca93..debb159 100644
--- a/src/service_control_client_impl.cc
+++ b/src/service_control_client_impl.cc
@@ -138,17 +138,22 @@ void ServiceControlClientImpl::AllocateQuotaFlushCallback(
       new AllocateQuotaRequest(quota_request);
   AllocateQuotaResponse* quota_response = new AllocateQuotaResponse;
 
+  // The response may arrive after this object is gone: it should not use this
+  // object, only the aggregator.
+  std::shared_ptr<QuotaAggregator> quota_aggregator_copy = quota_aggregator_;
+
   quota_transport_(*quota_request_copy, quota_response,
-                   [this, quota_request_copy, quota_response](Status status) {
+                   [quota_aggregator_copy, quota_request_copy,
+                    quota_response](Status status) {
                      if (!status.ok()) {
                        GOOGLE_LOG(ERROR) << "Failed in AllocateQuota call: "
                                          << status.message();
                        // cache dummy response for fail open
                        AllocateQuotaResponse dummy_response;
-                       (void)this->quota_aggregator_->CacheResponse(
+                       (void)quota_aggregator_copy->CacheResponse(
                            *quota_request_copy, dummy_response);
                      } else {
-                       (void)this->quota_aggregator_->CacheResponse(
+                       (void)quota_aggregator_copy->CacheResponse(
                            *quota_request_copy, *quota_response);
                      }
 
@@ -268,7 +273,7 @@ void ServiceControlClientImpl::Quota(const AllocateQuotaRequest& quota_request,
 
     std::shared_ptr<QuotaAggregator> quota_aggregator_copy = quota_aggregator_;
     quota_transport(*quota_request_copy, quota_response,
-                    [this, quota_aggregator_copy, quota_request_copy,
+                    [quota_aggregator_copy, quota_request_copy,
                      quota_response, on_quota_done](Status status) {
 
                       if (status.ok()) {
-- 
2.43.0


From 3616167c4d30e3beb38726219634e81f714a4886 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:21:04 +0000
Subject: [PATCH 07/15] fix: Report read the caller's request after it could
 have been freed

The request belongs to the caller, who may free it once on_report_done is
called: count its operations before handing it to the transport.
---
 src/service_control_client_impl.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/service_control_client_impl.cc b/src/service_control_client_impl.cc
index debb159..105eb7c 100644
--- a/src/service_control_client_impl.cc
+++ b/src/service_control_client_impl.cc
@@ -344,9 +344,11 @@ void ServiceControlClientImpl::Report(const ReportRequest& report_request,
 
   Status status = report_aggregator_->Report(report_request);
   if (status.code() == StatusCode::kNotFound) {
+    // The caller may free report_request as soon as on_report_done is called.
+    const int operations_size = report_request.operations_size();
     report_transport(report_request, report_response, on_report_done);
     ++send_reports_in_flight_;
-    send_report_operations_ += report_request.operations_size();
+    send_report_operations_ += operations_size;
     return;
   }
   on_report_done(status);
-- 
2.43.0


From 730c83e631982ee3dc81e54ee28428f66b4fc8b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:21:13 +0000
Subject: [PATCH 08/15] fix: flushing without a client-wide transport called a
 null function

A client used with per-request transports only, or destroyed without a
transport, threw std::bad_function_call from the flush callbacks, which
terminates in the destructor and in the timer.
---
 src/service_control_client_impl.cc | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/src/service_control_client_impl.cc b/src/service_control_client_impl.cc
index 105eb7c..6a83e58 100644
--- a/src/service_control_client_impl.cc
+++ b/src/service_control_client_impl.cc
@@ -134,6 +134,14 @@ ServiceControlClientImpl::~ServiceControlClientImpl() {
 
 void ServiceControlClientImpl::AllocateQuotaFlushCallback(
     const AllocateQuotaRequest& quota_request) {
+  if (!quota_transport_) {
+    GOOGLE_LOG(ERROR) << "No transport to send AllocateQuota call.";
+    // cache dummy response for fail open
+    AllocateQuotaResponse dummy_response;
+    (void)quota_aggregator_->CacheResponse(quota_request, dummy_response);
+    return;
+  }
+
   AllocateQuotaRequest* quota_request_copy =
       new AllocateQuotaRequest(quota_request);
   AllocateQuotaResponse* quota_response = new AllocateQuotaResponse;
@@ -166,6 +174,11 @@ void ServiceControlClientImpl::AllocateQuotaFlushCallback(
 
 void ServiceControlClientImpl::CheckFlushCallback(
     const CheckRequest& check_request) {
+  if (!check_transport_) {
+    GOOGLE_LOG(ERROR) << "No transport to send Check call.";
+    return;
+  }
+
   CheckResponse* check_response = new CheckResponse;
   check_transport_(check_request, check_response,
                    [check_response](Status status) {
@@ -180,6 +193,11 @@ void ServiceControlClientImpl::CheckFlushCallback(
 
 void ServiceControlClientImpl::ReportFlushCallback(
     const ReportRequest& report_request) {
+  if (!report_transport_) {
+    GOOGLE_LOG(ERROR) << "No transport to send Report call.";
+    return;
+  }
+
   ReportResponse* report_response = new ReportResponse;
   report_transport_(report_request, report_response,
                     [report_response](Status status) {
-- 
2.43.0


From f26da9b39e56ec99c7cd87de34266cdb8118371c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:25:11 +0000
Subject: [PATCH 09/15] fix: a transport completing in place could deadlock a
 flush

The completion of a flushed quota request caches the response, which may
remove another item from the cache and flush it out from inside the flush
callback, where callback_mutex_ is already held by the same thread.
---
 src/cache_removed_items_handler.h | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/src/cache_removed_items_handler.h b/src/cache_removed_items_handler.h
index 536558e..6bee0eb 100644
--- a/src/cache_removed_items_handler.h
+++ b/src/cache_removed_items_handler.h
@@ -16,6 +16,9 @@ limitations under the License.
 #ifndef GOOGLE_SERVICE_CONTROL_CLIENT_CACHE_REMOVED_ITEMS_HANDLER_H
 #define GOOGLE_SERVICE_CONTROL_CLIENT_CACHE_REMOVED_ITEMS_HANDLER_H
 
+#include <mutex>
+#include <vector>
+
 #include "src/aggregator_interface.h"
 #include "utils/simple_lru_cache.h"
 #include "utils/simple_lru_cache_inl.h"
@@ -59,7 +62,7 @@ class CacheRemovedItemsHandler {
 
   // Sets the flush callback function.
   void InternalSetFlushCallback(InternalFlushCallback callback) {
-    MutexLock lock(callback_mutex_);
+    CallbackMutexLock lock(callback_mutex_);
     flush_callback_ = callback;
   }
 
@@ -119,8 +122,14 @@ class CacheRemovedItemsHandler {
   };
 
  private:
-  // Mutex guarding the access of flush_callback_;
-  Mutex callback_mutex_;
+  typedef std::unique_lock<std::recursive_mutex> CallbackMutexLock;
+
+  // Mutex guarding the access of flush_callback_; It is held while the callback
+  // is running so that InternalSetFlushCallback() waits for it. It has to be
+  // recursive: a transport may complete a request before it returns, the
+  // completion caches the response, which may remove other items from the cache
+  // and flush them out from inside the callback.
+  std::recursive_mutex callback_mutex_;
 
   // The callback function to flush out cache items.
   InternalFlushCallback flush_callback_;
@@ -130,7 +139,7 @@ class CacheRemovedItemsHandler {
   StackBuffer* stack_buffer_;
 
   void FlushOut(const RequestType& request) {
-    MutexLock lock(callback_mutex_);
+    CallbackMutexLock lock(callback_mutex_);
     if (flush_callback_) {
       flush_callback_(request);
     }
-- 
2.43.0


From cec5760b097525525527ff451f6120997adc134f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:28:49 +0000
Subject: [PATCH 10/15] fix: the sample transport mapped HTTP errors to the
 wrong status

Every case of ConvertHttpCodeToStatus fell through to the default.
---
 sample/transport/http_transport.cc | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/sample/transport/http_transport.cc b/sample/transport/http_transport.cc
index 6d4bed8..cb574b5 100644
--- a/sample/transport/http_transport.cc
+++ b/sample/transport/http_transport.cc
@@ -40,29 +40,40 @@ Status ConvertHttpCodeToStatus(const long &http_code) {
   switch (http_code) {
     case 400:
       status = Status(StatusCode::kInvalidArgument, std::string("Bad Request."));
+      break;
     case 403:
       status =
           Status(StatusCode::kPermissionDenied, std::string("Permission Denied."));
+      break;
     case 404:
       status = Status(StatusCode::kNotFound, std::string("Not Found."));
+      break;
     case 409:
       status = Status(StatusCode::kAborted, std::string("Conflict."));
+      break;
     case 416:
       status = Status(StatusCode::kOutOfRange,
                       std::string("Requested Range Not Satisfiable."));
+      break;
     case 429:
       status =
           Status(StatusCode::kResourceExhausted, std::string("Too Many Requests."));
+      break;
     case 499:
       status = Status(StatusCode::kCancelled, std::string("Client Closed Request."));
+      break;
     case 504:
       status = Status(StatusCode::kDeadlineExceeded, std::string("Gateway Timeout."));
+      break;
     case 501:
       status = Status(StatusCode::kUnimplemented, std::string("Not Implemented."));
+      break;
     case 503:
       status = Status(StatusCode::kUnavailable, std::string("Service Unavailable."));
+      break;
     case 401:
       status = Status(StatusCode::kUnauthenticated, std::string("Unauthorized."));
+      break;
     default: {
       if (http_code >= 200 && http_code < 300) {
         status = Status(StatusCode::kOk, std::string("OK."));
-- 
2.43.0


From 1d5ad1d5082400543fc234413ab14a70920ce543 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:28:49 +0000
Subject: [PATCH 11/15] fix: the sample transport reported every failed
 transfer as OK

The status of a failed transfer was assigned to a variable local to the error
branch.
---
 sample/transport/http_transport.cc | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/sample/transport/http_transport.cc b/sample/transport/http_transport.cc
index cb574b5..2b28ed4 100644
--- a/sample/transport/http_transport.cc
+++ b/sample/transport/http_transport.cc
@@ -134,7 +134,11 @@ Status SendHttp(const std::string &url, const std::string &auth_header,
     std::cout << "curl easy_perform() failed." << std::endl;
     long http_code = 0;
     curl_easy_getinfo(curl, CURLINFO_RESPONSE_CODE, &http_code);
-    Status status = ConvertHttpCodeToStatus(http_code);
+    status = ConvertHttpCodeToStatus(http_code);
+    if (status.ok()) {
+      // The transfer failed after a successful status line was received.
+      status = Status(StatusCode::kUnknown, std::string("Unknown Error."));
+    }
   }
 
   curl_easy_cleanup(curl);
-- 
2.43.0


From 9f3ebd0a5f825cd862ecbd6b5738f4b0bd438f49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:28:49 +0000
Subject: [PATCH 12/15] fix: the sample transport cut the request at its first
 zero byte

---
 sample/transport/http_transport.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/sample/transport/http_transport.cc b/sample/transport/http_transport.cc
index 2b28ed4..0450f22 100644
--- a/sample/transport/http_transport.cc
+++ b/sample/transport/http_transport.cc
@@ -124,6 +124,9 @@ Status SendHttp(const std::string &url, const std::string &auth_header,
                    "ALL:!aNULL:!LOW:!EXPORT:!SSLv2");
 
   curl_easy_setopt(curl, CURLOPT_POSTFIELDS, request_body.data());
+  // Without the size the body would end at its first zero byte.
+  curl_easy_setopt(curl, CURLOPT_POSTFIELDSIZE_LARGE,
+                   static_cast<curl_off_t>(request_body.size()));
   curl_easy_setopt(curl, CURLOPT_WRITEFUNCTION, ResultBodyCallback);
   curl_easy_setopt(curl, CURLOPT_WRITEDATA, response_body);
   curl_easy_setopt(curl, CURLOPT_FAILONERROR, 1L);
-- 
2.43.0


From ea3510eb331750f56f55c59dc49d108825a0949a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:28:49 +0000
Subject: [PATCH 13/15] fix: the sample transport leaked the header list of
 every request

---
 sample/transport/http_transport.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/sample/transport/http_transport.cc b/sample/transport/http_transport.cc
index 0450f22..7dee68c 100644
--- a/sample/transport/http_transport.cc
+++ b/sample/transport/http_transport.cc
@@ -145,6 +145,7 @@ Status SendHttp(const std::string &url, const std::string &auth_header,
   }
 
   curl_easy_cleanup(curl);
+  curl_slist_free_all(list);
   return status;
 }
 
-- 
2.43.0


From 6ba46ee0ad776a360acca409d192cf20d0f30651 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:17:39 +0000
Subject: [PATCH 14/15] fix: destroying the client could lose usage that was
 being flushed

A completion on another thread may have removed a check with usage from the
cache without having flushed it yet when the destructor disconnected the flush
callback; the usage was then dropped.
---
 src/cache_removed_items_handler.h | 28 +++++++++++++++++++++++++++-
 1 file changed, 27 insertions(+), 1 deletion(-)

diff --git a/src/cache_removed_items_handler.h b/src/cache_removed_items_handler.h
index 6bee0eb..04a40d8 100644
--- a/src/cache_removed_items_handler.h
+++ b/src/cache_removed_items_handler.h
@@ -16,6 +16,7 @@ limitations under the License.
 #ifndef GOOGLE_SERVICE_CONTROL_CLIENT_CACHE_REMOVED_ITEMS_HANDLER_H
 #define GOOGLE_SERVICE_CONTROL_CLIENT_CACHE_REMOVED_ITEMS_HANDLER_H
 
+#include <condition_variable>
 #include <mutex>
 #include <vector>
 
@@ -52,7 +53,8 @@ namespace service_control_client {
 template <class RequestType>
 class CacheRemovedItemsHandler {
  public:
-  CacheRemovedItemsHandler() : flush_callback_(NULL), stack_buffer_(NULL) {}
+  CacheRemovedItemsHandler()
+      : flush_callback_(NULL), stack_buffer_(NULL), pending_buffers_(0) {}
 
   virtual ~CacheRemovedItemsHandler() {}
 
@@ -62,6 +64,13 @@ class CacheRemovedItemsHandler {
 
   // Sets the flush callback function.
   void InternalSetFlushCallback(InternalFlushCallback callback) {
+    // Other threads may have removed items from the cache without having
+    // flushed them out yet: these still go to the old callback.
+    {
+      MutexLock pending_lock(pending_mutex_);
+      pending_cond_.wait(pending_lock,
+                         [this]() { return pending_buffers_ == 0; });
+    }
     CallbackMutexLock lock(callback_mutex_);
     flush_callback_ = callback;
   }
@@ -91,9 +100,15 @@ class CacheRemovedItemsHandler {
       for (const auto& request : items_) {
         handler_->FlushOut(request);
       }
+      if (!items_.empty()) {
+        handler_->AddPendingBuffers(-1);
+      }
     }
 
     void Add(const RequestType& item) {
+      if (items_.empty()) {
+        handler_->AddPendingBuffers(1);
+      }
       if (items_.empty() ||
           !handler_->MergeItem(item, &items_[items_.size() - 1])) {
         items_.push_back(item);
@@ -138,6 +153,17 @@ class CacheRemovedItemsHandler {
   // stored. It should only be set and reset by StackBuffer::Swapper.
   StackBuffer* stack_buffer_;
 
+  // The number of StackBuffer instances with items to flush out.
+  Mutex pending_mutex_;
+  std::condition_variable pending_cond_;
+  int pending_buffers_;
+
+  void AddPendingBuffers(int delta) {
+    MutexLock lock(pending_mutex_);
+    pending_buffers_ += delta;
+    pending_cond_.notify_all();
+  }
+
   void FlushOut(const RequestType& request) {
     CallbackMutexLock lock(callback_mutex_);
     if (flush_callback_) {
-- 
2.43.0


From b5367e8fc67a315d69730065af99ae97fcf2b242 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:58:10 +0000
Subject: [PATCH 15/15] fix: setting the clock back during a flush could make
 it loop forever

RemoveElement() of the quota cache inserts entries that are still in use again.
With the clock set back by more than the refresh interval after DiscardIdle()
read it, these are older than its threshold and it never came to an end, with
the cache locked.
---
 utils/simple_lru_cache_inl.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/utils/simple_lru_cache_inl.h b/utils/simple_lru_cache_inl.h
index e47de36..a7cd2a6 100644
--- a/utils/simple_lru_cache_inl.h
+++ b/utils/simple_lru_cache_inl.h
@@ -901,10 +901,13 @@ void SimpleLRUCacheBase<Key, Value, MapType, EQ>::DiscardIdle(
 
   Elem* e = head_.prev;
   const int64_t threshold = SimpleCycleTimer::Now() - max_idle;
+  // RemoveElement() may insert the element again. If the clock is set back
+  // meanwhile, it is already idle by then: visit each element only once.
+  size_t left = table_.size();
 #ifndef NDEBUG
   int64_t last = 0;
 #endif
-  while ((e != &head_) && (e->last_use_ < threshold)) {
+  while ((e != &head_) && (e->last_use_ < threshold) && left-- > 0) {
     // Sanity check: LRU list should be sorted by last_use_.  We could
     // check the entire list, but that gives quadratic behavior.
     //
-- 
2.43.0

