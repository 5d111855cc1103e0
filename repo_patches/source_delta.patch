From a24d344058619030a8358508aa7e3a323b812d21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:44 +0000
Subject: [PATCH 01/20] fix: do not reveal secret start indices in
 DynamicUpdateSlice when only some indices are secret

---
 src/libspu/kernel/hlo/indexing.cc | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/src/libspu/kernel/hlo/indexing.cc b/src/libspu/kernel/hlo/indexing.cc
index c233b55..d6fb750 100644
--- a/src/libspu/kernel/hlo/indexing.cc
+++ b/src/libspu/kernel/hlo/indexing.cc
@@ -536,7 +536,8 @@ spu::Value DynamicUpdateSlice(SPUContext *ctx, const spu::Value &operand,
   SPU_ENFORCE_EQ(start_indices.size(), update.shape().size());
   SPU_ENFORCE(!start_indices.empty());
 
-  if (start_indices[0].isSecret()) {
+  if (std::any_of(start_indices.begin(), start_indices.end(),
+                  [](const spu::Value &v) { return v.isSecret(); })) {
     // flatten first
     spu::Value flattened_operand =
         hal::reshape(ctx, operand, {operand.numel()});
@@ -562,11 +563,6 @@ spu::Value DynamicUpdateSlice(SPUContext *ctx, const spu::Value &operand,
     Index start_indices_i64(start_indices.size());
     for (const auto &idx : llvm::enumerate(start_indices)) {
       auto v_idx = idx.value();
-      if (v_idx.isSecret()) {
-        v_idx = hal::reveal(ctx, v_idx);
-        SPDLOG_WARN("Reveal {}th start index of DynamicUpdateSlice",
-                    idx.index());
-      }
       start_indices_i64[idx.index()] = getIndices(ctx, v_idx)[0];
       // Transform start_indices
       // start_indices[i] = clamp(start_indices[i], 0, operand.dimension_size[i]
-- 
2.43.0


From 432360af7ee7a95dfca137ba7cf14c1dfbb9c86f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:45:26 +0000
Subject: [PATCH 02/20] fix: do not write std::vector<bool> from several
 threads in aby3 B2AByOT

The bits of neighbouring elements share a word, so the parallel loop lost
updates at the borders between the chunks of two threads.
---
 src/libspu/mpc/aby3/conversion.cc | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/libspu/mpc/aby3/conversion.cc b/src/libspu/mpc/aby3/conversion.cc
index 8154aca..1bdd62c 100644
--- a/src/libspu/mpc/aby3/conversion.cc
+++ b/src/libspu/mpc/aby3/conversion.cc
@@ -253,11 +253,12 @@ NdArrayRef B2AByPPA::proc(KernelEvalContext* ctx, const NdArrayRef& in) const {
 }
 
 template <typename T>
-static std::vector<bool> bitDecompose(const NdArrayRef& in, size_t nbits) {
+static std::vector<uint8_t> bitDecompose(const NdArrayRef& in, size_t nbits) {
   auto numel = in.numel();
   // decompose each bit of an array of element.
-  // FIXME: this is not thread-safe.
-  std::vector<bool> dep(numel * nbits);
+  // one byte per bit: bits packed in a std::vector<bool> would be written by
+  // several threads at once.
+  std::vector<uint8_t> dep(numel * nbits);
 
   NdArrayView<T> _in(in);
 
@@ -265,7 +266,7 @@ static std::vector<bool> bitDecompose(const NdArrayRef& in, size_t nbits) {
     const auto& v = _in[idx];
     for (size_t bit = 0; bit < nbits; bit++) {
       size_t flat_idx = idx * nbits + bit;
-      dep[flat_idx] = static_cast<bool>((v >> bit) & 0x1);
+      dep[flat_idx] = static_cast<uint8_t>((v >> bit) & 0x1);
     }
   });
   return dep;
-- 
2.43.0


From e0629089764364a1d5c96a36cb37902a03f490d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:45:26 +0000
Subject: [PATCH 03/20] fix: keep the running sum of securenn's private compare
 inside the loop body

w and w_total were shared by all iterations of a parallel loop.
---
 src/libspu/mpc/securenn/arithmetic.cc | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/src/libspu/mpc/securenn/arithmetic.cc b/src/libspu/mpc/securenn/arithmetic.cc
index 2bb7bb6..0d1ffa6 100644
--- a/src/libspu/mpc/securenn/arithmetic.cc
+++ b/src/libspu/mpc/securenn/arithmetic.cc
@@ -670,14 +670,12 @@ NdArrayRef ShareConvert::proc(KernelEvalContext* ctx,
       NdArrayRef c(ty, {size * k});
       NdArrayView<U> _c(c);
 
-      size_t w;
-      size_t w_total;
-
       pforeach(0, size, [&](int64_t idx) {
         auto r_bits = bitDecompose(_r[idx], k);
         auto t_bits = bitDecompose(_t[idx], k);
 
-        w_total = 0;
+        size_t w_total = 0;
+        size_t w;
         for (int i = (int)(k - 1); i >= 0; i--) {
           if (_eta__[idx] == 0) {
             w = (p + _dp_x[idx * k + i] + rank * r_bits[i] -
@@ -1086,14 +1084,12 @@ NdArrayRef Msb::proc(KernelEvalContext* ctx, const NdArrayRef& in) const {
       NdArrayRef c(ty, {size * k});
       NdArrayView<U> _c(c);
 
-      size_t w;
-      size_t w_total;
-
       pforeach(0, in.numel(), [&](int64_t idx) {
         auto r_bits = bitDecompose(_r[idx], k);
         auto t_bits = bitDecompose(_t[idx], k);
         _lsb_r[idx] = static_cast<U>(r_bits[0]);
-        w_total = 0;
+        size_t w_total = 0;
+        size_t w;
         for (int i = (int)(k - 1); i >= 0; i--) {
           if (_beta[idx] == 0) {
             w = (p + _dp_x[idx * k + i] + rank * r_bits[i] -
-- 
2.43.0


From 53b1d52e2f276a15636a3cc757d2ab91157c3bd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:45:26 +0000
Subject: [PATCH 04/20] fix: do not write std::vector<bool> from several
 threads in ring_cast_vector_boolean

---
 src/libspu/mpc/spdz2k/beaver/beaver_tinyot.cc | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/libspu/mpc/spdz2k/beaver/beaver_tinyot.cc b/src/libspu/mpc/spdz2k/beaver/beaver_tinyot.cc
index f8d090f..145c55a 100644
--- a/src/libspu/mpc/spdz2k/beaver/beaver_tinyot.cc
+++ b/src/libspu/mpc/spdz2k/beaver/beaver_tinyot.cc
@@ -120,11 +120,10 @@ std::vector<bool> ring_cast_vector_boolean(const NdArrayRef& x) {
   std::vector<bool> res(x.numel());
   DISPATCH_ALL_FIELDS(field, [&]() {
     NdArrayView<ring2k_t> _x(x);
-    yacl::parallel_for(0, x.numel(), 4096, [&](size_t start, size_t end) {
-      for (size_t i = start; i < end; i++) {
-        res[i] = static_cast<bool>(_x[i] & 0x1);
-      }
-    });
+    // not in parallel: neighbouring elements of res share a word.
+    for (int64_t i = 0; i < x.numel(); i++) {
+      res[i] = static_cast<bool>(_x[i] & 0x1);
+    }
   });
   return res;
 }
-- 
2.43.0


From f910217b414eb53fa6b11a1bc7967e9e4c629cef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:50 +0000
Subject: [PATCH 05/20] fix: LowMC::decrypt no longer overwrites the ciphertext
 it is given

---
 src/libspu/mpc/utils/lowmc.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libspu/mpc/utils/lowmc.cc b/src/libspu/mpc/utils/lowmc.cc
index 1d61025..5a4eae7 100644
--- a/src/libspu/mpc/utils/lowmc.cc
+++ b/src/libspu/mpc/utils/lowmc.cc
@@ -257,7 +257,7 @@ NdArrayRef LowMC::decrypt(const NdArrayRef& ciphertext) {
   const auto& shape = ciphertext.shape();
 
   // just the inverse procedure of encrypt
-  auto c = ciphertext;
+  auto c = ciphertext.clone();
   for (uint64_t r = rounds_; r > 0; r--) {
     ring_xor_(c, round_keys_[r].broadcast_to(shape, {}));
 
-- 
2.43.0


From 52b0d6c3f0fd3d87093db023522fc64c97fb690d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:23 +0000
Subject: [PATCH 06/20] fix: bit reversal over the full ring width shifted by
 the width when building its mask

---
 src/libspu/mpc/aby3/boolean.cc   | 3 ++-
 src/libspu/mpc/utils/ring_ops.cc | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/libspu/mpc/aby3/boolean.cc b/src/libspu/mpc/aby3/boolean.cc
index d83066a..d3404b8 100644
--- a/src/libspu/mpc/aby3/boolean.cc
+++ b/src/libspu/mpc/aby3/boolean.cc
@@ -496,13 +496,14 @@ NdArrayRef BitrevB::proc(KernelEvalContext*, const NdArrayRef& in, size_t start,
 
       auto bitrev_fn = [&](out_el_t el) -> out_el_t {
         out_el_t tmp = 0U;
+        out_el_t mask = 0U;
         for (size_t idx = start; idx < end; idx++) {
+          mask |= (out_el_t)1 << idx;
           if (el & ((out_el_t)1 << idx)) {
             tmp |= (out_el_t)1 << (end - 1 - idx + start);
           }
         }
 
-        out_el_t mask = ((out_el_t)1U << end) - ((out_el_t)1U << start);
         return (el & ~mask) | tmp;
       };
 
diff --git a/src/libspu/mpc/utils/ring_ops.cc b/src/libspu/mpc/utils/ring_ops.cc
index e0e67b2..9e410c3 100644
--- a/src/libspu/mpc/utils/ring_ops.cc
+++ b/src/libspu/mpc/utils/ring_ops.cc
@@ -148,13 +148,14 @@ void ring_bitrev_impl(NdArrayRef& ret, const NdArrayRef& x, size_t start,
     // optimize: use faster reverse method.
     auto bitrev_fn = [&](U in) -> U {
       U tmp = 0U;
+      U mask = 0U;
       for (size_t idx = start; idx < end; idx++) {
+        mask |= (U)1 << idx;
         if (in & ((U)1 << idx)) {
           tmp |= (U)1 << (end - 1 - idx + start);
         }
       }
 
-      U mask = ((U)1U << end) - ((U)1U << start);
       return (in & ~mask) | tmp;
     };
 
-- 
2.43.0


From 468abdfafdd7daa9dd96ecba2db5c456e87efe21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:23 +0000
Subject: [PATCH 07/20] fix: fixed-point to integer cast computed its rounding
 constant in 32 bits

---
 src/libspu/kernel/hal/type_cast.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/libspu/kernel/hal/type_cast.cc b/src/libspu/kernel/hal/type_cast.cc
index b432b86..240d63c 100644
--- a/src/libspu/kernel/hal/type_cast.cc
+++ b/src/libspu/kernel/hal/type_cast.cc
@@ -51,7 +51,8 @@ Value fxp2int(SPUContext* ctx, const Value& x, DataType to_type) {
   SPU_ENFORCE(x.isFxp());
 
   const int64_t fxp_bits = ctx->getFxpBits();
-  const Value kOneMinusEps = _constant(ctx, (1 << fxp_bits) - 1, x.shape());
+  const Value kOneMinusEps =
+      _constant(ctx, (static_cast<uint128_t>(1) << fxp_bits) - 1, x.shape());
 
   // (x + 0.99 * (x < 0)) >> fxp_bits
   return _arshift(ctx, _add(ctx, x, _mul(ctx, kOneMinusEps, _msb(ctx, x))),
-- 
2.43.0


From ba697389236828b9b377fda6087dfb5477a0b5ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:06 +0000
Subject: [PATCH 08/20] fix: profiling records and the trace logger were
 accessed without their lock

---
 src/libspu/core/trace.cc |  3 +++
 src/libspu/core/trace.h  | 12 +++++++++---
 2 files changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/libspu/core/trace.cc b/src/libspu/core/trace.cc
index bcbcf5f..4903416 100644
--- a/src/libspu/core/trace.cc
+++ b/src/libspu/core/trace.cc
@@ -130,6 +130,7 @@ std::mutex g_tracer_map_mutex;
 std::unordered_map<std::string, std::shared_ptr<Tracer>> g_tracers;
 std::mutex g_trace_flags_map_mutex;
 std::unordered_map<std::string, int64_t> g_trace_flags;
+std::mutex g_trace_logger_mutex;
 std::shared_ptr<spdlog::logger> g_trace_logger;
 
 std::shared_ptr<spdlog::logger> defaultTraceLogger() {
@@ -149,10 +150,12 @@ std::shared_ptr<spdlog::logger> defaultTraceLogger() {
 }
 
 void setTraceLogger(std::shared_ptr<spdlog::logger> logger) {
+  std::unique_lock lock(g_trace_logger_mutex);
   g_trace_logger = std::move(logger);
 }
 
 std::shared_ptr<spdlog::logger> getTraceLogger() {
+  std::unique_lock lock(g_trace_logger_mutex);
   if (!g_trace_logger) {
     g_trace_logger = defaultTraceLogger();
   }
diff --git a/src/libspu/core/trace.h b/src/libspu/core/trace.h
index 582257d..1265257 100644
--- a/src/libspu/core/trace.h
+++ b/src/libspu/core/trace.h
@@ -164,15 +164,21 @@ class ProfState final {
   // the recorded action, at ending time.
   std::vector<ActionRecord> records_;
   // the records_ mutex.
-  std::mutex mutex_;
+  mutable std::mutex mutex_;
 
  public:
   void addRecord(ActionRecord&& rec) {
     std::unique_lock lk(mutex_);
     records_.push_back(std::move(rec));
   }
-  const std::vector<ActionRecord>& getRecords() const { return records_; }
-  void clearRecords() { records_.clear(); }
+  std::vector<ActionRecord> getRecords() const {
+    std::unique_lock lk(mutex_);
+    return records_;
+  }
+  void clearRecords() {
+    std::unique_lock lk(mutex_);
+    records_.clear();
+  }
 };
 
 // A tracer is a 'single thread'
-- 
2.43.0


From 8abe962d31eafb7dcdb6d33c14991313e074dae7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:06 +0000
Subject: [PATCH 09/20] fix: TypeContext looked up creators without the lock
 registration holds

---
 src/libspu/core/type.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/libspu/core/type.h b/src/libspu/core/type.h
index b0cb1a1..569a6d8 100644
--- a/src/libspu/core/type.h
+++ b/src/libspu/core/type.h
@@ -460,6 +460,7 @@ class TypeContext final {
   }
 
   TypeCreateFn getTypeCreateFunction(std::string_view keyword) {
+    std::unique_lock<std::mutex> lock(creator_mutex_);
     auto fctor = creators_.find(keyword);
     SPU_ENFORCE(fctor != creators_.end(), "type not found, {}", keyword);
     return fctor->second;
-- 
2.43.0


From 362798735480de4c477f5bb760aedbda97f9c1fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:06 +0000
Subject: [PATCH 10/20] fix: OT adapter instance ids were drawn from an
 unsynchronised static

---
 .../mpc/cheetah/ot/yacl/yacl_ote_adapter.cc     |  6 +++---
 .../mpc/cheetah/ot/yacl/yacl_ote_adapter.h      | 17 ++++++++---------
 2 files changed, 11 insertions(+), 12 deletions(-)

diff --git a/src/libspu/mpc/cheetah/ot/yacl/yacl_ote_adapter.cc b/src/libspu/mpc/cheetah/ot/yacl/yacl_ote_adapter.cc
index 3da4388..45690ca 100644
--- a/src/libspu/mpc/cheetah/ot/yacl/yacl_ote_adapter.cc
+++ b/src/libspu/mpc/cheetah/ot/yacl/yacl_ote_adapter.cc
@@ -23,7 +23,7 @@ namespace yl = yacl::link;
 //   FerretOTeAdapter
 // ------------------------
 
-uint128_t YaclFerretOTeAdapter::yacl_id_ = 0;
+std::atomic<uint64_t> YaclFerretOTeAdapter::yacl_id_ = 0;
 
 void YaclFerretOTeAdapter::OneTimeSetup() {
   if (is_setup_) {
@@ -258,7 +258,7 @@ void YaclFerretOTeAdapter::BootstrapInplace(absl::Span<uint128_t> ot,
 //   IknpOTeAdapter
 // ------------------------
 
-uint128_t YaclIknpOTeAdapter::yacl_id_ = 0;
+std::atomic<uint64_t> YaclIknpOTeAdapter::yacl_id_ = 0;
 
 void YaclIknpOTeAdapter::OneTimeSetup() {
   if (is_setup_) {
@@ -326,7 +326,7 @@ void YaclIknpOTeAdapter::recv_cot(
 //   SoftspokenOTeAdapter
 // ------------------------
 
-uint128_t YaclSsOTeAdapter::yacl_id_ = 0;
+std::atomic<uint64_t> YaclSsOTeAdapter::yacl_id_ = 0;
 
 void YaclSsOTeAdapter::OneTimeSetup() {
   if (is_setup_) {
diff --git a/src/libspu/mpc/cheetah/ot/yacl/yacl_ote_adapter.h b/src/libspu/mpc/cheetah/ot/yacl/yacl_ote_adapter.h
index bd37640..2ba8d76 100644
--- a/src/libspu/mpc/cheetah/ot/yacl/yacl_ote_adapter.h
+++ b/src/libspu/mpc/cheetah/ot/yacl/yacl_ote_adapter.h
@@ -14,6 +14,8 @@
 
 #pragma once
 
+#include <atomic>
+
 #include "yacl/base/dynamic_bitset.h"
 #include "yacl/crypto/rand/rand.h"
 #include "yacl/kernel/algorithms/base_ot.h"
@@ -57,8 +59,7 @@ class YaclFerretOTeAdapter : public YaclOTeAdapter {
 
     ot_buff_ = yacl::Buffer(lpn_param_.n * sizeof(uint128_t));
 
-    id_ = yacl_id_;
-    ++yacl_id_;
+    id_ = yacl_id_++;
   }
 
   ~YaclFerretOTeAdapter() {
@@ -140,7 +141,7 @@ class YaclFerretOTeAdapter : public YaclOTeAdapter {
   uint128_t bootstrap_num_{0};  // number of invoke bootstrap
   double bootstrap_time_{0.0};  // ms
   uint128_t id_{0};
-  static uint128_t yacl_id_;
+  static std::atomic<uint64_t> yacl_id_;
 };
 
 class YaclIknpOTeAdapter : public YaclOTeAdapter {
@@ -148,8 +149,7 @@ class YaclIknpOTeAdapter : public YaclOTeAdapter {
   YaclIknpOTeAdapter(const std::shared_ptr<yl::Context>& ctx, bool is_sender) {
     ctx_ = ctx;
     is_sender_ = is_sender;
-    id_ = yacl_id_;
-    ++yacl_id_;
+    id_ = yacl_id_++;
   }
 
   ~YaclIknpOTeAdapter() {
@@ -208,7 +208,7 @@ class YaclIknpOTeAdapter : public YaclOTeAdapter {
   uint128_t ote_num_{0};  // number of invoke ote protocol
   double ote_time_{0.0};  // ms
   uint128_t id_{0};
-  static uint128_t yacl_id_;
+  static std::atomic<uint64_t> yacl_id_;
 };
 
 class YaclSsOTeAdapter : public YaclOTeAdapter {
@@ -229,8 +229,7 @@ class YaclSsOTeAdapter : public YaclOTeAdapter {
       ss_receiver_ = std::make_unique<yc::SoftspokenOtExtReceiver>(k);
     }
 
-    id_ = yacl_id_;
-    ++yacl_id_;
+    id_ = yacl_id_++;
   }
 
   ~YaclSsOTeAdapter() {
@@ -291,6 +290,6 @@ class YaclSsOTeAdapter : public YaclOTeAdapter {
   double ote_time_{0.0};  // ms
   // Debug only
   uint128_t id_{0};
-  static uint128_t yacl_id_;
+  static std::atomic<uint64_t> yacl_id_;
 };
 }  // namespace spu::mpc::cheetah
-- 
2.43.0


From 1dfdd1247d379c2564415cec15d42b7ce7cbaf7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:15 +0000
Subject: [PATCH 11/20] fix: an op without operands did not wait for the values
 its regions or order depend on

---
 src/libspu/device/executor.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libspu/device/executor.cc b/src/libspu/device/executor.cc
index 5d03db2..7af1ced 100644
--- a/src/libspu/device/executor.cc
+++ b/src/libspu/device/executor.cc
@@ -201,7 +201,7 @@ class OpExecTask final {
 
   void run(const ExecutionOptions &opts) {
     // wait for this operation ready.
-    if (op_->getNumOperands() > 0) {
+    if (op_->getNumOperands() > 0 || !extra_dependencies_.empty()) {
       std::unique_lock lk(event_->mutex);
       event_->cv.wait(lk, [this] { return ready(); });
     }
-- 
2.43.0


From b5e8aea82d57ddb0cf0c7123ce6e968f9aaf90ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:29 +0000
Subject: [PATCH 12/20] fix: a tiny negative constant factor lost its sign

---
 src/libspu/device/pphlo/pphlo_executor.cc | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/libspu/device/pphlo/pphlo_executor.cc b/src/libspu/device/pphlo/pphlo_executor.cc
index af8a04b..5cf4a73 100644
--- a/src/libspu/device/pphlo/pphlo_executor.cc
+++ b/src/libspu/device/pphlo/pphlo_executor.cc
@@ -309,9 +309,10 @@ void execute(OpExecutor *, SPUContext *sctx, SymbolScope *sscope,
   if (smallConst && smallConst.getValue().isSplat()) {
     auto elType = smallConst.getValue().getElementType();
     if (elType.isF32() || elType.isF64()) {
-      auto fValue = std::abs(smallConst.getValue()
-                                 .getSplatValue<mlir::APFloat>()
-                                 .convertToDouble());
+      const auto cValue = smallConst.getValue()
+                              .getSplatValue<mlir::APFloat>()
+                              .convertToDouble();
+      const auto fValue = std::abs(cValue);
       auto eps = kernel::hal::dump_public_as<float>(
           sctx, kernel::hlo::Epsilon(sctx, DT_F32))[0];
 
@@ -327,9 +328,10 @@ void execute(OpExecutor *, SPUContext *sctx, SymbolScope *sscope,
         auto k = findTwoK(N);
         auto n = std::pow(2, k);
 
-        // n/N
-        auto newRhs = kernel::hlo::Constant(sctx, static_cast<float>(n) / N,
-                                            smallConst.getType().getShape());
+        // n/N, with the sign of the constant
+        auto newRhs = kernel::hlo::Constant(
+            sctx, static_cast<float>(std::copysign(n, cValue)) / N,
+            smallConst.getType().getShape());
         // x*n/N
         auto kv = lookupValue(sscope, multiplier, opts);
         // To merge truncation in multiply with next k-bits one, we
-- 
2.43.0


From e48dcb0b39bdc9074552ea1368379c3b490a973c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:29 +0000
Subject: [PATCH 13/20] fix: an integer scaled by a tiny constant skipped the
 mixed multiply

---
 src/libspu/device/pphlo/pphlo_executor.cc | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/libspu/device/pphlo/pphlo_executor.cc b/src/libspu/device/pphlo/pphlo_executor.cc
index 5cf4a73..8373163 100644
--- a/src/libspu/device/pphlo/pphlo_executor.cc
+++ b/src/libspu/device/pphlo/pphlo_executor.cc
@@ -320,7 +320,10 @@ void execute(OpExecutor *, SPUContext *sctx, SymbolScope *sscope,
       // TODO: Maybe make it configurable?
       eps = eps * 4;
 
-      if (fValue < eps && fValue > 0) {
+      const auto kv = lookupValue(sscope, multiplier, opts);
+
+      // the other factor may still be an integer (mixed multiply)
+      if (kv.isFxp() && fValue < eps && fValue > 0) {
         // Handle x * (very_small_const)
         // return truncate(x * n/N, k); n = 2^k
         // Compute N -> 1/fValue
@@ -333,7 +336,6 @@ void execute(OpExecutor *, SPUContext *sctx, SymbolScope *sscope,
             sctx, static_cast<float>(std::copysign(n, cValue)) / N,
             smallConst.getType().getShape());
         // x*n/N
-        auto kv = lookupValue(sscope, multiplier, opts);
         // To merge truncation in multiply with next k-bits one, we
         // deliberately pick the ring mul to do a mul *without* truncation
         auto mulRet = kernel::hal::_mul(sctx, kv, newRhs).setDtype(kv.dtype());
-- 
2.43.0


From a7e18aeb74798534c7513419db805c22f074f94c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:08 +0000
Subject: [PATCH 14/20] fix: expand the base OTs of KOS at a fresh position in
 every extension

The base OT stores live as long as BeaverTinyOt, and every extension
restarted the generators of the base OT seeds at position 0. Two
extensions therefore masked their choice vectors with the same pad (the
sender learns the xor of the choices) and returned the same blocks to the
receiver. Both parties now start at a position drawn for the extension.
---
 src/libspu/mpc/spdz2k/ot/kos_ote.cc | 29 ++++++++++++++++++-----------
 1 file changed, 18 insertions(+), 11 deletions(-)

diff --git a/src/libspu/mpc/spdz2k/ot/kos_ote.cc b/src/libspu/mpc/spdz2k/ot/kos_ote.cc
index 781df0d..46f0e99 100644
--- a/src/libspu/mpc/spdz2k/ot/kos_ote.cc
+++ b/src/libspu/mpc/spdz2k/ot/kos_ote.cc
@@ -117,31 +117,38 @@ inline uint64_t GenKosSharedSeed(
   }
 }
 
+// Expand a base OT seed from the given stream position. The base OTs are kept
+// over many extensions, so each extension has to start at a position of its
+// own: expanding the same range again would mask other choices with the same
+// pad.
+inline void ExpandSeed(uint128_t base_seed, uint64_t position,
+                       std::vector<uint128_t>* out) {
+  yacl::crypto::FillPRand(
+      yacl::crypto::SymmetricCrypto::CryptoType::AES128_CTR, base_seed, 0,
+      position, absl::MakeSpan(*out));
+}
+
 inline auto ExtendBaseOt(
     const std::shared_ptr<yacl::crypto::OtSendStore>& base_ot,
-    const size_t block_num) {
+    const size_t block_num, const uint64_t position) {
   std::array<std::vector<uint128_t>, kKappa> base_ot_ext0;
   std::array<std::vector<uint128_t>, kKappa> base_ot_ext1;
   for (size_t k = 0; k < base_ot->Size(); ++k) {
     base_ot_ext0[k] = std::vector<uint128_t>(block_num);
     base_ot_ext1[k] = std::vector<uint128_t>(block_num);
-    yacl::crypto::Prg<uint128_t> prg0(base_ot->GetBlock(k, 0));
-    yacl::crypto::Prg<uint128_t> prg1(base_ot->GetBlock(k, 1));
-
-    prg0.Fill(absl::MakeSpan(base_ot_ext0[k]));
-    prg1.Fill(absl::MakeSpan(base_ot_ext1[k]));
+    ExpandSeed(base_ot->GetBlock(k, 0), position, &base_ot_ext0[k]);
+    ExpandSeed(base_ot->GetBlock(k, 1), position, &base_ot_ext1[k]);
   }
   return std::make_pair(base_ot_ext0, base_ot_ext1);
 }
 
 inline auto ExtendBaseOt(
     const std::shared_ptr<yacl::crypto::OtRecvStore>& base_ot,
-    const size_t block_num) {
+    const size_t block_num, const uint64_t position) {
   std::array<std::vector<uint128_t>, kKappa> base_ot_ext;
   for (size_t k = 0; k < base_ot->Size(); ++k) {
     base_ot_ext[k] = std::vector<uint128_t>(block_num);
-    yacl::crypto::Prg<uint128_t> prg(base_ot->GetBlock(k));
-    prg.Fill(absl::MakeSpan(base_ot_ext[k]));
+    ExpandSeed(base_ot->GetBlock(k), position, &base_ot_ext[k]);
   }
   return base_ot_ext;
 }
@@ -185,7 +192,7 @@ void KosOtExtSend(const std::shared_ptr<yacl::link::Context>& ctx,
 
   // Prepare for batched computation
   std::vector<uint128_t> q_ext(ot_num_ext);
-  auto ot_ext = ExtendBaseOt(base_ot, block_num);
+  auto ot_ext = ExtendBaseOt(base_ot, block_num, GenKosSharedSeed(ctx));
 
   // Prepare for consistency check
   std::array<uint64_t, kKappa> q_check;
@@ -290,7 +297,7 @@ void KosOtExtRecv(const std::shared_ptr<yacl::link::Context>& ctx,
   // Prepare for batched computation
   std::vector<uint128_t> t_ext(ot_num_ext);
   auto choice_ext = ExtendChoice(choices, batch_num * kBatchSize);
-  auto ot_ext = ExtendBaseOt(base_ot, block_num);
+  auto ot_ext = ExtendBaseOt(base_ot, block_num, GenKosSharedSeed(ctx));
 
   // Prepare for consistency check
   CheckMsg check_msgs;
-- 
2.43.0


From f23b2efbbbfeb711804ff11e90b6987068089c14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:06 +0000
Subject: [PATCH 15/20] fix: aby3 OPShrTy has its own type identifier

---
 src/libspu/mpc/aby3/type.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libspu/mpc/aby3/type.h b/src/libspu/mpc/aby3/type.h
index f2b541e..efdebfa 100644
--- a/src/libspu/mpc/aby3/type.h
+++ b/src/libspu/mpc/aby3/type.h
@@ -48,7 +48,7 @@ class OPShrTy : public TypeImpl<OPShrTy, RingTy, Secret, OPShare> {
 
  public:
   using Base::Base;
-  static std::string_view getStaticId() { return "aby3.OShr"; }
+  static std::string_view getStaticId() { return "aby3.OPShr"; }
 
   explicit OPShrTy(FieldType field) { field_ = field; }
 
-- 
2.43.0


From 5f38b497479a6319ffd9cf015042746fa78a42e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:06 +0000
Subject: [PATCH 16/20] fix: parsing a spdz2k boolean share type restores k

---
 src/libspu/mpc/spdz2k/type.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/libspu/mpc/spdz2k/type.cc b/src/libspu/mpc/spdz2k/type.cc
index 88363a2..cf06dde 100644
--- a/src/libspu/mpc/spdz2k/type.cc
+++ b/src/libspu/mpc/spdz2k/type.cc
@@ -45,6 +45,7 @@ void BShrTy::fromString(std::string_view detail) {
   auto field = magic_enum::enum_cast<FieldType>(field_str);
   SPU_ENFORCE(field.has_value(), "parse failed from={}", field_str);
   field_ = field.value();
+  k_ = SizeOf(field_) * 8 / 2;
 };
 
 std::string BShrTy::toString() const {
-- 
2.43.0


From 4fddde7e0cc64b4224cfbb86a4caae709fb6847d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:19 +0000
Subject: [PATCH 17/20] fix: reject a value chunk that exceeds the tensor
 before copying it

---
 src/libspu/core/value.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/libspu/core/value.cc b/src/libspu/core/value.cc
index 46e1626..9dac447 100644
--- a/src/libspu/core/value.cc
+++ b/src/libspu/core/value.cc
@@ -185,6 +185,9 @@ Value Value::fromProto(const ValueProto& value) {
   for (const auto& [offset, chunk] : ordered_chunks) {
     SPU_ENFORCE(offset == chunk_end_pos,
                 "offset {} is not match to last chunk's end pos", offset);
+    SPU_ENFORCE(chunk->content().size() <= total_bytes - chunk_end_pos,
+                "chunk at offset {} has {} bytes, exceeds total_bytes {}",
+                offset, chunk->content().size(), total_bytes);
     memcpy(data.data<uint8_t>() + offset, chunk->content().data(),
            chunk->content().size());
     chunk_end_pos += chunk->content().size();
-- 
2.43.0


From e82da2f0cb36c340f092a6f588ede58963cf3b14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:19 +0000
Subject: [PATCH 18/20] fix: parsing into a runtime config drops its previous
 beaver and cheetah settings

---
 src/libspu/spu.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/libspu/spu.cc b/src/libspu/spu.cc
index 83c1c76..7959e91 100644
--- a/src/libspu/spu.cc
+++ b/src/libspu/spu.cc
@@ -122,6 +122,7 @@ void convertFromPB(const pb::RuntimeConfig& src, RuntimeConfig& dst) {
   dst.experimental_exp_prime_enable_upper_bound =
       src.experimental_exp_prime_enable_upper_bound();
 
+  dst.ttp_beaver_config.reset();
   if (src.has_ttp_beaver_config()) {
     auto ttp_conf = src.ttp_beaver_config();
     std::unique_ptr<ClientSSLConfig> ssl_config;
@@ -138,6 +139,7 @@ void convertFromPB(const pb::RuntimeConfig& src, RuntimeConfig& dst) {
         ttp_conf.transport_protocol(), std::move(ssl_config));
   }
 
+  dst.cheetah_2pc_config = CheetahConfig();
   if (src.has_cheetah_2pc_config()) {
     dst.cheetah_2pc_config =
         CheetahConfig(src.cheetah_2pc_config().disable_matmul_pack(),
-- 
2.43.0


From e94db0afedff56231d5cd7a233d6154344997f4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:19 +0000
Subject: [PATCH 19/20] fix: register the cheetah permutation share type

---
 src/libspu/mpc/cheetah/type.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libspu/mpc/cheetah/type.cc b/src/libspu/mpc/cheetah/type.cc
index ede298f..afbf9fe 100644
--- a/src/libspu/mpc/cheetah/type.cc
+++ b/src/libspu/mpc/cheetah/type.cc
@@ -27,7 +27,7 @@ void registerTypes() {
 
   static std::once_flag flag;
   std::call_once(flag, []() {
-    TypeContext::getTypeContext()->addTypes<AShrTy, BShrTy>();
+    TypeContext::getTypeContext()->addTypes<AShrTy, BShrTy, PShrTy>();
   });
 }
 
-- 
2.43.0


From 71c6ff2d40053719680ed28a6de7490b89ae018f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:22:41 +0000
Subject: [PATCH 20/20] fix: announce share sizes and chunk counts that match
 the shares made

IoClient::getShareSize counted only one half of a complex buffer, and used the
owner's private type although makeShares ignores the owner unless the colocated
optimization is enabled. Value::chunksCount and GetShareChunkCount counted the
chunks of the real part only.
---
 spu/libspu.cc            |  8 ++++++--
 src/libspu/core/value.cc | 12 ++++++------
 src/libspu/device/io.cc  | 13 +++++++++++--
 3 files changed, 23 insertions(+), 10 deletions(-)

diff --git a/spu/libspu.cc b/spu/libspu.cc
index f71da95..c4b5233 100644
--- a/spu/libspu.cc
+++ b/spu/libspu.cc
@@ -550,8 +550,12 @@ class IoWrapper {
                              binfo.itemsize));
     const size_t share_size = ptr_->getShareSize(
         view, static_cast<spu::Visibility>(visibility), owner_rank);
-    size_t num_chunks = (share_size + max_chunk_size_ - 1) / max_chunk_size_;
-    return num_chunks;
+    // real and imaginary parts are cut into chunks separately.
+    const size_t parts = (pt_type == PT_CF32 || pt_type == PT_CF64) ? 2 : 1;
+    const size_t part_size = share_size / parts;
+    const size_t num_chunks =
+        (part_size + max_chunk_size_ - 1) / max_chunk_size_;
+    return parts * num_chunks;
   }
 
   std::vector<PyBindShare> MakeShares(const py::array& arr, int visibility,
diff --git a/src/libspu/core/value.cc b/src/libspu/core/value.cc
index 9dac447..83139fa 100644
--- a/src/libspu/core/value.cc
+++ b/src/libspu/core/value.cc
@@ -67,7 +67,8 @@ Value& Value::setDtype(DataType new_dtype, bool force) {
 size_t Value::chunksCount(size_t max_chunk_size) const {
   size_t total = numel() * data_.elsize();
   size_t num_chunks = (total + max_chunk_size - 1) / max_chunk_size;
-  return num_chunks;
+  // real and imaginary parts are cut into chunks separately.
+  return isComplex() ? 2 * num_chunks : num_chunks;
 }
 
 ValueProto Value::toProto(size_t max_chunk_size) const {
@@ -76,10 +77,11 @@ ValueProto Value::toProto(size_t max_chunk_size) const {
 
   ValueProto ret;
 
-  auto build_chunk = [&](const void* data, size_t size, size_t num_chunks) {
+  auto build_chunk = [&](const void* data, size_t size) {
     if (size == 0) {
       return;
     }
+    const size_t num_chunks = (size + max_chunk_size - 1) / max_chunk_size;
     ret.chunks.reserve(ret.chunks.size() + num_chunks);
     for (size_t i = 0; i < num_chunks; i++) {
       size_t chunk_size = std::min(max_chunk_size, size - i * max_chunk_size);
@@ -96,16 +98,14 @@ ValueProto Value::toProto(size_t max_chunk_size) const {
     }
   };
 
-  const size_t num_chunks = chunksCount(max_chunk_size);
-
   auto array_to_chunks = [&](const NdArrayRef& a) {
     if (a.isCompact()) {
-      build_chunk(a.data(), numel() * a.elsize(), num_chunks);
+      build_chunk(a.data(), numel() * a.elsize());
     } else {
       // Make a compact clone
       auto copy = a.clone();
       SPU_ENFORCE(copy.isCompact(), "Must be a compact copy.");
-      build_chunk(copy.data(), copy.buf()->size(), num_chunks);
+      build_chunk(copy.data(), copy.buf()->size());
     }
   };
 
diff --git a/src/libspu/device/io.cc b/src/libspu/device/io.cc
index a9f0def..901805e 100644
--- a/src/libspu/device/io.cc
+++ b/src/libspu/device/io.cc
@@ -36,9 +36,18 @@ size_t IoClient::getShareSize(const PtBufferView &bv, Visibility vtype,
   if (bv.pt_type == PT_I1 && vtype == VIS_SECRET &&
       base_io_->hasBitSecretSupport()) {
     return base_io_->getBitSecretShareSize(bv.shape.numel());
-  } else {
-    return base_io_->getShareType(vtype, owner_rank).size() * bv.shape.numel();
   }
+
+  // the owner is only used by makeShares when this optimization is enabled.
+  if (!config_.experimental_enable_colocated_optimization) {
+    owner_rank = -1;
+  }
+  const size_t size =
+      base_io_->getShareType(vtype, owner_rank).size() * bv.shape.numel();
+
+  // real and imaginary parts are shared separately.
+  const bool is_complex = bv.pt_type == PT_CF32 || bv.pt_type == PT_CF64;
+  return is_complex ? 2 * size : size;
 }
 
 std::vector<spu::Value> IoClient::makeShares(const PtBufferView &bv,
-- 
2.43.0

