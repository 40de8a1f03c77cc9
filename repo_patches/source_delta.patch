From 7416fd9dc762c601de7ec61bd8e5a600d89be5af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:22 +0000
Subject: [PATCH 01/47] fix: reject a measurement number equal to the number of
 measurements in probability tables

---
 cpp/lib_moment/probability/collins_gisin.cpp              | 4 ++--
 .../scenarios/inflation/inflation_collins_gisin.cpp       | 6 +++---
 .../scenarios/inflation/inflation_probability_tensor.cpp  | 8 ++++----
 .../scenarios/locality/locality_collins_gisin.cpp         | 6 +++---
 .../scenarios/locality/locality_probability_tensor.cpp    | 8 ++++----
 5 files changed, 16 insertions(+), 16 deletions(-)

diff --git a/cpp/lib_moment/probability/collins_gisin.cpp b/cpp/lib_moment/probability/collins_gisin.cpp
index ea3e06d..835031e 100644
--- a/cpp/lib_moment/probability/collins_gisin.cpp
+++ b/cpp/lib_moment/probability/collins_gisin.cpp
@@ -169,7 +169,7 @@ namespace Moment {
         CollinsGisinIndex upper_bounds(this->Dimensions.size(), 1);
 
         for (auto mmtIndex : mmtIndices) {
-            if (mmtIndex > this->gmIndex.size()) {
+            if (mmtIndex >= this->gmIndex.size()) {
                 throw errors::BadCGError("Global measurement index out of bounds.");
             }
             const auto& gmInfo = this->gmIndex[mmtIndex];
@@ -191,7 +191,7 @@ namespace Moment {
 
         for (size_t n = 0; n < mmtIndices.size(); ++n) {
 
-            if (mmtIndices[n] > this->gmIndex.size()) {
+            if (mmtIndices[n] >= this->gmIndex.size()) {
                 throw errors::BadCGError("Global measurement index out of bounds.");
             }
             const auto& gmInfo = this->gmIndex[mmtIndices[n]];
diff --git a/cpp/lib_moment/scenarios/inflation/inflation_collins_gisin.cpp b/cpp/lib_moment/scenarios/inflation/inflation_collins_gisin.cpp
index af0f746..83e64c7 100644
--- a/cpp/lib_moment/scenarios/inflation/inflation_collins_gisin.cpp
+++ b/cpp/lib_moment/scenarios/inflation/inflation_collins_gisin.cpp
@@ -92,7 +92,7 @@ namespace Moment::Inflation {
 
         for (auto mmtIndex: mmtIndices) {
             const size_t global_mmt = this->inflationContext.obs_variant_to_index(mmtIndex);
-            if (global_mmt > this->gmIndex.size()) {
+            if (global_mmt >= this->gmIndex.size()) {
                 throw Moment::errors::BadCGError("Global measurement index out of bounds.");
             }
             const auto &gmInfo = this->gmIndex[global_mmt];
@@ -112,7 +112,7 @@ namespace Moment::Inflation {
         CollinsGisinIndex upper_bounds(this->Dimensions.size(), 1);
         for (auto mmtIndex: mmtIndices) {
             const size_t global_mmt = this->inflationContext.obs_variant_to_index(mmtIndex);
-            if (global_mmt > this->gmIndex.size()) {
+            if (global_mmt >= this->gmIndex.size()) {
                 throw Moment::errors::BadCGError("Global measurement index out of bounds.");
             }
             const auto &gmInfo = this->gmIndex[global_mmt];
@@ -125,7 +125,7 @@ namespace Moment::Inflation {
 
         for (auto mmtIndex: fixedOutcomes) {
             const size_t global_mmt = this->inflationContext.obs_variant_to_index(mmtIndex.observable_variant);
-            if (global_mmt > this->gmIndex.size()) {
+            if (global_mmt >= this->gmIndex.size()) {
                 throw Moment::errors::BadCGError("Global measurement index out of bounds.");
             }
             const auto &gmInfo = this->gmIndex[global_mmt];
diff --git a/cpp/lib_moment/scenarios/inflation/inflation_probability_tensor.cpp b/cpp/lib_moment/scenarios/inflation/inflation_probability_tensor.cpp
index 729fa5a..e5a3baf 100644
--- a/cpp/lib_moment/scenarios/inflation/inflation_probability_tensor.cpp
+++ b/cpp/lib_moment/scenarios/inflation/inflation_probability_tensor.cpp
@@ -48,7 +48,7 @@ namespace Moment::Inflation {
         for (const auto& mmtIndex : mmtIndices) {
 
             const size_t global_index = this->context.obs_variant_to_index(mmtIndex);
-            if (global_index > this->DimensionCount) {
+            if (global_index >= this->DimensionCount) {
                 throw Moment::errors::BadPTError("Global measurement index out of bounds.");
             }
 
@@ -69,7 +69,7 @@ namespace Moment::Inflation {
         ProbabilityTensorIndex upper_bounds(this->Dimensions.size(), 1);
         for (const auto& mmtIndex : freeMeasurements) {
             const size_t global_index = this->context.obs_variant_to_index(mmtIndex);
-            if (global_index > this->DimensionCount) {
+            if (global_index >= this->DimensionCount) {
                 throw Moment::errors::BadPTError("Global measurement index out of bounds.");
             }
             if (lower_bounds[global_index] != 0) {
@@ -81,7 +81,7 @@ namespace Moment::Inflation {
 
         for (const auto& mmtIndex : fixedOutcomes) {
             const size_t global_index = this->context.obs_variant_to_index(mmtIndex.observable_variant);
-            if (global_index > this->DimensionCount) {
+            if (global_index >= this->DimensionCount) {
                 throw Moment::errors::BadPTError("Global measurement index out of bounds.");
             }
             if (lower_bounds[global_index] != 0) {
@@ -100,7 +100,7 @@ namespace Moment::Inflation {
         ProbabilityTensorIndex index(this->Dimensions.size(), 0);
         for (const auto& mmtIndex : fixedOutcomes) {
             const size_t global_index = this->context.obs_variant_to_index(mmtIndex.observable_variant);
-            if (global_index > this->DimensionCount) {
+            if (global_index >= this->DimensionCount) {
                 throw Moment::errors::BadPTError("Global measurement index out of bounds.");
             }
             if (index[global_index] != 0) {
diff --git a/cpp/lib_moment/scenarios/locality/locality_collins_gisin.cpp b/cpp/lib_moment/scenarios/locality/locality_collins_gisin.cpp
index 79a1f20..6b361f2 100644
--- a/cpp/lib_moment/scenarios/locality/locality_collins_gisin.cpp
+++ b/cpp/lib_moment/scenarios/locality/locality_collins_gisin.cpp
@@ -69,7 +69,7 @@ namespace Moment::Locality {
         CollinsGisinIndex lower_bounds(this->Dimensions.size(), 0);
         CollinsGisinIndex upper_bounds(this->Dimensions.size(), 1);
         for (auto mmtIndex : mmtIndices) {
-            if (mmtIndex.global_mmt > this->gmIndex.size()) {
+            if (mmtIndex.global_mmt >= this->gmIndex.size()) {
                 throw errors::BadCGError("Global measurement index out of bounds.");
             }
             const auto& gmInfo = this->gmIndex[mmtIndex.global_mmt];
@@ -88,7 +88,7 @@ namespace Moment::Locality {
         CollinsGisinIndex lower_bounds(this->Dimensions.size(), 0);
         CollinsGisinIndex upper_bounds(this->Dimensions.size(), 1);
         for (auto mmtIndex : mmtIndices) {
-            if (mmtIndex.global_mmt > this->gmIndex.size()) {
+            if (mmtIndex.global_mmt >= this->gmIndex.size()) {
                 throw errors::BadCGError("Global measurement index out of bounds.");
             }
             const auto& gmInfo = this->gmIndex[mmtIndex.global_mmt];
@@ -100,7 +100,7 @@ namespace Moment::Locality {
         }
 
         for (auto mmtIndex : fixedOutcomes) {
-            if (mmtIndex.global_mmt > this->gmIndex.size()) {
+            if (mmtIndex.global_mmt >= this->gmIndex.size()) {
                 throw errors::BadCGError("Global measurement index out of bounds.");
             }
             const auto& gmInfo = this->gmIndex[mmtIndex.global_mmt];
diff --git a/cpp/lib_moment/scenarios/locality/locality_probability_tensor.cpp b/cpp/lib_moment/scenarios/locality/locality_probability_tensor.cpp
index d43db38..e75aa85 100644
--- a/cpp/lib_moment/scenarios/locality/locality_probability_tensor.cpp
+++ b/cpp/lib_moment/scenarios/locality/locality_probability_tensor.cpp
@@ -52,7 +52,7 @@ namespace Moment::Locality {
         ProbabilityTensorIndex lower_bounds(this->Dimensions.size(), 0);
         ProbabilityTensorIndex  upper_bounds(this->Dimensions.size(), 1);
         for (auto mmtIndex : mmtIndices) {
-            if (mmtIndex.global_mmt > this->gmInfo.size()) {
+            if (mmtIndex.global_mmt >= this->gmInfo.size()) {
                 throw errors::BadCGError("Global measurement index out of bounds.");
             }
             const auto& gmEntry = this->gmInfo[mmtIndex.global_mmt];
@@ -73,7 +73,7 @@ namespace Moment::Locality {
         ProbabilityTensorIndex lower_bounds(this->Dimensions.size(), 0);
         ProbabilityTensorIndex upper_bounds(this->Dimensions.size(), 1);
         for (auto mmtIndex : freeMeasurements) {
-            if (mmtIndex.global_mmt > this->gmInfo.size()) {
+            if (mmtIndex.global_mmt >= this->gmInfo.size()) {
                 throw errors::BadPTError("Global measurement index out of bounds.");
             }
             const auto& gmEntry = this->gmInfo[mmtIndex.global_mmt];
@@ -85,7 +85,7 @@ namespace Moment::Locality {
         }
 
         for (auto mmtIndex : fixedOutcomes) {
-            if (mmtIndex.global_mmt > this->gmInfo.size()) {
+            if (mmtIndex.global_mmt >= this->gmInfo.size()) {
                 throw errors::BadPTError("Global measurement index out of bounds.");
             }
             const auto& gmEntry = this->gmInfo[mmtIndex.global_mmt];
@@ -104,7 +104,7 @@ namespace Moment::Locality {
         ProbabilityTensorIndex index(this->Dimensions.size(), 0);
 
         for (auto mmtIndex : fixedOutcomes) {
-            if (mmtIndex.global_mmt > this->gmInfo.size()) {
+            if (mmtIndex.global_mmt >= this->gmInfo.size()) {
                 throw errors::BadPTError("Global measurement index out of bounds.");
             }
             const auto& gmEntry = this->gmInfo[mmtIndex.global_mmt];
-- 
2.43.0


From 4f62797f4ed5382f380763b04d80a624e4a0a492 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:22 +0000
Subject: [PATCH 02/47] fix: reject an observable number equal to the number of
 observables when unflattening outcomes

---
 cpp/lib_moment/scenarios/inflation/inflation_context.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cpp/lib_moment/scenarios/inflation/inflation_context.cpp b/cpp/lib_moment/scenarios/inflation/inflation_context.cpp
index 72a0bf8..f697b47 100644
--- a/cpp/lib_moment/scenarios/inflation/inflation_context.cpp
+++ b/cpp/lib_moment/scenarios/inflation/inflation_context.cpp
@@ -474,7 +474,7 @@ namespace Moment::Inflation {
         output.reserve(input.size());
         size_t index = 0;
         for (const auto& ov : input) {
-            if (ov.observable > this->inflated_observables.size()) {
+            if (ov.observable >= this->inflated_observables.size()) {
                 std::stringstream errSS;
                 errSS << "Observable \"" << ov.observable << "\" at index " << index << " out of range.";
                 throw errors::bad_observable{index, errSS.str()};
-- 
2.43.0


From c811ac87f4e70152453a08b9b3a1c8741a4b62ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:22 +0000
Subject: [PATCH 03/47] fix: format an operator number equal to the operator
 count as unknown in locality scenarios

---
 cpp/lib_moment/scenarios/locality/locality_context.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cpp/lib_moment/scenarios/locality/locality_context.cpp b/cpp/lib_moment/scenarios/locality/locality_context.cpp
index c9628d4..fa1c76c 100644
--- a/cpp/lib_moment/scenarios/locality/locality_context.cpp
+++ b/cpp/lib_moment/scenarios/locality/locality_context.cpp
@@ -244,7 +244,7 @@ namespace Moment::Locality {
                     done_once = true;
                 }
 
-                if (oper > context.size()) {
+                if (oper >= context.size()) {
                     os << "[UNK:" << oper << "]";
                 } else {
                     const auto &party = context.associated_party(oper);
-- 
2.43.0


From c57e26128ff7b7f89a21a07ee5624baedbe45036 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:22 +0000
Subject: [PATCH 04/47] fix: do not delete a matrix at the index one past the
 last matrix

---
 cpp/lib_moment/matrix_system/matrix_system.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cpp/lib_moment/matrix_system/matrix_system.cpp b/cpp/lib_moment/matrix_system/matrix_system.cpp
index 98b0ee9..37aa9cb 100644
--- a/cpp/lib_moment/matrix_system/matrix_system.cpp
+++ b/cpp/lib_moment/matrix_system/matrix_system.cpp
@@ -93,7 +93,7 @@ namespace Moment {
     bool MatrixSystem::delete_matrix(const MaintainsMutex::WriteLock& lock, ptrdiff_t index) noexcept {
         assert(this->is_locked_write_lock(lock));
         // No deletion for bad index
-        if ((index < 0) || (index > this->matrices.size())) {
+        if ((index < 0) || (index >= this->matrices.size())) {
             return false;
         }
         // No deletion for missing matrix
-- 
2.43.0


From bc2ec3293d82278a6eaf8f085546c76a3b2d63f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:55 +0000
Subject: [PATCH 05/47] fix: multiply a matrix by the conjugate word exactly
 when the monomial is conjugated

---
 cpp/lib_moment/matrix/symbolic_matrix.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cpp/lib_moment/matrix/symbolic_matrix.cpp b/cpp/lib_moment/matrix/symbolic_matrix.cpp
index 320de12..ca75e00 100644
--- a/cpp/lib_moment/matrix/symbolic_matrix.cpp
+++ b/cpp/lib_moment/matrix/symbolic_matrix.cpp
@@ -156,8 +156,8 @@ namespace Moment {
             // Resolve monomial into operator sequence using symbol table
             assert(mono.id >= 0 && mono.id < symbol_registry.size());
             assert(symbol_registry[mono.id].has_sequence());
-            const auto &op_sequence = mono.conjugated ? symbol_registry[mono.id].sequence()
-                                                      : symbol_registry[mono.id].sequence_conj();
+            const auto &op_sequence = mono.conjugated ? symbol_registry[mono.id].sequence_conj()
+                                                      : symbol_registry[mono.id].sequence();
 
             // Invoke operator sequence multiplication
             if constexpr (premultiply) {
-- 
2.43.0


From b7e8047828340ab71890b68f23c40142fb2c5332 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:55 +0000
Subject: [PATCH 06/47] fix: scale the image of a conjugated moment by its
 factor, not by the factor's conjugate

---
 cpp/lib_moment/scenarios/derived/symbol_table_map.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cpp/lib_moment/scenarios/derived/symbol_table_map.cpp b/cpp/lib_moment/scenarios/derived/symbol_table_map.cpp
index 5a4371c..a226ad2 100644
--- a/cpp/lib_moment/scenarios/derived/symbol_table_map.cpp
+++ b/cpp/lib_moment/scenarios/derived/symbol_table_map.cpp
@@ -214,10 +214,10 @@ namespace Moment::Derived {
         Polynomial output = (*this)(symbol.id);
 
         // Apply transformations (using target symbol table)
-        output *= symbol.factor;
         if (symbol.conjugated) {
             output.conjugate_in_place(this->target_symbols);
         }
+        output *= symbol.factor;
 
         return output;
     }
@@ -284,10 +284,10 @@ namespace Moment::Derived {
         Polynomial output = this->inverse(symbol.id);
 
         // Apply transformations (using origin symbol table)
-        output *= symbol.factor;
         if (symbol.conjugated) {
             output.conjugate_in_place(this->origin_symbols);
         }
+        output *= symbol.factor;
 
         return output;
     }
-- 
2.43.0


From f7a09a80283e4e535b00bf9af84055078cd77a1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:34 +0000
Subject: [PATCH 07/47] fix: do not flag an aliased word as a conjugate in the
 dictionary index

---
 cpp/lib_moment/dictionary/dictionary_map.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cpp/lib_moment/dictionary/dictionary_map.cpp b/cpp/lib_moment/dictionary/dictionary_map.cpp
index ed282a7..ba14fad 100644
--- a/cpp/lib_moment/dictionary/dictionary_map.cpp
+++ b/cpp/lib_moment/dictionary/dictionary_map.cpp
@@ -44,7 +44,7 @@ namespace Moment {
             const auto& seq = *iter;
             const auto datum = symbols.where(seq);
             assert(datum.found());
-            const bool isConjugated = (seq != datum->sequence());
+            const bool isConjugated = datum.is_conjugated;
             this->symbol_map.emplace_back((isConjugated ? -1 : 1) * datum->Id());
         }
 
-- 
2.43.0


From 2e94a731320452b18affb207576126add9fa0015 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:03 +0000
Subject: [PATCH 08/47] fix: conjugating a word keeps its phase when operators
 are not self-adjoint

---
 cpp/lib_moment/scenarios/algebraic/algebraic_context.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cpp/lib_moment/scenarios/algebraic/algebraic_context.cpp b/cpp/lib_moment/scenarios/algebraic/algebraic_context.cpp
index 522f266..742c8b3 100644
--- a/cpp/lib_moment/scenarios/algebraic/algebraic_context.cpp
+++ b/cpp/lib_moment/scenarios/algebraic/algebraic_context.cpp
@@ -159,7 +159,7 @@ namespace Moment::Algebraic {
             return OperatorSequence::Zero(*this);
         }
 
-        return OperatorSequence{this->precontext.conjugate(seq.raw()), *this};
+        return OperatorSequence{this->precontext.conjugate(seq.raw()), *this, Moment::conjugate(seq.get_sign())};
     }
 
 
-- 
2.43.0


From ba4717f580ba1c88618861cbfdce0245efd7c82a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:03 +0000
Subject: [PATCH 09/47] fix: reducing a multiple of the identity keeps its
 phase

---
 cpp/lib_moment/scenarios/algebraic/operator_rulebook.cpp | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/cpp/lib_moment/scenarios/algebraic/operator_rulebook.cpp b/cpp/lib_moment/scenarios/algebraic/operator_rulebook.cpp
index 52f50f8..acb7591 100644
--- a/cpp/lib_moment/scenarios/algebraic/operator_rulebook.cpp
+++ b/cpp/lib_moment/scenarios/algebraic/operator_rulebook.cpp
@@ -191,9 +191,7 @@ namespace Moment::Algebraic {
 
     HashedSequence OperatorRulebook::reduce(const HashedSequence& input) const {
         // Empty string, or empty rulebook, should just be forwarded
-        if (input.empty()) {
-            return HashedSequence{input.zero()};
-        } else if (this->monomialRules.empty()) {
+        if (input.empty() || this->monomialRules.empty()) {
             return input;
         }
 
-- 
2.43.0


From fc804dc1ab18ad6fe586b3b7aeeaf1ce17c4e33a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:03 +0000
Subject: [PATCH 10/47] fix: a word equal to an imaginary multiple of itself is
 zero, not a trivial rule

---
 cpp/lib_moment/scenarios/algebraic/operator_rule.cpp     | 3 ++-
 cpp/lib_moment/scenarios/algebraic/operator_rulebook.cpp | 2 +-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/cpp/lib_moment/scenarios/algebraic/operator_rule.cpp b/cpp/lib_moment/scenarios/algebraic/operator_rule.cpp
index cd31409..6e98c82 100644
--- a/cpp/lib_moment/scenarios/algebraic/operator_rule.cpp
+++ b/cpp/lib_moment/scenarios/algebraic/operator_rule.cpp
@@ -78,7 +78,8 @@ namespace Moment::Algebraic {
         this->rawLHS.set_sign(SequenceSignType::Positive);
 
         // Determine if rule is trivial
-        this->is_trivial = (this->rawLHS.hash() == this->rawRHS.hash()) && !this->rawRHS.negated();
+        this->is_trivial = (this->rawLHS.hash() == this->rawRHS.hash())
+                            && (this->rawRHS.get_sign() == SequenceSignType::Positive);
 
         // Check rule is a reduction
         if (rawLHS.hash() < rawRHS.hash()) {
diff --git a/cpp/lib_moment/scenarios/algebraic/operator_rulebook.cpp b/cpp/lib_moment/scenarios/algebraic/operator_rulebook.cpp
index acb7591..91cf6d2 100644
--- a/cpp/lib_moment/scenarios/algebraic/operator_rulebook.cpp
+++ b/cpp/lib_moment/scenarios/algebraic/operator_rulebook.cpp
@@ -375,7 +375,7 @@ namespace Moment::Algebraic {
         const SequenceSignType relative_sign = difference(lhs.get_sign(), rhs.get_sign());
 
         // Special reduction if rule implies something is zero:
-        if ((lhs.hash() == rhs.hash()) && (relative_sign == SequenceSignType::Negative)) {
+        if ((lhs.hash() == rhs.hash()) && (relative_sign != SequenceSignType::Positive)) {
             lhs.set_sign(SequenceSignType::Positive);
             return OperatorRule{std::move(lhs), HashedSequence(true)};
         }
-- 
2.43.0


From 82d79474de1e7e6ebca5d526ecccb1db9dd3cd80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:03 +0000
Subject: [PATCH 11/47] fix: a word reduced to zero has no left-over phase

---
 cpp/lib_moment/scenarios/algebraic/operator_rulebook.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cpp/lib_moment/scenarios/algebraic/operator_rulebook.cpp b/cpp/lib_moment/scenarios/algebraic/operator_rulebook.cpp
index 91cf6d2..75ba7ae 100644
--- a/cpp/lib_moment/scenarios/algebraic/operator_rulebook.cpp
+++ b/cpp/lib_moment/scenarios/algebraic/operator_rulebook.cpp
@@ -239,8 +239,7 @@ namespace Moment::Algebraic {
                 input.set_sign(sign_type);
                 break;
             case RawReductionResult::SetToZero:
-                input.raw().clear();
-                input.rehash(0);
+                input.set_to_zero();
                 break;
         }
         return result;
@@ -294,6 +293,7 @@ namespace Moment::Algebraic {
                 if (auto found_rule = this->monomialRules.find(*iter); found_rule != this->monomialRules.end()) {
                     // Reduced to zero?
                     if (found_rule->second.rawRHS.zero()) {
+                        sign_type = SequenceSignType::Positive;
                         return RawReductionResult::SetToZero;
                     }
 
-- 
2.43.0


From b80820e9d06a7c6c4b9ad2cce58a76ebd7b13907 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:03 +0000
Subject: [PATCH 12/47] fix: print the phase of every word, including the empty
 word

---
 cpp/lib_moment/scenarios/algebraic/algebraic_context.cpp | 2 +-
 cpp/lib_moment/scenarios/inflation/inflation_context.cpp | 5 ++++-
 cpp/lib_moment/scenarios/locality/locality_context.cpp   | 5 ++++-
 3 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/cpp/lib_moment/scenarios/algebraic/algebraic_context.cpp b/cpp/lib_moment/scenarios/algebraic/algebraic_context.cpp
index 742c8b3..7d598de 100644
--- a/cpp/lib_moment/scenarios/algebraic/algebraic_context.cpp
+++ b/cpp/lib_moment/scenarios/algebraic/algebraic_context.cpp
@@ -170,7 +170,7 @@ namespace Moment::Algebraic {
         }
 
         if (seq.empty()) {
-            os.os << "1";
+            Context::format_sequence(os, seq); // (multiple of) identity
             return;
         }
 
diff --git a/cpp/lib_moment/scenarios/inflation/inflation_context.cpp b/cpp/lib_moment/scenarios/inflation/inflation_context.cpp
index f697b47..7a72fb6 100644
--- a/cpp/lib_moment/scenarios/inflation/inflation_context.cpp
+++ b/cpp/lib_moment/scenarios/inflation/inflation_context.cpp
@@ -572,13 +572,16 @@ namespace Moment::Inflation {
             return;
         }
         if (seq.empty()) {
-            os.os << "1";
+            Context::format_sequence(os, seq); // (multiple of) identity
             return;
         }
 
         if (seq.negated()) {
             os.os << "-";
         }
+        if (seq.imaginary()) {
+            os.os << "i";
+        }
 
         if (os.format_info.show_braces) {
             os.os << "<";
diff --git a/cpp/lib_moment/scenarios/locality/locality_context.cpp b/cpp/lib_moment/scenarios/locality/locality_context.cpp
index fa1c76c..1d7aeda 100644
--- a/cpp/lib_moment/scenarios/locality/locality_context.cpp
+++ b/cpp/lib_moment/scenarios/locality/locality_context.cpp
@@ -224,13 +224,16 @@ namespace Moment::Locality {
                 return;
             }
             if (seq.empty()) {
-                os << "1";
+                context.Context::format_sequence(os, seq); // (multiple of) identity
                 return;
             }
 
             if (seq.negated()) {
                 os << "-";
             }
+            if (seq.imaginary()) {
+                os << "i";
+            }
 
             if (os.format_info.show_braces) {
                 os << "<";
-- 
2.43.0


From 49ca2c8bb2dea5d2694c4689bf0859ed37bf6a03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:03 +0000
Subject: [PATCH 13/47] fix: relabelling inflation sources keeps the phase of a
 word

---
 cpp/lib_moment/scenarios/inflation/inflation_context.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/cpp/lib_moment/scenarios/inflation/inflation_context.cpp b/cpp/lib_moment/scenarios/inflation/inflation_context.cpp
index 7a72fb6..7fe391b 100644
--- a/cpp/lib_moment/scenarios/inflation/inflation_context.cpp
+++ b/cpp/lib_moment/scenarios/inflation/inflation_context.cpp
@@ -417,10 +417,11 @@ namespace Moment::Inflation {
 
         // If source-relabelling causes change in operator order, there could be further simplifications:
         if (!std::is_sorted(permuted_operators.cbegin(), permuted_operators.cend())) {
-            return this->simplify_as_moment(OperatorSequence{std::move(permuted_operators), *this}); // recurse..!
+            return this->simplify_as_moment(OperatorSequence{std::move(permuted_operators), *this,
+                                                             input.get_sign()}); // recurse..!
         }
 
-        return OperatorSequence{std::move(permuted_operators), *this};
+        return OperatorSequence{std::move(permuted_operators), *this, input.get_sign()};
     }
 
 
-- 
2.43.0


From 5ff5449a5f8ace57604d52bc4b825dd760ab7aef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:39 +0000
Subject: [PATCH 14/47] fix: a rule sending a word to a multiple of itself
 means the word is zero

---
 .../scenarios/algebraic/operator_rule.cpp           | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/cpp/lib_moment/scenarios/algebraic/operator_rule.cpp b/cpp/lib_moment/scenarios/algebraic/operator_rule.cpp
index 6e98c82..7dff4cd 100644
--- a/cpp/lib_moment/scenarios/algebraic/operator_rule.cpp
+++ b/cpp/lib_moment/scenarios/algebraic/operator_rule.cpp
@@ -77,9 +77,16 @@ namespace Moment::Algebraic {
         this->rawRHS.set_sign(difference(this->rawLHS.get_sign(), this->rawRHS.get_sign()));
         this->rawLHS.set_sign(SequenceSignType::Positive);
 
-        // Determine if rule is trivial
-        this->is_trivial = (this->rawLHS.hash() == this->rawRHS.hash())
-                            && (this->rawRHS.get_sign() == SequenceSignType::Positive);
+        // Determine if rule is trivial (A -> A), or implies zero (A -> cA, for c != 1).
+        if (this->rawLHS.hash() == this->rawRHS.hash()) {
+            if (this->rawRHS.zero() || (this->rawRHS.get_sign() == SequenceSignType::Positive)) {
+                this->is_trivial = true;
+            } else {
+                this->rawRHS.set_to_zero();
+                this->map_to_zero = true;
+                this->delta = -static_cast<ptrdiff_t>(this->rawLHS.size());
+            }
+        }
 
         // Check rule is a reduction
         if (rawLHS.hash() < rawRHS.hash()) {
-- 
2.43.0


From 60b1f9d6f9a6b88e104ea1e082431b880e9c42e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:57 +0000
Subject: [PATCH 15/47] fix: multithreaded Hermiticity test compares words with
 their phase

---
 .../operator_matrix_factory_multithreaded.h               | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/cpp/lib_moment/matrix/operator_matrix/operator_matrix_factory_multithreaded.h b/cpp/lib_moment/matrix/operator_matrix/operator_matrix_factory_multithreaded.h
index 1deab54..7e7f9b6 100644
--- a/cpp/lib_moment/matrix/operator_matrix/operator_matrix_factory_multithreaded.h
+++ b/cpp/lib_moment/matrix/operator_matrix/operator_matrix_factory_multithreaded.h
@@ -167,7 +167,7 @@ namespace Moment {
                 if (!this->non_hermitian.has_value()) {
                     const auto& seq = this->bundle.os_data_ptr[diag_idx];
                     const auto conj_seq = seq.conjugate();
-                    if (seq.hash() != conj_seq.hash()) {
+                    if (seq != conj_seq) {
                         this->non_hermitian.emplace(col_idx, col_idx);
                     }
                 }
@@ -188,7 +188,7 @@ namespace Moment {
                         const auto& seq = this->bundle.os_data_ptr[total_idx];
                         const auto conj_seq = seq.conjugate();
                         const auto& tx_seq = this->bundle.os_data_ptr[conj_idx];
-                        if (conj_seq.hash() != tx_seq.hash()) {
+                        if (conj_seq != tx_seq) {
                             this->non_hermitian.emplace(row_idx, col_idx);
                         }
                     }
@@ -224,7 +224,7 @@ namespace Moment {
                 if (!this->non_hermitian.has_value()) {
                     const auto& seq = this->bundle.os_data_ptr[diag_idx];
                     const auto conj_seq = seq.conjugate();
-                    if (seq.hash() != conj_seq.hash()) {
+                    if (seq != conj_seq) {
                         this->non_hermitian.emplace(col_idx, col_idx);
                     }
                 }
@@ -243,7 +243,7 @@ namespace Moment {
                         const auto& seq = this->bundle.os_data_ptr[total_idx];
                         const auto conj_seq = seq.conjugate();
                         const auto& tx_seq = this->bundle.os_data_ptr[conj_idx];
-                        if (conj_seq.hash() != tx_seq.hash()) {
+                        if (conj_seq != tx_seq) {
                             this->non_hermitian.emplace(row_idx, col_idx);
                         }
                     }
-- 
2.43.0


From 79a2a0303425eb1b8111673515ae25d54f58a7e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:57 +0000
Subject: [PATCH 16/47] fix: the monomial of a word keeps the word's phase

---
 cpp/lib_moment/symbolic/symbol_table.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cpp/lib_moment/symbolic/symbol_table.cpp b/cpp/lib_moment/symbolic/symbol_table.cpp
index 7e87051..d47a7df 100644
--- a/cpp/lib_moment/symbolic/symbol_table.cpp
+++ b/cpp/lib_moment/symbolic/symbol_table.cpp
@@ -286,7 +286,7 @@ namespace Moment {
             return Monomial{0};
         }
 
-        return Monomial{this->unique_sequences[id].id, conj};
+        return Monomial{this->unique_sequences[id].id, to_scalar(seq.get_sign()), conj};
     }
 
 
-- 
2.43.0


From 1ba923103dde80a92c52d473fd920a268dd0367b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:57 +0000
Subject: [PATCH 17/47] fix: matrices of words that differ in phase are
 different matrices

---
 .../matrix_system/indices/localizing_matrix_index.h        | 7 ++++++-
 cpp/lib_moment/scenarios/pauli/indices/monomial_index.h    | 7 ++++++-
 2 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/cpp/lib_moment/matrix_system/indices/localizing_matrix_index.h b/cpp/lib_moment/matrix_system/indices/localizing_matrix_index.h
index 5404846..7e2c654 100644
--- a/cpp/lib_moment/matrix_system/indices/localizing_matrix_index.h
+++ b/cpp/lib_moment/matrix_system/indices/localizing_matrix_index.h
@@ -41,7 +41,12 @@ namespace Moment {
             }
 
             // Then by sequence hash...
-            return (this->WordHash < rhs.WordHash);
+            if (this->WordHash != rhs.WordHash) {
+                return (this->WordHash < rhs.WordHash);
+            }
+
+            // Finally, by phase
+            return this->Word.get_sign() < rhs.Word.get_sign();
         }
 
         /**
diff --git a/cpp/lib_moment/scenarios/pauli/indices/monomial_index.h b/cpp/lib_moment/scenarios/pauli/indices/monomial_index.h
index f38185c..994d5db 100644
--- a/cpp/lib_moment/scenarios/pauli/indices/monomial_index.h
+++ b/cpp/lib_moment/scenarios/pauli/indices/monomial_index.h
@@ -62,7 +62,12 @@ namespace Moment::Pauli {
             }
 
             // Tie-break on word hash
-            return this->WordHash < pmmi.WordHash;
+            if (this->WordHash != pmmi.WordHash) {
+                return this->WordHash < pmmi.WordHash;
+            }
+
+            // Finally, by phase
+            return this->Word.get_sign() < pmmi.Word.get_sign();
         }
 
         [[nodiscard]] operator ::Moment::LocalizingMatrixIndex() const {
-- 
2.43.0


From 615ec43258d7b6863a0f149dc0a480331ac7a2ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:56 +0000
Subject: [PATCH 18/47] fix: hash operator words before their storage is moved
 away

---
 cpp/lib_moment/dictionary/operator_sequence.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cpp/lib_moment/dictionary/operator_sequence.cpp b/cpp/lib_moment/dictionary/operator_sequence.cpp
index c51557b..46bf209 100644
--- a/cpp/lib_moment/dictionary/operator_sequence.cpp
+++ b/cpp/lib_moment/dictionary/operator_sequence.cpp
@@ -33,7 +33,7 @@ namespace Moment {
     OperatorSequence::OperatorSequence(sequence_storage_t operators,
                                        const Context &context,
                                        const SequenceSignType sign_type) noexcept
-        : HashedSequence{std::move(operators), context.hash(operators), sign_type}, context{&context} {
+        : HashedSequence{std::move(operators), context.the_hasher(), sign_type}, context{&context} {
         this->to_canonical_form();
     }
 
@@ -41,7 +41,7 @@ namespace Moment {
                                        sequence_storage_t operators,
                                        const Context &context,
                                        const SequenceSignType sign_type) noexcept
-        : HashedSequence{std::move(operators), context.hash(operators), sign_type}, context{&context} {
+        : HashedSequence{std::move(operators), context.the_hasher(), sign_type}, context{&context} {
 
     }
 
-- 
2.43.0


From e32da65a402dd7e61afa107b48122849da0ce7ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:32 +0000
Subject: [PATCH 19/47] fix: value matrices judge zero and anti-Hermitian with
 the given tolerance

---
 cpp/lib_moment/matrix/value_matrix.cpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/cpp/lib_moment/matrix/value_matrix.cpp b/cpp/lib_moment/matrix/value_matrix.cpp
index 783fef0..0a487b2 100644
--- a/cpp/lib_moment/matrix/value_matrix.cpp
+++ b/cpp/lib_moment/matrix/value_matrix.cpp
@@ -87,7 +87,7 @@ namespace Moment {
         }
 
         // Since matrix is real, it can only be anti-Hermitian if it is zero.
-        if (is_zero(data)) {
+        if (is_zero(data, zero_tolerance)) {
             this->antihermitian = true;
         }
 
@@ -106,11 +106,11 @@ namespace Moment {
         }
 
         if (this->hermitian) {
-            if (is_zero(data)) {
+            if (is_zero(data, zero_tolerance)) {
                 this->antihermitian = true;
             }
         } else {
-            this->antihermitian = is_antihermitian(data);
+            this->antihermitian = is_antihermitian(data, zero_tolerance);
         }
 
     }
@@ -128,7 +128,7 @@ namespace Moment {
         }
 
         // Since matrix is real, it can only be anti-Hermitian if it is zero.
-        if (is_zero(data)) {
+        if (is_zero(data, zero_tolerance)) {
             this->antihermitian = true;
         }
 
@@ -148,11 +148,11 @@ namespace Moment {
         }
 
         if (this->hermitian) {
-            if (is_zero(data)) {
+            if (is_zero(data, zero_tolerance)) {
                 this->antihermitian = true;
             }
         } else {
-            this->antihermitian = is_antihermitian(data);
+            this->antihermitian = is_antihermitian(data, zero_tolerance);
         }
     }
 
-- 
2.43.0


From 918a8d0e0efbd421dae0fb88e876dc869bdd07aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:32 +0000
Subject: [PATCH 20/47] fix: polynomial rounding and Hermiticity tests use
 their tolerance parameter

---
 cpp/lib_moment/symbolic/polynomial.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/cpp/lib_moment/symbolic/polynomial.cpp b/cpp/lib_moment/symbolic/polynomial.cpp
index a4191f2..4d893ec 100644
--- a/cpp/lib_moment/symbolic/polynomial.cpp
+++ b/cpp/lib_moment/symbolic/polynomial.cpp
@@ -101,7 +101,7 @@ namespace Moment {
 
     void Polynomial::real_or_imaginary_if_close(double zero_tolerance) noexcept {
         for (auto& elem : this->data) {
-            Moment::real_or_imaginary_if_close(elem.factor);
+            Moment::real_or_imaginary_if_close(elem.factor, zero_tolerance);
         }
     }
 
@@ -223,7 +223,7 @@ namespace Moment {
         for (const auto& elem : this->data) {
 
             // Factors of 0 are always hermitian (but evil...)
-            if (elem.factor == 0.0) {
+            if (approximately_zero(elem.factor, tolerance)) {
                 continue;
             }
 
@@ -296,7 +296,7 @@ namespace Moment {
         for (const auto& elem : this->data) {
 
             // Factors of 0 are always anti-hermitian (but evil...)
-            if (elem.factor == 0.0) {
+            if (approximately_zero(elem.factor, tolerance)) {
                 continue;
             }
 
-- 
2.43.0


From dfe49390b8a26f48d7bc1bf2018bd5a83576b33d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:32 +0000
Subject: [PATCH 21/47] fix: moment rules use the factory's zero tolerance
 throughout

---
 cpp/lib_moment/symbolic/rules/moment_rule.cpp     | 4 ++--
 cpp/lib_moment/symbolic/rules/moment_rulebook.cpp | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/cpp/lib_moment/symbolic/rules/moment_rule.cpp b/cpp/lib_moment/symbolic/rules/moment_rule.cpp
index dc0d698..9d1c403 100644
--- a/cpp/lib_moment/symbolic/rules/moment_rule.cpp
+++ b/cpp/lib_moment/symbolic/rules/moment_rule.cpp
@@ -57,7 +57,7 @@ namespace Moment {
 
             // Remove leading element, multiply out RHS, and conjugate if necessary.
             poly.pop_back();
-            if (!approximately_equal(prefactor, 1.0)) {
+            if (!approximately_equal(prefactor, 1.0, factory.zero_tolerance)) {
                 poly *= prefactor;
             }
             if (needs_conjugate) {
@@ -236,7 +236,7 @@ namespace Moment {
 
         // Clean values.
         this->rhs.real_or_imaginary_if_close(factory.zero_tolerance);
-        real_or_imaginary_if_close(this->lhs_direction);
+        real_or_imaginary_if_close(this->lhs_direction, factory.zero_tolerance);
 
     }
 
diff --git a/cpp/lib_moment/symbolic/rules/moment_rulebook.cpp b/cpp/lib_moment/symbolic/rules/moment_rulebook.cpp
index 9f6999e..6b55314 100644
--- a/cpp/lib_moment/symbolic/rules/moment_rulebook.cpp
+++ b/cpp/lib_moment/symbolic/rules/moment_rulebook.cpp
@@ -56,7 +56,7 @@ namespace Moment {
 
         this->raw_rules.reserve(this->raw_rules.size() + raw.size());
         for (auto [id, value] : raw) {
-            if (approximately_zero(value)) {
+            if (approximately_zero(value, this->factory.zero_tolerance)) {
                 this->raw_rules.emplace_back(Monomial{id});
             } else {
                 this->raw_rules.emplace_back(Polynomial{Monomial{id, 1.0}, Monomial{1, -value}});
@@ -72,7 +72,7 @@ namespace Moment {
         this->raw_rules.reserve(this->raw_rules.size() + raw.size());
         for (auto [id, value] : raw) {
 
-            if (approximately_zero(value)) {
+            if (approximately_zero(value, this->factory.zero_tolerance)) {
                 this->raw_rules.emplace_back(Monomial{id});
             } else {
                 this->raw_rules.emplace_back(this->factory({Monomial{id, 1.0}, Monomial{1, -value}}));
-- 
2.43.0


From f226727174251c94cfe20346825536f8513e2bd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:32 +0000
Subject: [PATCH 22/47] fix: dense map core checks the identity column with its
 tolerance

---
 cpp/lib_moment/scenarios/derived/map_core.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cpp/lib_moment/scenarios/derived/map_core.cpp b/cpp/lib_moment/scenarios/derived/map_core.cpp
index 3e47f8e..db5ad00 100644
--- a/cpp/lib_moment/scenarios/derived/map_core.cpp
+++ b/cpp/lib_moment/scenarios/derived/map_core.cpp
@@ -42,7 +42,7 @@ namespace Moment::Derived {
         this->nontrivial_rows[0] = true;
 
         // Check first column maps ID->ID
-        if (!approximately_equal(input_dense.coeff(0,0), 1.0)) {
+        if (!approximately_equal(input_dense.coeff(0,0), 1.0, eps_mult)) {
             throw errors::bad_map{"First column of transformation must map identity to the identity."};
         }
         auto col_has_any_non_constant = [&input_dense, eps_mult](Eigen::Index col) -> bool {
-- 
2.43.0


From 83206e989a08b0938f95424e1559030e09a011dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:54 +0000
Subject: [PATCH 23/47] fix: sparse zero test honours its tolerance

---
 cpp/lib_moment/utilities/eigen_utils.cpp | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/cpp/lib_moment/utilities/eigen_utils.cpp b/cpp/lib_moment/utilities/eigen_utils.cpp
index 69e994b..f295a94 100644
--- a/cpp/lib_moment/utilities/eigen_utils.cpp
+++ b/cpp/lib_moment/utilities/eigen_utils.cpp
@@ -30,11 +30,27 @@ namespace Moment {
     }
 
     bool is_zero(const Eigen::SparseMatrix<double>& data, double zero_tolerance) noexcept {
-        return (data.nonZeros() == 0);
+        using inner_iter_t = typename Eigen::SparseMatrix<double>::InnerIterator;
+        for (int outer_index = 0; outer_index < data.outerSize(); ++outer_index) {
+            for (inner_iter_t inner_iter(data, outer_index); inner_iter; ++inner_iter) {
+                if (!approximately_zero(inner_iter.value(), zero_tolerance)) {
+                    return false;
+                }
+            }
+        }
+        return true;
     }
 
     bool is_zero(const Eigen::SparseMatrix<std::complex<double>>& data, double zero_tolerance) noexcept {
-        return (data.nonZeros() == 0);
+        using inner_iter_t = typename Eigen::SparseMatrix<std::complex<double>>::InnerIterator;
+        for (int outer_index = 0; outer_index < data.outerSize(); ++outer_index) {
+            for (inner_iter_t inner_iter(data, outer_index); inner_iter; ++inner_iter) {
+                if (!approximately_zero(inner_iter.value(), zero_tolerance)) {
+                    return false;
+                }
+            }
+        }
+        return true;
     }
 
     bool is_hermitian(const Eigen::MatrixXcd& data, double zero_tolerance) noexcept {
-- 
2.43.0


From 09cc3101f2ae6c4f4cde1278e49ddc8d4d5acf19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:41 +0000
Subject: [PATCH 24/47] fix: polynomial conjugacy test compares complex
 symbols, and within tolerance

---
 cpp/lib_moment/matrix/polynomial_matrix.cpp |  2 +-
 cpp/lib_moment/symbolic/polynomial.cpp      | 19 +++++++++++++++----
 cpp/lib_moment/symbolic/polynomial.h        |  4 +++-
 3 files changed, 19 insertions(+), 6 deletions(-)

diff --git a/cpp/lib_moment/matrix/polynomial_matrix.cpp b/cpp/lib_moment/matrix/polynomial_matrix.cpp
index 364ad3b..63d814f 100644
--- a/cpp/lib_moment/matrix/polynomial_matrix.cpp
+++ b/cpp/lib_moment/matrix/polynomial_matrix.cpp
@@ -31,7 +31,7 @@ namespace Moment {
                 for (size_t col = row + 1; col < matrix.dimension; ++col) {
                     const auto &upper = matrix(std::array<size_t,2>{row, col});
                     const auto &lower = matrix(std::array<size_t,2>{col, row});
-                    if (!upper.is_conjugate(table, lower)) {
+                    if (!upper.is_conjugate(table, lower, tolerance)) {
                         return false;
                     }
                 }
diff --git a/cpp/lib_moment/symbolic/polynomial.cpp b/cpp/lib_moment/symbolic/polynomial.cpp
index 4d893ec..075fca2 100644
--- a/cpp/lib_moment/symbolic/polynomial.cpp
+++ b/cpp/lib_moment/symbolic/polynomial.cpp
@@ -13,6 +13,7 @@
 #include "utilities/float_utils.h"
 #include "utilities/format_factor.h"
 
+#include <algorithm>
 #include <iostream>
 #include <sstream>
 
@@ -364,7 +365,8 @@ namespace Moment {
         return true;
     }
 
-    bool Polynomial::is_conjugate(const SymbolTable& symbols, const Polynomial &other) const noexcept {
+    bool Polynomial::is_conjugate(const SymbolTable& symbols, const Polynomial &other,
+                                  const double tolerance) const noexcept {
         if (this->data.size() != other.data.size()) {
             return false;
         }
@@ -386,23 +388,32 @@ namespace Moment {
             assert(!(symbolInfo.is_antihermitian() && symbolInfo.is_hermitian()));
 
             if (symbolInfo.is_hermitian()) {
-                if (!approximately_equal(lhs_elem.factor, std::conj(rhs_elem.factor))) {
+                if (!approximately_equal(lhs_elem.factor, std::conj(rhs_elem.factor), tolerance)) {
                     return false;
                 }
                 // no need to compare conjugation, symbol is real.
             } else if (symbolInfo.is_antihermitian()) {
                 // Symbol is purely imaginary; so either A = -A, or A = A*.
-                if (lhs_elem.factor == std::conj(rhs_elem.factor)) {
+                if (approximately_equal(lhs_elem.factor, std::conj(rhs_elem.factor), tolerance)) {
                     if (lhs_elem.conjugated == rhs_elem.conjugated) {
                         return false;
                     }
-                } else if (lhs_elem.factor == -std::conj(rhs_elem.factor)) {
+                } else if (approximately_equal(lhs_elem.factor, -std::conj(rhs_elem.factor), tolerance)) {
                     if (lhs_elem.conjugated != rhs_elem.conjugated) {
                         return false;
                     }
                 } else {
                     return false;
                 }
+            } else {
+                // Symbol is complex, so kX should be matched by k*X* (X and X* are neighbours; so not always in order).
+                const bool matched = std::any_of(other.data.begin(), other.data.end(), [&](const Monomial& elem) {
+                    return (elem.id == lhs_elem.id) && (elem.conjugated != lhs_elem.conjugated)
+                           && approximately_equal(lhs_elem.factor, std::conj(elem.factor), tolerance);
+                });
+                if (!matched) {
+                    return false;
+                }
             }
         }
 
diff --git a/cpp/lib_moment/symbolic/polynomial.h b/cpp/lib_moment/symbolic/polynomial.h
index 1b72364..4ea779d 100644
--- a/cpp/lib_moment/symbolic/polynomial.h
+++ b/cpp/lib_moment/symbolic/polynomial.h
@@ -352,9 +352,11 @@ namespace Moment {
          * True if other is conjugate of this symbol combo.
          * @param symbols Symbol table (needed to know which symbols are purely real).
          * @param other Polynomial to compare against.
+         * @param tolerance How strict are we about zero?
          * @return True if this and other are Hermitian conjugates of each other.
          */
-        [[nodiscard]] bool is_conjugate(const SymbolTable& symbols, const Polynomial& other) const noexcept;
+        [[nodiscard]] bool is_conjugate(const SymbolTable& symbols, const Polynomial& other,
+                                        double tolerance = 1.0) const noexcept;
 
         /**
          * Named constructor for polynomial zero.
-- 
2.43.0


From 73ed9e0e391ef6a96c69ed118e06ad4c6bff467a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:01 +0000
Subject: [PATCH 25/47] fix: coefficient ordering compares with the factory's
 tolerance

---
 cpp/lib_moment/symbolic/polynomial_ordering.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/cpp/lib_moment/symbolic/polynomial_ordering.h b/cpp/lib_moment/symbolic/polynomial_ordering.h
index 8eee6f6..011ef2f 100644
--- a/cpp/lib_moment/symbolic/polynomial_ordering.h
+++ b/cpp/lib_moment/symbolic/polynomial_ordering.h
@@ -97,9 +97,11 @@ namespace Moment {
             }
 
             // Otherwise, compare coefficient
-            int result = approximately_compare(rhs_elem.factor.real(), lhs_elem.factor.real());
+            int result = approximately_compare(rhs_elem.factor.real(), lhs_elem.factor.real(),
+                                               factory.zero_tolerance);
             if (0 == result) {
-                result = approximately_compare(rhs_elem.factor.imag(), lhs_elem.factor.imag());
+                result = approximately_compare(rhs_elem.factor.imag(), lhs_elem.factor.imag(),
+                                               factory.zero_tolerance);
             }
             return result;
         }
-- 
2.43.0


From ded25ac4bb572446b1127aacf808539680d307e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:13 +0000
Subject: [PATCH 26/47] fix: maximum degree skips symbols without sequence
 instead of looping for ever

---
 cpp/lib_moment/symbolic/monomial_comparator_by_hash.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/cpp/lib_moment/symbolic/monomial_comparator_by_hash.cpp b/cpp/lib_moment/symbolic/monomial_comparator_by_hash.cpp
index de4df98..0b3a76d 100644
--- a/cpp/lib_moment/symbolic/monomial_comparator_by_hash.cpp
+++ b/cpp/lib_moment/symbolic/monomial_comparator_by_hash.cpp
@@ -48,6 +48,7 @@ namespace Moment {
             if (symbol.has_sequence()) {
                 return symbol.sequence().size();
             }
+            ++rev_iter;
         }
 
         // Nothing found; 0 degree
-- 
2.43.0


From 7bd130ff732c83dd6e41901ccd8dc017e456422e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:50 +0000
Subject: [PATCH 27/47] fix: multithreaded extended matrix numbers new symbols
 independently of thread schedule

---
 .../multithreading/extended_matrix_worker.cpp |  1 +
 .../temporary_symbols_and_factors.cpp         | 42 +++++++++++++++++++
 .../temporary_symbols_and_factors.h           |  8 ++++
 3 files changed, 51 insertions(+)

diff --git a/cpp/lib_moment/scenarios/inflation/multithreading/extended_matrix_worker.cpp b/cpp/lib_moment/scenarios/inflation/multithreading/extended_matrix_worker.cpp
index d38d3ba..02a5db7 100644
--- a/cpp/lib_moment/scenarios/inflation/multithreading/extended_matrix_worker.cpp
+++ b/cpp/lib_moment/scenarios/inflation/multithreading/extended_matrix_worker.cpp
@@ -149,6 +149,7 @@ namespace Moment::Multithreading {
 
         this->join_all();
 
+        this->symbols_and_factors.renumber_by_first_appearance(this->output_data);
         this->symbols_and_factors.register_new_symbols_and_factors();
 
         // Move output data
diff --git a/cpp/lib_moment/scenarios/inflation/multithreading/temporary_symbols_and_factors.cpp b/cpp/lib_moment/scenarios/inflation/multithreading/temporary_symbols_and_factors.cpp
index 7be6692..295c4da 100644
--- a/cpp/lib_moment/scenarios/inflation/multithreading/temporary_symbols_and_factors.cpp
+++ b/cpp/lib_moment/scenarios/inflation/multithreading/temporary_symbols_and_factors.cpp
@@ -7,6 +7,7 @@
 
 #include "temporary_symbols_and_factors.h"
 
+#include "symbolic/monomial.h"
 #include "symbolic/symbol_table.h"
 #include "../factor_table.h"
 
@@ -84,6 +85,47 @@ namespace Moment::Multithreading {
         return registered_id; // ~writelock
     }
 
+    void TemporarySymbolsAndFactors::renumber_by_first_appearance(std::span<Monomial> matrix_data) {
+        auto write_lock = this->get_write_lock();
+
+        decltype(this->new_factors) ordered_factors;
+        decltype(this->new_op_seqs) ordered_op_seqs;
+        decltype(this->index_tree) ordered_tree;
+        ordered_factors.reserve(this->new_factors.size());
+        ordered_op_seqs.reserve(this->new_op_seqs.size());
+        std::vector<symbol_name_t> ordered_ids(this->new_factors.size(), -1);
+
+        // Registers symbol, with next number in order
+        const auto assign_id = [&](const size_t index) {
+            ordered_ids[index] = static_cast<symbol_name_t>(this->first_symbol_id + ordered_factors.size());
+            ordered_factors.push_back(std::move(this->new_factors[index]));
+            ordered_op_seqs.push_back(std::move(this->new_op_seqs[index]));
+            ordered_tree.add(*ordered_factors.back(), ordered_ids[index]);
+        };
+
+        for (auto& element : matrix_data) {
+            if (element.id < this->first_symbol_id) {
+                continue;
+            }
+            const size_t index = element.id - this->first_symbol_id;
+            if (ordered_ids[index] < 0) {
+                assign_id(index);
+            }
+            element.id = ordered_ids[index];
+        }
+
+        // Keep anything that does not appear in the matrix
+        for (size_t index = 0; index < ordered_ids.size(); ++index) {
+            if (ordered_ids[index] < 0) {
+                assign_id(index);
+            }
+        }
+
+        this->new_factors = std::move(ordered_factors);
+        this->new_op_seqs = std::move(ordered_op_seqs);
+        this->index_tree.merge_in(std::move(ordered_tree)); // same keys, so all values are overwritten
+    }
+
     void TemporarySymbolsAndFactors::register_new_symbols_and_factors() {
         // Nothing new created, do nothing.
         const auto new_symbol_count = this->next_symbol_id - this->first_symbol_id;
diff --git a/cpp/lib_moment/scenarios/inflation/multithreading/temporary_symbols_and_factors.h b/cpp/lib_moment/scenarios/inflation/multithreading/temporary_symbols_and_factors.h
index 3da3d14..e81ec6c 100644
--- a/cpp/lib_moment/scenarios/inflation/multithreading/temporary_symbols_and_factors.h
+++ b/cpp/lib_moment/scenarios/inflation/multithreading/temporary_symbols_and_factors.h
@@ -12,6 +12,7 @@
 #include "utilities/index_tree.h"
 #include "multithreading/maintains_mutex.h"
 
+#include <span>
 #include <vector>
 
 namespace Moment {
@@ -20,6 +21,7 @@ namespace Moment {
 
         class FactorTable;
     }
+    struct Monomial;
     class OperatorSequence;
     class SymbolTable;
 
@@ -44,6 +46,12 @@ namespace Moment {
 
             symbol_name_t find_or_register_factors(std::span<const symbol_name_t> joint_factors);
 
+            /**
+             * Renumbers the symbols registered so far in order of their first appearance in the supplied matrix data,
+             * so that the outcome does not depend on the order in which worker threads requested them.
+             */
+            void renumber_by_first_appearance(std::span<Monomial> matrix_data);
+
             void register_new_symbols_and_factors();
 
             /**
-- 
2.43.0


From 65d3b9c828fe1d3082b0442195bb49f57847042c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:50 +0000
Subject: [PATCH 28/47] fix: extended matrix keeps no reference into factor
 table while registering factors

---
 cpp/lib_moment/scenarios/inflation/extended_matrix.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cpp/lib_moment/scenarios/inflation/extended_matrix.cpp b/cpp/lib_moment/scenarios/inflation/extended_matrix.cpp
index a4055a5..6f9664d 100644
--- a/cpp/lib_moment/scenarios/inflation/extended_matrix.cpp
+++ b/cpp/lib_moment/scenarios/inflation/extended_matrix.cpp
@@ -112,7 +112,8 @@ namespace Moment::Inflation {
 
             // Make bottom-right block
             for (size_t i = 0, iMax = extension_scalars.size(); i < iMax; ++i) {
-                const auto& row_factors = factors[extension_scalars[i]].canonical.symbols;
+                // Copy, because of possible re-allocation within factor table!
+                const auto row_factors = factors[extension_scalars[i]].canonical.symbols;
                 auto diag_fac_id = combine_and_register_factors(symbols, factors, row_factors, row_factors);
                 const std::array<size_t,2> diag_index{old_dimension+i, old_dimension+i};
                 extended_matrix(diag_index) = Monomial{diag_fac_id};
-- 
2.43.0


From c7c30680168e75ba346955299f4e51a05f3a3bfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:36 +0000
Subject: [PATCH 29/47] fix: moving a Party keeps its list of operators

---
 cpp/lib_moment/scenarios/locality/party.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/cpp/lib_moment/scenarios/locality/party.h b/cpp/lib_moment/scenarios/locality/party.h
index 59fdfbc..307211c 100644
--- a/cpp/lib_moment/scenarios/locality/party.h
+++ b/cpp/lib_moment/scenarios/locality/party.h
@@ -69,6 +69,7 @@ namespace Moment::Locality {
                 global_measurement_offset(rhs.global_measurement_offset),
                 global_operator_offset(rhs.global_operator_offset),
                 party_operator_count(rhs.party_operator_count),
+                included_operators(std::move(rhs.included_operators)),
                 context{rhs.context} { }
 
         Party(party_name_t id, std::string the_name, std::vector<Measurement>&& measurements);
-- 
2.43.0


From 8ebee7ccf603f9cd0da3582631b82977783c81d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:48 +0000
Subject: [PATCH 30/47] fix: read the base system's index under its lock when
 registering a derived matrix

---
 cpp/lib_moment/scenarios/derived/derived_matrix_system.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/cpp/lib_moment/scenarios/derived/derived_matrix_system.cpp b/cpp/lib_moment/scenarios/derived/derived_matrix_system.cpp
index 2a6f7b2..5bfd8a8 100644
--- a/cpp/lib_moment/scenarios/derived/derived_matrix_system.cpp
+++ b/cpp/lib_moment/scenarios/derived/derived_matrix_system.cpp
@@ -243,7 +243,9 @@ namespace Moment::Derived {
     void DerivedMatrixSystem::on_new_moment_matrix(const WriteLock& write_lock, size_t level,
                                                    ptrdiff_t sym_offset, const SymbolicMatrix& mm) {
 
+        auto read_source_lock = this->base_system().get_read_lock();
         auto base_offset = this->base_system().MomentMatrix.find_index(level);
+        read_source_lock.unlock();
         assert(base_offset >= 0);
         auto actual_offset = this->DerivedMatrices.insert_alias(write_lock, base_offset, sym_offset);
         assert(actual_offset == sym_offset);
@@ -253,7 +255,9 @@ namespace Moment::Derived {
     void DerivedMatrixSystem::on_new_localizing_matrix(const WriteLock& write_lock,
                                                        const LocalizingMatrixIndex& lmi, ptrdiff_t sym_offset,
                                                        const SymbolicMatrix& lm) {
+        auto read_source_lock = this->base_system().get_read_lock();
         auto base_offset = this->base_system().LocalizingMatrix.find_index(lmi);
+        read_source_lock.unlock();
         assert(base_offset >= 0);
         auto actual_offset = this->DerivedMatrices.insert_alias(write_lock, base_offset, sym_offset);
         assert(actual_offset == sym_offset);
@@ -262,7 +266,9 @@ namespace Moment::Derived {
     void DerivedMatrixSystem::on_new_polynomial_localizing_matrix(const WriteLock& write_lock,
                                                                   const PolynomialLocalizingMatrixIndex& lmi, ptrdiff_t sym_offset,
                                                                   const PolynomialMatrix& plm) {
+        auto read_source_lock = this->base_system().get_read_lock();
         auto base_offset = this->base_system().PolynomialLocalizingMatrix.find_index(lmi);
+        read_source_lock.unlock();
         assert(base_offset >= 0);
         auto actual_offset = this->DerivedMatrices.insert_alias(write_lock, base_offset, sym_offset);
         assert(actual_offset == sym_offset);
-- 
2.43.0


From cc55df25eb898d5a5234df6c5108cb6c7d32c20e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:10 +0000
Subject: [PATCH 31/47] fix: answer a lost creation race from the look-up made
 under the write lock

---
 cpp/lib_moment/dictionary/dictionary.cpp            | 4 ++--
 cpp/lib_moment/probability/maintains_tensors.cpp    | 6 +++++-
 cpp/lib_moment/scenarios/pauli/pauli_dictionary.cpp | 2 +-
 3 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/cpp/lib_moment/dictionary/dictionary.cpp b/cpp/lib_moment/dictionary/dictionary.cpp
index fae13fe..f56c76b 100644
--- a/cpp/lib_moment/dictionary/dictionary.cpp
+++ b/cpp/lib_moment/dictionary/dictionary.cpp
@@ -51,8 +51,8 @@ namespace Moment {
         std::atomic_thread_fence(std::memory_order_acquire);
         auto reattempt_offset_iter = this->npa_level_to_offset.find(npa_level);
         if (reattempt_offset_iter != this->npa_level_to_offset.cend()) {
-            const ptrdiff_t offset = offset_iter->second;
-            assert(offset >= this->osgs.size());
+            const ptrdiff_t offset = reattempt_offset_iter->second;
+            assert(offset < this->osgs.size());
             return this->osgs[offset]; // Discard pointless creation...!
         }
 
diff --git a/cpp/lib_moment/probability/maintains_tensors.cpp b/cpp/lib_moment/probability/maintains_tensors.cpp
index 4bc2c32..37e3416 100644
--- a/cpp/lib_moment/probability/maintains_tensors.cpp
+++ b/cpp/lib_moment/probability/maintains_tensors.cpp
@@ -42,7 +42,11 @@ namespace Moment  {
             read_lock.unlock();
 
             auto write_lock = this->get_write_lock();
-            this->collinsGisin = this->makeCollinsGisin();
+
+            if (!this->collinsGisin) {  // Double-check, in case scooped.
+                this->collinsGisin = this->makeCollinsGisin();
+            }
+
             const bool has_all_symbols = this->collinsGisin->HasAllSymbols();
             write_lock.unlock();
 
diff --git a/cpp/lib_moment/scenarios/pauli/pauli_dictionary.cpp b/cpp/lib_moment/scenarios/pauli/pauli_dictionary.cpp
index d1d4872..dbe0f6b 100644
--- a/cpp/lib_moment/scenarios/pauli/pauli_dictionary.cpp
+++ b/cpp/lib_moment/scenarios/pauli/pauli_dictionary.cpp
@@ -41,7 +41,7 @@ namespace Moment::Pauli {
         auto recheck_key = this->nn_indices.find(index);
         if (recheck_key != this->nn_indices.cend()) {
             // We were beaten in a race to create OSG, so discard work and return existing OSG.
-            const auto osg_offset = find_key->second;
+            const auto osg_offset = recheck_key->second;
             assert(osg_offset < this->osgs.size());
             return this->osgs[osg_offset]; // ~write_lock, ~new_osg
         }
-- 
2.43.0


From 9a01b91ca6941e5f5d2cb4e59eb2ee2a1de0798b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:40 +0000
Subject: [PATCH 32/47] fix: references to cached operator sequences stay valid
 when further levels are cached

---
 cpp/lib_moment/dictionary/dictionary.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/cpp/lib_moment/dictionary/dictionary.h b/cpp/lib_moment/dictionary/dictionary.h
index 5af507d..9e9b8ff 100644
--- a/cpp/lib_moment/dictionary/dictionary.h
+++ b/cpp/lib_moment/dictionary/dictionary.h
@@ -14,6 +14,7 @@
 #include "multithreading/maintains_mutex.h"
 
 #include <atomic>
+#include <deque>
 #include <map>
 #include <vector>
 
@@ -28,8 +29,8 @@ namespace Moment {
      */
     class Dictionary : protected MaintainsMutex {
     protected:
-        /** List of operator sequences */
-        mutable std::vector<OSGPair> osgs;
+        /** List of operator sequences [deque: references to its elements remain valid as it grows] */
+        mutable std::deque<OSGPair> osgs;
 
         /** Key, linking NPA hierarchy level (e.g. moment matrix level) to generator offset */
         mutable std::map<size_t, size_t> npa_level_to_offset;
-- 
2.43.0


From a03e89160e5726cfc13d2451b933391b5e6aac7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:11 +0000
Subject: [PATCH 33/47] fix: a joint factor that is a prefix of a registered
 one is registered, not assumed known

---
 .../inflation/multithreading/temporary_symbols_and_factors.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/cpp/lib_moment/scenarios/inflation/multithreading/temporary_symbols_and_factors.cpp b/cpp/lib_moment/scenarios/inflation/multithreading/temporary_symbols_and_factors.cpp
index 295c4da..f42d359 100644
--- a/cpp/lib_moment/scenarios/inflation/multithreading/temporary_symbols_and_factors.cpp
+++ b/cpp/lib_moment/scenarios/inflation/multithreading/temporary_symbols_and_factors.cpp
@@ -43,8 +43,7 @@ namespace Moment::Multithreading {
 
         // Can we directly find node?
         auto [hint_tree, hint_factors] = this->index_tree.find_node_or_return_hint(joint_factors);
-        if (hint_factors.empty()) {
-            assert (hint_tree->value().has_value());
+        if (hint_factors.empty() && hint_tree->value().has_value()) {
             return hint_tree->value().value();
         }
 
-- 
2.43.0


From 30dd33c8446ed9f5d797aa9ba0aa69a45cd50062 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:29 +0000
Subject: [PATCH 34/47] fix: a waiting queue consumer cannot miss a wake-up

---
 cpp/lib_moment/multithreading/queue.h | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/cpp/lib_moment/multithreading/queue.h b/cpp/lib_moment/multithreading/queue.h
index 061bc4f..4669133 100644
--- a/cpp/lib_moment/multithreading/queue.h
+++ b/cpp/lib_moment/multithreading/queue.h
@@ -98,6 +98,7 @@ namespace Moment::Multithreading {
                 this->tail->next = std::move(next_node);
                 this->tail = this->tail->next.get();
             }
+            this->synchronize_with_waiting();
             this->data_cv.notify_one();
             // ~tail_lock
         }
@@ -113,12 +114,14 @@ namespace Moment::Multithreading {
                 this->tail->next = std::move(next_node);
                 this->tail = this->tail->next.get();
             }
+            this->synchronize_with_waiting();
             this->data_cv.notify_one();
             // ~tail_lock
         }
 
         void abort() noexcept {
             this->abort_flag.test_and_set(std::memory_order_release);
+            this->synchronize_with_waiting();
             this->data_cv.notify_all();
         }
 
@@ -159,6 +162,14 @@ namespace Moment::Multithreading {
         }
 
     private:
+        /**
+         * Passes through the waiting threads' mutex, so that none of them can miss a subsequent notification
+         * (i.e. by being between its test for data and going to sleep).
+         */
+        void synchronize_with_waiting() const noexcept {
+            std::lock_guard head_lock{this->head_mutex};
+        }
+
         /**
          * Locks the head of queue, and waits until a consistent data entry is ready.
          */
-- 
2.43.0


From f922f2e88b14665e9639c9543fedb29882fb6167 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:19 +0000
Subject: [PATCH 35/47] fix: an exception in a matrix transformation worker
 reaches the caller

---
 .../multithreading/matrix_transformation_worker.h     | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/cpp/lib_moment/multithreading/matrix_transformation_worker.h b/cpp/lib_moment/multithreading/matrix_transformation_worker.h
index 67c4ea7..31de716 100644
--- a/cpp/lib_moment/multithreading/matrix_transformation_worker.h
+++ b/cpp/lib_moment/multithreading/matrix_transformation_worker.h
@@ -99,11 +99,12 @@ namespace Moment::Multithreading {
         // Wait for all threads to finish...
         for (auto &worker: workers) {
             worker.join();
-            // If worker had an exception, propagate it to main thread:
-            if constexpr(!noexcept(the_functor)) {
-                if (worker.exception) {
-                    std::rethrow_exception(worker.exception);
-                }
+        }
+
+        // If a worker had an exception, propagate it to main thread:
+        for (auto &worker: workers) {
+            if (worker.exception) {
+                std::rethrow_exception(worker.exception);
             }
         }
     }
-- 
2.43.0


From 36bcf679c05a9f0586306c4c7682a4ca3ea06447 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:31:03 +0000
Subject: [PATCH 36/47] fix: a failing operator matrix worker ends the
 operation instead of hanging it

---
 .../operator_matrix_factory_multithreaded.h   | 38 ++++++++++++++-----
 1 file changed, 28 insertions(+), 10 deletions(-)

diff --git a/cpp/lib_moment/matrix/operator_matrix/operator_matrix_factory_multithreaded.h b/cpp/lib_moment/matrix/operator_matrix/operator_matrix_factory_multithreaded.h
index 7e7f9b6..9718b86 100644
--- a/cpp/lib_moment/matrix/operator_matrix/operator_matrix_factory_multithreaded.h
+++ b/cpp/lib_moment/matrix/operator_matrix/operator_matrix_factory_multithreaded.h
@@ -87,6 +87,9 @@ namespace Moment {
         void execute() {
             // OSM generation
             this->bundle.ready_to_begin_osm_generation.wait(false, std::memory_order_acquire);
+            if (this->bundle.abandoned.load(std::memory_order_acquire)) {
+                return; // exit thread, nothing (more) to do.
+            }
             try {
                 this->generate_operator_sequence_matrix();
                 this->done_os_generation.set_value(true);
@@ -98,6 +101,9 @@ namespace Moment {
             // Alias generation (if applicable)
             if (this->bundle.factory.context.can_have_aliases()) {
                 this->bundle.ready_to_begin_alias_generation.wait(false, std::memory_order_acquire);
+                if (this->bundle.abandoned.load(std::memory_order_acquire)) {
+                    return; // exit thread, nothing (more) to do.
+                }
                 try {
                     this->generate_aliased_operator_sequence_matrix();
                     this->done_alias_generation.set_value(true);
@@ -311,6 +317,9 @@ namespace Moment {
         std::atomic_flag ready_to_begin_osm_generation;
         std::atomic_flag ready_to_begin_alias_generation;
 
+        /** Set when the bundle is torn down: threads still waiting to begin a step should exit instead. */
+        std::atomic<bool> abandoned = false;
+
         /** Pointer to allocated memory for operator sequence matrix. */
         OperatorSequence * os_data_ptr = nullptr;
 
@@ -365,6 +374,13 @@ namespace Moment {
          * Destructor: gather finished threads.
          */
         ~OperatorMatrixFactoryMultithreaded() noexcept {
+            // Release threads waiting for a step that will never be requested (e.g. because an earlier one failed).
+            this->abandoned.store(true, std::memory_order_release);
+            this->ready_to_begin_osm_generation.test_and_set(std::memory_order_release);
+            this->ready_to_begin_osm_generation.notify_all();
+            this->ready_to_begin_alias_generation.test_and_set(std::memory_order_release);
+            this->ready_to_begin_alias_generation.notify_all();
+
             for (auto& worker : workers) {
                 worker->join();
             }
@@ -444,11 +460,12 @@ namespace Moment {
 
             // Block until all workers are done:
             for (auto& signal : this->done_os_generation) {
-                bool done = false;
-                while (!done) {
-                    signal.wait();
-                    done = signal.get();
-                }
+                signal.wait();
+            }
+
+            // Only then propagate any exception (workers write to memory owned by caller).
+            for (auto& signal : this->done_os_generation) {
+                signal.get();
             }
 
             // Leading thread determines if constructed matrix is Hermitian.
@@ -462,11 +479,12 @@ namespace Moment {
 
             // Block until all workers are done:
             for (auto& signal : this->done_alias_generation) {
-                bool done = false;
-                while (!done) {
-                    signal.wait();
-                    done = signal.get();
-                }
+                signal.wait();
+            }
+
+            // Only then propagate any exception (workers write to memory owned by caller).
+            for (auto& signal : this->done_alias_generation) {
+                signal.get();
             }
         }
 
-- 
2.43.0


From 3e9dd15175387a950a653688276145d7148aec2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:31:03 +0000
Subject: [PATCH 37/47] fix: a failing monomial matrix worker ends the
 operation instead of hanging it

---
 .../matrix/monomial_matrix_factory.cpp        | 42 ++++++++++++-------
 .../matrix/monomial_matrix_factory.h          |  2 +
 2 files changed, 30 insertions(+), 14 deletions(-)

diff --git a/cpp/lib_moment/matrix/monomial_matrix_factory.cpp b/cpp/lib_moment/matrix/monomial_matrix_factory.cpp
index 2c8e1c4..4ecfc88 100644
--- a/cpp/lib_moment/matrix/monomial_matrix_factory.cpp
+++ b/cpp/lib_moment/matrix/monomial_matrix_factory.cpp
@@ -319,6 +319,9 @@ namespace Moment {
 
         // Symbol identification
         this->bundle.ready_to_begin_symbol_identification.wait(false, std::memory_order_acquire);
+        if (this->bundle.abandoned.load(std::memory_order_acquire)) {
+            return; // exit thread
+        }
         try {
             this->identify_unique_symbols();
             this->merge_unique_symbols();
@@ -326,16 +329,18 @@ namespace Moment {
             this->done_symbol_identification.set_value(true);
         } catch(...) {
             this->done_symbol_identification.set_exception(std::current_exception());
-            if (0 != this->worker_id) {
-                // Divide & conquer may be waiting on this...
-                this->bundle.workers[0]->done_symbol_identification.set_exception(std::current_exception());
-            }
+            // Divide & conquer may be waiting on this...
+            this->merge_level.store(0, std::memory_order_release);
+            this->merge_level.notify_all();
             return; // exit thread
         }
 
 
         // Symbol matrix generation
         this->bundle.ready_to_begin_sm_generation.wait(false, std::memory_order_acquire);
+        if (this->bundle.abandoned.load(std::memory_order_acquire)) {
+            return; // exit thread
+        }
         try {
             this->generate_symbol_matrix();
             this->done_sm_generation.set_value(true);
@@ -657,6 +662,13 @@ namespace Moment {
     }
 
     MonomialMatrixFactoryMultithreaded::~MonomialMatrixFactoryMultithreaded() noexcept {
+        // Release threads waiting for a step that will never be requested (e.g. because an earlier one failed).
+        this->abandoned.store(true, std::memory_order_release);
+        this->ready_to_begin_symbol_identification.test_and_set(std::memory_order_release);
+        this->ready_to_begin_symbol_identification.notify_all();
+        this->ready_to_begin_sm_generation.test_and_set(std::memory_order_release);
+        this->ready_to_begin_sm_generation.notify_all();
+
         for (auto& worker : workers) {
             worker->join();
         }
@@ -690,11 +702,12 @@ namespace Moment {
 
         // Block until all workers are done:
         for (auto& signal : this->done_symbol_identification) {
-            bool done = false;
-            while (!done) {
-                signal.wait();
-                done = signal.get();
-            }
+            signal.wait();
+        }
+
+        // Only then propagate any exception
+        for (auto& signal : this->done_symbol_identification) {
+            signal.get();
         }
     }
 
@@ -711,11 +724,12 @@ namespace Moment {
 
         // Block until all workers are done:
         for (auto& signal : this->done_sm_generation) {
-            bool done = false;
-            while (!done) {
-                signal.wait();
-                done = signal.get();
-            }
+            signal.wait();
+        }
+
+        // Only then propagate any exception (workers write to memory owned by caller).
+        for (auto& signal : this->done_sm_generation) {
+            signal.get();
         }
     }
 
diff --git a/cpp/lib_moment/matrix/monomial_matrix_factory.h b/cpp/lib_moment/matrix/monomial_matrix_factory.h
index 113b8cc..eceb91e 100644
--- a/cpp/lib_moment/matrix/monomial_matrix_factory.h
+++ b/cpp/lib_moment/matrix/monomial_matrix_factory.h
@@ -126,6 +126,8 @@ namespace Moment {
         std::atomic_flag ready_to_begin_symbol_identification;
         std::atomic_flag ready_to_begin_sm_generation;
 
+        /** Set when the bundle is torn down: threads still waiting to begin a step should exit instead. */
+        std::atomic<bool> abandoned = false;
 
         /** (Transient!) pointer to allocated memory for monomial matrix */
         Monomial * sm_data_ptr = nullptr;
-- 
2.43.0


From 957dc4c449e87065e643c7ca43a503cc50512430 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:31:03 +0000
Subject: [PATCH 38/47] fix: each element of a Hermitian monomial matrix is
 written by exactly one worker

---
 cpp/lib_moment/matrix/monomial_matrix_factory.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cpp/lib_moment/matrix/monomial_matrix_factory.cpp b/cpp/lib_moment/matrix/monomial_matrix_factory.cpp
index 4ecfc88..60f0ec8 100644
--- a/cpp/lib_moment/matrix/monomial_matrix_factory.cpp
+++ b/cpp/lib_moment/matrix/monomial_matrix_factory.cpp
@@ -587,8 +587,9 @@ namespace Moment {
         const size_t row_length = bundle.dimension;
         const auto prefactor = this->bundle.prefactor;
 
+        // Each pair of transposed elements is written by exactly one worker
         for (size_t col_idx = worker_id; col_idx < row_length; col_idx += max_workers) {
-            for (size_t row_idx = 0; row_idx < row_length; ++row_idx) {
+            for (size_t row_idx = col_idx; row_idx < row_length; ++row_idx) {
 
                 const size_t offset = (col_idx * row_length) + row_idx;
                 const size_t trans_offset = (row_idx * row_length) + col_idx;
-- 
2.43.0


From 0d42021185614de3541a8df79c0badbe2ec35495 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:00 +0000
Subject: [PATCH 39/47] fix: a failing group representation worker ends the
 operation instead of the program

---
 .../group_rep_generation_worker.cpp           | 28 +++++++++++++++++++
 .../symmetrized/group_rep_generation_worker.h | 10 +++++++
 2 files changed, 38 insertions(+)

diff --git a/cpp/lib_moment/scenarios/symmetrized/group_rep_generation_worker.cpp b/cpp/lib_moment/scenarios/symmetrized/group_rep_generation_worker.cpp
index f715aba..bfe950f 100644
--- a/cpp/lib_moment/scenarios/symmetrized/group_rep_generation_worker.cpp
+++ b/cpp/lib_moment/scenarios/symmetrized/group_rep_generation_worker.cpp
@@ -29,6 +29,17 @@ namespace Moment::Multithreading {
     }
 
     void GroupRepGenerationWorker::execute() {
+        try {
+            this->generate_representations();
+        } catch (...) {
+            this->exception = std::current_exception();
+            // Bundle may be waiting on this...
+            this->last_generated_index.store(this->bundle.build_list.size(), std::memory_order_release);
+            this->last_generated_index.notify_all();
+        }
+    }
+
+    void GroupRepGenerationWorker::generate_representations() {
 
         // Wait until it is time to work:
         size_t global_index = 0;
@@ -43,6 +54,9 @@ namespace Moment::Multithreading {
                 this->bundle.global_index.wait(global_index, std::memory_order_relaxed);
                 global_index = this->bundle.global_index.load(std::memory_order_acquire);
             }
+            if (this->bundle.abandoned.load(std::memory_order_acquire)) {
+                return;
+            }
 
             // Get parents, which are guaranteed after wait, to exist
             assert(local_index < this->bundle.build_list.size());
@@ -100,6 +114,7 @@ namespace Moment::Multithreading {
     void GroupRepGenerationBundle::execute() {
         // Set to index 0
         this->global_index.store(0, std::memory_order_release);
+        this->abandoned.store(false, std::memory_order_release);
 
         // Launch threads
         for (auto& worker_ptr : this->workers) {
@@ -122,6 +137,14 @@ namespace Moment::Multithreading {
                 }
             }
 
+            // If any worker failed, stop the others, and propagate exception
+            for (auto& worker_ptr : this->workers) {
+                if (worker_ptr->exception) {
+                    this->join_all();
+                    std::rethrow_exception(worker_ptr->exception);
+                }
+            }
+
             // Make representation from raw data
             this->representations[wl-1] = std::make_unique<Representation>(wl, std::move(rep_raw_data[g_idx]));
 
@@ -148,6 +171,11 @@ namespace Moment::Multithreading {
     }
 
     void GroupRepGenerationBundle::join_all() noexcept {
+        // Release workers waiting for a representation that will never be generated (because an earlier one failed).
+        this->abandoned.store(true, std::memory_order_release);
+        this->global_index.store(this->build_list.size(), std::memory_order_release);
+        this->global_index.notify_all();
+
         for (auto& worker_ptr : this->workers) {
             if (worker_ptr) {
                 worker_ptr->join();
diff --git a/cpp/lib_moment/scenarios/symmetrized/group_rep_generation_worker.h b/cpp/lib_moment/scenarios/symmetrized/group_rep_generation_worker.h
index 970befb..7535522 100644
--- a/cpp/lib_moment/scenarios/symmetrized/group_rep_generation_worker.h
+++ b/cpp/lib_moment/scenarios/symmetrized/group_rep_generation_worker.h
@@ -11,6 +11,7 @@
 #include "group.h"
 
 #include <atomic>
+#include <exception>
 #include <thread>
 
 namespace Moment::Multithreading {
@@ -26,6 +27,9 @@ namespace Moment::Multithreading {
         std::atomic<size_t> last_generated_index;
         std::thread the_thread;
 
+        /** Exception encountered by worker, if any. */
+        std::exception_ptr exception;
+
     public:
         GroupRepGenerationWorker(GroupRepGenerationBundle& bundle,
                                  size_t worker_id, size_t max_workers);
@@ -38,6 +42,9 @@ namespace Moment::Multithreading {
         void execute();
 
         friend class GroupRepGenerationBundle;
+
+    private:
+        void generate_representations();
     };
 
     class GroupRepGenerationBundle {
@@ -58,6 +65,9 @@ namespace Moment::Multithreading {
 
         std::atomic<size_t> global_index;
 
+        /** Set when the bundle is torn down: threads still waiting for a next representation should exit instead. */
+        std::atomic<bool> abandoned = false;
+
     public:
         GroupRepGenerationBundle(std::vector<std::unique_ptr<Symmetrized::Representation>>& representations,
                                  std::vector<std::unique_ptr<Symmetrized::RepresentationMapper>>& mappers,
-- 
2.43.0


From 4a18d34f348b9038b423c770c4e594d8b01dfd0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:00 +0000
Subject: [PATCH 40/47] fix: a failing extended matrix worker ends the
 operation instead of the program

---
 .../multithreading/extended_matrix_worker.cpp    | 16 ++++++++++++++++
 .../multithreading/extended_matrix_worker.h      |  7 +++++++
 2 files changed, 23 insertions(+)

diff --git a/cpp/lib_moment/scenarios/inflation/multithreading/extended_matrix_worker.cpp b/cpp/lib_moment/scenarios/inflation/multithreading/extended_matrix_worker.cpp
index 02a5db7..19c2901 100644
--- a/cpp/lib_moment/scenarios/inflation/multithreading/extended_matrix_worker.cpp
+++ b/cpp/lib_moment/scenarios/inflation/multithreading/extended_matrix_worker.cpp
@@ -39,6 +39,15 @@ namespace Moment::Multithreading {
     }
 
     void ExtendedMatrixWorker::execute() {
+        try {
+            this->extend_matrix();
+        } catch (...) {
+            this->exception = std::current_exception();
+            // ~join
+        }
+    }
+
+    void ExtendedMatrixWorker::extend_matrix() {
         const auto * const src_data = this->bundle.source_symbols.raw_data();
         const size_t src_dimension = this->bundle.source_symbols.Dimension();
         const size_t full_dimension = this->bundle.output_dimension;
@@ -149,6 +158,13 @@ namespace Moment::Multithreading {
 
         this->join_all();
 
+        // If a worker had an exception, propagate it to main thread:
+        for (auto& worker_ptr : this->workers) {
+            if (worker_ptr->exception) {
+                std::rethrow_exception(worker_ptr->exception);
+            }
+        }
+
         this->symbols_and_factors.renumber_by_first_appearance(this->output_data);
         this->symbols_and_factors.register_new_symbols_and_factors();
 
diff --git a/cpp/lib_moment/scenarios/inflation/multithreading/extended_matrix_worker.h b/cpp/lib_moment/scenarios/inflation/multithreading/extended_matrix_worker.h
index 81f164e..e804830 100644
--- a/cpp/lib_moment/scenarios/inflation/multithreading/extended_matrix_worker.h
+++ b/cpp/lib_moment/scenarios/inflation/multithreading/extended_matrix_worker.h
@@ -15,6 +15,7 @@
 #include "tensor/square_matrix.h"
 
 #include <atomic>
+#include <exception>
 #include <memory>
 #include <mutex>
 #include <shared_mutex>
@@ -45,6 +46,10 @@ namespace Moment {
 
         private:
             std::thread the_thread;
+
+            /** Exception encountered by worker, if any. */
+            std::exception_ptr exception;
+
             Monomial * const output_data;
 
             /** Thread-local scratch data for combined factors */
@@ -63,6 +68,8 @@ namespace Moment {
             friend class ExtendedMatrixBundle;
 
         private:
+            void extend_matrix();
+
             symbol_name_t combine_and_register_factors(const std::vector<symbol_name_t>& source_factors,
                                                        const std::vector<symbol_name_t>& extended_factors);
 
-- 
2.43.0


From 84c88961cd4c00c45d5af2f01f141160972e51f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:19:18 +0000
Subject: [PATCH 41/47] fix: full correlator treats the zero symbol as found,
 not as missing

---
 cpp/lib_moment/probability/full_correlator.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cpp/lib_moment/probability/full_correlator.cpp b/cpp/lib_moment/probability/full_correlator.cpp
index 9e39680..7654002 100644
--- a/cpp/lib_moment/probability/full_correlator.cpp
+++ b/cpp/lib_moment/probability/full_correlator.cpp
@@ -62,7 +62,7 @@ namespace Moment {
         const auto cg_offset = this->collinsGisin.index_to_offset_no_checks(index);
         auto cg_elem = this->collinsGisin.elem_no_checks(cg_offset);
 
-        if (cg_elem->symbol_id > 0) {
+        if (cg_elem->symbol_id >= 0) {
             return FullCorrelatorElement{
                     {Monomial{static_cast<symbol_name_t>(cg_offset + 1), 2.0}, Monomial{1, -1.0}},
                     this->symbolPolynomialFactory({Monomial{cg_elem->symbol_id, 2.0}, Monomial{1, -1.0}})
@@ -93,7 +93,7 @@ namespace Moment {
         const auto a_elem = this->collinsGisin.elem_no_checks(a_offset);
         const auto b_elem = this->collinsGisin.elem_no_checks(b_offset);
 
-        const bool has_all = (ab_elem->symbol_id > 0) && (a_elem->symbol_id > 0) && (b_elem->symbol_id > 0);
+        const bool has_all = (ab_elem->symbol_id >= 0) && (a_elem->symbol_id >= 0) && (b_elem->symbol_id >= 0);
         if (has_all) {
             return FullCorrelatorElement{
                     {Monomial{static_cast<symbol_name_t>(ab_offset + 1), 4.0},
-- 
2.43.0


From 5da903ac9e0c1afd02e799502926202c490ad9d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:19:18 +0000
Subject: [PATCH 42/47] fix: basis mask of a monomial includes the first real
 and imaginary basis elements

---
 cpp/lib_moment/symbolic/polynomial_to_basis_mask.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cpp/lib_moment/symbolic/polynomial_to_basis_mask.cpp b/cpp/lib_moment/symbolic/polynomial_to_basis_mask.cpp
index cc0a373..2f19e21 100644
--- a/cpp/lib_moment/symbolic/polynomial_to_basis_mask.cpp
+++ b/cpp/lib_moment/symbolic/polynomial_to_basis_mask.cpp
@@ -99,10 +99,10 @@ namespace Moment {
         }
         auto& symbol_info = this->symbols[monomial.id];
         auto [re_basis_index, im_basis_index] = symbol_info.basis_key();
-        if (re_basis_index > 0) {
+        if (re_basis_index >= 0) {
             real_mask.set(re_basis_index);
         }
-        if (im_basis_index > 0) {
+        if (im_basis_index >= 0) {
             imaginary_mask.set(im_basis_index);
         }
     }
-- 
2.43.0


From a0256a0ff7ba868444b51f4320c994e103ea3fcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:11:13 +0000
Subject: [PATCH 43/47] fix: announce symbols registered for polynomial
 localizing and extended matrices

---
 cpp/lib_moment/matrix_system/matrix_system.cpp    |  5 +++++
 .../inflation/inflation_matrix_system.cpp         | 14 ++++++++++----
 .../scenarios/pauli/pauli_matrix_system.cpp       | 15 +++++++++++++++
 3 files changed, 30 insertions(+), 4 deletions(-)

diff --git a/cpp/lib_moment/matrix_system/matrix_system.cpp b/cpp/lib_moment/matrix_system/matrix_system.cpp
index 37aa9cb..fb77d63 100644
--- a/cpp/lib_moment/matrix_system/matrix_system.cpp
+++ b/cpp/lib_moment/matrix_system/matrix_system.cpp
@@ -148,8 +148,13 @@ namespace Moment {
     MatrixSystem::create_and_register_localizing_matrix(const size_t level, const RawPolynomial& raw_poly,
                                                         Multithreading::MultiThreadPolicy mt_policy) {
         auto write_lock = this->get_write_lock();
+        const size_t prev_symbol_count = this->symbol_table->size();
         auto mat_ptr = PolynomialLocalizingMatrix::create_from_raw(write_lock, *this, this->LocalizingMatrix,
                                                                    level, raw_poly, mt_policy);
+        const size_t new_symbol_count = this->symbol_table->size();
+        if (new_symbol_count > prev_symbol_count) {
+            this->on_new_symbols_registered(write_lock, prev_symbol_count, new_symbol_count);
+        }
         const auto& matrix = *mat_ptr;
         const auto offset = this->push_back(write_lock, std::move(mat_ptr));
         return {offset, matrix};
diff --git a/cpp/lib_moment/scenarios/inflation/inflation_matrix_system.cpp b/cpp/lib_moment/scenarios/inflation/inflation_matrix_system.cpp
index 814272c..0ea435f 100644
--- a/cpp/lib_moment/scenarios/inflation/inflation_matrix_system.cpp
+++ b/cpp/lib_moment/scenarios/inflation/inflation_matrix_system.cpp
@@ -59,10 +59,16 @@ namespace Moment::Inflation {
         }
         auto& monomial_source = dynamic_cast<MonomialMatrix&>(source);
 
-        return std::make_unique<ExtendedMatrix>(this->Symbols(), this->Factors(),
-                                                this->polynomial_factory().zero_tolerance,
-                                                monomial_source, index.extension_list,
-                                                mt_policy);
+        const size_t prev_symbol_count = this->Symbols().size();
+        auto ptr = std::make_unique<ExtendedMatrix>(this->Symbols(), this->Factors(),
+                                                    this->polynomial_factory().zero_tolerance,
+                                                    monomial_source, index.extension_list,
+                                                    mt_policy);
+        const size_t new_symbol_count = this->Symbols().size();
+        if (new_symbol_count > prev_symbol_count) {
+            this->on_new_symbols_registered(lock, prev_symbol_count, new_symbol_count);
+        }
+        return ptr;
     }
 
     std::set<symbol_name_t> InflationMatrixSystem::suggest_extensions(const class MonomialMatrix& matrix) const {
diff --git a/cpp/lib_moment/scenarios/pauli/pauli_matrix_system.cpp b/cpp/lib_moment/scenarios/pauli/pauli_matrix_system.cpp
index ead4209..40a6b17 100644
--- a/cpp/lib_moment/scenarios/pauli/pauli_matrix_system.cpp
+++ b/cpp/lib_moment/scenarios/pauli/pauli_matrix_system.cpp
@@ -33,8 +33,13 @@ namespace Moment::Pauli {
                                                              const RawPolynomial& raw_poly,
                                                              Multithreading::MultiThreadPolicy mt_policy) {
         auto write_lock = this->get_write_lock();
+        const size_t prev_symbol_count = this->Symbols().size();
         auto mat_ptr = Pauli::PolynomialLocalizingMatrix::create_from_raw(write_lock, *this, this->PauliLocalizingMatrices,
                                                                           index, raw_poly, mt_policy);
+        const size_t new_symbol_count = this->Symbols().size();
+        if (new_symbol_count > prev_symbol_count) {
+            this->on_new_symbols_registered(write_lock, prev_symbol_count, new_symbol_count);
+        }
         const auto& matrix = *mat_ptr;
         const auto offset = this->push_back(write_lock, std::move(mat_ptr));
         return {offset, matrix};
@@ -45,8 +50,13 @@ namespace Moment::Pauli {
                                                              const RawPolynomial& raw_poly,
                                                              Multithreading::MultiThreadPolicy mt_policy) {
         auto write_lock = this->get_write_lock();
+        const size_t prev_symbol_count = this->Symbols().size();
         auto mat_ptr = PolynomialCommutatorMatrix::create_from_raw(write_lock, *this, this->CommutatorMatrices,
                                                                    index, raw_poly, mt_policy);
+        const size_t new_symbol_count = this->Symbols().size();
+        if (new_symbol_count > prev_symbol_count) {
+            this->on_new_symbols_registered(write_lock, prev_symbol_count, new_symbol_count);
+        }
         const auto& matrix = *mat_ptr;
         const auto offset = this->push_back(write_lock, std::move(mat_ptr));
         return {offset, matrix};
@@ -57,8 +67,13 @@ namespace Moment::Pauli {
                                                                  const RawPolynomial& raw_poly,
                                                                  Multithreading::MultiThreadPolicy mt_policy) {
         auto write_lock = this->get_write_lock();
+        const size_t prev_symbol_count = this->Symbols().size();
         auto mat_ptr = PolynomialAnticommutatorMatrix::create_from_raw(write_lock, *this, this->AnticommutatorMatrices,
                                                                        index, raw_poly, mt_policy);
+        const size_t new_symbol_count = this->Symbols().size();
+        if (new_symbol_count > prev_symbol_count) {
+            this->on_new_symbols_registered(write_lock, prev_symbol_count, new_symbol_count);
+        }
         const auto& matrix = *mat_ptr;
         const auto offset = this->push_back(write_lock, std::move(mat_ptr));
         return {offset, matrix};
-- 
2.43.0


From 7d0b22f99380630376df669fac2e1a301a61d4e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:19:37 +0000
Subject: [PATCH 44/47] fix: return a reference into the recursive storage, not
 into a copy of it

---
 cpp/lib_moment/utilities/recursive_index.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cpp/lib_moment/utilities/recursive_index.h b/cpp/lib_moment/utilities/recursive_index.h
index 49f3002..260fee4 100644
--- a/cpp/lib_moment/utilities/recursive_index.h
+++ b/cpp/lib_moment/utilities/recursive_index.h
@@ -112,7 +112,7 @@ namespace Moment {
          * @return Reference to the stored value.
          */
         [[nodiscard]] constexpr const type_t& access(std::span<const size_t> indices) const noexcept {
-            auto place = subtree(indices);
+            const auto& place = subtree(indices);
             return place.access();
         }
 
-- 
2.43.0


From 0eca248a1d0c1b20bf2daf7fa8c5e727c1672db1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:40:57 +0000
Subject: [PATCH 45/47] fix: refuse contradictory real/imaginary flags before
 the symbol table is changed

---
 cpp/lib_moment/symbolic/symbol_table.cpp | 23 ++++++++++++++---------
 1 file changed, 14 insertions(+), 9 deletions(-)

diff --git a/cpp/lib_moment/symbolic/symbol_table.cpp b/cpp/lib_moment/symbolic/symbol_table.cpp
index d47a7df..b4b0cde 100644
--- a/cpp/lib_moment/symbolic/symbol_table.cpp
+++ b/cpp/lib_moment/symbolic/symbol_table.cpp
@@ -204,6 +204,18 @@ namespace Moment {
         // Ensure enough elements exist
         const size_t initial_elems = this->unique_sequences.size();
         const size_t elems = can_be_real.bit_size;
+
+        // Refuse before anything is changed: no symbol except 0 may be left without real and without imaginary part
+        for (size_t id = 1; id < std::max(elems, initial_elems); ++id) {
+            const bool real = can_be_real.test(id);
+            const bool imaginary = can_be_imaginary.test(id);
+            const Symbol* known = id < initial_elems ? &this->unique_sequences[id] : nullptr;
+            const bool contradicts = known && ((!imaginary && known->antihermitian) || (!real && known->hermitian));
+            if ((!real && !imaginary) || (real != imaginary && contradicts)) {
+                throw errors::zero_symbol{static_cast<symbol_name_t>(id)};
+            }
+        }
+
         if (elems > initial_elems) {
             this->create(elems - initial_elems);
         }
@@ -224,20 +236,13 @@ namespace Moment {
                         changes = true;
                     }
                     symbol.hermitian = true;
-                    if (symbol.antihermitian) {
-                        throw errors::zero_symbol{symbol.id};
-                    }
                 }
-            } else if (sym_has_imaginary) {
+            } else {
+                assert(sym_has_imaginary);
                 if (!symbol.antihermitian) {
                     changes = true;
                 }
                 symbol.antihermitian = true;
-                if (symbol.hermitian) {
-                    throw errors::zero_symbol{symbol.id};
-                }
-            } else {
-                throw errors::zero_symbol{symbol.id};
             }
         }
 
-- 
2.43.0


From 465ebdadb91ce95f73a694a85e62827b639a31a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:40:57 +0000
Subject: [PATCH 46/47] fix: leave the rulebook's expansion mode on every way
 out

---
 .../scenarios/inflation/inflation_matrix_system.cpp   | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/cpp/lib_moment/scenarios/inflation/inflation_matrix_system.cpp b/cpp/lib_moment/scenarios/inflation/inflation_matrix_system.cpp
index 0ea435f..b5e1f06 100644
--- a/cpp/lib_moment/scenarios/inflation/inflation_matrix_system.cpp
+++ b/cpp/lib_moment/scenarios/inflation/inflation_matrix_system.cpp
@@ -119,10 +119,16 @@ namespace Moment::Inflation {
         assert(&rulebook.factory == &this->polynomial_factory());
 
         // Do not expand rulebook if it does not permit it, or if it is empty
-        if (!rulebook.enable_expansion() || rulebook.empty()) {
+        if (rulebook.empty() || !rulebook.enable_expansion()) {
             return 0;
         }
 
+        // Turn off rulebook's expansion mode however this function ends
+        struct ExpansionEnd {
+            MomentRulebook& rulebook;
+            ~ExpansionEnd() noexcept { rulebook.disable_expansion(); }
+        } expansion_end{rulebook};
+
         const ptrdiff_t initial_rule_count = rulebook.size();
         const auto& poly_factory = rulebook.factory;
 
@@ -184,9 +190,6 @@ namespace Moment::Inflation {
         // Compile rules
         ptrdiff_t final_rule_count = rulebook.complete();
 
-        // Turn off rulebook's expansion mode
-        rulebook.disable_expansion();
-
         // How many rules?
         return final_rule_count - initial_rule_count;
     }
-- 
2.43.0


From f27b970c968b4597b2e2fd43782de053102dec98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:23:39 +0000
Subject: [PATCH 47/47] fix: sums, scaled polynomials and polynomials made from
 a map drop terms that are zero

PolynomialFactory::sum put a zero monomial into its result, Polynomial::scale
kept terms that had become smaller than the tolerance, and the constructor
from a map kept entries of value zero.
---
 cpp/lib_moment/symbolic/polynomial.cpp         |  4 ++++
 cpp/lib_moment/symbolic/polynomial_factory.cpp | 13 +++++++++++++
 2 files changed, 17 insertions(+)

diff --git a/cpp/lib_moment/symbolic/polynomial.cpp b/cpp/lib_moment/symbolic/polynomial.cpp
index 075fca2..d0cafbf 100644
--- a/cpp/lib_moment/symbolic/polynomial.cpp
+++ b/cpp/lib_moment/symbolic/polynomial.cpp
@@ -45,6 +45,7 @@ namespace Moment {
         for (const auto& pair : input) {
             data.emplace_back(pair.first, pair.second);
         }
+        remove_zeros(this->data, 1.0);
     }
 
 
@@ -137,6 +138,9 @@ namespace Moment {
         for (auto& entry : this->data) {
             entry.factor *= factor;
         }
+
+        // Scaled terms could now be too small
+        remove_zeros(this->data, eps_multiplier);
         return *this;
     }
 
diff --git a/cpp/lib_moment/symbolic/polynomial_factory.cpp b/cpp/lib_moment/symbolic/polynomial_factory.cpp
index 1dd0772..dc0a0e7 100644
--- a/cpp/lib_moment/symbolic/polynomial_factory.cpp
+++ b/cpp/lib_moment/symbolic/polynomial_factory.cpp
@@ -94,6 +94,14 @@ namespace Moment {
     }
 
     Polynomial PolynomialFactory::sum(const Monomial& lhs, const Monomial& rhs) const {
+        // Terms that are zero do not appear in the sum
+        if ((rhs.id == 0) || approximately_zero(rhs.factor, this->zero_tolerance)) {
+            return Polynomial(lhs, this->zero_tolerance);
+        }
+        if ((lhs.id == 0) || approximately_zero(lhs.factor, this->zero_tolerance)) {
+            return Polynomial(rhs, this->zero_tolerance);
+        }
+
         // "Monomial"-like sum
         if ((lhs.id == rhs.id) && (lhs.conjugated == rhs.conjugated)) {
             std::complex<double> factor = lhs.factor + rhs.factor;
@@ -113,6 +121,11 @@ namespace Moment {
     }
 
     Polynomial PolynomialFactory::sum(const Polynomial& lhs, const Monomial& rhs) const {
+        // A term that is zero does not appear in the sum
+        if ((rhs.id == 0) || approximately_zero(rhs.factor, this->zero_tolerance)) {
+            return lhs;
+        }
+
         Polynomial output;
         output.data.reserve(lhs.size()+1);
 
-- 
2.43.0

