From 680192fd7ef8ad7a0096f1e9b4a1fcd5f8755fd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:08:19 +0000
Subject: [PATCH 01/45] fix: count array elements in a message's payload length

Array fields were counted as one element, so the header of every message
with an array field (38 of 155) was judged invalid and such messages were
never found in a buffer.
---
 protocol_meta/protocol_meta.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/protocol_meta/protocol_meta.py b/protocol_meta/protocol_meta.py
index 79208a6..7516707 100644
--- a/protocol_meta/protocol_meta.py
+++ b/protocol_meta/protocol_meta.py
@@ -55,8 +55,7 @@ class MavlinkDialectMeta:
         obj: type = dialect.mavlink_map.get(msg_id)  # type: ignore
         if not issubclass(obj, dialect.MAVLink_message):
             raise ValueError()
-        field_types = obj.fieldtypes  # type: ignore
-        return sum(self.field_lengths[field] for field in field_types)
+        return obj.unpacker.size  # type: ignore
 
 
 mav_obj = dialect.MAVLink(1)
-- 
2.43.0


From c9a53df2cb8ffe80dcb42167bff2e80442c29e25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:08:19 +0000
Subject: [PATCH 02/45] fix: messages over max_len must not end the nearest
 header search

An exact match of a message too long for max_len stopped the search, so
the distance returned was not minimal (or no message was returned).
---
 protocol_meta/msg_header.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/protocol_meta/msg_header.py b/protocol_meta/msg_header.py
index d10e819..463232b 100644
--- a/protocol_meta/msg_header.py
+++ b/protocol_meta/msg_header.py
@@ -54,8 +54,10 @@ def hamming_distance_2_valid_header(buffer: bytes, max_len: Optional[int] = None
     chosen_msg_id: int = -1
 
     for msg_id, msg_len in meta.msgs_payload_length.items():
+        if max_len is not None and msg_len > max_len:
+            continue
         candidate_dist = hamming_distance(msg_len, buffer[1]) + hamming_distance(msg_id, buffer[5])
-        if candidate_dist < min_dist and (max_len is None or msg_len <= max_len):
+        if candidate_dist < min_dist:
             min_dist = candidate_dist
             chosen_msg_id = msg_id
         if candidate_dist == 0:
-- 
2.43.0


From 67244fda6b2e70af1fc6e33c820b74bb6669b51a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:08:19 +0000
Subject: [PATCH 03/45] fix: compare counts with counts in a cluster's majority
 bits

The count of ones was compared with the frequency of zeros, so a single
one among many zeros made the majority bit one.
---
 inference/clustering.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/inference/clustering.py b/inference/clustering.py
index 489486d..1b69886 100644
--- a/inference/clustering.py
+++ b/inference/clustering.py
@@ -15,7 +15,7 @@ class Cluster:
 
     @property
     def hard_bits(self) -> NDArray[np.int_]:
-        return np.array(self._data[:, 1] > self.dist[:, 0], dtype=np.int_)
+        return np.array(self._data[:, 1] > self._data[:, 0], dtype=np.int_)
 
     @property
     def dist(self) -> NDArray[np.float_]:
-- 
2.43.0


From acb7599ed36a00ee91534316fe37f4c14688bddf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:08:19 +0000
Subject: [PATCH 04/45] fix: learn from buffers whose bits are all equal

The estimated distribution had a column per value seen, so all zero (or
all one) data gave a single column and an IndexError in the classifier
and in every decoder learning bit distributions.
---
 decoders/classifiying_decoder.py     |  5 ++---
 decoders/combined_decoder.py         |  5 ++---
 decoders/combined_unified_decoder.py |  5 ++---
 decoders/entropy_bitwise_decoder.py  | 14 +++++++++-----
 inference/clustering.py              |  6 +++---
 5 files changed, 18 insertions(+), 17 deletions(-)

diff --git a/decoders/classifiying_decoder.py b/decoders/classifiying_decoder.py
index 625c325..4aee8d6 100644
--- a/decoders/classifiying_decoder.py
+++ b/decoders/classifiying_decoder.py
@@ -5,7 +5,7 @@ from numpy.typing import NDArray
 import numpy as np
 from typing import Optional
 from utils.custom_exceptions import IncorrectBufferLength
-from utils.information_theory import prob, entropy
+from utils.information_theory import entropy
 
 
 class ClassifyingEntropyDecoder(Decoder):
@@ -154,8 +154,7 @@ class ClassifyingEntropyDecoder(Decoder):
             # trim old messages according to window
             self.models_data[cluster_id] = self.models_data[cluster_id][
                                            :, self.models_data[cluster_id].shape[1] - self.window_length:]
-        dist = prob(self.models_data[cluster_id])
-        v = dist[:, 1]
+        v = np.mean(self.models_data[cluster_id], axis=1)
         p1 = np.clip((v - self.bit_flip) / (1 - 2 * self.bit_flip), 0, 1)
         self.distributions[cluster_id] = np.column_stack((1 - p1, p1))
         # mu equals p1
diff --git a/decoders/combined_decoder.py b/decoders/combined_decoder.py
index 78c0a1e..4fc48b9 100644
--- a/decoders/combined_decoder.py
+++ b/decoders/combined_decoder.py
@@ -7,7 +7,7 @@ from numpy.typing import NDArray, ArrayLike
 import numpy as np
 from typing import Any
 from utils.custom_exceptions import IncorrectBufferLength
-from utils.information_theory import prob, entropy
+from utils.information_theory import entropy
 
 
 def confusion(predicted_positive: ArrayLike, actual_positive: NDArray[np.int_], negative: int) -> NDArray[np.int_]:
@@ -111,8 +111,7 @@ class CombinedDecoder(Decoder):
             # trim old messages according to window
             self.entropy_models_data[cluster_id] = self.entropy_models_data[cluster_id][
                                                    :, self.entropy_models_data[cluster_id].shape[1] - self.window_length:]
-        dist = prob(self.entropy_models_data[cluster_id])
-        v = dist[:, 1]
+        v = np.mean(self.entropy_models_data[cluster_id], axis=1)
         p1 = np.clip((v - self.bit_flip) / (1 - 2 * self.bit_flip), 0, 1)
         self.distributions[cluster_id] = np.column_stack((1 - p1, p1))
         # mu equals p1
diff --git a/decoders/combined_unified_decoder.py b/decoders/combined_unified_decoder.py
index a080bfd..20f52c6 100644
--- a/decoders/combined_unified_decoder.py
+++ b/decoders/combined_unified_decoder.py
@@ -7,7 +7,7 @@ from numpy.typing import NDArray, ArrayLike
 import numpy as np
 from typing import Any
 from utils.custom_exceptions import IncorrectBufferLength
-from utils.information_theory import prob, entropy
+from utils.information_theory import entropy
 
 
 def confusion(predicted_positive: ArrayLike, actual_positive: NDArray[np.int_], negative: int) -> NDArray[np.int_]:
@@ -121,8 +121,7 @@ class CombinedUnifiedDecoder(Decoder):
             # trim old messages according to window
             self.entropy_models_data[cluster_id] = self.entropy_models_data[cluster_id][
                                                    :, self.entropy_models_data[cluster_id].shape[1] - self.window_length:]
-        dist = prob(self.entropy_models_data[cluster_id])
-        v = dist[:, 1]
+        v = np.mean(self.entropy_models_data[cluster_id], axis=1)
         p1 = np.clip((v - self.bit_flip) / (1 - 2 * self.bit_flip), 0, 1)
         self.distributions[cluster_id] = np.column_stack((1 - p1, p1))
         # mu equals p1
diff --git a/decoders/entropy_bitwise_decoder.py b/decoders/entropy_bitwise_decoder.py
index 3816b25..d474c53 100644
--- a/decoders/entropy_bitwise_decoder.py
+++ b/decoders/entropy_bitwise_decoder.py
@@ -7,7 +7,7 @@ from numpy.typing import NDArray
 import numpy as np
 from typing import Optional
 from utils.custom_exceptions import IncorrectBufferLength
-from utils.information_theory import prob, entropy
+from utils.information_theory import entropy
 
 
 class EntropyBitwiseDecoder(Decoder):
@@ -97,7 +97,8 @@ class EntropyBitwiseDecoder(Decoder):
         if (self.window_length is not None) and self.model_data.shape[1] > self.window_length:
             # trim old messages according to window
             self.model_data = self.model_data[:, self.model_data.shape[1] - self.window_length:]
-        self.distribution = prob(self.model_data)
+        p1 = np.mean(self.model_data, axis=1)
+        self.distribution = np.column_stack((1 - p1, p1))
         self.entropy = entropy(self.distribution)
 
     def model_prediction(self, observation: NDArray[np.float_]) -> NDArray[np.float_]:
@@ -207,7 +208,8 @@ class EntropyBitwiseFlippingDecoder(Decoder):
         if (self.window_length is not None) and self.model_data.shape[1] > self.window_length:
             # trim old messages according to window
             self.model_data = self.model_data[:, self.model_data.shape[1] - self.window_length:]
-        self.distribution = prob(self.model_data)
+        p1 = np.mean(self.model_data, axis=1)
+        self.distribution = np.column_stack((1 - p1, p1))
         self.entropy = entropy(self.distribution)
 
     def model_prediction(self, observation: NDArray[np.int_]) -> NDArray[np.int_]:
@@ -372,7 +374,8 @@ class EntropyBitwiseWeightedDecoder(Decoder):
             if (self.window_length is not None) and self.model_a_data.shape[1] > self.window_length:
                 # trim old messages according to window
                 self.model_a_data = self.model_a_data[:, self.model_a_data.shape[1] - self.window_length:]
-            self.a_distribution = prob(self.model_a_data)
+            p1 = np.mean(self.model_a_data, axis=1)
+            self.a_distribution = np.column_stack((1 - p1, p1))
             if self.corrected_dist:
                 v = self.a_distribution[:, 1]
                 p1 = np.clip((v - self.bit_flip) / (1 - 2 * self.bit_flip), 0, 1)
@@ -424,7 +427,8 @@ class EntropyBitwiseWeightedDecoder(Decoder):
             if (self.window_length is not None) and self.model_b_data.shape[1] > self.window_length:
                 # trim old messages according to window
                 self.model_b_data = self.model_b_data[:, self.model_b_data.shape[1] - self.window_length:]
-            self.b_distribution = prob(self.model_b_data)
+            p1 = np.mean(self.model_b_data, axis=1)
+            self.b_distribution = np.column_stack((1 - p1, p1))
             if self.corrected_dist:
                 v = self.b_distribution[:, 1]
                 p1 = np.clip((v - self.bit_flip) / (1 - 2 * self.bit_flip), 0, 1)
diff --git a/inference/clustering.py b/inference/clustering.py
index 1b69886..a54939e 100644
--- a/inference/clustering.py
+++ b/inference/clustering.py
@@ -2,7 +2,7 @@ from itertools import combinations
 from bitstring import Bits
 from numpy.typing import NDArray
 import numpy as np
-from utils.information_theory import prob, hellinger
+from utils.information_theory import hellinger
 from utils.bit_operations import hamming_distance
 from scipy.stats import entropy
 
@@ -62,8 +62,8 @@ class BufferClassifier:
     def classify(self, buffer: Bits) -> int:
         self.samples += 1
         if self.samples < self.min_data_size:
-            sample = np.array(buffer, dtype=np.int_)[np.newaxis].T
-            self.__add_cluster(prob(sample))
+            sample = np.array(buffer, dtype=np.int_)
+            self.__add_cluster(np.column_stack((sample == 0, sample == 1)).astype(np.float_))
             return -1
         if not self.init:
             self.merge_clusters()
-- 
2.43.0


From a52cb54985fd14367dd8ef05376c06b9256bd7f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:08:19 +0000
Subject: [PATCH 05/45] fix: Hellinger distance of equal distributions is zero,
 not NaN

The sum of probabilities may round to just over one.
---
 utils/information_theory.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/utils/information_theory.py b/utils/information_theory.py
index 84cbe60..217c714 100644
--- a/utils/information_theory.py
+++ b/utils/information_theory.py
@@ -99,9 +99,9 @@ def hellinger(pk: npt.NDArray[Any], qk: npt.NDArray[Any]) -> npt.NDArray[np.floa
     row is a dimension, and the number of columns equals the support size.
     """
     if pk.ndim == 2 and qk.ndim == 2:
-        return np.sqrt(1 - np.sum(np.sqrt(pk * qk), axis=1))  # type: ignore
+        return np.sqrt(np.maximum(1 - np.sum(np.sqrt(pk * qk), axis=1), 0))  # type: ignore
     if pk.ndim == 1 and qk.ndim == 1:
-        return np.sqrt(1 - np.sum(np.sqrt(pk * qk)))  # type: ignore
+        return np.sqrt(np.maximum(1 - np.sum(np.sqrt(pk * qk)), 0))  # type: ignore
     raise ValueError("incorrect dimensions")
 
 
-- 
2.43.0


From 2019c1ce47c54b11fcb4713102d255554cd7385f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:08:19 +0000
Subject: [PATCH 06/45] fix: do not add the model to the caller's channel llr

ClassifyingDudeDecoder changed the array it was given to decode.
---
 decoders/classifying_DUDE_decoder.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/decoders/classifying_DUDE_decoder.py b/decoders/classifying_DUDE_decoder.py
index eb321e1..98992a1 100644
--- a/decoders/classifying_DUDE_decoder.py
+++ b/decoders/classifying_DUDE_decoder.py
@@ -98,10 +98,11 @@ class ClassifyingDudeDecoder(Decoder):
         #         self.model_bits_idx[self.models_entropy[label] < self.entropy_threshold], label
         clipping = self.clipping_factor * max(np.abs(channel_llr))  # llr s clipped within +-clipping
         model_llr = self.model_prediction(channel_bits, label)  # type: ignore
-        channel_llr[self.model_bits_idx] += model_llr
-        channel_llr = np.clip(channel_llr, -clipping, clipping)
-        denoised_bits = np.array(channel_llr < 0, dtype=np.int_)
-        estimate, llr, decode_success, iterations, syndrome, vnode_validity = self.ldpc_decoder.decode(channel_llr)
+        decoder_input = channel_llr.copy()
+        decoder_input[self.model_bits_idx] += model_llr
+        decoder_input = np.clip(decoder_input, -clipping, clipping)
+        denoised_bits = np.array(decoder_input < 0, dtype=np.int_)
+        estimate, llr, decode_success, iterations, syndrome, vnode_validity = self.ldpc_decoder.decode(decoder_input)
         # model_bits = estimate[self.model_bits_idx]
         # if decode_success:  # buffer fully recovered
         #     self.update_model(model_bits, label)
-- 
2.43.0


From 91359681346921e303f85fb38cb87a36deb28ea4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:08:19 +0000
Subject: [PATCH 07/45] fix: pack information bits to bytes before looking for
 messages

The decoder returns an integer array of bits, whose tobytes() has eight
bytes per bit: no message was ever found, and decoding with a known
structure raised ValueError when padding the result.
---
 decoders/combined_decoder.py         | 6 +++---
 decoders/combined_unified_decoder.py | 6 +++---
 decoders/mavlink_decoder.py          | 6 +++---
 3 files changed, 9 insertions(+), 9 deletions(-)

diff --git a/decoders/combined_decoder.py b/decoders/combined_decoder.py
index 4fc48b9..9c2cf32 100644
--- a/decoders/combined_decoder.py
+++ b/decoders/combined_decoder.py
@@ -184,14 +184,14 @@ class CombinedDecoder(Decoder):
 
         # try to run buffer segmentation on the modified llr and on the original llr. If segmentation is able to locate
         # a mavlink message, these bits are good and should be forced.
-        info_bytes = self.ldpc_decoder.info_bits(np.array(observation < 0, dtype=np.int_)).tobytes()
+        info_bytes = np.packbits(self.ldpc_decoder.info_bits(np.array(observation < 0, dtype=np.int_))).tobytes()
         parts, valid_info_bits, structure = self.bs.segment_buffer(info_bytes)
         if structure:
             modified_llr[np.where(valid_info_bits == 1)[0]] = observation[np.where(valid_info_bits == 1)[0]] * 2 * valid_factor
             print("found segmentation")
             # multiply by 2 for confidence
         else:
-            info_bytes = self.ldpc_decoder.info_bits(np.array(modified_llr < 0, dtype=np.int_)).tobytes()
+            info_bytes = np.packbits(self.ldpc_decoder.info_bits(np.array(modified_llr < 0, dtype=np.int_))).tobytes()
             parts, valid_info_bits, structure = self.bs.segment_buffer(info_bytes)
             if structure:
                 modified_llr[np.where(valid_info_bits == 1)[0]] *= 2
@@ -287,7 +287,7 @@ class CombinedDecoder(Decoder):
             if self.mavlink_learning:
                 if decode_success:  # buffer fully recovered
                     if self.buffer_structures[label] is None:
-                        info_bytes = self.ldpc_decoder.info_bits(estimate).tobytes()
+                        info_bytes = np.packbits(self.ldpc_decoder.info_bits(estimate)).tobytes()
                         parts, validity, structure = self.bs.segment_buffer(info_bytes)
                         self.buffer_structures[label] = structure
                     self.model.add_buffer(estimate, self.buffer_structures[label])
diff --git a/decoders/combined_unified_decoder.py b/decoders/combined_unified_decoder.py
index 20f52c6..de9eee9 100644
--- a/decoders/combined_unified_decoder.py
+++ b/decoders/combined_unified_decoder.py
@@ -214,14 +214,14 @@ class CombinedUnifiedDecoder(Decoder):
 
         # try to run buffer segmentation on the modified llr and on the original llr. If segmentation is able to locate
         # a mavlink message, these bits are good and should be forced.
-        info_bytes = self.ldpc_decoder.info_bits(np.array(observation < 0, dtype=np.int_)).tobytes()
+        info_bytes = np.packbits(self.ldpc_decoder.info_bits(np.array(observation < 0, dtype=np.int_))).tobytes()
         parts, valid_info_bits, structure = self.bs.segment_buffer(info_bytes)
         if structure:
             modified_llr[np.where(valid_info_bits == 1)[0]] = observation[np.where(valid_info_bits == 1)[0]] * 2 * valid_factor
             print("found segmentation")
             # multiply by 2 for confidence
         else:
-            info_bytes = self.ldpc_decoder.info_bits(np.array(modified_llr < 0, dtype=np.int_)).tobytes()
+            info_bytes = np.packbits(self.ldpc_decoder.info_bits(np.array(modified_llr < 0, dtype=np.int_))).tobytes()
             parts, valid_info_bits, structure = self.bs.segment_buffer(info_bytes)
             if structure:
                 modified_llr[np.where(valid_info_bits == 1)[0]] *= 2
@@ -317,7 +317,7 @@ class CombinedUnifiedDecoder(Decoder):
             if self.mavlink_learning:
                 if decode_success:  # buffer fully recovered
                     if self.buffer_structures[label] is None:
-                        info_bytes = self.ldpc_decoder.info_bits(estimate).tobytes()
+                        info_bytes = np.packbits(self.ldpc_decoder.info_bits(estimate)).tobytes()
                         parts, validity, structure = self.bs.segment_buffer(info_bytes)
                         self.buffer_structures[label] = structure
                     self.model.add_buffer(estimate, self.buffer_structures[label])
diff --git a/decoders/mavlink_decoder.py b/decoders/mavlink_decoder.py
index 56aef63..3f120a6 100644
--- a/decoders/mavlink_decoder.py
+++ b/decoders/mavlink_decoder.py
@@ -140,7 +140,7 @@ class MavlinkRectifyingDecoder(Decoder):
         if self.learning:
             if decode_success:  # buffer fully recovered
                 if self.buffer_structures[label] is None:
-                    info_bytes = self.ldpc_decoder.info_bits(estimate).tobytes()
+                    info_bytes = np.packbits(self.ldpc_decoder.info_bits(estimate)).tobytes()
                     parts, validity, structure = self.bs.segment_buffer(info_bytes)
                     self.buffer_structures[label] = structure
                 self.model.add_buffer(estimate, self.buffer_structures[label])
@@ -212,14 +212,14 @@ class MavlinkRectifyingDecoder(Decoder):
 
         # try to run buffer segmentation on the modified llr and on the original llr. If segmentation is able to locate
         # a mavlink message, these bits are good and should be forced.
-        info_bytes = self.ldpc_decoder.info_bits(np.array(observation < 0, dtype=np.int_)).tobytes()
+        info_bytes = np.packbits(self.ldpc_decoder.info_bits(np.array(observation < 0, dtype=np.int_))).tobytes()
         parts, valid_info_bits, structure = self.bs.segment_buffer(info_bytes)
         if structure:
             modified_llr[np.where(valid_info_bits == 1)[0]] = observation[np.where(valid_info_bits == 1)[0]] * 2 * valid_factor
             print("found segmentation")
             # multiply by 2 for confidence
         else:
-            info_bytes = self.ldpc_decoder.info_bits(np.array(modified_llr < 0, dtype=np.int_)).tobytes()
+            info_bytes = np.packbits(self.ldpc_decoder.info_bits(np.array(modified_llr < 0, dtype=np.int_))).tobytes()
             parts, valid_info_bits, structure = self.bs.segment_buffer(info_bytes)
             if structure:
                 modified_llr[np.where(valid_info_bits == 1)[0]] *= 2
-- 
2.43.0


From e08d462485e11046592ecced89fc9fd1f2072148 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:08:19 +0000
Subject: [PATCH 08/45] fix: do not learn a structure while the classifier is
 training

The label is -1 then, so the structure was stored as that of the last
cluster.
---
 decoders/mavlink_decoder.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/decoders/mavlink_decoder.py b/decoders/mavlink_decoder.py
index 3f120a6..ab9c3b4 100644
--- a/decoders/mavlink_decoder.py
+++ b/decoders/mavlink_decoder.py
@@ -137,7 +137,7 @@ class MavlinkRectifyingDecoder(Decoder):
     def decode_and_update_model(self, llr, label, channel_bits) -> tuple[
         NDArray[np.int_], NDArray[np.float_], bool, int, NDArray[np.int_], NDArray[np.int_], int]:
         estimate, llr, decode_success, iterations, syndrome, vnode_validity = self.ldpc_decoder.decode(llr)
-        if self.learning:
+        if self.learning and label >= 0:
             if decode_success:  # buffer fully recovered
                 if self.buffer_structures[label] is None:
                     info_bytes = np.packbits(self.ldpc_decoder.info_bits(estimate)).tobytes()
-- 
2.43.0


From b8d09aa1132d551084719f5150dd15eae1855942 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:08:19 +0000
Subject: [PATCH 09/45] fix: use the model when only the first bit is
 structural

The bit indices were tested for a non zero index rather than for being
empty.
---
 decoders/classifiying_decoder.py     | 4 ++--
 decoders/combined_decoder.py         | 2 +-
 decoders/combined_unified_decoder.py | 2 +-
 decoders/entropy_bitwise_decoder.py  | 2 +-
 4 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/decoders/classifiying_decoder.py b/decoders/classifiying_decoder.py
index 4aee8d6..a10fbda 100644
--- a/decoders/classifiying_decoder.py
+++ b/decoders/classifiying_decoder.py
@@ -173,7 +173,7 @@ class ClassifyingEntropyDecoder(Decoder):
         structural_elements: NDArray[np.int_] = self.model_bits_idx[
             self.models_entropy[cluster_id] < self.entropy_threshold]
 
-        if not structural_elements.any():  # no structural elements found
+        if structural_elements.size == 0:  # no structural elements found
             return llr
         if self.train_models:
             size = self.models_data[cluster_id].shape[1] if self.models_data[cluster_id].size > 0 else 0
@@ -227,7 +227,7 @@ class ClassifyingEntropyDecoder(Decoder):
                 if size>= self.window_length:
                     structural_elements: NDArray[np.int_] = self.model_bits_idx[
                         self.models_entropy[0] < self.entropy_threshold]
-                    if structural_elements.any():
+                    if structural_elements.size > 0:
                         samples[structural_elements] = model_bits[structural_elements]
         return samples, priors
 
diff --git a/decoders/combined_decoder.py b/decoders/combined_decoder.py
index 9c2cf32..2df717e 100644
--- a/decoders/combined_decoder.py
+++ b/decoders/combined_decoder.py
@@ -80,7 +80,7 @@ class CombinedDecoder(Decoder):
         structural_elements: NDArray[np.int_] = self.model_bits_idx[
             self.models_entropy[cluster_id] < self.entropy_threshold]
 
-        if not structural_elements.any():  # no structural elements found
+        if structural_elements.size == 0:  # no structural elements found
             return None
 
         size = self.entropy_models_data[cluster_id].shape[1] if self.entropy_models_data[cluster_id].size > 0 else 0
diff --git a/decoders/combined_unified_decoder.py b/decoders/combined_unified_decoder.py
index de9eee9..31e929d 100644
--- a/decoders/combined_unified_decoder.py
+++ b/decoders/combined_unified_decoder.py
@@ -90,7 +90,7 @@ class CombinedUnifiedDecoder(Decoder):
         structural_elements: NDArray[np.int_] = self.model_bits_idx[
             self.models_entropy[cluster_id] < self.entropy_threshold]
 
-        if not structural_elements.any():  # no structural elements found
+        if structural_elements.size == 0:  # no structural elements found
             return None
 
         size = self.entropy_models_data[cluster_id].shape[1] if self.entropy_models_data[cluster_id].size > 0 else 0
diff --git a/decoders/entropy_bitwise_decoder.py b/decoders/entropy_bitwise_decoder.py
index d474c53..5fb4be6 100644
--- a/decoders/entropy_bitwise_decoder.py
+++ b/decoders/entropy_bitwise_decoder.py
@@ -460,7 +460,7 @@ class EntropyBitwiseWeightedDecoder(Decoder):
         a_structural_elements: NDArray[np.int_] = self.model_bits_idx[self.a_entropy < self.entropy_threshold]
         b_structural_elements: NDArray[np.int_] = self.model_bits_idx[self.b_entropy < self.entropy_threshold]
 
-        if (not a_structural_elements.any()) and (not b_structural_elements.any()):  # no structural elements found
+        if a_structural_elements.size == 0 and b_structural_elements.size == 0:  # no structural elements found
             return llr
 
         if self.estimator == "Bayes":
-- 
2.43.0


From a37e32e24446ab4eaf1cc09937c8c36d55d6ac4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:08:19 +0000
Subject: [PATCH 10/45] fix: clip to the largest channel llr magnitude

The largest signed value was used: a word with no or only weak zero bits
was clipped to (nearly) nothing, or to inverted bounds.
---
 decoders/classifiying_decoder.py    | 2 +-
 decoders/entropy_bitwise_decoder.py | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/decoders/classifiying_decoder.py b/decoders/classifiying_decoder.py
index a10fbda..8458b3a 100644
--- a/decoders/classifiying_decoder.py
+++ b/decoders/classifiying_decoder.py
@@ -107,7 +107,7 @@ class ClassifyingEntropyDecoder(Decoder):
         #         self.model_bits_idx[self.models_entropy[label] < self.entropy_threshold], label
         model_llr = self.model_prediction(len(channel_llr), label)  # type: ignore
         if isinstance(self.ldpc_decoder, LogSpaDecoder):
-            clipping = self.clipping_factor * max(channel_llr)  # llr s clipped within +-clipping
+            clipping = self.clipping_factor * max(np.abs(channel_llr))  # llr s clipped within +-clipping
             model_llr = np.clip(channel_llr + model_llr, -clipping, clipping)
             estimate, llr, decode_success, iterations, syndrome, vnode_validity = self.ldpc_decoder.decode(model_llr)
         elif isinstance(self.ldpc_decoder, WbfDecoder):  # wbf decoder
diff --git a/decoders/entropy_bitwise_decoder.py b/decoders/entropy_bitwise_decoder.py
index 5fb4be6..44f766c 100644
--- a/decoders/entropy_bitwise_decoder.py
+++ b/decoders/entropy_bitwise_decoder.py
@@ -114,7 +114,7 @@ class EntropyBitwiseDecoder(Decoder):
         llr = observation.copy()
         if self.predefined_model or (self.model_data.size > 0 and self.model_data.shape[1] >= self.min_data):
             # if sufficient previous data exists
-            clipping = self.clipping_factor * max(llr)  # llr s clipped within +-clipping
+            clipping = self.clipping_factor * max(np.abs(llr))  # llr s clipped within +-clipping
             llr[self.structural_elements] += np.clip(  # add model llr to the observation
                 np.log(
                     (np.finfo(np.float_).eps + self.distribution[:, 0]) / (self.distribution[:, 1] + np.finfo(np.float_).eps)
@@ -494,7 +494,7 @@ class EntropyBitwiseWeightedDecoder(Decoder):
         elif self.confidence_scheme == 5:  # ignore good model
             a_confidence = 0
 
-        clipping = self.clipping_factor * max(llr)  # llr s clipped within +-clipping
+        clipping = self.clipping_factor * max(np.abs(llr))  # llr s clipped within +-clipping
         # model llr is calculated as log(Pr(c=0 | model) / Pr(c=1| model))
         # add model llr to the observation
         if a_confidence > 0:
-- 
2.43.0


From 0bbba2d57b9ef24402d48aff58f27e842f314936 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:08:19 +0000
Subject: [PATCH 11/45] fix: take flipped values of structural bits from the
 matching model bits

The model was indexed by the position in the codeword, which differs from
the position in the model when information bits do not lead the codeword.
---
 decoders/entropy_bitwise_decoder.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/decoders/entropy_bitwise_decoder.py b/decoders/entropy_bitwise_decoder.py
index 44f766c..2f4ef58 100644
--- a/decoders/entropy_bitwise_decoder.py
+++ b/decoders/entropy_bitwise_decoder.py
@@ -224,7 +224,7 @@ class EntropyBitwiseFlippingDecoder(Decoder):
         # index of structural (low entropy) elements among codeword
         self.structural_elements = self.model_bits_idx[self.entropy < self.entropy_threshold]
         # round the probability of Pr(c=1)
-        self.structural_values = np.array(self.distribution[:, 1] > 0.5, dtype=np.int_)[self.structural_elements]
+        self.structural_values = np.array(self.distribution[:, 1] > 0.5, dtype=np.int_)[self.entropy < self.entropy_threshold]
         prediction = np.array(observation, dtype=np.int_)
         prediction[self.structural_elements] = self.structural_values
         return prediction
-- 
2.43.0


From f22e06fd56c96aef62977f86ba4c4098d58cb319 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:08:19 +0000
Subject: [PATCH 12/45] fix: update the entropy model of CombinedDecoder with
 model bits only

The whole word was passed, which raised IncorrectBufferLength unless the
model covers the whole codeword.
---
 decoders/combined_decoder.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/decoders/combined_decoder.py b/decoders/combined_decoder.py
index 2df717e..87ef6ae 100644
--- a/decoders/combined_decoder.py
+++ b/decoders/combined_decoder.py
@@ -294,7 +294,7 @@ class CombinedDecoder(Decoder):
                 elif self.buffer_structures[label] is not None:  # update model from channel if data is bad
                     self.model.add_buffer(channel_bits, self.buffer_structures[label])
             if decode_success:  # buffer fully recovered
-                self.update_entropy_model(estimate, label)
+                self.update_entropy_model(estimate[self.model_bits_idx], label)
             else:  # update model from channel if data is bad
-                self.update_entropy_model(channel_bits, label)
+                self.update_entropy_model(channel_bits[self.model_bits_idx], label)
         return estimate, llr, decode_success, iterations, label
-- 
2.43.0


From 8beb1211e652582d968dd6490b671dab78196d8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:08:19 +0000
Subject: [PATCH 13/45] fix: bit error rate of unsigned and boolean arrays

Subtraction wraps around for unsigned integers and is not defined for
booleans.
---
 utils/performance_analysis.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/utils/performance_analysis.py b/utils/performance_analysis.py
index 7450841..1c30a31 100644
--- a/utils/performance_analysis.py
+++ b/utils/performance_analysis.py
@@ -39,7 +39,7 @@ def ber(ground_truth: np.ndarray, predicted: np.ndarray):
     :param predicted: array of bits
     :return: BER
     """
-    return np.sum(np.abs(ground_truth - predicted)) / len(ground_truth)
+    return np.sum(np.not_equal(ground_truth, predicted)) / len(ground_truth)
 
 
 __all__ = ['stats', 'ber']
-- 
2.43.0


From c9cbf438e0606b8962003bb7df66245f1e44cddb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:08:19 +0000
Subject: [PATCH 14/45] fix: draw Markov samples given the preceding states

The last entries of the (yet unfilled) output were used as the current
state.
---
 utils/random_sources.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/utils/random_sources.py b/utils/random_sources.py
index 2792bb1..fc00fbe 100644
--- a/utils/random_sources.py
+++ b/utils/random_sources.py
@@ -16,7 +16,7 @@ def generate_markov_samples(transition_matrix, initial_state, num_samples):
 
     # Generate samples
     for i in range(order, num_samples):
-        current_states = states[-order:]
+        current_states = states[i - order:i]
         probabilities = transition_matrix[tuple(current_states)]
         states[i] = np.random.choice(range(num_states), p=probabilities)
     return states
-- 
2.43.0


From ca1f82d0d27d67bf187db5a157f7cb80ae88605f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:08:19 +0000
Subject: [PATCH 15/45] fix: num2bits of a char raised struct.error for any
 value

---
 inference/statistical_models.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/inference/statistical_models.py b/inference/statistical_models.py
index d9fad8c..785a174 100644
--- a/inference/statistical_models.py
+++ b/inference/statistical_models.py
@@ -14,7 +14,7 @@ import struct
 def num2bits(num, field_type: str) -> NDArray[np.uint8]:
     # cast first
     if field_type == "char":
-        num = ord(num)
+        num = bytes([ord(num) if isinstance(num, (str, bytes)) else int(round(num))])
     elif "uint" in field_type:
         num = int(round(num)) if num >= 0 else 0
     elif "int" in field_type:
-- 
2.43.0


From b407c27f94f5d9ab10b4704f32761ffce989fc69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:08:19 +0000
Subject: [PATCH 16/45] fix: saturate num2bits at the range of the field

The mean of 64 bit fields at their maximum rounds up to 2**64 (2**63),
which could not be packed.
---
 inference/statistical_models.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/inference/statistical_models.py b/inference/statistical_models.py
index 785a174..d9b6403 100644
--- a/inference/statistical_models.py
+++ b/inference/statistical_models.py
@@ -16,9 +16,10 @@ def num2bits(num, field_type: str) -> NDArray[np.uint8]:
     if field_type == "char":
         num = bytes([ord(num) if isinstance(num, (str, bytes)) else int(round(num))])
     elif "uint" in field_type:
-        num = int(round(num)) if num >= 0 else 0
+        num = min(max(int(round(num)), 0), 2 ** (8 * field_lengths[field_type]) - 1)
     elif "int" in field_type:
-        num = int(round(num))
+        bound = 2 ** (8 * field_lengths[field_type] - 1)
+        num = min(max(int(round(num)), -bound), bound - 1)
     elif field_type != "float":
         raise ValueError(f"field_type {field_type} is not supported")
     fmt = format_strings[field_type]
-- 
2.43.0


From dcdcbbd918fa82b6fe60a076d5d592daca39f5a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:08:19 +0000
Subject: [PATCH 17/45] fix: ignore infinite and NaN samples when fitting a
 field model

A single flipped bit turns 1.0 to infinity. After learning it from the
channel each use of the field raised ValueError.
---
 inference/statistical_models.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/inference/statistical_models.py b/inference/statistical_models.py
index d9b6403..7cd0ab6 100644
--- a/inference/statistical_models.py
+++ b/inference/statistical_models.py
@@ -74,7 +74,8 @@ class FieldModel:
 
     def _update(self) -> None:
         if self.samples:
-            self._mean, self._std = norm.fit(self.samples)
+            finite = [sample for sample in self.samples if np.isfinite(sample)]
+            self._mean, self._std = norm.fit(finite) if finite else (np.nan, np.nan)
             self._up2date = True
 
     def pdf(self, x: int) -> float:
-- 
2.43.0


From df4bf15a6c79eb59e0f2fbf8aa4cbbbf0d181bcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:08:19 +0000
Subject: [PATCH 18/45] fix: report fields which have no model yet as unknown

Entries of such fields were None, so a learning decoder given the buffer
structure raised TypeError on its first buffer.
---
 inference/statistical_models.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/inference/statistical_models.py b/inference/statistical_models.py
index 7cd0ab6..ba477eb 100644
--- a/inference/statistical_models.py
+++ b/inference/statistical_models.py
@@ -204,7 +204,7 @@ class BufferModel:
         # calculate the valid probability of each field
         valid_bits_probability = np.array([None] * len(bit_2_val_idx)).astype(np.float_)
         bits_std = np.array([None] * len(bit_2_val_idx)).astype(np.float_)
-        valid_field_probability: list[tuple[str, float, float]] = [None] * len(fields)
+        valid_field_probability: list[tuple[str, float, float]] = [(name, np.nan, np.nan) for name in ordered_field_names]
         for field_idx, field_name, value in zip(range(len(fields)), ordered_field_names, fields):
             if field_name in self._field_models.keys():
                 val, std = self._field_models[field_name].classify_value(value)
-- 
2.43.0


From b0122935da17eca82da8bf4086212c6e66a4c009 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:08:19 +0000
Subject: [PATCH 19/45] fix: mean of some bits must not need models of all
 other fields

Forcing a learned header field raised KeyError while other messages of
the buffer were not learned yet.
---
 inference/statistical_models.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/inference/statistical_models.py b/inference/statistical_models.py
index ba477eb..11f41bc 100644
--- a/inference/statistical_models.py
+++ b/inference/statistical_models.py
@@ -375,7 +375,8 @@ class BufferModel:
         mean_values = np.zeros(buffer_len*8, dtype=np.uint8)
         for field_idx, field_name, field_type in zip(range(len(ordered_field_names)),
                                                      ordered_field_names, ordered_field_types):
-            mean_values[bit_2_val_idx == field_idx] = num2bits(self._field_models[field_name].mean, field_type)
+            if field_name in self._field_models:
+                mean_values[bit_2_val_idx == field_idx] = num2bits(self._field_models[field_name].mean, field_type)
         return mean_values[bits_idx]
 
 
-- 
2.43.0


From b70f1d0183385134eed74397d7333f477ae1f321 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:08:19 +0000
Subject: [PATCH 20/45] fix: model messages with array fields, element by
 element

The format string was taken to have a character per field, which raised
TypeError for any message with an array.
---
 inference/statistical_models.py | 25 +++++++++++++++----------
 1 file changed, 15 insertions(+), 10 deletions(-)

diff --git a/inference/statistical_models.py b/inference/statistical_models.py
index 11f41bc..6fca6a6 100644
--- a/inference/statistical_models.py
+++ b/inference/statistical_models.py
@@ -2,7 +2,7 @@ from typing import Any
 from numpy import ndarray
 from scipy.stats import norm
 from scipy.special import erf
-from protocol_meta import field_lengths, dialect_meta, format_strings, inv_format_strings
+from protocol_meta import field_lengths, dialect_meta, format_strings
 import json
 from numpy.typing import NDArray
 import numpy as np
@@ -233,9 +233,11 @@ class BufferModel:
             # unpack fields from header
             field_values += struct.unpack('<BBBBBB', buffer[byte_idx:byte_idx + dialect_meta.header_len])
             # unpack fields from payload
-            field_values += mavlink_map[msg_id].unpacker.unpack(
-                buffer[byte_idx + dialect_meta.header_len:
-                       byte_idx + dialect_meta.header_len + dialect_meta.msgs_payload_length[msg_id]])
+            for value in mavlink_map[msg_id].unpacker.unpack(
+                    buffer[byte_idx + dialect_meta.header_len:
+                           byte_idx + dialect_meta.header_len + dialect_meta.msgs_payload_length[msg_id]]):
+                # arrays of char are unpacked as a single bytes object, unlike other arrays
+                field_values += tuple(value) if isinstance(value, bytes) else (value,)
         return field_values
 
     @staticmethod
@@ -266,10 +268,14 @@ class BufferModel:
                                     f'{mavlink_map[msg_id].name}_srcComponent', f'{mavlink_map[msg_id].name}_msgId']
             ordered_field_types += ['uint8_t', 'uint8_t', 'uint8_t', 'uint8_t', 'uint8_t', 'uint8_t']
             # unpack fields from payload
-            ordered_field_names += [f'{mavlink_map[msg_id].name}_{name}' for name in mavlink_map[msg_id].ordered_fieldnames]
-            for name in mavlink_map[msg_id].ordered_fieldnames:
+            payload_types = []
+            for name, array_length in zip(mavlink_map[msg_id].ordered_fieldnames, mavlink_map[msg_id].array_lengths):
                 type_idx = mavlink_map[msg_id].fieldnames.index(name)
-                ordered_field_types.append(mavlink_map[msg_id].fieldtypes[type_idx])
+                field_name = f'{mavlink_map[msg_id].name}_{name}'
+                names = [f'{field_name}[{i}]' for i in range(array_length)] if array_length > 0 else [field_name]
+                ordered_field_names += names
+                payload_types += [mavlink_map[msg_id].fieldtypes[type_idx]] * len(names)
+            ordered_field_types += payload_types
             if bitwise:
                 # calculate the mapping between each bit to the relevant header field
                 start_bit = byte_idx * 8
@@ -279,10 +285,9 @@ class BufferModel:
                     field_idx += 1
                     start_bit = last_bit
                 # calculate the mapping between each bit to the relevant payload field
-                format_string = mavlink_map[msg_id].unpacker.format
                 start_bit = (byte_idx + dialect_meta.header_len) * 8
-                for char in format_string[1:]:  # skip the first character which is the endianness
-                    field_len_bits = field_lengths.get(inv_format_strings.get(char)) * 8
+                for field_type in payload_types:
+                    field_len_bits = field_lengths[field_type] * 8
                     last_bit = start_bit + field_len_bits
                     bit_2_val_idx[start_bit:last_bit] = [field_idx] * (last_bit - start_bit)
                     field_idx += 1
-- 
2.43.0


From 9f47e796f00cf35045d12dd5366ee4617dc4ec27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:08:19 +0000
Subject: [PATCH 21/45] fix: get_msg_fields of a buffer with no message returns
 a pair

---
 inference/buffer_segmentation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/inference/buffer_segmentation.py b/inference/buffer_segmentation.py
index e7642ca..4aef1d1 100644
--- a/inference/buffer_segmentation.py
+++ b/inference/buffer_segmentation.py
@@ -197,7 +197,7 @@ class BufferSegmentation:
         """
         msg_parts, bit_validity, buffer_structure = self.segment_buffer(buffer)
         if buffer_structure == {}:
-            return {}
+            return {}, []
         fields = {}
         buffer_description = []
         for k, v in buffer_structure.items():
-- 
2.43.0


From 22bc2111dd4681c939dc8d53183adb46f27f112d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:08:42 +0000
Subject: [PATCH 22/45] fix: debug analysis of bit forcing before the structure
 is known

It raised AttributeError for each buffer decoded in debug mode before a
structure was learned.
---
 decoders/combined_decoder.py         | 2 ++
 decoders/combined_unified_decoder.py | 2 ++
 decoders/mavlink_decoder.py          | 2 ++
 3 files changed, 6 insertions(+)

diff --git a/decoders/combined_decoder.py b/decoders/combined_decoder.py
index 87ef6ae..8a34847 100644
--- a/decoders/combined_decoder.py
+++ b/decoders/combined_decoder.py
@@ -221,6 +221,8 @@ class CombinedDecoder(Decoder):
         # if not damaged:
         #     return {}
         # damaged_fields = np.array(tuple({field[1] for field in damaged}))
+        if self.buffer_structures[label] is None:
+            return {}
         buffer_len_bits = len(rx)
         bits_confusion_matrix = confusion(forced_bits, error_idx, buffer_len_bits - len(error_idx))
         # forced_fields = np.array([idx for idx, vfp in enumerate(valid_field_p) if (vfp[1] <= 0 and vfp[2] == 0)],
diff --git a/decoders/combined_unified_decoder.py b/decoders/combined_unified_decoder.py
index 31e929d..755612e 100644
--- a/decoders/combined_unified_decoder.py
+++ b/decoders/combined_unified_decoder.py
@@ -251,6 +251,8 @@ class CombinedUnifiedDecoder(Decoder):
         # if not damaged:
         #     return {}
         # damaged_fields = np.array(tuple({field[1] for field in damaged}))
+        if self.buffer_structures[label] is None:
+            return {}
         buffer_len_bits = len(rx)
         bits_confusion_matrix = confusion(forced_bits, error_idx, buffer_len_bits - len(error_idx))
         # forced_fields = np.array([idx for idx, vfp in enumerate(valid_field_p) if (vfp[1] <= 0 and vfp[2] == 0)],
diff --git a/decoders/mavlink_decoder.py b/decoders/mavlink_decoder.py
index ab9c3b4..5b948c9 100644
--- a/decoders/mavlink_decoder.py
+++ b/decoders/mavlink_decoder.py
@@ -249,6 +249,8 @@ class MavlinkRectifyingDecoder(Decoder):
         # if not damaged:
         #     return {}
         # damaged_fields = np.array(tuple({field[1] for field in damaged}))
+        if self.buffer_structures[label] is None:
+            return {}
         buffer_len_bits = len(rx)
         bits_confusion_matrix = confusion(forced_bits, error_idx, buffer_len_bits - len(error_idx))
         # forced_fields = np.array([idx for idx, vfp in enumerate(valid_field_p) if (vfp[1] <= 0 and vfp[2] == 0)],
-- 
2.43.0


From bd26c278c2a1e73c4094b65a5ea640d04c23fd15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:22:01 +0000
Subject: [PATCH 23/45] fix: name fields after the message type, also for
 messages with a name field

---
 inference/buffer_segmentation.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/inference/buffer_segmentation.py b/inference/buffer_segmentation.py
index 4aef1d1..bae3c9c 100644
--- a/inference/buffer_segmentation.py
+++ b/inference/buffer_segmentation.py
@@ -206,9 +206,9 @@ class BufferSegmentation:
             buffer_description.append(parsed_msg.get_header().pack())
             for idx, field in enumerate(parsed_msg.ordered_fieldnames):
                 type_idx = parsed_msg.orders.index(idx)
-                fields[f'{parsed_msg.name}_{field}'] = parsed_msg.format_attr(field), parsed_msg.fieldtypes[type_idx]
+                fields[f'{parsed_msg.get_type()}_{field}'] = parsed_msg.format_attr(field), parsed_msg.fieldtypes[type_idx]
                 # format_attr returns is mavlink's field getter function
-                buffer_description.append((f'{parsed_msg.name}_{field}', parsed_msg.fieldtypes[type_idx]))
+                buffer_description.append((f'{parsed_msg.get_type()}_{field}', parsed_msg.fieldtypes[type_idx]))
             buffer_description.append("crc")
 
         return fields, buffer_description
-- 
2.43.0


From 283175862ef95e44a22b6cc1b3f621346a43aa4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:31:31 +0000
Subject: [PATCH 24/45] fix: online denoiser with an empty context used a
 context of one sample

---
 inference/dude.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/inference/dude.py b/inference/dude.py
index 34e77f6..71fafb6 100644
--- a/inference/dude.py
+++ b/inference/dude.py
@@ -46,7 +46,7 @@ class OnlineDude:
         self.contexts[self._last_context][observation] += 1
         empirical_p = self.contexts[self._last_context][np.newaxis]
         # update the context
-        self._last_context = self._last_context[1:] + (observation,)
+        self._last_context = (self._last_context + (observation,))[1:]
         # estimate the state
         if self.hard_decision:
             posterior_p = np.matmul(empirical_p, self.inverse_channel_transition_matrix) * self.channel_transition_matrix[
-- 
2.43.0


From a642f948ecba237c42935f6fffd3b742af8ded78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:35:12 +0000
Subject: [PATCH 25/45] fix: rectifying decoder classified and learnt a buffer
 once per segmentation iteration

---
 decoders/mavlink_decoder.py | 35 +++++++++++++++++------------------
 1 file changed, 17 insertions(+), 18 deletions(-)

diff --git a/decoders/mavlink_decoder.py b/decoders/mavlink_decoder.py
index 5b948c9..0e744ff 100644
--- a/decoders/mavlink_decoder.py
+++ b/decoders/mavlink_decoder.py
@@ -97,18 +97,18 @@ class MavlinkRectifyingDecoder(Decoder):
         channel_bits: NDArray[np.int_] = np.array(channel_llr < 0, dtype=np.int_)
         decoder_input = channel_llr.copy()
         all_iteration = 0
-        for _ in range(self.segmentation_iterations):
-            if self.n_clusters > 1:
-                if self.cluster:
-                    label: int = self.classifier.classify(channel_bits[self.model_bits_idx])
-                    if label < 0:  # label is negative during training phase of classifier, don't try to use model to rectify
-                        return self.decode_and_update_model(channel_llr, label, channel_bits) + (np.array([]), [], [], {}, {})
-                else:
-                    self.running_idx = (self.running_idx + 1) % self.n_clusters
-                    label = self.running_idx
-            else:  # no clustering, single buffer type
-                label = 0
+        if self.n_clusters > 1:
+            if self.cluster:
+                label: int = self.classifier.classify(channel_bits[self.model_bits_idx])
+                if label < 0:  # label is negative during training phase of classifier, don't try to use model to rectify
+                    return self.ldpc_decoder.decode(channel_llr) + (label, np.array([]), [], [], {}, {})
+            else:
+                self.running_idx = (self.running_idx + 1) % self.n_clusters
+                label = self.running_idx
+        else:  # no clustering, single buffer type
+            label = 0
 
+        for _ in range(self.segmentation_iterations):
             segmented_bits: NDArray[np.bool_]
             good_fields_idx: list[int]
             bad_fields_idx: list[int]
@@ -118,11 +118,12 @@ class MavlinkRectifyingDecoder(Decoder):
             bad_bits: NDArray[np.int_]
             decoder_input, good_bits, bad_bits, good_fields_idx, bad_fields_idx, n_fields, forced_bits, \
                 segmented_bits = self.model_prediction(decoder_input, label)
-            estimate, decoder_input, decode_success, iterations, syndrome, vnode_validity, \
-                label = self.decode_and_update_model(decoder_input, label, channel_bits)
+            estimate, decoder_input, decode_success, iterations, syndrome, \
+                vnode_validity = self.ldpc_decoder.decode(decoder_input)
             all_iteration += iterations
             if decode_success:
                 break
+        self.update_model(estimate, decode_success, label, channel_bits)
         if self.debug:
             classifier_performance = self.classifier_analysis(good_fields_idx, bad_fields_idx, error_idx, n_fields,
                                                               label)
@@ -134,10 +135,9 @@ class MavlinkRectifyingDecoder(Decoder):
         return estimate, decoder_input, decode_success, all_iteration, syndrome, vnode_validity, label, \
             segmented_bits, good_fields_idx, bad_fields_idx, classifier_performance, forcing_performance
 
-    def decode_and_update_model(self, llr, label, channel_bits) -> tuple[
-        NDArray[np.int_], NDArray[np.float_], bool, int, NDArray[np.int_], NDArray[np.int_], int]:
-        estimate, llr, decode_success, iterations, syndrome, vnode_validity = self.ldpc_decoder.decode(llr)
-        if self.learning and label >= 0:
+    def update_model(self, estimate: NDArray[np.int_], decode_success: bool, label: int, channel_bits: NDArray[np.int_]) -> None:
+        """learn from a decoded buffer, once per buffer"""
+        if self.learning:
             if decode_success:  # buffer fully recovered
                 if self.buffer_structures[label] is None:
                     info_bytes = np.packbits(self.ldpc_decoder.info_bits(estimate)).tobytes()
@@ -146,7 +146,6 @@ class MavlinkRectifyingDecoder(Decoder):
                 self.model.add_buffer(estimate, self.buffer_structures[label])
             elif self.buffer_structures[label] is not None:  # update model from channel if data is bad
                 self.model.add_buffer(channel_bits, self.buffer_structures[label])
-        return estimate, llr, decode_success, iterations, syndrome, vnode_validity, label
 
     def set_buffer_structures(self, buffer_structures: Sequence[dict[int, int]]) -> None:
         """sets the buffer structures to use for decoding
-- 
2.43.0


From 1925fa9bb8bde232539d5955c0a291283ea6120d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:35:47 +0000
Subject: [PATCH 26/45] fix: debug analysis of the buffer that reveals the
 structure, before learning from it

---
 decoders/mavlink_decoder.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/decoders/mavlink_decoder.py b/decoders/mavlink_decoder.py
index 0e744ff..baedb14 100644
--- a/decoders/mavlink_decoder.py
+++ b/decoders/mavlink_decoder.py
@@ -123,7 +123,6 @@ class MavlinkRectifyingDecoder(Decoder):
             all_iteration += iterations
             if decode_success:
                 break
-        self.update_model(estimate, decode_success, label, channel_bits)
         if self.debug:
             classifier_performance = self.classifier_analysis(good_fields_idx, bad_fields_idx, error_idx, n_fields,
                                                               label)
@@ -131,6 +130,7 @@ class MavlinkRectifyingDecoder(Decoder):
         else:
             classifier_performance = {}
             forcing_performance = {}
+        self.update_model(estimate, decode_success, label, channel_bits)
 
         return estimate, decoder_input, decode_success, all_iteration, syndrome, vnode_validity, label, \
             segmented_bits, good_fields_idx, bad_fields_idx, classifier_performance, forcing_performance
-- 
2.43.0


From 9e53d7365c15fbd00604d5183610de762e19643a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:35:47 +0000
Subject: [PATCH 27/45] fix: fields hit by several bit errors counted once per
 error in the debug analysis

---
 decoders/combined_decoder.py         | 4 ++--
 decoders/combined_unified_decoder.py | 4 ++--
 decoders/mavlink_decoder.py          | 4 ++--
 3 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/decoders/combined_decoder.py b/decoders/combined_decoder.py
index 8a34847..5ca05ad 100644
--- a/decoders/combined_decoder.py
+++ b/decoders/combined_decoder.py
@@ -209,9 +209,9 @@ class CombinedDecoder(Decoder):
         if not damaged:
             return {}
         damaged_fields = np.array(tuple({field[1] for field in damaged}))
-        bad_fields_performance = confusion(bad_fields_idx, damaged_fields, n_fields_in_buffer - len(damaged))
+        bad_fields_performance = confusion(bad_fields_idx, damaged_fields, n_fields_in_buffer - len(damaged_fields))
         actual_good_fields = np.setdiff1d(np.arange(n_fields_in_buffer), damaged_fields)
-        good_fields_performance = confusion(good_fields_idx, actual_good_fields, len(damaged))
+        good_fields_performance = confusion(good_fields_idx, actual_good_fields, len(damaged_fields))
         return {"n_fields_in_buffer": n_fields_in_buffer, "n_damaged_fields_in_buffer": len(damaged_fields),
                 "good_fields_performance": good_fields_performance, "bad_fields_performance": bad_fields_performance}
 
diff --git a/decoders/combined_unified_decoder.py b/decoders/combined_unified_decoder.py
index 755612e..5c133d9 100644
--- a/decoders/combined_unified_decoder.py
+++ b/decoders/combined_unified_decoder.py
@@ -239,9 +239,9 @@ class CombinedUnifiedDecoder(Decoder):
         if not damaged:
             return {}
         damaged_fields = np.array(tuple({field[1] for field in damaged}))
-        bad_fields_performance = confusion(bad_fields_idx, damaged_fields, n_fields_in_buffer - len(damaged))
+        bad_fields_performance = confusion(bad_fields_idx, damaged_fields, n_fields_in_buffer - len(damaged_fields))
         actual_good_fields = np.setdiff1d(np.arange(n_fields_in_buffer), damaged_fields)
-        good_fields_performance = confusion(good_fields_idx, actual_good_fields, len(damaged))
+        good_fields_performance = confusion(good_fields_idx, actual_good_fields, len(damaged_fields))
         return {"n_fields_in_buffer": n_fields_in_buffer, "n_damaged_fields_in_buffer": len(damaged_fields),
                 "good_fields_performance": good_fields_performance, "bad_fields_performance": bad_fields_performance}
 
diff --git a/decoders/mavlink_decoder.py b/decoders/mavlink_decoder.py
index baedb14..21ec6b0 100644
--- a/decoders/mavlink_decoder.py
+++ b/decoders/mavlink_decoder.py
@@ -236,9 +236,9 @@ class MavlinkRectifyingDecoder(Decoder):
         if not damaged:
             return {}
         damaged_fields = np.array(tuple({field[1] for field in damaged}))
-        bad_fields_performance = confusion(bad_fields_idx, damaged_fields, n_fields_in_buffer - len(damaged))
+        bad_fields_performance = confusion(bad_fields_idx, damaged_fields, n_fields_in_buffer - len(damaged_fields))
         actual_good_fields = np.setdiff1d(np.arange(n_fields_in_buffer), damaged_fields)
-        good_fields_performance = confusion(good_fields_idx, actual_good_fields, len(damaged))
+        good_fields_performance = confusion(good_fields_idx, actual_good_fields, len(damaged_fields))
         return {"n_fields_in_buffer": n_fields_in_buffer, "n_damaged_fields_in_buffer": len(damaged_fields),
                 "good_fields_performance": good_fields_performance, "bad_fields_performance": bad_fields_performance}
 
-- 
2.43.0


From 26ce25b523d7960d2168a5f6aee14583510d70bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:47:43 +0000
Subject: [PATCH 28/45] fix: predefined bit model shorter than the model bits
 raised IndexError

---
 decoders/entropy_bitwise_decoder.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/decoders/entropy_bitwise_decoder.py b/decoders/entropy_bitwise_decoder.py
index 2f4ef58..dc930e9 100644
--- a/decoders/entropy_bitwise_decoder.py
+++ b/decoders/entropy_bitwise_decoder.py
@@ -109,7 +109,7 @@ class EntropyBitwiseDecoder(Decoder):
         """
         # infer structure
         # index of structural (low entropy) elements among codeword
-        self.structural_elements = self.model_bits_idx[self.entropy < self.entropy_threshold]
+        self.structural_elements = self.model_bits_idx[:len(self.entropy)][self.entropy < self.entropy_threshold]
         # model llr is calculated as log(Pr(c=0 | model) / Pr(c=1| model))
         llr = observation.copy()
         if self.predefined_model or (self.model_data.size > 0 and self.model_data.shape[1] >= self.min_data):
@@ -222,7 +222,7 @@ class EntropyBitwiseFlippingDecoder(Decoder):
             return observation
         # infer structure
         # index of structural (low entropy) elements among codeword
-        self.structural_elements = self.model_bits_idx[self.entropy < self.entropy_threshold]
+        self.structural_elements = self.model_bits_idx[:len(self.entropy)][self.entropy < self.entropy_threshold]
         # round the probability of Pr(c=1)
         self.structural_values = np.array(self.distribution[:, 1] > 0.5, dtype=np.int_)[self.entropy < self.entropy_threshold]
         prediction = np.array(observation, dtype=np.int_)
-- 
2.43.0


From 943f320d5263264a1c6fff8b4fcf3274786298da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:47:43 +0000
Subject: [PATCH 29/45] fix: confidence scheme 2 of the weighted entropy
 decoder was never used

---
 decoders/entropy_bitwise_decoder.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/decoders/entropy_bitwise_decoder.py b/decoders/entropy_bitwise_decoder.py
index dc930e9..1d94a00 100644
--- a/decoders/entropy_bitwise_decoder.py
+++ b/decoders/entropy_bitwise_decoder.py
@@ -481,7 +481,7 @@ class EntropyBitwiseWeightedDecoder(Decoder):
             if s > 0:
                 a_confidence *= a_confidence / s
                 b_confidence *= b_confidence / s
-        elif self.confidence_scheme == 1:  # normalize sum but prefer "good" model
+        elif self.confidence_scheme == 2:  # normalize sum but prefer "good" model
             s = 2 * a_confidence + b_confidence
             if s > 0:
                 a_confidence *= 2 * a_confidence / s
-- 
2.43.0


From 7e1c2c99995f079fc05a01c8ddcf8494602fcedf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:47:43 +0000
Subject: [PATCH 30/45] fix: variance scaled confidence failed before both
 models had data

---
 decoders/entropy_bitwise_decoder.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/decoders/entropy_bitwise_decoder.py b/decoders/entropy_bitwise_decoder.py
index 1d94a00..95ab782 100644
--- a/decoders/entropy_bitwise_decoder.py
+++ b/decoders/entropy_bitwise_decoder.py
@@ -287,6 +287,8 @@ class EntropyBitwiseWeightedDecoder(Decoder):
             self.window_length = window_length
             self.model_a_data: NDArray[np.uint8] = np.array([])  # 2d array, each column is a sample
             self.model_b_data: NDArray[np.uint8] = np.array([])  # 2d array, each column is a sample
+            self.a_normalized_variance = np.inf  # until data is available
+            self.b_normalized_variance = np.inf
         super().__init__(DecoderType.ENTROPY)
 
     def decode_buffer(self, channel_llr: Sequence[np.float_]) -> tuple[
-- 
2.43.0


From 5db01dcef2f1afa9bc8fd414f723da45ee221ff1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:06:25 +0000
Subject: [PATCH 31/45] fix: decoders given buffer structures learnt into the
 caller's list

---
 decoders/combined_decoder.py         | 2 +-
 decoders/combined_unified_decoder.py | 2 +-
 decoders/mavlink_decoder.py          | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/decoders/combined_decoder.py b/decoders/combined_decoder.py
index 5ca05ad..b41c679 100644
--- a/decoders/combined_decoder.py
+++ b/decoders/combined_decoder.py
@@ -128,7 +128,7 @@ class CombinedDecoder(Decoder):
         if len(buffer_structures) != self.n_clusters:
             raise ValueError(f"Number of buffer structures ({len(buffer_structures)}) does not match number of clusters "
                              f"({self.n_clusters})")
-        self.buffer_structures = buffer_structures
+        self.buffer_structures = list(buffer_structures)
 
     def mavlink_model_prediction(self, observation: NDArray[np.float_], cluster_id: int) -> \
             tuple[
diff --git a/decoders/combined_unified_decoder.py b/decoders/combined_unified_decoder.py
index 5c133d9..6b44652 100644
--- a/decoders/combined_unified_decoder.py
+++ b/decoders/combined_unified_decoder.py
@@ -138,7 +138,7 @@ class CombinedUnifiedDecoder(Decoder):
         if len(buffer_structures) != self.n_clusters:
             raise ValueError(f"Number of buffer structures ({len(buffer_structures)}) does not match number of clusters "
                              f"({self.n_clusters})")
-        self.buffer_structures = buffer_structures
+        self.buffer_structures = list(buffer_structures)
 
     def mavlink_model_prediction(self, observation: NDArray[np.float_], cluster_id: int) -> \
             tuple[
diff --git a/decoders/mavlink_decoder.py b/decoders/mavlink_decoder.py
index 21ec6b0..a3cb71c 100644
--- a/decoders/mavlink_decoder.py
+++ b/decoders/mavlink_decoder.py
@@ -155,7 +155,7 @@ class MavlinkRectifyingDecoder(Decoder):
         if len(buffer_structures) != self.n_clusters:
             raise ValueError(f"Number of buffer structures ({len(buffer_structures)}) does not match number of clusters "
                              f"({self.n_clusters})")
-        self.buffer_structures = buffer_structures
+        self.buffer_structures = list(buffer_structures)
 
     def model_prediction(self, observation: NDArray[np.float_], cluster_id: int) -> \
             tuple[
-- 
2.43.0


From 4937cfe8b95523b6644a797806a35644e7137034 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:28:11 +0000
Subject: [PATCH 32/45] fix: cluster made from a distribution over several
 samples lost counts to rounding

---
 inference/clustering.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/inference/clustering.py b/inference/clustering.py
index a54939e..1db4f43 100644
--- a/inference/clustering.py
+++ b/inference/clustering.py
@@ -9,7 +9,7 @@ from scipy.stats import entropy
 
 class Cluster:
     def __init__(self, dist: NDArray[np.float_], uid: int, n_samples: int = 1) -> None:
-        self._data: NDArray[np.int_] = np.array(dist * n_samples, dtype=np.int_)
+        self._data: NDArray[np.int_] = np.array(np.rint(dist * n_samples), dtype=np.int_)
         self.uid: int = uid
         self.n_samples = n_samples
 
-- 
2.43.0


From ccf32f1077b5768cb7dcd65ace71b4b5193b8dde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:30:06 +0000
Subject: [PATCH 33/45] fix: dialect_creator failed with the pymavlink versions
 the requirements allow

---
 mavlink_utils/utils.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/mavlink_utils/utils.py b/mavlink_utils/utils.py
index bd9bbed..d1c24bf 100644
--- a/mavlink_utils/utils.py
+++ b/mavlink_utils/utils.py
@@ -12,7 +12,6 @@ def dialect_creator(output_dialects_path: str, xml_path: str, protocol_language:
                        wire_protocol=mavparse.PROTOCOL_1_0,
                        language=protocol_language,
                        validate=mavgen.DEFAULT_VALIDATE,
-                       error_limit=mavgen.DEFAULT_ERROR_LIMIT,
                        strict_units=mavgen.DEFAULT_STRICT_UNITS)
     args = [xml_path]
     mavgen.mavgen(opts, args)
-- 
2.43.0


From 46f8040ab2ad7c91d8d60ad06e5484d6d9187f6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:33:22 +0000
Subject: [PATCH 34/45] fix: relabel could map several clusters to the same
 label

---
 runs/clsutering_analysis/functions.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/runs/clsutering_analysis/functions.py b/runs/clsutering_analysis/functions.py
index 26c4c76..359e616 100644
--- a/runs/clsutering_analysis/functions.py
+++ b/runs/clsutering_analysis/functions.py
@@ -33,6 +33,7 @@ def relabel(predicted_labels, n_classes, real_labels=None):
         true_label, predicted_label = np.unravel_index(reduced_prediction_counts.argmax(), reduced_prediction_counts.shape)
         labels_map[predicted_label] = true_label
         reduced_prediction_counts[:, predicted_label] = -1
+        reduced_prediction_counts[true_label] = -1
     tmp, remaining_predicted_label = np.unravel_index(reduced_prediction_counts.argmax(), reduced_prediction_counts.shape)
     remaining_true_label = np.setdiff1d(np.arange(n_classes), np.array(list(labels_map.values())))[0]
     labels_map[remaining_predicted_label] = remaining_true_label
-- 
2.43.0


From 81a9f6579957768a2206f832588b9ece354b73c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:19:15 +0000
Subject: [PATCH 35/45] fix: unified decoder kept the answered estimate as part
 of its model

---
 decoders/combined_unified_decoder.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/decoders/combined_unified_decoder.py b/decoders/combined_unified_decoder.py
index 6b44652..9a323bc 100644
--- a/decoders/combined_unified_decoder.py
+++ b/decoders/combined_unified_decoder.py
@@ -115,7 +115,7 @@ class CombinedUnifiedDecoder(Decoder):
             raise IncorrectBufferLength()
         arr = bits[np.newaxis]
 
-        self.entropy_models_data[cluster_id] = arr.T if self.entropy_models_data[cluster_id].size == 0 else \
+        self.entropy_models_data[cluster_id] = arr.T.copy() if self.entropy_models_data[cluster_id].size == 0 else \
             np.append(self.entropy_models_data[cluster_id], arr.T, axis=1)
         if (self.window_length is not None) and self.entropy_models_data[cluster_id].shape[1] > self.window_length:
             # trim old messages according to window
-- 
2.43.0


From cd4205e8398a47f38d5c986af0888a7c028c35ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:19:15 +0000
Subject: [PATCH 36/45] fix: entropy decoder answered its own distribution
 array

---
 decoders/classifiying_decoder.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/decoders/classifiying_decoder.py b/decoders/classifiying_decoder.py
index 8458b3a..b29e09e 100644
--- a/decoders/classifiying_decoder.py
+++ b/decoders/classifiying_decoder.py
@@ -132,7 +132,7 @@ class ClassifyingEntropyDecoder(Decoder):
             self.update_model(model_bits, label)
         else:  # update model from channel if data is bad
             self.update_model(channel_bits, label)
-        return estimate, llr, decode_success, iterations, syndrome, vnode_validity, self.distributions[label], \
+        return estimate, llr, decode_success, iterations, syndrome, vnode_validity, self.distributions[label].copy(), \
             self.model_bits_idx[self.models_entropy[label] < self.entropy_threshold], label
 
     def update_model(self, bits: NDArray[np.int_], cluster_id: int) -> None:
-- 
2.43.0


From c371cd9c4963a33b5735b1e3c83addf0a2681689 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:19:15 +0000
Subject: [PATCH 37/45] fix: weighted decoder answered its own distribution
 arrays

---
 decoders/entropy_bitwise_decoder.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/decoders/entropy_bitwise_decoder.py b/decoders/entropy_bitwise_decoder.py
index 95ab782..4944c17 100644
--- a/decoders/entropy_bitwise_decoder.py
+++ b/decoders/entropy_bitwise_decoder.py
@@ -320,7 +320,7 @@ class EntropyBitwiseWeightedDecoder(Decoder):
             self.update_model_b(model_bits)
 
             return estimate, llr, decode_success, iterations, syndrome, vnode_validity, len(structure), \
-                self.a_distribution, self.b_distribution, \
+                self.a_distribution.copy(), self.b_distribution.copy(), \
                 self.model_bits_idx[self.a_entropy < self.entropy_threshold], \
                 self.model_bits_idx[self.b_entropy < self.entropy_threshold]
 
@@ -337,7 +337,8 @@ class EntropyBitwiseWeightedDecoder(Decoder):
             channel_bits = np.array(channel_llr < 0, dtype=np.int_)[self.model_bits_idx]
             self.update_model_b(channel_bits)
         return estimate, llr, decode_success, iterations, syndrome, vnode_validity, len(structure), \
-            self.a_distribution, self.b_distribution, self.model_bits_idx[self.a_entropy < self.entropy_threshold], \
+            self.a_distribution.copy(), self.b_distribution.copy(), \
+            self.model_bits_idx[self.a_entropy < self.entropy_threshold], \
             self.model_bits_idx[self.b_entropy < self.entropy_threshold]
 
     def update_model_a(self, bits: NDArray[np.int_]) -> None:
-- 
2.43.0


From b3806ee8685a8fd84c2a8d7829b6b6ebefff2317 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:19:15 +0000
Subject: [PATCH 38/45] fix: decoders kept the caller's array as their model

---
 decoders/classifiying_decoder.py    | 2 +-
 decoders/entropy_bitwise_decoder.py | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/decoders/classifiying_decoder.py b/decoders/classifiying_decoder.py
index b29e09e..35e4beb 100644
--- a/decoders/classifiying_decoder.py
+++ b/decoders/classifiying_decoder.py
@@ -40,7 +40,7 @@ class ClassifyingEntropyDecoder(Decoder):
             self.models_entropy: list[NDArray[np.float_]] = [np.array([]) for _ in range(n_clusters)]
             self.train_models = True
         else:
-            self.distributions = [data_model[:model_length, :] for _ in range(n_clusters)]
+            self.distributions = [data_model[:model_length, :].copy() for _ in range(n_clusters)]
             self.models_entropy = [entropy(self.distributions[cluster_id]) for cluster_id in range(n_clusters)]
             self.train_models = False
         self.conf_center = conf_center
diff --git a/decoders/entropy_bitwise_decoder.py b/decoders/entropy_bitwise_decoder.py
index 4944c17..47c94ac 100644
--- a/decoders/entropy_bitwise_decoder.py
+++ b/decoders/entropy_bitwise_decoder.py
@@ -42,7 +42,7 @@ class EntropyBitwiseDecoder(Decoder):
         self.window_length = window_length
         if model is not None:
             self.model_length = min(model.shape[0], self.model_bits_idx.size)
-            self.distribution: NDArray[np.float_] = model[:self.model_length, :]  # estimated distribution model
+            self.distribution: NDArray[np.float_] = model[:self.model_length, :].copy()  # estimated distribution model
             self.entropy: NDArray[np.float_] = entropy(self.distribution)  # estimated entropy of distribution model
             self.predefined_model = True
         else:
@@ -152,7 +152,7 @@ class EntropyBitwiseFlippingDecoder(Decoder):
         self.window_length = window_length
         if model is not None:
             self.model_length = min(model.shape[0], self.model_bits_idx.size)
-            self.distribution: NDArray[np.float_] = model[:self.model_length, :]  # estimated distribution model
+            self.distribution: NDArray[np.float_] = model[:self.model_length, :].copy()  # estimated distribution model
             self.entropy: NDArray[np.float_] = entropy(self.distribution)  # estimated entropy of distribution model
             self.predefined_model = True
         else:
-- 
2.43.0


From 17935191cad6ec6a4970af128377c864f400bc5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:19:15 +0000
Subject: [PATCH 39/45] fix: denoisers kept the caller's channel and loss
 matrices

---
 inference/dude.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/inference/dude.py b/inference/dude.py
index 71fafb6..cbeea4f 100644
--- a/inference/dude.py
+++ b/inference/dude.py
@@ -17,10 +17,10 @@ class OnlineDude:
         output a probability of the input being 1.
         :param alphabet_size: the size of the alphabet
         """
-        self.channel_transition_matrix = channel_transition_matrix
+        self.channel_transition_matrix = np.array(channel_transition_matrix)
         self.inverse_channel_transition_matrix = np.linalg.inv(channel_transition_matrix)
 
-        self.loss_matrix = loss_matrix
+        self.loss_matrix = np.array(loss_matrix)
         self.k = k
         self.alphabet_size = alphabet_size
         self.contexts = {}
@@ -125,10 +125,10 @@ class DUDE:
         output a probability of the input being 1.
         :param alphabet_size: the size of the alphabet
         """
-        self.channel_transition_matrix = channel_transition_matrix
+        self.channel_transition_matrix = np.array(channel_transition_matrix)
         self.inverse_channel_transition_matrix = np.linalg.inv(channel_transition_matrix)
 
-        self.loss_matrix = loss_matrix
+        self.loss_matrix = np.array(loss_matrix)
         self.k = k
         self.alphabet_size = alphabet_size
         self.hard_decision = hard_decision
-- 
2.43.0


From 748b6c8e1b6c9ec2f5491aff7b3cce62d3610009 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:16:07 +0000
Subject: [PATCH 40/45] fix: variance scaled confidence of the Bayes estimator
 failed before both models had data

---
 decoders/entropy_bitwise_decoder.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/decoders/entropy_bitwise_decoder.py b/decoders/entropy_bitwise_decoder.py
index 47c94ac..06506bc 100644
--- a/decoders/entropy_bitwise_decoder.py
+++ b/decoders/entropy_bitwise_decoder.py
@@ -279,8 +279,8 @@ class EntropyBitwiseWeightedDecoder(Decoder):
             self.a_zeros_prior = np.ones(len(self.model_bits_idx), dtype=np.int_)
             self.b_ones_prior = np.ones(len(self.model_bits_idx), dtype=np.int_)
             self.b_zeros_prior = np.ones(len(self.model_bits_idx), dtype=np.int_)
-            self.a_normalized_variance = 0.0
-            self.b_normalized_variance = 0.0
+            self.a_normalized_variance = np.inf  # until data is available
+            self.b_normalized_variance = np.inf
             self.min_size = window_length
             self.max_size = 2 * window_length
         else:  # use MLE
-- 
2.43.0


From 32421e82f6ad81b54cfa642fdc1e3ef6c0c7e73c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:36:04 +0000
Subject: [PATCH 41/45] fix: EMLE.predict changed, and update_model kept, the
 caller's array

---
 inference/entropy_mle.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/inference/entropy_mle.py b/inference/entropy_mle.py
index 944586d..0e29aab 100644
--- a/inference/entropy_mle.py
+++ b/inference/entropy_mle.py
@@ -54,6 +54,7 @@ class EMLE:
         :param observation_llr: the llr of the buffer to denoise
         :return: a tuple (estimate, cost) where estimate is the denoised sample and cost is the cost of the estimate
         """
+        observation_llr = observation_llr.copy()
         structural_elements: NDArray[np.int_] = self.model_entropy < self.threshold
         if not structural_elements.any():  # no structural elements found
             return observation_llr
@@ -68,7 +69,7 @@ class EMLE:
         :param observation_bits: observed bits
         """
         arr = observation_bits[np.newaxis]
-        self.model_data = arr.T if self.model_data.size == 0 else np.append(self.model_data, arr.T, axis=1)
+        self.model_data = arr.T.copy() if self.model_data.size == 0 else np.append(self.model_data, arr.T, axis=1)
         if 0 < self.window_length < self.model_data.shape[1]:
             # trim old messages according to window
             self.model_data = self.model_data[:, -self.window_length:]
-- 
2.43.0


From d50f69be081582bd182f07589e12def6a08df27b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:48:41 +0000
Subject: [PATCH 42/45] fix: forcing method used the first cluster's window and
 low entropy bits for every cluster

---
 decoders/classifiying_decoder.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/decoders/classifiying_decoder.py b/decoders/classifiying_decoder.py
index 35e4beb..3cac66f 100644
--- a/decoders/classifiying_decoder.py
+++ b/decoders/classifiying_decoder.py
@@ -113,12 +113,12 @@ class ClassifyingEntropyDecoder(Decoder):
         elif isinstance(self.ldpc_decoder, WbfDecoder):  # wbf decoder
             # Use WBF only with AWGN since it assumes a specific relationship between priors and LLR
             # The more positive the reliability is, the less reliable the value is
-            samples, priors = self._sample_and_priors(channel_llr, model_llr)
+            samples, priors = self._sample_and_priors(channel_llr, model_llr, label)
             estimate, decode_success, iterations, syndrome, vnode_validity = self.ldpc_decoder.decode(samples,
                                                                                                       priors)
             llr = np.array([])
         elif isinstance(self.ldpc_decoder, GalBfDecoder):
-            samples, _ = self._sample_and_priors(channel_llr, model_llr)
+            samples, _ = self._sample_and_priors(channel_llr, model_llr, label)
             if samples.dtype != np.int_:  # convert to hard bits
                 hard_channel_bits = np.array(samples < 0, dtype=np.int_)
             else:
@@ -191,7 +191,7 @@ class ClassifyingEntropyDecoder(Decoder):
 
         return llr
 
-    def _sample_and_priors(self, channel_sample: NDArray[np.float_], model_llr: NDArray[np.float_]):
+    def _sample_and_priors(self, channel_sample: NDArray[np.float_], model_llr: NDArray[np.float_], cluster_id: int):
         """The method returns a modified channel sample and priors depending on the method used and inputs"""
         max_sample = max(np.abs(channel_sample))
         samples = channel_sample
@@ -223,10 +223,10 @@ class ClassifyingEntropyDecoder(Decoder):
             if self.reliability_method == 3:  # Used for forcing th bits in the GalBfDecoder
                 model_bits = np.array(model_llr < 0, dtype=np.int_)
                 samples = np.array(channel_sample < 0, dtype=np.int_)
-                size = self.models_data[0].shape[1] if self.models_data[0].size > 0 else 0
+                size = self.models_data[cluster_id].shape[1] if self.models_data[cluster_id].size > 0 else 0
                 if size>= self.window_length:
                     structural_elements: NDArray[np.int_] = self.model_bits_idx[
-                        self.models_entropy[0] < self.entropy_threshold]
+                        self.models_entropy[cluster_id] < self.entropy_threshold]
                     if structural_elements.size > 0:
                         samples[structural_elements] = model_bits[structural_elements]
         return samples, priors
-- 
2.43.0


From e7891fbadd48fadaef94cb698b1725ac1da6d38f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:23:31 +0000
Subject: [PATCH 43/45] fix: thinning out the Bayes counts made undecided bits
 certain

Dividing a bit's counts, prior included, by their common divisor left (1, 1) or (1, n), whose mode is a
certain zero, and the factor meant to restore min_size was taken from the first bit with the division
and the sum in the wrong order.
---
 decoders/entropy_bitwise_decoder.py | 25 +++++++++++--------------
 1 file changed, 11 insertions(+), 14 deletions(-)

diff --git a/decoders/entropy_bitwise_decoder.py b/decoders/entropy_bitwise_decoder.py
index 06506bc..93a4dc4 100644
--- a/decoders/entropy_bitwise_decoder.py
+++ b/decoders/entropy_bitwise_decoder.py
@@ -341,6 +341,15 @@ class EntropyBitwiseWeightedDecoder(Decoder):
             self.model_bits_idx[self.a_entropy < self.entropy_threshold], \
             self.model_bits_idx[self.b_entropy < self.entropy_threshold]
 
+    def _thin_out(self, ones: NDArray[np.int_], zeros: NDArray[np.int_]) -> tuple[NDArray[np.int_], NDArray[np.int_]]:
+        """shrink the counts of each bit towards min_size. The ratio of the observed ones and zeros is kept, for which the
+        uniform prior (one of each) is left out of the division."""
+        ones, zeros = ones - 1, zeros - 1
+        gcd = np.gcd(ones, zeros)
+        ones, zeros = ones // gcd, zeros // gcd
+        m = np.maximum(self.min_size // (ones + zeros), 1)
+        return ones * m + 1, zeros * m + 1
+
     def update_model_a(self, bits: NDArray[np.int_]) -> None:
         """update model of data. model_a uses only data which mavlink passed crc (and valid codeword)
         :param bits: hard estimate for bit values, assumed to be correct.
@@ -354,13 +363,7 @@ class EntropyBitwiseWeightedDecoder(Decoder):
             self.a_zeros_prior += 1 - bits
             # to allow for changes in data divide by common divisor
             if self.a_ones_prior[0] + self.a_zeros_prior[0] > self.max_size:
-                gcd = np.gcd(self.a_ones_prior, self.a_zeros_prior)
-                self.a_ones_prior //= gcd
-                self.a_zeros_prior //= gcd
-                if self.a_ones_prior[0] + self.a_zeros_prior[0] < self.min_size:
-                    m = self.min_size // self.a_ones_prior[0] + self.a_zeros_prior[0]
-                    self.a_ones_prior *= m
-                    self.a_zeros_prior *= m
+                self.a_ones_prior, self.a_zeros_prior = self._thin_out(self.a_ones_prior, self.a_zeros_prior)
 
             # estimate v using mode of beta variable
             v = np.nan_to_num((self.a_ones_prior - 1) / (self.a_ones_prior + self.a_zeros_prior - 2))
@@ -407,13 +410,7 @@ class EntropyBitwiseWeightedDecoder(Decoder):
             self.b_zeros_prior += 1 - bits
             # to allow for changes in data divide by common divisor
             if self.b_ones_prior[0] + self.b_zeros_prior[0] > self.max_size:
-                gcd = np.gcd(self.b_ones_prior, self.b_zeros_prior)
-                self.b_ones_prior //= gcd
-                self.b_zeros_prior //= gcd
-                if self.b_ones_prior[0] + self.b_zeros_prior[0] < self.min_size:
-                    m = self.min_size // self.b_ones_prior[0] + self.b_zeros_prior[0]
-                    self.b_ones_prior *= m
-                    self.b_zeros_prior *= m
+                self.b_ones_prior, self.b_zeros_prior = self._thin_out(self.b_ones_prior, self.b_zeros_prior)
             # estimate v using mode of beta variable
             v = np.nan_to_num((self.b_ones_prior - 1) / (self.b_ones_prior + self.b_zeros_prior - 2))
 
-- 
2.43.0


From 5ec06c8fdbc002f4280c808d1e920846289ecfcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:39:40 +0000
Subject: [PATCH 44/45] fix: precision of a class that neither occurs nor is
 predicted is 1 as documented

---
 utils/performance_analysis.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/utils/performance_analysis.py b/utils/performance_analysis.py
index 1c30a31..6481f4b 100644
--- a/utils/performance_analysis.py
+++ b/utils/performance_analysis.py
@@ -14,7 +14,7 @@ def stats(actual_labels=None, predicted_labels=None, cm=None):
         _precision = np.zeros(n_classes)
         for label in range(n_classes):
             if np.sum(cm[:, label]) == 0:  # no predictions for this class
-                _precision[label] = 1 if no_true_positives[label] is True else 0
+                _precision[label] = 1 if no_true_positives[label] else 0
                 # if there are no true positives, then precision is 1, else 0
             else:  # there are predictions for this class
                 _precision[label] = cm[label, label] / np.sum(cm[:, label])
-- 
2.43.0


From 22b2a638edb9b5a0fbdcad10a4ee7519cea6ac7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:12:45 +0000
Subject: [PATCH 45/45] fix: a logger set up again wrote every message twice

---
 utils/common_logging.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/utils/common_logging.py b/utils/common_logging.py
index 0a70b66..57a3cf2 100644
--- a/utils/common_logging.py
+++ b/utils/common_logging.py
@@ -6,6 +6,9 @@ def setup_logger(name=__name__, log_file='./log.log', level=logging.INFO):
     # Create a custom logger
     logger = logging.getLogger(name)
     logger.setLevel(level)
+    for handler in list(logger.handlers):  # a logger set up again must not write every message twice
+        logger.removeHandler(handler)
+        handler.close()
 
     # Create handlers
     c_handler = logging.StreamHandler(sys.stdout)
-- 
2.43.0

