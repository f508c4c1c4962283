"""Single source of properties.jsonl and MANIFEST.json:  python3 mc/registry.py  rewrites both."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(pid, title, statement, over, quant, why, files, mechanism, observe, technique, note, state=()):
    P.append({"id": pid, "title": title, "statement": statement, "over": over, "quant": quant, "why": why, "files": files,
              "mechanism": mechanism, "observe": observe, "technique": technique, "note": note, "state": list(state)})


REF = "explicit enumeration of the real code in lockstep with an independent reference model"
HIST = "bounded exhaustive exploration of operation histories of the real code against a reference model"
SCRIPT = "bounded exhaustive exploration of channel words and scripted inner-decoder answers against a reference model"

prop("C01", "A header is valid exactly when marker, message id and payload length agree",
     "A byte string is recognised as a frame header if and only if it is exactly six bytes long, starts with the 0xFE marker, carries "
     "the id of a message the dialect defines, and its length byte is that message's total payload length on the wire (every element "
     "of array fields included). Sequence, system and component bytes never matter.",
     ["inputs"], "all byte strings; in particular all marker x length x id combinations",
     "tests try a handful of random headers; a wrong length for one of 155 messages or one misjudged byte value goes unseen",
     ["protocol_meta/msg_header.py", "protocol_meta/protocol_meta.py", "mavlink_utils/HC_dialect.py"],
     [("header validity test", "protocol_meta/msg_header.py:is_valid_header"), ("payload length table", "protocol_meta/protocol_meta.py:MavlinkDialectMeta")],
     ["is_valid_header"], REF, "All 2^24 marker/length/id combinations and, for every valid header and its one-bit neighbours, all values of the free "
     "bytes, decided against a table generated from the dialect XML. The free bytes are not all combined with each other.")
prop("C02", "Frame headers round-trip between fields and bytes, and reject bad input",
     "Building a header from a known message id and system, component and sequence numbers in 0..255 gives the six bytes the protocol prescribes, which are a valid "
     "header and read back to the same numbers. Parsing any six bytes with a known message id (or a forced known id) gives the header of that id with the buffer's "
     "sequence, system and component bytes. Out of range numbers, unknown message ids and wrong lengths are refused, each with its own error.",
     ["inputs"], "all message ids -2..258, all byte values and out of range values of each number",
     "tests use random valid values and one or two invalid ones",
     ["protocol_meta/msg_header.py"], [("constructor checks", "protocol_meta/msg_header.py:FrameHeader.__init__"), ("parser", "protocol_meta/msg_header.py:FrameHeader.from_buffer")],
     ["FrameHeader"], REF, "Every id with 11 edge values cubed and all 256 values of each field; every parse of 6^3 values; lengths 0..19.")
prop("C03", "Distance to the nearest valid header is the true minimum",
     "For any six bytes, the distance reported to the nearest valid header is the least number of bits of marker, length and id that must change to obtain a valid header, and the "
     "message id returned is one that attains it. When a maximal payload length is given, the minimum is taken over exactly the messages whose payload is not longer than that.",
     ["inputs"], "all length x id pairs, all limits next to a payload length",
     "tests compare a few random headers without exploring the limit or the search order",
     ["protocol_meta/msg_header.py", "utils/bit_operations.py"], [("nearest header search", "protocol_meta/msg_header.py:hamming_distance_2_valid_header")],
     ["hamming_distance_2_valid_header"], REF, "All 65536 length/id pairs; all limits around each payload length for all 155 headers. When no message fits, only the returned id is judged.")
prop("C04", "Hamming distance counts differing bits in every representation",
     "The Hamming distance of two bit sequences is the number of positions where they differ, whichever of bit strings, bytes, integers of a given bit width or 0/1 arrays each is given as, at any length. "
     "Other types are refused with a type error, and sequences of different length or integers that do not fit the width never get a distance.",
     ["inputs"], "all pairs of short strings in all pairs of representations; long strings with every count of differing bits",
     "tests use a few random pairs of one representation each",
     ["utils/bit_operations.py"], [("distance", "utils/bit_operations.py:hamming_distance")], ["hamming_distance"], REF,
     "All pairs up to 6 (thorough 8) bits in all representation pairs, all byte pairs, all counts up to 520 (4096) bits.")
prop("C05", "The dialect builds and parses every message as its XML definition says",
     "For every message of the dialect, the ids, payload lengths, field names, types and wire order published by the protocol description agree with the XML definition. Encoding any in-range field values gives exactly the "
     "frame the MAVLink 1 rules prescribe and parsing it returns the same values; a frame damaged in one bit, cut short or extended is refused with the protocol's error. "
     "A message reports these values and its own frame, sender and sequence in every form it offers, and equals another exactly if type, sender, sequence and values are equal.",
     ["inputs"], "all 155 messages, extreme and special values per element, text fields of all shapes, all single bit errors, truncations and extensions",
     "no test packs or parses messages other than two recorded buffers",
     ["protocol_meta/protocol_meta.py", "mavlink_utils/HC_dialect.py"], [("layout tables", "protocol_meta/protocol_meta.py:MavlinkDialectMeta"), ("parser", "mavlink_utils/HC_dialect.py:MAVLink.decode")],
     ["dialect_meta.msgs_payload_length", "dialect_meta.msgs_fields", "dialect_meta.protocol_parser"], REF,
     "Trusts the table generated once from the XML. Frames whose id changed to one of another payload length with a coincidentally correct checksum are left to header validity.")
prop("C06", "Segmentation finds exactly the intact frames of a buffer",
     "Scanning a buffer from the left, every complete frame with a valid header and a correct checksum that does not begin inside an earlier reported one is reported at its byte position with its message id, and nothing else is. "
     "Each byte is labelled header, payload, checksum or unknown accordingly, and bits are marked certain exactly on the bytes of reported frames. This holds whatever junk, damaged, truncated or nested frames surround them.",
     ["inputs", "fault_sequences"], "all sequences of intact, damaged, truncated, nested and junk chunks up to a bound; all slices and bit flips of recorded buffers",
     "tests segment two fixed buffers with one damaged byte",
     ["inference/buffer_segmentation.py", "protocol_meta/msg_header.py", "mavlink_utils/HC_dialect.py"], [("single left to right pass", "inference/buffer_segmentation.py:BufferSegmentation.segment_buffer")],
     ["BufferSegmentation.segment_buffer", "BufferSegmentation.get_buffer_structure"], REF,
     "All sequences of up to 3 (4) of 18 chunks, all 155 messages cut and damaged at every byte, all slices and single flips of a log buffer, all double flips of a 27 (117) byte buffer.")
prop("C07", "Bad parts are exactly the maximal unidentified runs of the buffer",
     "Given a buffer and its byte labels, the bad parts returned are exactly the maximal runs of unknown bytes with their content, and the bad ranges returned are the same runs as start and end positions (none when everything is identified). "
     "Together with the frames found they add up to the whole buffer.",
     ["inputs"], "all labelings of buffers up to a length",
     "tests check one buffer with one bad part",
     ["inference/buffer_segmentation.py"], [("run scan", "inference/buffer_segmentation.py:BufferSegmentation.bad_buffer_parts"), ("run scan", "inference/buffer_segmentation.py:BufferSegmentation.bad_buffer_idx")],
     ["BufferSegmentation.bad_buffer_parts", "BufferSegmentation.bad_buffer_idx"], REF, "All masks up to 13 (18) bytes and all sequences of up to 4 of 5 chunks.")
prop("C08", "A structure registers exactly the buffers that adhere to it",
     "A buffer adheres to a structure only if it has, at every message position, a header with that message's id; registering such a buffer stores it and counts it, in order, and registering any other is refused and changes nothing. "
     "Two structures are equal exactly when their positions and ids are, whatever each has received, and one structure's registrations never show in another.",
     ["histories", "inputs"], "all registration histories over two structures up to a bound",
     "tests register one buffer per structure",
     ["inference/buffer_segmentation.py"], [("adherence test and counter", "inference/buffer_segmentation.py:BufferStructure")], ["BufferStructure"], HIST,
     "All histories of up to 2 (3) registrations of 13 buffers into 144 pairs of structures. Buffers with unknown ids or too short for a header may be refused with any error.",
     [("received buffers", "buffers accepted so far", "inference/buffer_segmentation.py:BufferStructure")])
prop("C09", "Field listings give every field of every intact message once, in wire order",
     "Listing the fields of a buffer yields, for each intact message in buffer order, each field under the message's type name and field name with the transmitted value and declared type, in wire order. The accompanying description "
     "lists per message the six header bytes, the name and type of each field, and a checksum entry. A buffer with no message gives an empty listing.",
     ["inputs"], "all 155 messages with extreme values, all sequences of intact and damaged messages up to a bound",
     "no test lists fields",
     ["inference/buffer_segmentation.py"], [("field listing", "inference/buffer_segmentation.py:BufferSegmentation.get_msg_fields")], ["BufferSegmentation.get_msg_fields"], REF,
     "Character arrays are compared for ASCII text with trailing zeros removed.")
prop("C10", "Values become the wire bits of the nearest representable number",
     "The bit representation of a number for a field type is that of the nearest value the type can hold: rounded to an integer and limited to the type's range for integer types, the single precision number for floats, the byte for characters. "
     "Bits come in transmission order: little endian bytes, most significant bit of each byte first. Unknown types are refused.",
     ["inputs"], "all 8 and 16 bit values; all powers of two and limits of wider types; all characters",
     "no test converts values",
     ["inference/statistical_models.py"], [("conversion", "inference/statistical_models.py:num2bits")], ["num2bits", "FieldModel.bitwise_mean"], REF,
     "Ties between two integers and floats beyond single precision range are not judged.")
prop("C11", "A field model describes exactly the samples in its window, at any moment",
     "After any history of added samples and reads, a field model holds the last samples its window allows (all without a window), and its mean, standard deviation (also as printed), density and mean bits are those of exactly these samples, non-finite ones aside. "
     "The probability that a value is no outlier is the two sided Gaussian tail for that mean and deviation; with zero deviation it is one for the mean and zero otherwise.",
     ["histories", "inputs"], "all interleavings of adding (one or several) and reading up to a bound, per type and window",
     "no test builds field models; a stale cached mean or an off by one window shows only for particular orders of adds and reads",
     ["inference/statistical_models.py"], [("sample window and cached fit", "inference/statistical_models.py:FieldModel")], ["FieldModel"], HIST,
     "Window of at least one sample.", [("samples", "values in the window", "FieldModel.samples"), ("cached fit", "mean and deviation until next add", "FieldModel")])
prop("C12", "A buffer model attributes every bit and value to its own field",
     "For any structure of messages, each bit, each unpacked value and each bit error is attributed to the field (array element) that occupies it on the wire, the marker, sequence and system bytes being shared between messages; bytes and bit arrays give the same result. "
     "After any history of buffers, each field's model holds exactly its own values, and the probability, deviation and mean bits reported for a bit are those of its field's model, unknown (or zero bits) where there is none.",
     ["histories", "inputs", "configurations"], "all 155 messages in several positions; all histories of buffers of several structures up to a bound, with and without window",
     "one test runs a decoder over a recorded file; no test looks at the attribution",
     ["inference/statistical_models.py"], [("structure unpacking", "inference/statistical_models.py:BufferModel")], ["BufferModel"], HIST,
     "Single precision rounding of non-integer float means is not judged bit by bit.", [("field models", "one model per field name", "BufferModel")])
prop("C13", "A saved model loads as the same model and evolves identically",
     "Saving a buffer model to a file and loading it gives a model with the same fields, types, windows, samples, size and description, hence the same predictions, and leaves the saved model unchanged. "
     "Any later history of buffers has the same effect on the loaded model as it would have had on the original. The model files shipped with the package load as they say.",
     ["histories", "configurations"], "all histories with saves and loads inserted at any step up to a bound, with and without window, with and without description",
     "no test saves or loads a model",
     ["inference/statistical_models.py"], [("JSON form", "inference/statistical_models.py:BufferModel.save"), ("reconstruction", "inference/statistical_models.py:BufferModel.load")],
     ["BufferModel.save", "BufferModel.load"], HIST, "No crash model: a save interrupted half way is out of scope.")

prop("C14", "Online clustering loses, duplicates or misplaces no sample",
     "While gathering data every sample is labelled -1; from the min_data_size-th sample on every label is the id of one of the (at most k) clusters. At every moment each sample seen belongs to exactly one cluster, "
     "a classified sample is added to the cluster it was labelled with and no other changes, and each cluster's distribution, size and majority bits are those of its own samples, also for a cluster made from a known distribution over several samples.",
     ["histories", "configurations"], "all histories of samples up to a bound, all metric settings, min_data_size 2..5, k 1..3",
     "tests run one recorded file and look at aggregate sizes; a sample merged twice or a wrong running average needs a particular order",
     ["inference/clustering.py"], [("classifier state machine", "inference/clustering.py:BufferClassifier.classify"), ("running average", "inference/clustering.py:Cluster")],
     ["BufferClassifier.classify", "Cluster"], HIST, "min_data_size of at least 2.", [("clusters", "distribution and size per cluster", "BufferClassifier.clusters")])
prop("C15", "A sample joins a nearest cluster, and clusters form from nearest pairs",
     "The label of a classified sample is a cluster whose distance to it, by the configured measure (likelihood or Hamming), is least. The initial clusters are a result of repeatedly merging a pair "
     "whose weighted distance (Hellinger or symmetric KL, with the configured size weight) is least, until k are left.",
     ["histories", "configurations"], "all histories of samples up to a bound under all 12 metric settings",
     "tests check one fixed data set with one setting",
     ["inference/clustering.py"], [("nearest cluster", "inference/clustering.py:BufferClassifier"), ("agglomeration", "inference/clustering.py:BufferClassifier")],
     ["BufferClassifier.classify"], HIST, "Ties (1e-9) may be resolved either way.")
prop("C16", "The online denoiser minimises estimated loss from the past alone",
     "For every stream, the estimate of each sample minimises the expected loss under the channel inversion of the counts of its k preceding samples, counts including it and never later ones; the first k samples pass unchanged. "
     "In soft mode the answer is the corresponding probability distribution. Splitting a stream over calls changes nothing, reset forgets everything, and symbols or contexts outside the alphabet or of the wrong length are refused.",
     ["histories", "inputs", "configurations"], "all binary and ternary streams up to a length, all histories of samples, resets, context settings and refusals",
     "the single test checks a fixed random sequence for one channel",
     ["inference/dude.py"], [("context counts", "inference/dude.py:OnlineDude")], ["OnlineDude.denoise_sample", "OnlineDude.denoise_sequence"], HIST, "Ties (1e-9) may be resolved either way.",
     [("context counts", "symbol counts per context", "OnlineDude")])
prop("C17", "The two pass denoiser uses the two sided context over the whole sequence",
     "For every sequence, each sample at least k from both ends is estimated by minimising the expected loss under the channel inversion of the counts of its two sided context over the whole sequence; the others pass unchanged; "
     "the cost is the average of the minimal losses. Soft estimates are the corresponding distributions. The input is not changed and sequences do not influence each other.",
     ["inputs", "configurations"], "all binary and ternary sequences up to a length",
     "the single test uses one random sequence",
     ["inference/dude.py"], [("two passes", "inference/dude.py:DUDE")], ["DUDE.denoise_sequence"], REF, "Ties (1e-9) may be resolved either way.")
prop("C18", "The entropy aided denoiser adds only its confidence weighted history",
     "For every history of buffers, the value returned for a bit is the channel log ratio plus, where the windowed history (corrected for channel flips) has entropy below the threshold, the confidence weighted log ratio of that history; "
     "the current buffer counts only for later ones. Windows keep exactly the last buffers, reset forgets all, a sequence gives the same as buffer by buffer, and the cost counts the changed bits.",
     ["histories", "configurations"], "all histories of buffers and resets up to a bound, 128 settings",
     "no test covers this class",
     ["inference/entropy_mle.py"], [("windowed history", "inference/entropy_mle.py:EMLE")], ["EMLE.denoise_buffer", "EMLE.denoise_sequence"], HIST, "Buffers of two bits: bits do not interact.",
     [("window", "last buffers", "EMLE")])


prop("C19", "Entropy decoder adds clipped model evidence and learns from what it decodes",
     "For every history of buffers, the entropy based decoder over a soft code decoder gives the code decoder the channel log ratios plus, on the model bits whose distribution in the buffer's cluster has entropy below the threshold, the confidence "
     "weighted log ratio of that distribution, clipped to the clipping factor times the strongest channel value. It returns the code decoder's answer unchanged with the label, and learns, for that cluster only and within the window, the estimate on success and the channel bits on failure. "
     "While the classifier is training, buffers pass through and nothing is learnt; a given bit model is used and never changed.",
     ["histories", "inputs", "configurations"], "all histories of channel words and code decoder answers up to a bound, many settings; all histories of noisy words of a small real code",
     "the tests decode one recorded file; the order of learning and predicting, the window and the clipping are never observed separately",
     ["decoders/classifiying_decoder.py", "inference/clustering.py"], [("prediction and learning", "decoders/classifiying_decoder.py:ClassifyingEntropyDecoder")],
     ["ClassifyingEntropyDecoder.decode_buffer", "values given to the code decoder"], SCRIPT, "Information bits first. The code decoder is scripted, plus the real one on a (6,3) code.",
     [("data models", "window of buffers per cluster", "ClassifyingEntropyDecoder")])
prop("C20", "Entropy decoder drives hard decision code decoders by its stated rule",
     "Over a weighted bit flipping or Gallager code decoder, the entropy based decoder gives it the channel values plus the model log ratios (scaled down, if stronger, to the strongest channel value), the sum renormalised to the strongest channel value (or, with the forcing method and a full window, the hard channel bits with the low entropy model bits forced to the "
     "model's value), falls back to the channel alone while the model says nothing, returns the code decoder's answer, and learns as it does over a soft code decoder.",
     ["histories", "inputs", "configurations"], "all histories of channel words and code decoder answers up to a bound, both code decoders",
     "no test runs the decoder over a hard decision code decoder for more than one fixed scenario",
     ["decoders/classifiying_decoder.py"], [("reliability methods", "decoders/classifiying_decoder.py:ClassifyingEntropyDecoder")],
     ["ClassifyingEntropyDecoder.decode_buffer", "values given to the code decoder"], SCRIPT, "Methods 0 and 3; methods 1 and 2 are not judged, method 3 with one cluster.")
prop("C21", "Denoising decoder feeds one denoiser per model bit and cluster, in order",
     "For every history of buffers, each model bit of each cluster has a denoiser of its own that sees exactly that bit of that cluster's buffers, in order; the code decoder is given the channel plus the confidence weighted log ratio of the denoisers' soft answers, "
     "clipped to the clipping factor times the strongest channel value; its answer is returned unchanged and the caller's channel word is never modified. While the classifier is training, buffers pass through.",
     ["histories", "inputs", "configurations"], "all histories of channel words and code decoder answers up to a bound, contexts 0..3",
     "one test decodes a few buffers; contexts and clusters are never told apart",
     ["decoders/classifying_DUDE_decoder.py", "inference/dude.py"], [("denoiser bank", "decoders/classifying_DUDE_decoder.py:ClassifyingDudeDecoder")], ["ClassifyingDudeDecoder.decode_buffer", "values given to the code decoder"], SCRIPT,
     "Information bits first.", [("denoisers", "context counts per bit and cluster", "ClassifyingDudeDecoder")])
prop("C22", "Field model decoder changes exactly the bits its field models judge",
     "For every history of buffers, the field model based decoder strengthens by the valid factor the bits of fields judged valid, weakens by the invalid factor those judged invalid (both scaled by confidence while learning), forces to the mean the bits of constant fields contradicted by the channel, and doubles the bits of messages found intact, and no other bit. "
     "The code decoder's answer is returned, prediction and decoding being repeated up to the set number of rounds until success; each buffer is classified and learnt once, from the estimate on success and the channel otherwise, with the structure of the first recovered buffer of its cluster. The debug figures count the damaged, judged and forced fields and bits as they were at prediction.",
     ["histories", "inputs", "configurations"], "all histories of frames, channel errors and code decoder answers up to a bound, learning and fixed models, rounds 1..3",
     "the tests decode one recorded file and look at success rates",
     ["decoders/mavlink_decoder.py", "inference/statistical_models.py", "inference/buffer_segmentation.py"], [("prediction", "decoders/mavlink_decoder.py:MavlinkRectifyingDecoder.model_prediction"), ("learning", "decoders/mavlink_decoder.py:MavlinkRectifyingDecoder")],
     ["MavlinkRectifyingDecoder.decode_buffer", "values given to the code decoder"], SCRIPT, "Information bits first; recovered buffers contain a message; thresholds not met exactly.",
     [("structures", "message positions per cluster", "MavlinkRectifyingDecoder.buffer_structures"), ("field model", "samples per field", "MavlinkRectifyingDecoder.model")])
prop("C23", "Combined decoders apply both models, each by its own rule, and teach both",
     "For every history of buffers, the combined decoder gives the code decoder the field model rectified channel plus the entropy model's log ratios clipped to the clipping factor times the strongest channel value; the unified one scales only low entropy bits, and those judged invalid only where the entropy model contradicts the channel "
     "(inverting if so set). Both models learn once per buffer, for the buffer's cluster, from the estimate on success and the channel otherwise; the code decoder's answer is returned unchanged with the label.",
     ["histories", "inputs", "configurations"], "all histories of frames, channel errors and code decoder answers up to a bound, both decoders",
     "the tests run one file through each decoder",
     ["decoders/combined_decoder.py", "decoders/combined_unified_decoder.py"], [("combination", "decoders/combined_decoder.py:CombinedDecoder"), ("combination", "decoders/combined_unified_decoder.py:CombinedUnifiedDecoder")],
     ["CombinedDecoder.decode_buffer", "CombinedUnifiedDecoder.decode_buffer", "values given to the code decoder"], SCRIPT, "As C22.", [("both models", "field samples and bit windows", "CombinedDecoder, CombinedUnifiedDecoder")])
prop("C24", "Bitwise entropy decoders use the model only after the channel alone failed",
     "For every history of buffers, the bitwise entropy decoders first give the code decoder the channel alone and, on success, return that; only on failure, and only once enough buffers were learnt (or with a given model), they try again with the clipped model log ratios added on the low entropy bits (flipping variant: those bits replaced by the model's) "
     "and return that answer, with the number of messages found in it. Only buffers all of whose model bits are intact messages are learnt, within the window; a given model is never changed.",
     ["histories", "inputs", "configurations"], "all histories of frames, channel errors and code decoder answers up to a bound",
     "no test covers the order of attempts or what is learnt",
     ["decoders/entropy_bitwise_decoder.py"], [("two attempts", "decoders/entropy_bitwise_decoder.py:EntropyBitwiseDecoder"), ("two attempts", "decoders/entropy_bitwise_decoder.py:EntropyBitwiseFlippingDecoder")],
     ["EntropyBitwiseDecoder.decode_buffer", "EntropyBitwiseFlippingDecoder.decode_buffer", "values given to the code decoder"], SCRIPT, "Information bits first; model length whole bytes.",
     [("window", "recovered buffers", "EntropyBitwiseDecoder")])
prop("C25", "Weighted entropy decoder trusts recovered and raw histories by its scheme",
     "For every history of buffers, the weighted decoder keeps one window of fully recovered buffers and one of all buffers (the estimate where the channel alone decoded or the buffer was fully recovered, the received bits otherwise), and, when the channel alone fails, tries again with both windows' log ratios on their low entropy bits, each weighted by its size based confidence as the chosen one of the six schemes prescribes "
     "(independent, shared, shared with double weight of the recovered, recovered only, variance scaled, all only), clipped to the clipping factor times the strongest channel value. It returns the last answer with both distributions and structural bits. "
     "The Bayes estimator counts instead of keeping windows; once it has counted twice the window, it thins out the counts of each bit without changing their ratio, so that no estimate changes.",
     ["histories", "inputs", "configurations"], "all histories of frames, channel errors and code decoder answers up to a bound, all six schemes",
     "no test covers this decoder's schemes",
     ["decoders/entropy_bitwise_decoder.py"], [("confidence schemes", "decoders/entropy_bitwise_decoder.py:EntropyBitwiseWeightedDecoder")], ["EntropyBitwiseWeightedDecoder.decode_buffer", "values given to the code decoder"], SCRIPT,
     "The Bayes estimator is given a window.", [("two windows", "recovered and all buffers", "EntropyBitwiseWeightedDecoder")])
prop("C26", "Turbo decoding exchanges only extrinsic information and stops at success",
     "For any component decoders, each call of one gets the channel plus exactly what the other one's last output added to its own input (nothing at first); decoding stops with the answer of the first component that succeeds, otherwise returns the second one's last answer after the set number of rounds, "
     "naming the component that answered and, in debug mode after failure, the number of wrong bits left. Buffers do not influence each other and inputs are not modified.",
     ["inputs", "histories"], "all sequences of soft outputs and success flags up to 3 (4) rounds, three buffers per decoder",
     "no test covers turbo decoding",
     ["decoders/turbo.py"], [("exchange loop", "decoders/turbo.py:TurboDecoder.decode_buffer")], ["TurboDecoder.decode_buffer", "values given to the component decoders"], SCRIPT, "At least one round.")
prop("C27", "Information measures equal their definitions on every distribution",
     "The empirical distribution of data is the relative frequency of each value that occurs, in increasing order of value, per row for two dimensional data; entropy is the sum of -p log2 p with zero terms for zero probabilities; the Hellinger distance is its definition, within 0 and 1, zero exactly for equal distributions and never undefined; "
     "the bounds on the typical set size are 2^(n(H+eps)) and (1-eps)2^(n(H-eps)). Non integer data, arrays of more dimensions and non positive lengths or eps are refused; data are not changed.",
     ["inputs"], "all data sequences up to a length, all distributions with small denominators and all their pairs",
     "tests use a few distributions; rounding turned one Hellinger distance into NaN",
     ["utils/information_theory.py"], [("measures", "utils/information_theory.py")], ["prob", "prob_with_alphabet", "entropy", "hellinger", "typical_set_cardinality"], REF, "Distributions that sum to one.")
prop("C28", "Performance figures count what they name, for every input type",
     "The bit error rate of two words is the fraction of positions that differ, whatever their numeric types. Precision, recall, F1 and accuracy follow from the confusion counts by their definitions, a class never predicted having precision zero, or one if it does not occur either. "
     "The decoders' confusion counts are the sizes of the intersection and differences of the predicted and actual sets.",
     ["inputs"], "all pairs of words and label sequences up to a length, all small confusion matrices, all pairs of small sets",
     "no test covers these figures; unsigned types wrap around",
     ["utils/performance_analysis.py", "decoders/mavlink_decoder.py", "decoders/combined_decoder.py", "decoders/combined_unified_decoder.py"], [("rates", "utils/performance_analysis.py:ber"), ("statistics", "utils/performance_analysis.py:stats"), ("counts", "decoders/mavlink_decoder.py:confusion")],
     ["ber", "stats", "confusion"], REF, "Recall and F1 of a class that never occurs are undefined and not judged.")
prop("C29", "Markov samples follow the given transitions from exactly the preceding states",
     "Every generated sequence starts with the given initial states and draws each next sample with the transition probabilities given for the preceding states, oldest first, as many as the order; it has the requested length. Initial states of the wrong number and inconsistent transition matrices are refused.",
     ["inputs", "schedules"], "all deterministic chains of small order; all outcomes of all draws up to a depth",
     "no test covers the source",
     ["utils/random_sources.py"], [("sampling loop", "utils/random_sources.py:generate_markov_samples")], ["generate_markov_samples"], REF, "At least as many samples as the order.")


prop("C30", "Bernoulli mixture fitting is expectation maximisation and scores its mixture",
     "From any initial values and data, every fitting step replaces weights and probabilities by those of one expectation maximisation step, so the weights stay a distribution, the probabilities stay within 0 and 1, the mixture's mean is the data's mean and the likelihood of the data never falls. "
     "The score of a sample is the log of its probability under the fitted mixture, the overall score their mean, and the predicted label the component with the largest share. Data are not changed.",
     ["inputs", "schedules"], "all small data sets, all initial values of a grid (the random generator's answers are enumerated), 0..3 (4) steps",
     "no test covers the mixture model",
     ["inference/bmm.py"], [("fitting loop", "inference/bmm.py:BMM.fit")], ["BMM.fit", "BMM.predict", "BMM.score", "BMM.score_samples"], REF,
     "Single steps are not compared where a sample is impossible or a component dies; the invariants still are.")
prop("C31", "Instances are isolated and never keep or change their callers' data",
     "However the calls of two objects of the same class interleave, each answers as it would alone: no decoder, model, classifier, denoiser or segmentation object influences another. No call changes the arrays or lists it is given, overwriting them after the call changes nothing, "
     "an answer once returned does not change through later calls, and no later answer depends on what its receiver does with an answer, or the caller with the arrays it gave at construction.",
     ["histories", "schedules"], "all interleavings of all short histories of two objects, for every stateful class",
     "tests use one object at a time and never reuse an input array",
     ["decoders", "inference"], [("per object state", "decoders, inference: all constructors")], ["decode_buffer of every decoder, every public call of the models, classifier, denoisers and segmentation"], HIST,
     "Histories of 3 and 2 (thorough 3 and 3) calls out of 3 per class; histories of 4 (thorough 6) with overwritten answers. A given buffer structure list is not overwritten, only checked to stay as it was.")
prop("C32", "The stream parser delivers the same frames however the stream is cut",
     "With robust parsing, the messages and bad-data pieces delivered, followed by the bytes still held back, are exactly the received stream in order, however it is cut into reads; every intact frame that starts where the previous piece ends is "
     "delivered as that message with its sequence, system and component numbers and fields, and nothing else is delivered as a message. Counters and callbacks agree with the deliveries. Reading exactly the number of bytes asked for delivers every frame with its "
     "last byte. Without robust parsing each run of junk and each damaged frame raises one error. A sender numbers its messages consecutively modulo 256 and writes exactly their frames, independently of other senders; a message whose write fails uses up no number and the error is passed on. This holds for both dialects.",
     ["inputs", "schedules", "histories"], "all streams of up to 3 (4) frames, damaged frames and junk pieces; all ways to cut them in two (short ones in three), byte by byte; all interleavings of two senders",
     "no test uses the stream parser or sends messages",
     ["mavlink_utils/HC_dialect.py", "mavlink_utils/minimal_dialect.py"], [("parser state machine", "mavlink_utils/HC_dialect.py:MAVLink.parse_char"), ("sender", "mavlink_utils/HC_dialect.py:MAVLink.send")],
     ["MAVLink.parse_buffer", "MAVLink.parse_char", "MAVLink.bytes_needed", "MAVLink.send"], HIST, "MAVLink 1 frames; MAVLink 2 markers only in damaged data.",
     [("receive buffer", "bytes held back until a frame is complete", "MAVLink.buf")])
prop("C33", "The minimal dialect and all enumerations are as their XML definitions say",
     "For every message of the minimal dialect, names, field order, types and lengths agree with its XML definition, encoding in-range values gives exactly the prescribed frame, parsing returns the same values in every form, and a frame with any bit flipped, cut or extended is refused. "
     "In both dialects every enumeration entry of the XML has its value, as a module constant and by value in the enumeration table, with its name.",
     ["inputs"], "all messages, extreme values per element, all single bit errors; all enumeration entries",
     "no test touches the minimal dialect or the enumerations",
     ["mavlink_utils/minimal_dialect.py", "mavlink_utils/HC_dialect.py"], [("parser", "mavlink_utils/minimal_dialect.py:MAVLink.decode"), ("enumerations", "mavlink_utils/HC_dialect.py:enums")],
     ["MAVLink.decode", "mavlink_map", "enums"], REF, "Trusts the table generated once from the XML.")
prop("C34", "Telemetry is recovered end to end with the real code, and success is never false",
     "With frames of real telemetry encoded by the 802.11 code and decoded by its own decoder, every decoder of the package recovers the transmitted buffer for every single flipped bit, before it has learnt anything and after it has learnt telemetry that includes what was sent. "
     "Once it has learnt unchanging telemetry, it also recovers every burst of flipped bits in the modelled part that the code alone may not survive (the decoders that try the code alone first: unless the code alone finds another codeword). "
     "Whatever was received before, success is reported exactly when the returned word satisfies all parity checks.",
     ["inputs", "histories"], "all bit positions, all bursts of given lengths at every byte (thorough: bit), all short histories of clean, damaged and hopeless receptions, for 14 decoder settings",
     "no test runs a decoder",
     ["decoders", "inference", "protocol_meta"], [("model correction", "decoders/*: decode_buffer"), ("learning", "decoders/*: update_model")], ["decode_buffer"], 
     "bounded exhaustive fault injection into the real decoders with the real code", "One code (N648, rate 1/2), p 0.02. Bursts: lengths 8 and 64 (thorough 8 to 80); the denoising decoder only length 8.",
     [("model", "what was learnt from earlier buffers", "decoders/*")])
prop("C35", "Generated dialects speak exactly the protocol their definition prescribes",
     "From a definition file the dialect generator writes, at the place given, a MAVLink 1 dialect whose messages are built and parsed exactly as the definition prescribes, included definitions and enumeration values among them. "
     "A dialect generated from a shipped definition interoperates with the shipped dialect in both directions, message for message, and has the same enumerations; C output has the same ids, lengths and checksum seeds. A definition that contradicts the schema gives no dialect.",
     ["inputs", "configurations"], "both shipped definitions with all messages; all definitions of messages of up to two fields over all field types, longer ones over a type of each size; all small enumerations",
     "no test generates a dialect",
     ["mavlink_utils/utils.py", "mavlink_utils/HC_dialect.xml", "mavlink_utils/minimal_dialect.xml"], [("generator options", "mavlink_utils/utils.py:dialect_creator")], ["dialect_creator", "the module it writes"], REF,
     "The generator of the installed pymavlink is taken as it is; arrays of a single element are left out (it reads them back as a number).")
prop("C36", "Relabelling assigns clusters to classes one to one, largest overlap first",
     "Given predicted cluster numbers and real classes (or classes known to come in turn), relabelling maps the clusters one to one to the classes by repeatedly taking a largest remaining overlap, replaces every prediction by its class, "
     "marks predictions that are no cluster with 255, and leaves its inputs unchanged. Hence a clustering that is right up to the numbering is relabelled to the real classes.",
     ["inputs"], "all pairs of short label sequences, all small overlap matrices, all permutations of up to 5 classes",
     "no test relabels anything; a map that is not one to one needs three classes with competing overlaps",
     ["runs/clsutering_analysis/functions.py"], [("greedy assignment", "runs/clsutering_analysis/functions.py:relabel")], ["relabel"], REF, "Equal overlaps may be resolved either way.")

prop("C37", "A logger writes each message of its level once, wherever it was last set up",
     "After a logger was set up for a name, every message of at least the given level (information by default) is written exactly once to the console and exactly once, appended, to the given file, with time, name, level and text; messages of lower level nowhere. "
     "Setting it up again, with the same or another file or level, replaces the former set up. Loggers of other names neither write there nor change.",
     ["histories"], "all histories of up to 4 (5) set ups and messages of two loggers, two files and four levels",
     "no test covers logging; repeated set ups and shared files need several calls in one process",
     ["utils/common_logging.py"], [("handlers", "utils/common_logging.py:setup_logger")], ["setup_logger", "the console", "the log files"], HIST, "Unrelated logger names; no handlers at the root logger.")


def main():
    from importlib import util
    ids = [p["id"] for p in P]
    assert len(set(ids)) == len(ids)
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for p in P:
            assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
            f.write(json.dumps({
                "id": p["id"], "title": p["title"], "statement": p["statement"], "quantifier": {"over": p["over"], "text": p["quant"]},
                "why_tests_cant": p["why"], "anchors": {
                    "files": p["files"], "state": [{"name": a, "meaning": b, "where": c} for a, b, c in p["state"]],
                    "mechanism": [{"name": a, "where": b} for a, b in p["mechanism"]], "observe_at": p["observe"], "hook_needed": None}}) + "\n")
    py = "/opt/venv/bin/python check.py "
    manifest = {"version": 1, "setup_cmd": "/opt/venv/bin/python -c 'import numpy, scipy, bitstring, sklearn, ldpc'", "checks": [
        {"property": p["id"], "quick_cmd": py + p["id"], "thorough_cmd": "VERIF_TIER=thorough " + py + p["id"],
         "evidence_file": f"evidence/{p['id']}.json", "technique": p["technique"], "level": "model_checking", "level_note": p["note"]}
        for p in P if os.path.exists(os.path.join(HERE, "mc", p["id"].lower() + ".py"))],
        "not_applicable": [], "notes": "No hooks in /repo. All exploration is deterministic; VERIF_SEED is only recorded."}
    missing = [p["id"] for p in P if not os.path.exists(os.path.join(HERE, "mc", p["id"].lower() + ".py"))]
    assert not missing, missing
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
        json.dump(manifest, f, indent=1)
        f.write("\n")
    print(len(P), "properties")


if __name__ == "__main__":
    main()
