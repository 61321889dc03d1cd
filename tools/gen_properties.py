#!/usr/bin/env python3
"""Single source of /verif/properties.jsonl (run: python3 tools/gen_properties.py)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mechanism, state=(), observe=(), hook=None):
    a = {"files": list(files),
         "mechanism": [{"name": n, "where": w} for n, w in mechanism]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = list(observe)
    a["hook_needed"] = hook
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

prop("C01", "Bit-level I/O is exact, MSB-first and alignment-safe",
 "For every sequence of operations, the bit writer emits exactly the bits it was given, most significant bit first and packed without gaps, and the bit reader returns exactly the bits of its input in that same order, for every width and every starting alignment. "
 "Whole-octet reads and writes and relative seeks attempted in the middle of an octet are rejected with an error and have no effect on the stream. "
 "A seek that is accepted discards any partly consumed octet, and every error of the underlying stream is reported. (A width never exceeds the bits of the data given.)",
 ["inputs", "histories"], "all operation sequences, all widths, all data bytes, all starting bit offsets",
 "The tests use a few fixed byte strings and widths; the claim ranges over every width, alignment and byte content.",
 ["internal/bitio/read.go", "internal/bitio/write.go"],
 [("octet/width accumulator", "internal/bitio/write.go WriteBit"), ("octet/width cursor", "internal/bitio/read.go ReadBit"), ("alignment guard", "Read, Write, Seek")],
 [("writer.octet/width", "pending bits not yet emitted", "internal/bitio/write.go"), ("reader.octet/width", "bits of the current octet not yet returned", "internal/bitio/read.go")],
 ["mp4.Marshal output bytes", "mp4.Unmarshal field values"])

prop("C02", "Scalar fields are coded exactly at their declared width",
 "An integer field of declared width n (1 to 64 bits) is written in exactly n bits, big-endian two's complement (unsigned: the low n bits of the value; signed: the value's sign followed by its low n-1 bits, which is the value itself when it fits), and read back zero-extended (unsigned) or sign-extended (signed), so every value that fits in n bits survives a write followed by a read. "
 "Booleans of width 1 to 8 are written as n equal bits and read as true when any bit is set; variable-length integers below 2^28 are written as four 7-bit groups, most significant first with continuation bits, and any group sequence is read back as their concatenation. "
 "Strings are written as their bytes followed by one zero byte (no zero byte for box strings) and read up to the first zero byte or the end of the box, whichever comes first.",
 ["inputs"], "all field values, all widths 1..64, all byte contents, all payload sizes",
 "Tests cover a handful of values at a few widths (24, 32, 5 ...); the claim is for every width and every value including sign and truncation boundaries.",
 ["marshaller.go"],
 [("marshalInt/marshalUint/marshalBool/marshalString/writeUvarint", "marshaller.go"), ("unmarshalInt/unmarshalUint/unmarshalBool/unmarshalStringC/readUvarint", "marshaller.go")],
 [], ["mp4.Marshal", "mp4.Unmarshal"])

prop("C03", "Marshal and Unmarshal account for every byte and hide no error",
 "When Marshal succeeds, the count it returns is exactly the number of bytes it wrote to the sink, which hold every selected field and every list element in order; if the sink fails at any point, or a list holds fewer elements than its declared length, Marshal returns an error. "
 "When Unmarshal succeeds, the count it returns is exactly how far it advanced the stream and never exceeds the payload size it was given; if the fields would run past the payload or do not end on an octet boundary it returns an error. "
 "If Unmarshal rejects a box because of its version, the stream is left where the payload began and the error is the distinguished unsupported-version error. (Payloads of less than 2^60 octets; a declared list length of 2^32-1 means 'to the end of the box'.)",
 ["inputs", "fault_sequences"], "all box values, payload sizes, stream contents, and every point at which the sink or source can fail",
 "Tests marshal to an in-memory buffer that never fails and read well-formed payloads; failure points and dishonest lengths are not enumerated.",
 ["marshaller.go"],
 [("wbits/rbits counters", "marshaller.go marshaller, unmarshaller"), ("overrun and multiple-of-8 checks", "marshaller.go Unmarshal"), ("length check", "marshaller.go marshalSlice")],
 [("marshaller.wbits", "bits written so far", "marshaller.go"), ("unmarshaller.rbits", "bits consumed so far", "marshaller.go")],
 ["mp4.Marshal", "mp4.Unmarshal", "mp4.UnmarshalAny"])

prop("C04", "A field is present exactly when its version, flag and option rules say so",
 "A field takes part in a box exactly when: its required version (if any) equals the box version and its excluded version (if any) differs from it, the box flags intersect its required flag mask (if any) and do not intersect its excluded flag mask (if any), and its dynamic option (if any) is enabled; while the version is still unknown, version rules do not exclude a field. "
 "Writing, reading and printing a box apply this same rule to every field in declared order.",
 ["inputs", "configurations"], "all combinations of field descriptors, box versions 0..255, 24-bit flags and dynamic options",
 "Tests sample a few versions and flags per box type; the rule is a predicate over all of them.",
 ["field.go", "marshaller.go", "string.go"],
 [("isTargetField", "field.go"), ("marshalStruct / unmarshalStruct / stringifyStruct loops", "marshaller.go, string.go")],
 [], ["mp4.Marshal", "mp4.Unmarshal", "mp4.Stringify"])

prop("C05", "Every box type has the wire layout of its specification",
 "For every registered box type, the fields appear on the wire in the order, with the bit widths, presence conditions (version, flags, options) and element counts that the format's specification gives for that box, and the registered versions are the ones supported. "
 "Counts, sizes and options that depend on other fields or on the reading context are computed from exactly those fields for every value they can take.",
 ["inputs", "configurations"], "all registered box types, all versions, all values of the fields that drive dynamic sizes, lengths and options, all contexts",
 "One or two byte vectors per box exercise one combination of version, flags and options each; the others are untested.",
 ["box_types_iso14496_12.go", "box_types_iso14496_14.go", "box_types_iso14496_30.go", "box_types_iso23001_5.go", "box_types_iso23001_7.go", "box_types_metadata.go", "box_types_3gpp.go", "box_types_av1.go", "box_types_vp.go", "box_types_opus.go", "box_types_etsi_ts_102_366.go", "field.go"],
 [("mp4 struct tags", "box_types_*.go"), ("GetFieldSize / GetFieldLength / IsOptFieldEnabled", "box_types_*.go"), ("buildFields", "field.go")],
 [], ["mp4.Marshal", "mp4.Unmarshal"])

prop("C06", "Marshal and Unmarshal are inverse for every registered box type",
 "For every registered box type, supported version and context, marshalling a box value whose counts agree with its lists and whose fields fit their widths, then unmarshalling the bytes, yields an equal value and consumes exactly the bytes produced. "
 "Conversely, whenever Unmarshal accepts a payload of a box made only of integer, fixed-array, counted-list and byte-run fields, marshalling the result reproduces exactly the bytes consumed (except for the QuickTime form of meta, which has no version and flags and is written in the ISO form).",
 ["inputs", "configurations"], "all box types, all field values, all supported versions and contexts",
 "The per-type tests check one value per box; equality for all values, versions and flag combinations is not sampled.",
 ["marshaller.go", "field.go", "box_types_iso14496_12.go", "box_types_iso14496_14.go", "box_types_metadata.go"],
 [("symmetric dispatch of marshal/unmarshal", "marshaller.go"), ("array and slice codecs", "marshaller.go marshalArray/marshalSlice/unmarshalArray/unmarshalSlice")],
 [], ["mp4.Marshal", "mp4.Unmarshal"])

prop("C07", "Box headers are written and parsed faithfully",
 "Writing a box header emits the 32-bit form, the 64-bit form (when the size needs it or a 16-byte header was asked for) or the to-end-of-file form with the given size and type, and reports the offset written at, the header length emitted and the size adjusted so that the payload size is preserved. "
 "Reading a header yields the offset, type, header length and total size encoded there (for the to-end-of-file form: up to the end of the stream), leaves the stream at the first payload byte, and never reports a box smaller than its own header or one that ends beyond the addressable range. "
 "Hence a header whose length is unchanged by writing, read back at the same place, describes the same box.",
 ["inputs"], "all sizes up to 2^64-1, all header sizes, types, offsets and stream contents",
 "Tests use three sizes; boundaries such as 2^32, sizes below the header size, and wrap-around sizes are not covered.",
 ["box_info.go"],
 [("WriteBoxInfo", "box_info.go"), ("ReadBoxInfo", "box_info.go"), ("SeekToStart/SeekToPayload/SeekToEnd", "box_info.go")],
 [("BoxInfo", "offset, size, header size, type of a box", "box_info.go")], ["mp4.ReadBoxInfo", "mp4.WriteBoxInfo"])

prop("C08", "The Writer back-patches the right size and copies boxes verbatim",
 "Boxes opened by the Writer are closed in last-in-first-out order; closing a box rewrites that box's own header, at the offset where it was opened, with the number of bytes from there to the current position, and leaves the write position where it was. "
 "No byte other than that header is changed by closing, and a header that would no longer fit its place is reported as an error. "
 "Copying a box writes exactly the box's bytes from the source at its offset, or returns an error.",
 ["inputs", "histories", "fault_sequences"], "all nestings and payload lengths, all box headers, all failure points of the sink",
 "One nesting of three boxes is tested; the size arithmetic and the repositioning must hold for all.",
 ["write.go", "box_info.go"],
 [("biStack", "write.go StartBox/EndBox"), ("header rewrite", "write.go EndBox"), ("CopyBox", "write.go")],
 [("Writer.biStack", "boxes opened and not yet closed", "write.go")], ["mp4.Writer"])

prop("C09", "Box traversal visits each box once, in order, inside its parent",
 "Traversing a file calls the handler once for every sibling box in file order, each starting exactly where the previous one ended; expanding a box visits exactly its children, which lie entirely within the parent's payload after the parent's own fields. "
 "A child that claims to be larger than the space left in its parent, or leftover bytes inside a parent in a non-QuickTime file, is an error (fewer than 8 bytes after the last top-level box end the traversal); after each box the traversal continues at that box's end whatever the handler read. "
 "Every step moves forward in the file, so traversal terminates for every input.",
 ["inputs", "histories"], "all file contents, all handler behaviours (any reads, payload decoding or expansion in any order)",
 "Tests walk a few small files with one handler each; malformed sizes and handler behaviours range over everything.",
 ["read.go", "box_info.go"],
 [("totalSize bookkeeping", "read.go readBoxStructure"), ("childrenOffset", "read.go readBoxStructureFromInternal"), ("SeekToEnd after handler", "read.go")],
 [("totalSize", "bytes of the parent not yet consumed", "read.go"), ("childrenOffset", "where the children of the current box start", "read.go")],
 ["mp4.ReadBoxStructure", "mp4.ReadBoxStructureFromInternal", "mp4.ExtractBoxes", "mp4.Probe"])

prop("C10", "Interpretation context follows the box tree exactly",
 "Each box is interpreted in a context that records exactly: whether a file-type box at the top level (itself or a preceding one) declares the QuickTime brand, how many keys the sibling keys box (itself or a preceding one) announced, and whether the box lies under a wave, item-list, item (and free-form item) or user-data box. "
 "A wave, item-list, item or user-data box is not under itself, context set below a box never leaks to its siblings, and the path reported for a box is the sequence of types from the root to it.",
 ["inputs", "histories"], "all box trees and orders",
 "Context-dependent parsing is tested on a few fixtures; leakage between siblings or levels needs particular trees.",
 ["read.go", "box_types_metadata.go"],
 [("ctx derivation", "read.go readBoxStructureFromInternal"), ("ctx carry-over between siblings", "read.go readBoxStructure")],
 [("Context", "interpretation context", "box_info.go")], ["mp4.ReadBoxStructure", "ReadHandle.BoxInfo.Context", "ReadHandle.Path"])

prop("C11", "Extraction returns exactly the boxes whose path matches, in order",
 "Extraction returns exactly the boxes whose path from the root (or from the given parent) equals one of the requested paths element by element, where the wildcard matches any type, each once and in file order; boxes of the all-zero type are never returned or entered. "
 "An empty request returns nothing, an empty path is an error, and only boxes on the way to a requested path are entered. "
 "The payload returned with a box is the one obtained by decoding that box in its own context.",
 ["inputs"], "all path sets, wildcards, file trees and parents",
 "Tests use one file and a handful of path lists; matching is a predicate over all pairs of paths.",
 ["extract.go", "read.go", "mp4.go"],
 [("compareWith", "read.go"), ("matchPath", "extract.go"), ("MatchWith", "mp4.go"), ("ExtractBoxesWithPayload", "extract.go")],
 [], ["mp4.ExtractBox", "mp4.ExtractBoxes", "mp4.ExtractBoxWithPayload", "mp4.ExtractBoxesWithPayload"])

prop("C12", "Type registry lookups agree with the registrations and the context",
 "A box type is supported in a context exactly when some registration for it applies there, or it is a numbered item (1 up to the announced key count) under an item list; the definition used is the most recently registered one that applies. "
 "A version is supported exactly when the type is supported and the registration lists that version or lists none; creating a box yields a value that reports the requested type. "
 "All lookups (support test, creation, supported versions, marshalling, printing) agree on the same definition.",
 ["inputs", "configurations", "histories"], "all registration sequences, types, versions and contexts",
 "Tests query a few types; the relation must hold for every type, context, version and order of registrations.",
 ["mp4.go", "anytype.go", "box_types_metadata.go", "box_types_3gpp.go"],
 [("boxMap / getBoxDef", "mp4.go"), ("IsSupported, New, IsSupportedVersion, GetSupportedVersions", "mp4.go")],
 [("boxMap", "registered definitions per type", "mp4.go")], ["mp4.BoxType methods", "mp4.AddBoxDef..."])

prop("C13", "Probe expands a track's sample tables correctly",
 "The track summary lists one sample per count in the time-to-sample table, in order and with that entry's delta; composition offsets are assigned run by run from the composition table, sizes from the entries of the size table (a constant sample size is not expanded), and both stop at the shorter of table and sample list. "
 "Chunks are listed in order with their offsets from the 32-bit or 64-bit offset table, and the samples-per-chunk of each chunk is that of the last sample-to-chunk entry whose first chunk is not after it (zero if there is none). "
 "Track id, timescale, duration, edit list and codec details (those of an unencrypted avc1 or mp4a entry) are those of the corresponding boxes, missing mandatory tables are an error, and no table contents make Probe index out of range.",
 ["inputs"], "all table contents and counts, including inconsistent ones",
 "Tests probe two sample files; table inconsistencies and boundary counts are not covered.",
 ["probe.go"],
 [("probeTrak", "probe.go"), ("Probe", "probe.go")],
 [], ["mp4.Probe"])

prop("C14", "Fragment summaries total the right fields",
 "For each movie fragment (its last track fragment and run, in 32-bit arithmetic), the summary's sample count, duration and size are those of its run: per-sample values summed when the run carries them, otherwise the fragment default times the sample count; the composition offset is the smallest over the samples of elapsed duration plus the sample's own offset. "
 "Track id, default duration, fragment offset and base decode time are those of the fragment's header boxes, with the decode time taken from the field of the box's version.",
 ["inputs"], "all runs, flags, versions and sample values (32-bit arithmetic)",
 "Tests probe one fragmented file with a single flag combination.",
 ["probe.go"],
 [("probeMoof", "probe.go")], [], ["mp4.Probe", "mp4.ProbeFra"])

prop("C15", "Bitrate figures equal their definition and never fail",
 "The average bitrate is eight times the total size times the timescale divided by the total duration (rounded down, computed in 64 bits), over all samples or over the segments of the given track, and zero when the total duration is zero. "
 "The maximum bitrate is the largest such quotient over the windows (or segments) considered, zero when there are none of positive duration. "
 "These functions return for every list of samples or segments, including empty lists and zero durations.",
 ["inputs"], "all sample and segment lists, timescales and window lengths",
 "Tests use one list; zero-duration runs and window boundaries are not covered.",
 ["probe.go"],
 [("Samples.GetBitrate / GetMaxBitrate", "probe.go"), ("Segments.GetBitrate / GetMaxBitrate", "probe.go")], [],
 ["mp4.Samples", "mp4.Segments", "mp4tool probe"])

prop("C16", "IDR frame search is exact and terminates",
 "The search returns, in increasing order, exactly the indexes of the samples that contain a NAL unit of type 5, found by following the length prefixes from the sample's start within the sample's size, at the file offset given by its chunk and the sizes of the samples before it in the chunk. "
 "It terminates for every file content, including length fields that are huge or inconsistent, and reads nothing outside the samples' extents.",
 ["inputs"], "all sample tables, NAL length sizes and file contents",
 "One well-formed sample file is tested; hostile NAL lengths are not.",
 ["probe.go"],
 [("FindIDRFrames", "probe.go")], [], ["mp4.FindIDRFrames", "mp4tool probe"])

prop("C17", "AAC profile detection follows the bit syntax for every config",
 "For every descriptor list, the object type indication reported is that of the decoder configuration descriptor (zero when absent), and for MPEG-4 audio the reported audio object type is the one coded in the decoder-specific info: escape-coded types included, and type 5 or 29 when the trailing sync extension (directly after the channel configuration, as the library's tests lay it out) signals SBR or PS. "
 "Every other or truncated configuration yields either the coded base type or an error, never a crash.",
 ["inputs"], "all decoder-specific info byte strings",
 "Tests cover a few byte strings of common encoders.",
 ["probe.go"],
 [("detectAACProfile", "probe.go"), ("getAudioObjectType", "probe.go"), ("findDescriptorByTag", "probe.go")], [], ["mp4.Probe"])

prop("C18", "Flag, version and fixed-point accessors are exact",
 "For a full box, reading flags gives the 24-bit big-endian value of its flag bytes, setting flags stores the low 24 bits, adding or removing a flag changes exactly the bits given, and checking tells whether any of the bits is set; version and flags are independent. "
 "Every accessor that hides the 32/64-bit split returns the field of the box's version (0 or 1), sign- or zero-extended, at exactly the index asked for, and fixed-point accessors return the integer part truncated toward minus infinity.",
 ["inputs"], "all flag values, versions, field values and indexes",
 "Tests use single values per accessor.",
 ["box.go", "box_types_iso14496_12.go"],
 [("FullBox methods", "box.go"), ("GetDuration, GetCreationTime, ... GetXxxInt", "box_types_iso14496_12.go")], [], ["mp4.FullBox", "mp4.Mvhd", "mp4.Tkhd", "mp4.Elst", "mp4.Ctts", "mp4.Trun", "mp4.Sidx", "mp4.Tfra", "mp4.Saio"])

prop("C19", "Compatible brands behave as a set",
 "Adding a brand makes it present, leaves every other brand as it was, and never creates a duplicate of a brand already present; removing a brand makes every occurrence absent and keeps all other brands; the presence test tells exactly whether the brand is in the list.",
 ["inputs", "histories"], "all brand lists (with duplicates) and all sequences of add and remove",
 "Tests run one short sequence of operations.",
 ["box_types_iso14496_12.go"],
 [("AddCompatibleBrand / RemoveCompatibleBrand / HasCompatibleBrand", "box_types_iso14496_12.go")],
 [("Ftyp.CompatibleBrands", "the brand list", "box_types_iso14496_12.go")], ["mp4.Ftyp"])

prop("C20", "Boxes with special wire rules follow them",
 "An event-message box keeps its two strings before the numeric fields in version 0 and after them in version 1; a handler box's name is read as a length-prefixed string exactly when the predefined field is nonzero and the prefix covers the rest of the box, otherwise up to the first zero byte or the box end, always consuming the whole rest of the box. "
 "A meta box whose first four payload bytes are not all zero is taken as the QuickTime form with no version and flags and no bytes consumed; an AVC configuration carries the high-profile fields exactly when the profile is one of the high profiles and at least four bytes remain, and refuses to write them for another profile.",
 ["inputs"], "all string contents and lengths, versions, profiles and remaining sizes",
 "Tests cover one or two byte strings per form.",
 ["box_types_iso14496_12.go", "internal/util/io.go"],
 [("Emsg OnReadField/OnWriteField", "box_types_iso14496_12.go"), ("Hdlr OnReadName", "box_types_iso14496_12.go"), ("Meta BeforeUnmarshal", "box_types_iso14496_12.go"), ("AVCDecoderConfiguration OnReadField/OnWriteField", "box_types_iso14496_12.go"), ("ReadString/WriteString", "internal/util/io.go")],
 [], ["mp4.Marshal", "mp4.Unmarshal"])

prop("C21", "Untrusted input cannot crash or hang the decoder",
 "For every byte string and every box type, decoding a payload, reading headers and traversing or extracting boxes returns a result or an error: no out-of-range access, nil dereference, division by zero, impossible allocation request or reachable panic, and no endless loop. "
 "In particular no length, count or size field taken from the input, however large or inconsistent, is used before it has been checked against the bytes available.",
 ["inputs"], "all byte strings, box types and payload sizes",
 "The single fuzz seed and the fixtures are well-formed; hostile counts and sizes are not sampled.",
 ["marshaller.go", "read.go", "box_info.go", "box_types_iso14496_12.go", "box_types_metadata.go", "internal/bitio/read.go"],
 [("readerHasSize", "marshaller.go"), ("unmarshalSlice loop exits", "marshaller.go"), ("size checks", "box_info.go, read.go")], [],
 ["mp4.Unmarshal", "mp4.ReadBoxInfo", "mp4.ReadBoxStructure", "mp4.ExtractBoxesWithPayload"])

prop("C22", "Printed boxes show every visible field once, in order and escaped",
 "Printing a box emits each present field that is neither hidden nor constant exactly once, in declared order, as name=value, with version and flags taken from the box itself. "
 "Text taken from the file is emitted only after every non-graphic character has been replaced, numeric fields print as decimal or hexadecimal as declared, and fixed-point fields print their integer part exactly when the fraction is zero. "
 "Printing never modifies the box and never fails on a box that was decoded successfully.",
 ["inputs"], "all box values of all registered types",
 "Tests compare the text of one value per box type.",
 ["string.go", "internal/util/string.go"],
 [("stringifyStruct", "string.go"), ("EscapeUnprintables", "internal/util/string.go"), ("FormatSignedFixedFloat1616 ...", "internal/util/string.go")], [], ["mp4.Stringify", "mp4tool dump"])

prop("C23", "Concurrent readers do not interfere",
 "Any number of goroutines may read, probe, marshal and print boxes at the same time on distinct streams and values, and each gets the result it would get alone.",
 ["schedules"], "all interleavings of calls on distinct streams after registration is complete",
 "Tests are single-threaded.",
 ["mp4.go", "marshaller.go"],
 [("boxMap is only written by registration", "mp4.go")], [("boxMap", "global registry", "mp4.go")], ["mp4.*"])

prop("C24", "Memory use is proportional to the input",
 "Decoding or probing a file allocates at most a constant factor times the bytes of the file that were read.",
 ["inputs"], "all inputs",
 "Tests do not measure allocation and use honest tables.",
 ["marshaller.go", "probe.go"],
 [("readerHasSize", "marshaller.go")], [], ["mp4.Unmarshal", "mp4.Probe"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P: f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P), "properties")
