CLAIMS = {
 "C01": "Every reader and writer method of internal/bitio verified against a bit-string model, unbounded: all widths up to 2^32, all alignments, all histories (representation invariants), any conforming io.Reader, io.Seeker and io.Writer. Assumes sources of at most 2^59 bytes and that nobody else moves the source between two calls.",
 "C02": "Every leaf coder (integers, variable-length integers, booleans, strings, both directions) and the dispatch to it verified against bit-level encodings, unbounded: all values, widths and octets. Marshal's output is proved equal to a recursive encoding of the box value by its field table. Assumes the table fits the Go types (checked executably for every registered type), reflect as documented.",
 "C03": "Marshal and every marshaller method verified against the recursive encoding: the count is the number of octets appended, the sink holds the encoding, failures and short lists are errors; Unmarshal and every unmarshaller method verified to account for exactly what they consume, stay within the payload, and restore the position on an unsupported version. Assumes reflect as documented, payloads below 2^60 octets, streams up to 2^46 octets, custom hooks' own accounting (proved for the six hooks in C20).",
 "C04": "The presence rule, the resolution of dynamic sizes, lengths and owners, and the reading of field tags verified for every field, version, flags and context; assumes callbacks are functions of their receiver's state, that strings.Split-based tag splitting (parseFieldTag, trusted) returns the comma separated keys, and strconv as documented.",
 "C05": "Every struct tag of every registered box compared with the layout its specification gives (one obligation per field, evaluated: order, width, sign, list form, version and flag conditions, strings, hooks), the supported versions likewise; every GetFieldSize, GetFieldLength and IsOptFieldEnabled override verified for all field values, versions and contexts. With C02 and C04, which say what the coder does with the tags. Assumes parseFieldTag splits at commas (C04) and the transcription of the specifications in contracts/layouts.txt. One known finding: two hvcC fields whose widths are swapped.",
 "C06": "Proved, for all values, widths and streams: the leaf coders write encInt, encUint, encBool, encVar and encChars and the leaf decoders read rdU, its sign extension, the seven-bit groups and zero-terminated text (contracts on the code), and those two sides are inverse in both directions (lemmas). NOT proved: equality of a whole box, because the effect of reflect's setters on the box's memory is abstract in the contracts; that is checked on the real code for values of every registered type, version and context drawn by the layouts of C05 (bounded, seeded), and on mutated payloads for the reverse direction.",
 "C21": "Every function a decode, header read, traversal or extraction runs through (66 with the bit reader, the hooks and the helpers) verified without bound for all byte strings, sizes, types and contexts: every index, slice, nil dereference, division, type assertion and conversion has an obligation, every make of a size that depends on the input is proved to ask for no more than the octets the stream still has (check make [room]), every loop has a decreasing measure or strictly moves the reader forward (unlimited lists included, which is where the repaired endless loop was). Recursion ends because tables and files are finite (argued, not proved); streams below 2^46 octets; field tables as checked for every registered type; reflect, io and bytes as documented; Probe is not included (its tables are C13). Two known findings: runs of empty samples and the memory of deep nesting.",
 "C22": "Stringify, StringifyWithIndent and every function of the printer verified against a recursive text of the box value by its field table (which fields, order, names, separators, indentation, quoting, escaping, hexadecimal or decimal, unlimited and counted lists), for every box value, context and indent, including that printing succeeds and writes nothing of the box (frame); the fixed-point formatters, the escaping and all eleven fields with a form of their own likewise. Assumes strconv, strings.Map, unicode.IsGraphic, uuid and bytes.Buffer as documented and values whose shown pointers are set. One known finding: Item.Flags.",
 "C07": "ReadBoxInfo, WriteBoxInfo and the three seeks verified for every stream content, offset, size and header form against the octet-level header grammar; assumes io.CopyN and bytes.Buffer as documented.",
 "C08": "StartBox, EndBox, CopyBox, Write and Seek verified against a model of the sink's octets by offset (every other octet unchanged), any nesting and length; assumes the sink seeks where it writes and is not also the copied source.",
 "C09": "ReadBoxStructure, readBoxStructure, readBoxStructureFromInternal with its three closures, and ReadBoxInfo verified for every file and every handler that uses the handle it is given (any number of calls, any order, stray seeks): start offsets, bounds, own-field skip, end of box, leftover bytes, strict progress. Assumes the decoder's count is within the payload (that is C03), files of at most 2^49 bytes, handlers that keep the source open for the traversal only.",
 "C10": "The context and path handed to the handler and to the children verified at every call of the handler, of the decoder and of the recursive traversal, for every box, context and depth. Assumes the decoder's contract (C03) for the brand list and key count read.",
 "C11": "compareWith, matchPath, ExtractBoxes and its handler, ExtractBoxesWithPayload verified: exactly the matching boxes, in handler order, entered exactly when on the way, decoded in their own context; with C09 for the order and extent of the traversal. Assumes the decoder's contract.",
 "C12": "Lookups (getBoxDef, IsSupported, IsSupportedVersion, GetSupportedVersions, New) and the four registration functions verified for every registration history, box type and context; assumes registration conditions are functions of the context, reflect as documented, and that buildFields reads nothing but the struct type.",
 "C13": "Probe, probeTrak and the avcC/esds helpers verified against summary specifications of the boxes that the extraction returns: tracks in file order, codec, size and timing fields, edit list, chunk and sample tables with all bounds, for every box list and table length. Assumes the extraction's and the decoder's contracts (C11; payload values come from the trusted decoder), and fewer than 2^32 samples for composition offsets.",
 "C14": "Probe and probeMoof verified against a specification of the last track fragment and run of each movie fragment: start, decode time, duration, size, sample count and earliest composition offset, defaults and own values, in 32-bit arithmetic, for every run length. Assumes the extraction's and the decoder's contracts.",
 "C15": "All four bitrate functions verified against sum and window specification functions in 64-bit arithmetic, unbounded, with termination; assumes lists shorter than 2^32 with non-nil entries.",
 "C16": "FindIDRFrames verified against a specification function that follows the length prefixes over the file's octets: order, soundness, completeness, extents of every read and termination, for every sample and chunk table, prefix width 1 to 4 and file content. Assumes entries are non-nil and the source's octets do not change.",
 "C17": "detectAACProfile, getAudioObjectType and findDescriptorByTag verified against a bit-level specification of the configuration for every octet string and descriptor list, including when an error may be returned; with C01 for the bit reader. Assumes bytes.Reader as documented. One known finding: the layout the repository's tests fix differs from ISO/IEC 14496-3.",
 "C18": "Every flag, version and fixed-point accessor verified against its specification for all values; assumes the receiver is non-nil and indexes are in range.",
 "C19": "Add, remove and presence test verified for every brand list, unbounded, with termination.",
 "C20": "The field hooks of Emsg, Hdlr, Meta and AVCDecoderConfiguration, the defaults of BaseCustomFieldObject, and util.ReadString/WriteString verified against bit- and octet-level descriptions for every value and stream; with C03's decoder methods. Assumes the hook is given the bits left as the decoder counts them (whole octets for the handler name).",
}
NOT = {
 "C23": "Concurrent schedules are outside contract-based deductive verification as available here: the generator reasons about one sequential call at a time and has no permission or rely-guarantee layer.",
 "C24": "A relation between allocated bytes and bytes read is a resource property, not expressible as a postcondition over the states this generator models; sample tables legitimately expand 32-bit counts.",
}
# properties whose whole statement is not discharged by the verifier: (level, explanation)
LEVELS = {
 "C06": ("other", "the leaf coders and their inverse lemmas are proved without bound (obligations, discharged); equality of whole boxes is a bounded check of the real code on generated values and payloads (executable_contract_evaluations) and is not counted as proved"),
}
