#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a script so that the text stays reviewable)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    P.append({"id": id, "title": title, "statement": statement,
      "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
      "anchors": {"files": files,
        "state": [dict(name=n, meaning=m, where=w) for n, m, w in state],
        "mechanism": [dict(name=n, where=w) for n, w in mech],
        "observe_at": list(observe), "hook_needed": hook}})

DOM = ("every supported Go type (bool, uint8/16/32/64, byte arrays, bitvectors, bitlists, vectors, limited lists, structs with "
       "omitted/squashed/embedded fields, non-nil pointers; nested to any depth; serialized fields exported; list elements of non-zero size; maximum "
       "encoded length below 2^62)")

p("C01", "Encoding is the SSZ encoding of the value",
  "For every supported type and every valid value of it (lists within their limits, bitlists with their delimiter bit, non-nil pointers), Encode writes exactly the bytes the SSZ specification prescribes: little-endian basics, fixed parts in field order, 4-byte little-endian offsets for variable-size parts relative to the start of their container or series, then the variable-size parts in order. The count Encode returns is the number of bytes written.",
  ["inputs", "programs"], "over " + DOM + " and every valid value",
  "The 50-odd table entries fix one value for each of ~35 types; nesting, offset arithmetic, boundary lengths and type combinations are a product space no table covers.",
  ["zssz.go", "enc/encoder.go", "types/ssz_container.go", "types/elem_var_size_series.go", "types/elem_fixed_size_series.go", "types/basic_series.go", "types/ssz_list.go", "types/ssz_vector.go"],
  [("two-pass offset writing", "types/ssz_container.go Encode; types/elem_var_size_series.go EncodeVarSeries"), ("raw little-endian block write", "types/basic_series.go LittleEndianBasicSeriesEncode")],
  observe=["zssz.Encode output and returned count"])

p("C02", "Decoding an encoding gives back the value",
  "For every supported type and valid value, Decode of the value's own encoding succeeds and leaves the destination logically equal to the value (nil and empty lists being the same). This holds whatever the destination contained before: fresh, or already filled with another value whose slices and pointers are reused.",
  ["inputs", "programs", "histories"], "over " + DOM + ", every valid value, and every prior content of the destination (including spare slice capacity and allocated pointers)",
  "TestDecode always decodes into a fresh zero value and compares through JSON; reuse of capacity and pointers is never exercised.",
  ["zssz.go", "dec/decoder.go", "types/ssz_container.go", "types/ssz_list.go", "types/ssz_list_basic.go", "types/ssz_ptr.go", "util/ptrutil/allocation.go"],
  [("capacity reuse", "util/ptrutil/allocation.go MutateLenOrAllocNew"), ("in-place pointer decode", "types/ssz_ptr.go Decode")],
  state=[("destination object", "slice headers and pointers that Decode mutates", "caller memory")],
  observe=["destination after zssz.Decode"])

p("C03", "Decode accepts exactly the valid encodings",
  "For every supported type and every byte string, Decode returns nil exactly when the byte string is a valid SSZ encoding of some value of the type: exact offsets without gaps, overlaps or reordering, no trailing or missing bytes, limits respected at every depth, bool bytes 0 or 1, zero padding bits in bitvectors, a delimiter bit in bitlists. When it accepts, the decoded value is the one encoded, and encoding it again reproduces the input byte for byte.",
  ["inputs", "programs"], "over " + DOM + " and every byte string with its true length",
  "No test decodes an invalid input at all; malleability and leniency only show on malformed inputs that are almost valid.",
  ["dec/decoder.go", "zssz.go", "types/elem_var_size_series.go", "types/elem_fixed_size_series.go", "types/ssz_container.go", "types/ssz_bitlist.go", "types/ssz_bitvector.go", "types/ssz_bool.go", "types/basic_series.go"],
  [("offset checks", "types/elem_var_size_series.go ReadVarSliceOffsets, decodeVarSeriesFromOffsets; types/ssz_container.go decodeDynamicPart"), ("scope limits", "dec/decoder.go Scope, checkedIndexUpdate"), ("final length check", "zssz.go Decode")],
  observe=["zssz.Decode error and destination", "zssz.Encode of the destination"])

p("C04", "Dry check and decode give the same verdict",
  "For every supported type and every byte string with its length, DryCheck returns nil exactly when Decode of the same input returns nil. DryCheck reads exactly as many bytes as Decode does when both accept.",
  ["inputs", "programs"], "over " + DOM + " and every byte string",
  "TestDryCheck only feeds valid encodings, so a dry check that accepts everything would pass.",
  ["zssz.go", "types/ssz_typ.go", "types/elem_var_size_series.go", "types/elem_fixed_size_series.go", "types/basic_series.go", "types/ssz_bytes.go", "types/ssz_bitlist.go", "types/ssz_bitvector.go", "types/ssz_container.go"],
  [("parallel DryCheck implementation per type", "types/*.go DryCheck"), ("skipping reader", "dec/decoder.go Skip")],
  observe=["zssz.DryCheck vs zssz.Decode errors"])

p("C05", "Hash-tree-root is the SSZ Merkle root",
  "For every supported type and valid value, HashTreeRoot equals the root prescribed by the SSZ specification (limit-based merkleization): basics packed into 32-byte chunks, chunk trees padded with zero subtrees to the type's limit, list and bitlist lengths mixed in, the bitlist delimiter bit excluded, containers over their field roots. It depends only on the logical value and the type.",
  ["inputs", "programs"], "over " + DOM + " and every valid value, in particular lengths on both sides of chunk and power-of-two boundaries",
  "The tests fix roots for a few short values; e.g. no tested bitlist ends with its delimiter inside a full 32-byte chunk.",
  ["htr/hash_tree_root.go", "merkle/merkleize.go", "types/basic_series.go", "types/ssz_bitlist.go", "types/ssz_bytes.go", "types/ssz_bytes_n.go", "types/ssz_bitvector.go", "types/ssz_list.go", "types/ssz_container.go", "types/ssz_vector.go"],
  [("log-space merkleization", "merkle/merkleize.go Merkleize"), ("chunk leaves", "types/*.go HashTreeRoot"), ("length mix-in", "htr/hash_tree_root.go MixIn")],
  state=[("ZeroHashes", "precomputed zero subtree roots", "htr/hash_tree_root.go")],
  observe=["zssz.HashTreeRoot"])

p("C06", "Signing root is the root without the last field",
  "For every struct type and valid value, SigningRoot equals the hash-tree-root of the same value with the last serialized field left out (after omitting and squashing), and so does not depend on that field's content. Signing roots are offered for structs and only for structs.",
  ["inputs", "programs"], "over every supported struct type, including squashed and omitted trailing fields, and every valid value",
  "TestSigningRoot only checks that the result differs from the hash-tree-root.",
  ["types/ssz_container.go", "types/ssz_typ.go", "zssz.go"],
  [("leaf count truncation", "types/ssz_container.go SigningRoot")],
  observe=["zssz.SigningRoot"])

p("C07", "Sizes and length bounds are exact",
  "For every supported type and valid value, SizeOf equals the number of bytes Encode writes. The type's IsFixed, FixedLen, MinLen and MaxLen are the exact SSZ figures: a type is fixed when no list or bitlist occurs in it, FixedLen is the length of the fixed part (for fixed-size types also the minimum and maximum, for variable-size lists and bitlists 0), and MinLen and MaxLen are the smallest and largest encoded sizes of any valid value.",
  ["inputs", "programs"], "over " + DOM + " and every valid value",
  "Tests compare SizeOf on table values only; MinLen/MaxLen are never tested, although MinLen gates Decode.",
  ["types/ssz_typ.go", "types/ssz_container.go", "types/ssz_list.go", "types/ssz_list_basic.go", "types/ssz_vector.go", "types/ssz_bitlist.go", "zssz.go"],
  [("length accumulation at construction", "types/ssz_container.go NewSSZContainer, types/ssz_list.go NewSSZList, types/ssz_vector.go NewSSZVector")],
  observe=["zssz.SizeOf", "SSZ.MinLen/MaxLen/FixedLen/IsFixed"])

p("C08", "Fuzz-mode decoding turns any bytes into a valid value",
  "For every supported type and any byte string at least FuzzMinLen long, DecodeFuzzBytes succeeds, produces a valid value (within limits, valid bools and bitfields, so that it encodes, round-trips and hashes), and is deterministic: the same bytes give the same value, whatever the destination held. The returned count is the number of bytes taken from the reader, at least FuzzMinLen, and exceeds neither the input length nor FuzzMaxLen; shorter inputs than FuzzMinLen are rejected with an error.",
  ["inputs", "programs", "histories"], "over " + DOM + ", every byte string, every prior content of the destination",
  "DecodeFuzzBytes has no test at all.",
  ["zssz.go", "types/ssz_list.go", "types/ssz_list_basic.go", "types/ssz_bytes.go", "types/ssz_bitlist.go", "types/ssz_bitvector.go", "types/ssz_bool.go", "types/basic_series.go", "types/ssz_container.go", "types/elem_var_size_series.go"],
  [("length from input modulo remaining span", "types/*.go Decode in fuzz mode"), ("reserve of the minimum length of later parts", "types/ssz_container.go decodeVarSizeFuzzmode, types/elem_var_size_series.go DecodeVarSeriesFuzzMode")],
  observe=["zssz.DecodeFuzzBytes result, count and error"])

p("C09", "Decoding is independent of how the reader delivers bytes",
  "Decode, DryCheck and DecodeFuzzBytes give the same result for every io.Reader that delivers the same bytes, however they are split into reads and whether or not the end-of-file or another error accompanies the last needed bytes. They never take more than the given length from the reader, so that on success exactly that many bytes are consumed by Decode and DryCheck and a stream of consecutive messages can be read one after the other. If the reader fails or ends before the bytes the message needs, an error is returned.",
  ["inputs", "fault_sequences"], "over every type, every input, every chunking, every error position and kind of reader fault, and sequences of messages on one stream",
  "Tests only read from a bytes.Reader holding exactly one valid message.",
  ["dec/decoder.go", "zssz.go"],
  [("read loop", "dec/decoder.go Read"), ("scope limit", "dec/decoder.go Scope"), ("skip", "dec/decoder.go Skip")],
  observe=["errors, destination and reader position after the call"])

p("C10", "A failing writer is reported and leaves a clean prefix",
  "When the io.Writer given to Encode fails after k bytes, Encode returns that error, makes no further write, and the bytes accepted so far are the first k bytes of the correct encoding, with the returned count equal to the number of bytes the writer accepted. With a writer that does not fail, Encode returns nil and the full length.",
  ["fault_sequences", "inputs"], "over every type and value and every position k at which the writer fails, with full, partial or empty last writes",
  "No test uses a failing writer.",
  ["enc/encoder.go", "zssz.go", "types/elem_var_size_series.go", "types/ssz_container.go"],
  [("written counter", "enc/encoder.go Write, Written"), ("error propagation", "types/*.go Encode")],
  state=[("n", "bytes accepted so far", "enc/encoder.go")],
  observe=["Encode's returned (n, err), writes seen by the writer"])

p("C11", "Merkleization of any leaf count under any limit",
  "For every number of leaves up to the limit, every limit (up to 2^64-1) and every pair-hash function whose zero-hashes are installed, Merkleize returns the root of the binary tree of the smallest power-of-two size that fits the limit, with absent leaves zero; it asks only for leaves that exist. More leaves than the limit are refused with a panic.",
  ["inputs"], "over every leaf count, limit and leaf contents",
  "merkle has no tests; roots in the type tests use at most 20 leaves and shallow limits.",
  ["merkle/merkleize.go", "htr/hash_tree_root.go"],
  [("depth computation", "merkle/merkleize.go GetDepth"), ("merge loop", "merkle/merkleize.go Merkleize")],
  observe=["merkle.Merkleize, merkle.GetDepth"])

p("C12", "Merkle proofs verify against the root",
  "For every leaf count, limit and index below the limit, ConstructProof returns one sibling per tree level, bottom first, such that hashing the leaf at that index (zero if absent) up along the branch gives exactly the root Merkleize computes for the same leaves and limit. The branch belongs to the caller: writing into it or appending to it affects no later root or proof. An index at or above the limit, or more leaves than the limit, is refused with a panic.",
  ["inputs"], "over every leaf count, limit, leaf contents and index, including indices beyond the last leaf",
  "ConstructProof has no caller and no test in the repository.",
  ["merkle/merkleize.go"],
  [("sibling capture during merge", "merkle/merkleize.go ConstructProof")],
  observe=["merkle.ConstructProof with merkle.Merkleize"])

p("C13", "Bitfield helpers agree with a plain list of bits",
  "GetBit and SetBit read and write exactly the addressed bit and no other; BitlistLen and IsZeroBitlist report the length and emptiness of the bits before the delimiter; BitIndex is the index of the highest set bit. BitlistCheck accepts exactly the byte strings that are a delimited bitlist within the limit, and BitvectorCheck exactly those of the right byte length with zero padding bits; the separate checks of the byte length and of the last byte agree with that. Of byte strings without delimiter, BitlistLen is the number of bits before the last byte (0 when empty), and IsZeroBitlist tells whether all bits are zero.",
  ["inputs", "histories"], "over every byte string, bit index, limit and length, and every sequence of sets",
  "Tests list a few dozen byte strings of at most 6 bytes, and check limits only against the string's own length.",
  ["bitfields/bitfield.go", "bitfields/bitlist.go", "bitfields/bitvector.go"],
  [("delimiter scan", "bitfields/bitfield.go BitIndex"), ("limit checks", "bitfields/bitlist.go BitlistCheckByteLen, BitlistCheckLastByte; bitfields/bitvector.go BitvectorCheckLastByte")],
  observe=["exported functions of package bitfields"])

p("C14", "Omit, squash and embedding behave like the flat struct",
  "A struct with omitted, squashed or embedded fields encodes, decodes, hashes, sizes and signs exactly like the struct obtained by deleting the omitted fields and splicing the squashed or embedded structs' fields in place. Omitted fields are never read or written: their content does not influence any output and is left untouched by decoding, whatever their Go type.",
  ["programs", "inputs"], "over every nesting and order of omitted, squashed and embedded fields, tag spellings with several comma-separated flags, and every value",
  "Two hand-written struct families are tested, with fixed layouts and a single flag per tag.",
  ["types/ssz_container.go", "util/tags/read_tag.go"],
  [("field collection", "types/ssz_container.go getFields, Wrap, WrapOffset"), ("flag lookup", "util/tags/read_tag.go HasFlag")],
  observe=["all zssz entry points on the nested and on the flat type"])

p("C15", "A custom factory governs every nested type",
  "When a type definition is built with a custom factory that falls back to the default one, the custom definition is used for every occurrence of the types it claims (as struct field, squashed or embedded struct member, vector or list element, or behind a pointer, at any depth; elements of basic kind in vectors and lists are handled as one block by the default factory, which does not consult the custom one for them), and all other parts behave as under the default factory. This holds for every such factory, including ones that hand out the same definition again for every occurrence of a type. An error from the custom factory for any reachable type is returned by the construction.",
  ["programs", "inputs"], "over every placement and nesting of custom-handled types inside supported types, both fixed and variable size, and every value",
  "No test uses a factory other than the default.",
  ["types/factory.go", "types/ssz_container.go", "types/ssz_vector.go", "types/ssz_list.go", "types/ssz_ptr.go"],
  [("factory threading", "types/factory.go DefaultSSZFactory")],
  observe=["definitions built with types.DefaultSSZFactory and a wrapping factory"])

p("C16", "The hash function is replaceable",
  "After InitZeroHashes(f), hash-tree-roots and signing roots computed with f (as HashFn, or as any MerkleFn implementation that combines the same way) are the SSZ roots under f for every function f from byte strings to 32 bytes; re-initialising with another function switches completely. The default without any initialisation is SHA-256. HashFn f itself combines a and b to f(a|b), and mixes a length into a as f(a| length, little-endian, 32 bytes), whatever the zero hashes are.",
  ["inputs", "histories", "configurations"], "over hash functions, sequences of re-initialisation, types and values",
  "Tests only ever use SHA-256 with the initial zero-hashes.",
  ["htr/hash_tree_root.go", "merkle/merkleize.go", "types/ssz_list.go", "types/ssz_bitlist.go"],
  [("zero-hash table", "htr/hash_tree_root.go InitZeroHashes"), ("MerkleFn interface", "htr/hash_tree_root.go")],
  state=[("ZeroHashes", "zero subtree roots for the installed function", "htr/hash_tree_root.go")],
  observe=["zssz.HashTreeRoot, zssz.SigningRoot, htr.ZeroHashes"])

p("C17", "Type definitions can be shared between goroutines",
  "One constructed type definition can be used by any number of goroutines at once for encoding, decoding, checking, sizing, printing and hashing, and one value can be read (encoded, sized, hashed, printed) by several goroutines at once, without data races and with the same results as when run one after the other. Constructing definitions concurrently is equally safe. An operation that waits in its reader, writer or hash function does not hold up others: the two ends of a pipe can be encoded to and decoded from at once.",
  ["schedules", "programs", "inputs"], "over concurrent mixes of operations on shared definitions and shared read-only values",
  "All tests run sequentially and none runs under the race detector.",
  ["zssz.go", "types/factory.go", "types/ssz_typ.go", "enc/encoder.go", "dec/decoder.go"],
  [("immutable definitions, per-call reader and writer state", "types/*.go, enc/encoder.go Scratch, dec/decoder.go scratch")],
  observe=["race detector reports; results compared with sequential ones"])

p("C18", "Unsafe memory access stays within the object",
  "Decoding writes only to the destination object and to memory it allocates for it: neighbouring memory, omitted fields, other objects and the input buffer are untouched, the decoded value shares no memory with the input, and it stays intact across garbage collections. Encoding, sizing, hashing and printing do not modify the value, nor does any operation break the rules of Go's unsafe pointers (programs built with the race detector or pointer checking run the same).",
  ["inputs", "programs", "histories"], "over every supported type (in particular structs with padding, arrays and lists of them, pointers), value and input, valid or not",
  "Tests look only at the result of a single call, never at the memory around it, and never run with pointer checking.",
  ["util/ptrutil/allocation.go", "util/ptrutil/slice_header.go", "util/ptrutil/iface_ptr.go", "types/basic_series.go", "types/ssz_ptr.go", "types/elem_fixed_size_series.go", "types/ssz_container.go"],
  [("pointer arithmetic over element memory size", "types/elem_fixed_size_series.go, types/elem_var_size_series.go"), ("typed allocation bound to the slice header", "util/ptrutil/allocation.go")],
  observe=["canaries around the destination, snapshots of inputs and values, checkptr instrumentation"])

p("C19", "Hostile input cannot crash or exhaust memory",
  "For every supported type, every byte string and every declared length, Decode, DryCheck and (for lengths of at least FuzzMinLen) DecodeFuzzBytes return normally, without panicking, whether they accept or reject, given a machine with as much memory as the largest value of the type of the declared length needs. The memory they allocate is bounded by a type-dependent constant factor times the declared length, and never exceeds what the largest valid value of the type would need (up to that same factor), however large the declared length, offsets or list limits are.",
  ["inputs", "programs"], "over every supported type including ones with limits up to 2^40, every byte string, and declared lengths equal to, below or above the bytes actually available: any length that fits in memory, and any length up to 2^64-1 that exceeds the largest encoding of the type",
  "No test decodes malformed data or measures allocation.",
  ["dec/decoder.go", "types/elem_var_size_series.go", "types/elem_fixed_size_series.go", "types/ssz_list.go", "types/ssz_list_basic.go", "types/ssz_bytes.go", "types/ssz_bitlist.go", "util/ptrutil/allocation.go"],
  [("limit and span checks before allocation", "types/elem_var_size_series.go ReadVarSliceOffsets; types/elem_fixed_size_series.go calcFixedSliceLength"), ("scope checks", "dec/decoder.go")],
  observe=["panics, errors and bytes allocated during the call"])

p("C20", "Results do not depend on the platform",
  "Encodings, sizes, decoded values (of fuzz mode, too), verdicts, hash-tree-roots, signing roots, Merkle trees and branches, bitfield helpers and printed text are the same on little- and big-endian and on 32- and 64-bit platforms.",
  ["configurations", "inputs", "programs"], "over byte order (both code paths selected by the detected endianness) and word size, every supported type, value and input",
  "Tests run on the build machine only, a little-endian 64-bit one; the big-endian branches are never executed.",
  ["util/endianness/endianness.go", "types/basic_series.go", "types/ssz_list_basic.go", "types/ssz_vector_basic.go"],
  [("endianness switch", "types/ssz_list_basic.go, types/ssz_vector_basic.go"), ("chunk byte swap", "types/basic_series.go BigToLittleEndianChunk, BigEndianBasicSeriesHTR")],
  state=[("IsLittleEndian", "detected byte order", "util/endianness/endianness.go")],
  observe=["results with the endianness flag in either position; a 32-bit build of the checks"])

p("C21", "Pretty printing shows the whole value",
  "For every supported type and every value, including nil pointers, Pretty terminates without failing and writes every serialized field's name and every element in encoding order, with each basic value, byte string and bitfield rendered so that it can be read back, brackets matching the type's nesting, and nil pointers as null. The given indent string occurs at line starts only, more often inside brackets than at them, and the output is otherwise the same for every indent string.",
  ["inputs", "programs"], "over every supported type, value (including nil pointers at any depth below the top-level object) and indent string",
  "Pretty has no test.",
  ["pretty/pretty.go", "types/ssz_container.go", "types/ssz_list.go", "types/ssz_list_basic.go", "types/ssz_vector.go", "types/ssz_vector_basic.go", "types/ssz_ptr.go"],
  [("recursive printing", "types/*.go Pretty")],
  observe=["text written by zssz.Pretty"])

p("C22", "Unsupported types are refused, supported ones accepted",
  "For every non-recursive Go type, building a definition succeeds exactly when the type is supported: composed of the supported kinds, with every slice type declaring a limit, every bitvector's byte length matching its bit length, and squash flags only on struct fields; omitted fields may have any type. Otherwise the factory returns an error (and GetSSZ panics); the factory itself never panics, and a definition it returns is of the right form for the type (bitlist, bitvector, bytes, list, vector, container).",
  ["programs"], "over every Go type assembled from supported and unsupported kinds at any depth",
  "Tests only build definitions for supported types.",
  ["types/factory.go", "types/limit.go", "types/ssz_container.go", "types/ssz_bitvector.go", "zssz.go"],
  [("kind dispatch", "types/factory.go DefaultSSZFactory"), ("limit lookup", "types/limit.go ReadListLimit")],
  observe=["types.SSZFactory, zssz.GetSSZ"])

p("C23", "Operations leave no state behind",
  "In any sequence of operations over any set of type definitions and objects (construction, encoding, decoding, failed decoding, dry checks, fuzz decoding, hashing, sizing, printing, with destinations, readers and writers reused), each operation gives the result it gives in isolation on the same inputs. A destination holding the leftovers of a failed decode can be decoded into again with the full result. The same holds for operations that readers, writers, hash functions or leaf functions run while another operation calls them, and for those after one that ended in a panic (of such a function, or of the library on a refused argument).",
  ["histories", "inputs", "programs"], "over sequences of operations on shared definitions and reused objects",
  "Every test case is a single operation on fresh objects.",
  ["zssz.go", "types/ssz_typ.go", "enc/encoder.go", "dec/decoder.go", "util/ptrutil/allocation.go"],
  [("per-call reader/writer, immutable definitions", "zssz.go")],
  state=[("destination objects", "reused by later decodes", "caller memory")],
  observe=["results of each step against the reference model"])

p("C24", "Encodings too large for their offsets are refused",
  "Offsets are 32-bit: when any offset of an encoding would reach 2^32, Encode panics instead of writing a truncated offset, and every offset it has written before is correct. Encodings whose offsets all fit are written in full with correct offsets, even if the total size exceeds 2^32.",
  ["inputs"], "over values with variable-size parts whose sizes add up to below, exactly and beyond 2^32 at any position and depth",
  "Building such a value naively takes gigabytes; no test comes near the 32-bit boundary.",
  ["enc/encoder.go", "types/elem_var_size_series.go", "types/ssz_container.go"],
  [("range checks", "enc/encoder.go WriteOffset")],
  observe=["bytes received by the writer, panics of zssz.Encode"])

p("C25", "Output depends only on the logical value and SSZ type",
  "Two Go representations of the same logical SSZ value give the same encoding, size, hash-tree-root and verdicts: passing a value or a pointer to it, pointer fields or elements in place of plain ones, nil or empty slices, any spare capacity or backing array offset, defined types in place of built-in ones, methods with value or pointer receivers, and differently nested structs with the same serialized fields. (A pointer passed at the top level always stands for the object that it points to.) An encoding made from one representation decodes into the other.",
  ["programs", "inputs"], "over pairs of Go types that map to the same SSZ type, and every value",
  "Tests use one representation per SSZ type and never compare two.",
  ["zssz.go", "util/ptrutil/iface_ptr.go", "types/ssz_ptr.go", "types/factory.go", "types/ssz_list.go", "types/ssz_bytes.go"],
  [("interface unwrapping", "util/ptrutil/iface_ptr.go"), ("pointer proxy", "types/ssz_ptr.go"), ("kind-based dispatch", "types/factory.go")],
  observe=["all zssz entry points on both representations"])

p("C26", "Reading and writing primitives are exact",
  "Custom type definitions read through dec.DecodingReader and write through enc.EncodingWriter. For every history of their operations: Read, ReadByte, ReadUint16/32/64, ReadOffset and Skip consume exactly the bytes they stand for, in order and little-endian, from any io.Reader (whether or not it can also seek); an operation that needs more than the remaining span of its scope is refused without consuming anything, and one that the input cannot satisfy returns an error. The counts that Read and Skip return are those of the bytes consumed (0 when refused, fewer than asked for when the input ends), so that a DecodingReader can be used as any io.Reader. Index, Max and GetBytesSpan always describe what the scope has consumed and has left; Scope succeeds exactly when the span has room for it, nested scopes share the input, and UpdateIndexFromScoped adds what the inner scope consumed. Write, WriteByte and WriteOffset write exactly their bytes, Written is the number of bytes the writer took, errors of the writer are returned, and an offset (previous offset plus length) that does not fit 32 bits is never written.",
  ["inputs", "histories", "faults"], "over every history of operations with nested scopes and any counts up to 2^64-1, every input, way of delivery and failing position",
  "No test uses these types directly; the definitions of the package only ever use them in a few fixed patterns, which custom definitions need not follow.",
  ["dec/decoder.go", "enc/encoder.go"],
  [("scope check", "dec/decoder.go checkedIndexUpdate, Scope"), ("skipping", "dec/decoder.go Skip"), ("offset arithmetic", "enc/encoder.go WriteOffset")],
  state=[("scope", "index, maximum and shared input", "dec/decoder.go DecodingReader")],
  observe=["results of the methods, position in the input, bytes written"])

p("C27", "Series constructors that fit a type are interchangeable",
  "The exported constructors (NewSSZPtr, NewSSZContainer, NewSSZVector, NewSSZBasicVector, NewSSZBytesN, NewSSZBitvector, NewSSZList, NewSSZBasicList, NewSSZBytes, NewSSZBitlist, GetBasicSSZElemType) can be called directly, as custom factories do. Wherever several fit a type (a byte vector is also a vector of basic elements and a vector of anything; the same for lists), each of them gives a definition with the same length figures, encoding, size, hash-tree-root, verdicts and decoded values, and valid fuzz-mode values, at any depth of a type. Given a type of another kind, or with unsupported parts, a constructor returns an error and does not panic.",
  ["programs", "inputs"], "over every choice of constructors for the parts of every supported type, every value and byte string; and every constructor on every Go type",
  "Tests only use the default factory, which always takes the most special constructor, so that the general ones never see basic elements.",
  ["types/ssz_vector.go", "types/ssz_list.go", "types/ssz_vector_basic.go", "types/ssz_list_basic.go", "types/ssz_bytes.go", "types/ssz_bytes_n.go", "types/basic_series.go", "types/elem_fixed_size_series.go"],
  [("constructors", "types/ssz_*.go NewSSZ*"), ("packing of basic elements", "types/basic_series.go"), ("kind checks", "types/basic_series.go GetBasicSSZElemType")],
  observe=["types.NewSSZ*, and all zssz entry points with the resulting definitions"])

p("C28", "Work and memory follow the value, not the limits",
  "Limits may be far above what a value holds (up to 2^64-1) without costing anything beyond the depth of the Merkle tree: for every supported type and valid value, HashTreeRoot and SigningRoot call the hash function at most 2c+d+2 times for each part of the value with a tree of its own (c its number of chunks or element roots, at least 1; d the depth of the tree for its limit), and so do Merkleize and ConstructProof for c leaves, which ask for leaves at most 2c+2 times. HashTreeRoot, SigningRoot, Encode, SizeOf, Pretty, Merkleize and ConstructProof allocate memory within 64 KiB plus 16 times the encoded size (Pretty: 64 times it and the text) plus 1 KiB for every part and every such hash call.",
  ["inputs", "programs"], "over every supported type with any limits, every valid value, and every leaf count and limit",
  "Results are the same whatever the work, so that the tests, which compare results on types with moderate limits, see nothing but slowness.",
  ["merkle/merkleize.go", "htr/hash_tree_root.go", "types/basic_series.go", "types/ssz_list.go", "types/ssz_bytes.go", "types/ssz_bitlist.go", "types/ssz_container.go", "types/elem_var_size_series.go"],
  [("zero subtrees", "merkle/merkleize.go Merkleize, htr/hash_tree_root.go ZeroHashes"), ("log-space merging", "merkle/merkleize.go merge"), ("encoding without buffers", "types/elem_var_size_series.go EncodeVarSeries")],
  observe=["calls of the hash function and the leaf function, bytes allocated (runtime statistics)"])


here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["title"]
        f.write(json.dumps(x) + "\n")
