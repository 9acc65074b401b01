From becc573dab0af62286273b2cc8cf7060644d8757 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:19 +0000
Subject: [PATCH 01/22] fix: dry-check enforces the limit of byte lists, like
 decoding does

---
 types/ssz_bytes.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/types/ssz_bytes.go b/types/ssz_bytes.go
index 644ea36..ba5bac2 100644
--- a/types/ssz_bytes.go
+++ b/types/ssz_bytes.go
@@ -92,7 +92,11 @@ func (v *SSZBytes) Decode(dr *DecodingReader, p unsafe.Pointer) error {
 }
 
 func (v *SSZBytes) DryCheck(dr *DecodingReader) error {
-	_, err := dr.Skip(dr.GetBytesSpan())
+	length := dr.GetBytesSpan()
+	if length > v.limit {
+		return fmt.Errorf("got %d bytes, expected no more than %d bytes", length, v.limit)
+	}
+	_, err := dr.Skip(length)
 	return err
 }
 
-- 
2.43.0


From aa3757cb2e7c0c6220139c3e7e9cbd86595fad96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:19 +0000
Subject: [PATCH 02/22] fix: maximum length of lists of variable-size elements
 includes the element offsets

---
 types/ssz_list.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/types/ssz_list.go b/types/ssz_list.go
index 40ba4f5..2846ac0 100644
--- a/types/ssz_list.go
+++ b/types/ssz_list.go
@@ -43,7 +43,7 @@ func NewSSZList(factory SSZFactoryFn, typ reflect.Type) (*SSZList, error) {
 		byteLimit = limit * elemSSZ.FixedLen()
 	} else {
 		fixedElemSize = BYTES_PER_LENGTH_OFFSET
-		byteLimit = limit * elemSSZ.MaxLen()
+		byteLimit = limit * (BYTES_PER_LENGTH_OFFSET + elemSSZ.MaxLen())
 	}
 	res := &SSZList{
 		alloc:         ptrutil.MakeSliceAllocFn(typ),
-- 
2.43.0


From f89928aa07728b812a46d8d5b28ffe5bdf12f53d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:19 +0000
Subject: [PATCH 03/22] fix: fuzz-mode decoding of basic lists stays within the
 input and limit, and empties reused lists

---
 types/ssz_list_basic.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/types/ssz_list_basic.go b/types/ssz_list_basic.go
index 5477be1..34453f0 100644
--- a/types/ssz_list_basic.go
+++ b/types/ssz_list_basic.go
@@ -97,13 +97,13 @@ func (v *SSZBasicList) decodeFuzzmode(dr *DecodingReader, p unsafe.Pointer) erro
 		return err
 	}
 	span := dr.GetBytesSpan()
-	if v.byteLimit > span {
+	if span > v.byteLimit {
 		span = v.byteLimit
 	}
-	if span == 0 {
-		return nil
+	bytesLen := uint64(0)
+	if span != 0 {
+		bytesLen = x % span
 	}
-	bytesLen := x % span
 	bytesLen -= bytesLen % v.elemSSZ.FixedLen()
 
 	if endianness.IsLittleEndian || v.elemSSZ.FixedLen() == 1 {
-- 
2.43.0


From 9632124b6b2c157e15872ddd56426cabbc5575b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:19 +0000
Subject: [PATCH 04/22] fix: fuzz-mode decoding of lists respects the list
 limit

---
 types/ssz_list.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/types/ssz_list.go b/types/ssz_list.go
index 2846ac0..a16da7d 100644
--- a/types/ssz_list.go
+++ b/types/ssz_list.go
@@ -119,6 +119,10 @@ func (v *SSZList) decodeFuzzmode(dr *DecodingReader, p unsafe.Pointer) error {
 	if span != 0 {
 		length = (x % span) / v.elemSSZ.FuzzMinLen()
 	}
+	// elements may need less input than their maximum, respect the type limit
+	if length > v.limit {
+		length = v.limit
+	}
 	contentsPtr := v.alloc.MutateLenOrAllocNew(p, length)
 	if v.elemSSZ.IsFixed() {
 		return DecodeFixedSeries(v.elemSSZ.Decode, length, v.elemMemSize, dr, contentsPtr)
-- 
2.43.0


From 558c9b00e083eea0e69c4522ae4e0965f6e99600 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:20 +0000
Subject: [PATCH 05/22] fix: fuzz-mode decoding of lists of zero-length
 elements returns an error instead of dividing by zero

---
 types/ssz_list.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/types/ssz_list.go b/types/ssz_list.go
index a16da7d..9cfafce 100644
--- a/types/ssz_list.go
+++ b/types/ssz_list.go
@@ -1,6 +1,7 @@
 package types
 
 import (
+	"errors"
 	"fmt"
 	. "github.com/protolambda/zssz/dec"
 	. "github.com/protolambda/zssz/enc"
@@ -107,6 +108,9 @@ func (v *SSZList) Encode(eb *EncodingWriter, p unsafe.Pointer) error {
 }
 
 func (v *SSZList) decodeFuzzmode(dr *DecodingReader, p unsafe.Pointer) error {
+	if v.elemSSZ.FuzzMinLen() == 0 {
+		return errors.New("cannot read a dynamic-length series of 0-length elements")
+	}
 	x, err := dr.ReadUint64()
 	if err != nil {
 		return err
-- 
2.43.0


From 5a33536572827a0370a321007cc425bea78e41ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:20 +0000
Subject: [PATCH 06/22] fix: fuzz-mode decoding of bitlists masks the last byte
 relative to its position

---
 types/ssz_bitlist.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/types/ssz_bitlist.go b/types/ssz_bitlist.go
index f39422c..b62e60f 100644
--- a/types/ssz_bitlist.go
+++ b/types/ssz_bitlist.go
@@ -50,7 +50,7 @@ func (v *SSZBitlist) FuzzMinLen() uint64 {
 // in bytes (rounded up), not bits
 func (v *SSZBitlist) FuzzMaxLen() uint64 {
 	// 8 for a random byte count, limit for maximum fill
-	return 8 + v.byteLimit
+	return 8 + v.MaxLen()
 }
 
 // in bytes (rounded up), not bits. Includes the delimiting 1 bit.
@@ -112,7 +112,9 @@ func (v *SSZBitlist) Decode(dr *DecodingReader, p unsafe.Pointer) error {
 	}
 	if dr.IsFuzzMode() {
 		// mask last byte to stay within bit-limit
-		data[len(data)-1] &= (1 << (v.bitLimit + 1)) - 1
+		if maxIndex := v.bitLimit - ((byteLen - 1) << 3); maxIndex < 7 {
+			data[len(data)-1] &= (1 << (maxIndex + 1)) - 1
+		}
 		if data[len(data)-1] == 0 {
 			// last byte must not be 0 for bitlist to be valid
 			data[len(data)-1] = 1
-- 
2.43.0


From ab8db4d7d5226acda9b56cc8bf97089db9886e80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:20 +0000
Subject: [PATCH 07/22] fix: fuzz-mode decoding of bitvectors masks the padding
 bits

---
 types/ssz_bitvector.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/types/ssz_bitvector.go b/types/ssz_bitvector.go
index b3ad2a9..973259c 100644
--- a/types/ssz_bitvector.go
+++ b/types/ssz_bitvector.go
@@ -86,6 +86,10 @@ func (v *SSZBitvector) Decode(dr *DecodingReader, p unsafe.Pointer) error {
 	if _, err := dr.Read(data); err != nil {
 		return err
 	}
+	if dr.IsFuzzMode() && v.bitLen&7 != 0 {
+		// mask last byte to leave the padding bits zero
+		data[len(data)-1] &= (1 << (v.bitLen & 7)) - 1
+	}
 	// check if the data is a valid bitvector value (0 bits for unused bits)
 	return bitfields.BitvectorCheck(data, v.bitLen)
 }
-- 
2.43.0


From 71bc7d781a681af4e676084c1a574dc193b4f03f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:20 +0000
Subject: [PATCH 08/22] fix: bitlist hash-tree-root leaves out the delimiter
 bit when it is in the last byte of a chunk

---
 types/ssz_bitlist.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/types/ssz_bitlist.go b/types/ssz_bitlist.go
index b62e60f..76961ba 100644
--- a/types/ssz_bitlist.go
+++ b/types/ssz_bitlist.go
@@ -150,7 +150,7 @@ func (v *SSZBitlist) HashTreeRoot(h MerkleFn, p unsafe.Pointer) [32]byte {
 		s := i << 5
 		e := (i + 1) << 5
 		// pad the data
-		if e > byteLen {
+		if e > byteLen || (e == byteLen && bitLen&7 != 0) {
 			x := [32]byte{}
 			copy(x[:], data[s:byteLen])
 			if bitLen&7 != 0 && byteLen != 0 { // if we not already cut off the delimiting bit with a bytes boundary
@@ -162,7 +162,7 @@ func (v *SSZBitlist) HashTreeRoot(h MerkleFn, p unsafe.Pointer) [32]byte {
 			}
 			return x[:]
 		}
-		// if the last leaf does not have to be padded,
+		// if the last leaf does not have to be padded, and has no length-determining bit in its last byte,
 		// then the length-determining bitlist bit is already cut off,
 		// i.e. as sole bit in next (ignored) chunk of data.
 		return data[s:e]
-- 
2.43.0


From e8f5ea128694e05978c003d1aaff9294d2fa15df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:21 +0000
Subject: [PATCH 09/22] fix: merkle proofs include padded sibling subtrees, and
 the leafs when proving far beyond them

---
 merkle/merkleize.go | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/merkle/merkleize.go b/merkle/merkleize.go
index 2a411a5..ed23df6 100644
--- a/merkle/merkleize.go
+++ b/merkle/merkleize.go
@@ -151,9 +151,9 @@ func ConstructProof(hasher MerkleFn, count uint64, limit uint64, leaf func(i uin
 		for j = 0; ; j++ {
 			// TODO: better than full tree allocation, but style/efficiency can be improved.
 			// if i is a sibling of index at the given depth,
-			// and i is the last index of the subtree to that depth,
+			// and i is the last index of the subtree to that depth (or the rest of it is padded),
 			// then put h into the branch
-			if (i>>j)^1 == (index>>j) && (((1<<j)-1)&i) == ((1<<j)-1) {
+			if (i>>j)^1 == (index>>j) && (i == count || (((1<<j)-1)&i) == ((1<<j)-1)) {
 				// insert sibling into the proof
 				branch[j] = hArr
 			}
@@ -188,5 +188,13 @@ func ConstructProof(hasher MerkleFn, count uint64, limit uint64, leaf func(i uin
 		merge(count)
 	}
 
+	// beyond the depth of the leafs, the leafs are to the left of everything else
+	for j := depth; j < limitDepth; j++ {
+		if index>>j == 1 {
+			branch[j] = tmp[j]
+		}
+		tmp[j+1] = hasher.Combi(tmp[j], ZeroHashes[j])
+	}
+
 	return
 }
-- 
2.43.0


From afda4e6e0d844f0b6d28ec3cb508804e0df1573d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:21 +0000
Subject: [PATCH 10/22] fix: an error that accompanies the last needed bytes
 does not fail the read

---
 dec/decoder.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dec/decoder.go b/dec/decoder.go
index 6c500f4..7df9f60 100644
--- a/dec/decoder.go
+++ b/dec/decoder.go
@@ -85,7 +85,7 @@ func (dr *DecodingReader) Read(p []byte) (int, error) {
 	for n < len(p) {
 		v, err := dr.input.Read(p[n:])
 		n += v
-		if err != nil {
+		if err != nil && n < len(p) {
 			return n, err
 		}
 	}
-- 
2.43.0


From 6482c71e8727d38ff33fc658940b0fe739af4edd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:21 +0000
Subject: [PATCH 11/22] fix: read pointers as pointers, as Go's pointer
 checking demands

---
 types/ssz_ptr.go | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/types/ssz_ptr.go b/types/ssz_ptr.go
index 0bb4c15..67999fd 100644
--- a/types/ssz_ptr.go
+++ b/types/ssz_ptr.go
@@ -58,12 +58,12 @@ func (v *SSZPtr) IsFixed() bool {
 }
 
 func (v *SSZPtr) SizeOf(p unsafe.Pointer) uint64 {
-	innerPtr := unsafe.Pointer(*(*uintptr)(p))
+	innerPtr := *(*unsafe.Pointer)(p)
 	return v.elemSSZ.SizeOf(innerPtr)
 }
 
 func (v *SSZPtr) Encode(eb *EncodingWriter, p unsafe.Pointer) error {
-	innerPtr := unsafe.Pointer(*(*uintptr)(p))
+	innerPtr := *(*unsafe.Pointer)(p)
 	return v.elemSSZ.Encode(eb, innerPtr)
 }
 
@@ -71,11 +71,11 @@ func (v *SSZPtr) Decode(dr *DecodingReader, p unsafe.Pointer) error {
 	if p == unsafe.Pointer(nil) {
 		return errors.New("cannot decode into nil pointer")
 	}
-	if *(*uintptr)(p) == uintptr(0) {
+	if *(*unsafe.Pointer)(p) == nil {
 		contentsPtr := v.alloc(p)
 		return v.elemSSZ.Decode(dr, contentsPtr)
 	} else {
-		return v.elemSSZ.Decode(dr, unsafe.Pointer(*(*uintptr)(p)))
+		return v.elemSSZ.Decode(dr, *(*unsafe.Pointer)(p))
 	}
 }
 
@@ -84,12 +84,12 @@ func (v *SSZPtr) DryCheck(dr *DecodingReader) error {
 }
 
 func (v *SSZPtr) HashTreeRoot(h MerkleFn, p unsafe.Pointer) [32]byte {
-	innerPtr := unsafe.Pointer(*(*uintptr)(p))
+	innerPtr := *(*unsafe.Pointer)(p)
 	return v.elemSSZ.HashTreeRoot(h, innerPtr)
 }
 
 func (v *SSZPtr) Pretty(indent uint32, w *PrettyWriter, p unsafe.Pointer) {
-	innerPtr := unsafe.Pointer(*(*uintptr)(p))
+	innerPtr := *(*unsafe.Pointer)(p)
 	if innerPtr == nil {
 		w.WriteIndent(indent)
 		w.Write("null")
-- 
2.43.0


From 3958ff4954c242226364313df7f78abee31cbe20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:21 +0000
Subject: [PATCH 12/22] fix: decoding a basic vector on a big-endian platform
 reads as many elements as the vector has

---
 types/ssz_vector_basic.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/types/ssz_vector_basic.go b/types/ssz_vector_basic.go
index 92faf44..a3f31d2 100644
--- a/types/ssz_vector_basic.go
+++ b/types/ssz_vector_basic.go
@@ -85,7 +85,7 @@ func (v *SSZBasicVector) Decode(dr *DecodingReader, p unsafe.Pointer) error {
 	if endianness.IsLittleEndian || v.elemSSZ.FixedLen() == 1 {
 		return LittleEndianBasicSeriesDecode(dr, p, v.byteLen, v.byteLen, v.elemKind == reflect.Bool)
 	} else {
-		return DecodeFixedSeries(v.elemSSZ.Decode, v.byteLen, uintptr(v.elemSSZ.FixedLen()), dr, p)
+		return DecodeFixedSeries(v.elemSSZ.Decode, v.length, uintptr(v.elemSSZ.FixedLen()), dr, p)
 	}
 }
 
-- 
2.43.0


From c3153cc76ed5c6316c24e8e53945981a06917edc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:21 +0000
Subject: [PATCH 13/22] fix: decoding of basic lists and bitlists checks the
 limit before allocating

---
 types/ssz_bitlist.go    | 4 ++++
 types/ssz_list_basic.go | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/types/ssz_bitlist.go b/types/ssz_bitlist.go
index 76961ba..75472ad 100644
--- a/types/ssz_bitlist.go
+++ b/types/ssz_bitlist.go
@@ -104,6 +104,10 @@ func (v *SSZBitlist) Decode(dr *DecodingReader, p unsafe.Pointer) error {
 		byteLen += 1
 	} else {
 		byteLen = dr.GetBytesSpan()
+		// check the limit before allocating
+		if err := bitfields.BitlistCheckByteLen(byteLen, v.bitLimit); err != nil {
+			return err
+		}
 	}
 	ptrutil.BytesAllocFn(p, byteLen)
 	data := *(*[]byte)(p)
diff --git a/types/ssz_list_basic.go b/types/ssz_list_basic.go
index 34453f0..bbd8346 100644
--- a/types/ssz_list_basic.go
+++ b/types/ssz_list_basic.go
@@ -120,6 +120,10 @@ func (v *SSZBasicList) decode(dr *DecodingReader, p unsafe.Pointer) error {
 	if bytesLen%v.elemSSZ.FixedLen() != 0 {
 		return fmt.Errorf("cannot decode basic type array, input has length %d, not compatible with element length %d", bytesLen, v.elemSSZ.FixedLen())
 	}
+	// check the limit before allocating
+	if bytesLen > v.byteLimit {
+		return fmt.Errorf("got %d bytes, expected no more than %d bytes", bytesLen, v.byteLimit)
+	}
 
 	if endianness.IsLittleEndian || v.elemSSZ.FixedLen() == 1 {
 		contentsPtr := v.alloc.MutateLenOrAllocNew(p, bytesLen/v.elemSSZ.FixedLen())
-- 
2.43.0


From 0c4a1d926fc2b84345931c118e914e7f629c4d30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:10 +0000
Subject: [PATCH 14/22] fix: series of pointers to basic elements are packed in
 hash-tree-roots

---
 types/basic_series.go | 28 ++++++++++++++++++++++++++++
 types/ssz_list.go     |  3 +++
 types/ssz_vector.go   |  3 +++
 3 files changed, 34 insertions(+)

diff --git a/types/basic_series.go b/types/basic_series.go
index 8de9e60..ebcd909 100644
--- a/types/basic_series.go
+++ b/types/basic_series.go
@@ -122,6 +122,34 @@ func BigEndianBasicSeriesHTR(h MerkleFn, p unsafe.Pointer, bytesLen uint64, byte
 	return merkle.Merkleize(h, leafCount, leafLimit, leaf)
 }
 
+// Gets the size of elements that are of a basic type, but are not stored as such (i.e. behind pointers).
+// Series of basic elements are packed to be merkleized. Returns 0 if the elements are not basic.
+func packedElemSize(elemSSZ SSZ) uint64 {
+	if v, ok := elemSSZ.(*SSZPtr); ok {
+		return packedElemSize(v.elemSSZ)
+	}
+	switch elemSSZ.(type) {
+	case SSZBool, SSZUint8, SSZUint16, SSZUint32, SSZUint64:
+		return elemSSZ.FixedLen()
+	default:
+		return 0
+	}
+}
+
+// Merkleizes a series of basic elements that are not stored as packed bytes.
+func packedSeriesHTR(h MerkleFn, elemHtr HashTreeRootFn, elemSize uint64, elemMemSize uintptr, length uint64, limit uint64, p unsafe.Pointer) [32]byte {
+	perLeaf := 32 / elemSize
+	leaf := func(i uint64) []byte {
+		out := [32]byte{}
+		for j := uint64(0); j < perLeaf && i*perLeaf+j < length; j++ {
+			r := elemHtr(h, unsafe.Pointer(uintptr(p)+(elemMemSize*uintptr(i*perLeaf+j))))
+			copy(out[j*elemSize:], r[:elemSize])
+		}
+		return out[:]
+	}
+	return merkle.Merkleize(h, (length+perLeaf-1)/perLeaf, (limit+perLeaf-1)/perLeaf, leaf)
+}
+
 func CallSeries(fn func(i uint64, p unsafe.Pointer), length uint64, elemMemSize uintptr, p unsafe.Pointer) {
 	memOffset := uintptr(0)
 	for i := uint64(0); i < length; i++ {
diff --git a/types/ssz_list.go b/types/ssz_list.go
index 9cfafce..86a3edf 100644
--- a/types/ssz_list.go
+++ b/types/ssz_list.go
@@ -164,6 +164,9 @@ func (v *SSZList) HashTreeRoot(h MerkleFn, p unsafe.Pointer) [32]byte {
 	elemHtr := v.elemSSZ.HashTreeRoot
 	elemSize := v.elemMemSize
 	sh := ptrutil.ReadSliceHeader(p)
+	if packedSize := packedElemSize(v.elemSSZ); packedSize != 0 {
+		return h.MixIn(packedSeriesHTR(h, elemHtr, packedSize, elemSize, uint64(sh.Len), v.limit, sh.Data), uint64(sh.Len))
+	}
 	leaf := func(i uint64) []byte {
 		r := elemHtr(h, unsafe.Pointer(uintptr(sh.Data)+(elemSize*uintptr(i))))
 		return r[:]
diff --git a/types/ssz_vector.go b/types/ssz_vector.go
index 6925624..a6a632a 100644
--- a/types/ssz_vector.go
+++ b/types/ssz_vector.go
@@ -132,6 +132,9 @@ func (v *SSZVector) DryCheck(dr *DecodingReader) error {
 func (v *SSZVector) HashTreeRoot(h MerkleFn, p unsafe.Pointer) [32]byte {
 	elemHtr := v.elemSSZ.HashTreeRoot
 	elemSize := v.elemMemSize
+	if packedSize := packedElemSize(v.elemSSZ); packedSize != 0 {
+		return packedSeriesHTR(h, elemHtr, packedSize, elemSize, v.length, v.length, p)
+	}
 	leaf := func(i uint64) []byte {
 		v := elemHtr(h, unsafe.Pointer(uintptr(p)+(elemSize*uintptr(i))))
 		return v[:]
-- 
2.43.0


From 978d0469b880732886613cc13b04a007e12b7d1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:08 +0000
Subject: [PATCH 15/22] fix: values that consist of just a pointer can be
 passed by value

---
 util/ptrutil/iface_ptr.go | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/util/ptrutil/iface_ptr.go b/util/ptrutil/iface_ptr.go
index 2b8b8de..a687024 100644
--- a/util/ptrutil/iface_ptr.go
+++ b/util/ptrutil/iface_ptr.go
@@ -1,12 +1,23 @@
 package ptrutil
 
-import "unsafe"
+import (
+	"reflect"
+	"unsafe"
+)
 
 type iface struct {
 	Type, Data unsafe.Pointer
 }
 
 func IfacePtrToPtr(val *interface{}) unsafe.Pointer {
+	// A struct or array that consists of just a pointer is kept in the interface itself,
+	// there is no pointer to it. Make a copy to point to.
+	if typ := reflect.TypeOf(*val); typ != nil && typ.Size() == unsafe.Sizeof(uintptr(0)) &&
+		(typ.Kind() == reflect.Struct || typ.Kind() == reflect.Array) {
+		v := reflect.New(typ)
+		v.Elem().Set(reflect.ValueOf(*val))
+		return unsafe.Pointer(v.Pointer())
+	}
 	p := unsafe.Pointer(val)
 	return (*iface)(p).Data
 }
-- 
2.43.0


From 0977fed2917ef7ba513793be8a2768b8e9521f57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:44 +0000
Subject: [PATCH 16/22] fix: bitvector byte length does not overflow for bit
 lengths near 2^64

---
 bitfields/bitvector.go | 6 +++++-
 types/ssz_bitvector.go | 2 +-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/bitfields/bitvector.go b/bitfields/bitvector.go
index 8cde0a6..485f761 100644
--- a/bitfields/bitvector.go
+++ b/bitfields/bitvector.go
@@ -30,7 +30,11 @@ func BitvectorCheck(b []byte, n uint64) error {
 }
 
 func BitvectorCheckByteLen(byteLen uint64, bitLength uint64) error {
-	if expected := (bitLength + 7) >> 3; byteLen != expected {
+	expected := bitLength >> 3
+	if bitLength&7 != 0 {
+		expected++
+	}
+	if byteLen != expected {
 		return fmt.Errorf("bitvector of %d bytes has not expected length in bytes %d", byteLen, expected)
 	}
 	return nil
diff --git a/types/ssz_bitvector.go b/types/ssz_bitvector.go
index 973259c..5431e6b 100644
--- a/types/ssz_bitvector.go
+++ b/types/ssz_bitvector.go
@@ -34,7 +34,7 @@ func NewSSZBitvector(typ reflect.Type) (*SSZBitvector, error) {
 	typedNil := reflect.New(ptrTyp).Elem().Interface().(bitfields.BitvectorMeta)
 	bitLen := typedNil.BitLen()
 	byteLen := uint64(typ.Len())
-	if (bitLen+7)>>3 != byteLen {
+	if err := bitfields.BitvectorCheckByteLen(byteLen, bitLen); err != nil {
 		return nil, fmt.Errorf("bitvector type has not the expected %d bytes to cover %d bits", byteLen, bitLen)
 	}
 	res := &SSZBitvector{bitLen: bitLen, byteLen: byteLen}
-- 
2.43.0


From 38bf4df81ce8a3399f02c3188603977649c86946 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:37 +0000
Subject: [PATCH 17/22] fix: list limits and bitvector lengths can be declared
 with value receivers

---
 types/limit.go         | 5 +++--
 types/ssz_bitvector.go | 5 +++--
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/types/limit.go b/types/limit.go
index 4d02c8c..25c9e06 100644
--- a/types/limit.go
+++ b/types/limit.go
@@ -13,6 +13,7 @@ func ReadListLimit(typ reflect.Type) (uint64, error) {
 	if !ptrTyp.Implements(listType) {
 		return 0, fmt.Errorf("*typ (pointer type) is not a ssz list")
 	}
-	typedNil := reflect.New(ptrTyp).Elem().Interface().(lists.List)
-	return typedNil.Limit(), nil
+	// a pointer to an empty list, not a nil pointer: the method may have a value receiver
+	empty := reflect.New(typ).Interface().(lists.List)
+	return empty.Limit(), nil
 }
diff --git a/types/ssz_bitvector.go b/types/ssz_bitvector.go
index 5431e6b..885610b 100644
--- a/types/ssz_bitvector.go
+++ b/types/ssz_bitvector.go
@@ -31,8 +31,9 @@ func NewSSZBitvector(typ reflect.Type) (*SSZBitvector, error) {
 	if !ptrTyp.Implements(bitvectorMeta) {
 		return nil, fmt.Errorf("*typ (pointer type) is not a bitvector")
 	}
-	typedNil := reflect.New(ptrTyp).Elem().Interface().(bitfields.BitvectorMeta)
-	bitLen := typedNil.BitLen()
+	// a pointer to an empty bitvector, not a nil pointer: the method may have a value receiver
+	empty := reflect.New(typ).Interface().(bitfields.BitvectorMeta)
+	bitLen := empty.BitLen()
 	byteLen := uint64(typ.Len())
 	if err := bitfields.BitvectorCheckByteLen(byteLen, bitLen); err != nil {
 		return nil, fmt.Errorf("bitvector type has not the expected %d bytes to cover %d bits", byteLen, bitLen)
-- 
2.43.0


From e0d56a4db80b11a69945a750fc0a071d90974e69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:20 +0000
Subject: [PATCH 18/22] fix: bitlist byte limit does not overflow for bit
 limits near 2^64

---
 types/ssz_bitlist.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/types/ssz_bitlist.go b/types/ssz_bitlist.go
index 75472ad..0349ef4 100644
--- a/types/ssz_bitlist.go
+++ b/types/ssz_bitlist.go
@@ -32,7 +32,11 @@ func NewSSZBitlist(typ reflect.Type) (*SSZBitlist, error) {
 	if err != nil {
 		return nil, err
 	}
-	byteLimit := (bitLimit + 7) >> 3
+	// round up, without overflowing for limits near 2**64
+	byteLimit := bitLimit >> 3
+	if bitLimit&7 != 0 {
+		byteLimit += 1
+	}
 	res := &SSZBitlist{
 		bitLimit:  bitLimit,
 		byteLimit: byteLimit,
-- 
2.43.0


From 311b13f25119c049b80388d09a4a3f0e9a1e7a9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:22 +0000
Subject: [PATCH 19/22] fix: the scope check of the decoding reader does not
 overflow for large counts

---
 dec/decoder.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/dec/decoder.go b/dec/decoder.go
index 7df9f60..bdf9095 100644
--- a/dec/decoder.go
+++ b/dec/decoder.go
@@ -52,11 +52,11 @@ func (dr *DecodingReader) Max() uint64 {
 }
 
 func (dr *DecodingReader) checkedIndexUpdate(x uint64) (n int, err error) {
-	v := dr.i + x
-	if v > dr.max {
-		return int(dr.i), fmt.Errorf("cannot read %d bytes, %d beyond scope", x, v-dr.max)
+	// compare with the remaining space, the sum of index and count may overflow
+	if span := dr.GetBytesSpan(); x > span {
+		return int(dr.i), fmt.Errorf("cannot read %d bytes, %d beyond scope", x, x-span)
 	}
-	dr.i = v
+	dr.i += x
 	return int(x), nil
 }
 
-- 
2.43.0


From 8dff0c76cbaaca8e4dab43c1e4963dcd9f3aa6f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:22 +0000
Subject: [PATCH 20/22] fix: scopes of 2^63 bytes and more can be read

---
 dec/decoder.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/dec/decoder.go b/dec/decoder.go
index bdf9095..cb944f9 100644
--- a/dec/decoder.go
+++ b/dec/decoder.go
@@ -5,6 +5,7 @@ import (
 	"fmt"
 	"io"
 	"io/ioutil"
+	"math"
 	"unsafe"
 )
 
@@ -28,7 +29,12 @@ func (dr *DecodingReader) Scope(count uint64) (*DecodingReader, error) {
 	if span := dr.GetBytesSpan(); span < count {
 		return nil, fmt.Errorf("cannot create scoped decoding reader, scope of %d bytes is bigger than parent scope has available space %d", count, span)
 	}
-	return &DecodingReader{input: io.LimitReader(dr.input, int64(count)), i: 0, max: count}, nil
+	// no input is longer than what a limited reader can count to
+	limit := int64(math.MaxInt64)
+	if count < math.MaxInt64 {
+		limit = int64(count)
+	}
+	return &DecodingReader{input: io.LimitReader(dr.input, limit), i: 0, max: count}, nil
 }
 
 func (dr *DecodingReader) EnableFuzzMode() {
-- 
2.43.0


From 2ae1a7883624952ec30202941bf0914b4c315180 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:38 +0000
Subject: [PATCH 21/22] fix: skipping bytes of a seekable input notices the end
 of the input

---
 dec/decoder.go | 24 +++++++++++++++++-------
 1 file changed, 17 insertions(+), 7 deletions(-)

diff --git a/dec/decoder.go b/dec/decoder.go
index cb944f9..26543b8 100644
--- a/dec/decoder.go
+++ b/dec/decoder.go
@@ -70,14 +70,24 @@ func (dr *DecodingReader) Skip(count uint64) (int, error) {
 	if n, err := dr.checkedIndexUpdate(count); err != nil {
 		return n, err
 	}
-	switch r := dr.input.(type) {
-	case io.Seeker:
-		n, err := r.Seek(int64(count), io.SeekCurrent)
-		return int(n), err
-	default:
-		n, err := io.CopyN(ioutil.Discard, dr.input, int64(count))
-		return int(n), err
+	if count == 0 {
+		return 0, nil
+	}
+	if count > math.MaxInt64 {
+		return 0, io.ErrUnexpectedEOF
+	}
+	if r, ok := dr.input.(io.Seeker); ok {
+		// Inputs with a Seek method may still not be able to (e.g. pipes): if so, read the bytes like those of any other input.
+		if _, err := r.Seek(int64(count-1), io.SeekCurrent); err == nil {
+			// Seeking past the end of the input is not an error, read the last byte to be sure that it exists.
+			if _, err := io.ReadFull(dr.input, dr.scratch[0:1]); err != nil {
+				return 0, err
+			}
+			return int(count), nil
+		}
 	}
+	n, err := io.CopyN(ioutil.Discard, dr.input, int64(count))
+	return int(n), err
 }
 
 func (dr *DecodingReader) Read(p []byte) (int, error) {
-- 
2.43.0


From eec565f6f2267741dae8f29d52049c94d9a7d1d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:21:08 +0000
Subject: [PATCH 22/22] fix: a refused read or skip reports that no bytes were
 read

It returned the position as the count, so that callers that use the
reader as an io.Reader (io.ReadFull, a nested decode) took a refused
read for a complete one.
---
 dec/decoder.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dec/decoder.go b/dec/decoder.go
index 26543b8..0f6a65d 100644
--- a/dec/decoder.go
+++ b/dec/decoder.go
@@ -60,7 +60,7 @@ func (dr *DecodingReader) Max() uint64 {
 func (dr *DecodingReader) checkedIndexUpdate(x uint64) (n int, err error) {
 	// compare with the remaining space, the sum of index and count may overflow
 	if span := dr.GetBytesSpan(); x > span {
-		return int(dr.i), fmt.Errorf("cannot read %d bytes, %d beyond scope", x, x-span)
+		return 0, fmt.Errorf("cannot read %d bytes, %d beyond scope", x, x-span)
 	}
 	dr.i += x
 	return int(x), nil
-- 
2.43.0

