From d59f7af456326c8f90f1ed6fbfd1c57b84797da1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:34:00 +0000
Subject: [PATCH 01/59] fix: recycle the slot of the removed handle

HandleTable.Remove pushed the length of the free list instead of the index
that was vacated. After removing handles in any order other than 0, 1, 2...
the next Add either failed because the recycled slot was still occupied or
leaked the vacated slot.
---
 abi/types/handle.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/abi/types/handle.go b/abi/types/handle.go
index a4a41a1..b360d5c 100644
--- a/abi/types/handle.go
+++ b/abi/types/handle.go
@@ -59,7 +59,7 @@ func (ht *HandleTable) Remove(rt ResourceType, i uint32) (*HandleElem, error) {
 		return nil, TrapWith("handle table end count != 0")
 	}
 	ht.Array[i] = nil
-	ht.Free = stack.Push(ht.Free, uint32(len(ht.Free)))
+	ht.Free = stack.Push(ht.Free, i)
 	if h.Scope != nil {
 		h.Scope.RemoveBorrowFromTable()
 	}
-- 
2.43.0


From 4c9b7468cb0e5024eb90c7cef9c71f2609cc7e3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:34:19 +0000
Subject: [PATCH 02/59] fix: lift spilled values in parameter order

When the flattened values exceed the flat limit they are loaded from memory
as a tuple. The fields of that tuple were returned in map iteration order, so
arguments or results could be permuted from one call to the next.
---
 abi/io/canon_lift.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/abi/io/canon_lift.go b/abi/io/canon_lift.go
index 925670a..b371d59 100644
--- a/abi/io/canon_lift.go
+++ b/abi/io/canon_lift.go
@@ -2,6 +2,7 @@ package io
 
 import (
 	"fmt"
+	"strconv"
 
 	"github.com/patrickhuber/go-wasm/abi/kind"
 	"github.com/patrickhuber/go-wasm/abi/types"
@@ -136,8 +137,8 @@ func LiftValues(cx *types.CallContext, maxFlat int, vi values.ValueIterator, ts
 	}
 
 	values := []any{}
-	for _, v := range m {
-		values = append(values, v)
+	for i := range ts {
+		values = append(values, m[strconv.Itoa(i)])
 	}
 	return values, nil
 }
-- 
2.43.0


From 9ff1869a5bfc9ae6158c96aa7ef1fbc6315ebede Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:34:20 +0000
Subject: [PATCH 03/59] fix: store spilled values before passing their pointer

LowerValuesToTuple allocated space for values that exceed the flat limit but
never wrote them. It also returned a bare uint32, which CanonLift and
CanonLower reject because they expect core values.
---
 abi/io/canon_lower.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/abi/io/canon_lower.go b/abi/io/canon_lower.go
index f3e3143..bc04366 100644
--- a/abi/io/canon_lower.go
+++ b/abi/io/canon_lower.go
@@ -136,5 +136,9 @@ func LowerValuesToTuple(ts []types.ValType, vs []any, outParam values.ValueItera
 	if ptr+size > uint32(cx.Options.Memory.Len()) {
 		return nil, fmt.Errorf("ptr %d is greater than memory size %d", ptr+size, cx.Options.Memory.Len())
 	}
-	return []any{ptr}, nil
+	err = Store(cx, tupleValue, tupleType, ptr)
+	if err != nil {
+		return nil, err
+	}
+	return []any{values.U32(ptr)}, nil
 }
-- 
2.43.0


From 575c0ed76509e482deeb172fe4ea85cea527b9c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:34:21 +0000
Subject: [PATCH 04/59] fix: store own and borrow handles in memory

Load supports handles but Store did not, so a handle inside a list or a
spilled parameter could not be passed.
---
 abi/io/store.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/abi/io/store.go b/abi/io/store.go
index 54e959c..95f5886 100644
--- a/abi/io/store.go
+++ b/abi/io/store.go
@@ -67,6 +67,18 @@ func Store(c *types.CallContext, val any, t types.ValType, ptr uint32) error {
 		return StoreVariant(c, val, ptr, vt)
 	case types.Flags:
 		return StoreFlags(c, val, ptr, vt)
+	case types.Own:
+		i, err := LowerOwn(c, val, vt)
+		if err != nil {
+			return err
+		}
+		return StoreInt(c, i, ptr, SizeOfU32, false)
+	case types.Borrow:
+		i, err := LowerBorrow(c, val, vt)
+		if err != nil {
+			return err
+		}
+		return StoreInt(c, i, ptr, SizeOfU32, false)
 	}
 	return types.TrapWith("Store: unrecognized type %T", t)
 }
-- 
2.43.0


From ba3ae241941f3e4187a137cdd051458986dfef3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:34:58 +0000
Subject: [PATCH 05/59] fix: check linear memory bounds without 32-bit overflow

Pointers and lengths come from the guest. The bounds checks added them in
32 bits, so a large pointer or length wrapped around and passed, and several
accesses had no check at all. Those accesses panicked, or read and wrote past
the end of memory when the backing buffer had spare capacity.

All accesses now go through one range check done in 64 bits. AlignTo reports
an error instead of wrapping, and the list size limit is 2^32 rather than the
largest host integer.
---
 abi/io/alignment.go   |  6 +++++-
 abi/io/canon_lift.go  |  5 +++--
 abi/io/canon_lower.go |  5 +++--
 abi/io/load.go        | 29 +++++++++++++++++++++--------
 abi/io/store.go       | 42 +++++++++++++++++++++++++-----------------
 5 files changed, 57 insertions(+), 30 deletions(-)

diff --git a/abi/io/alignment.go b/abi/io/alignment.go
index 03b08dc..81203e6 100644
--- a/abi/io/alignment.go
+++ b/abi/io/alignment.go
@@ -8,7 +8,11 @@ import (
 )
 
 func AlignTo(ptr, alignment uint32) (uint32, error) {
-	return uint32(math.Ceil(float64(ptr)/float64(alignment)) * float64(alignment)), nil
+	aligned := math.Ceil(float64(ptr)/float64(alignment)) * float64(alignment)
+	if aligned > math.MaxUint32 {
+		return 0, types.TrapWith("ptr %d can not be aligned to %d", ptr, alignment)
+	}
+	return uint32(aligned), nil
 }
 
 func Alignment(t types.ValType) (uint32, error) {
diff --git a/abi/io/canon_lift.go b/abi/io/canon_lift.go
index b371d59..2d69404 100644
--- a/abi/io/canon_lift.go
+++ b/abi/io/canon_lift.go
@@ -122,8 +122,9 @@ func LiftValues(cx *types.CallContext, maxFlat int, vi values.ValueIterator, ts
 		return nil, err
 	}
 
-	if ptr+size > uint32(cx.Options.Memory.Len()) {
-		return nil, types.TrapWith("ptr %d + offset %d is greater than len(memory) %d", ptr, size, cx.Options.Memory.Len())
+	_, err = memoryRange(cx, ptr, uint64(size))
+	if err != nil {
+		return nil, err
 	}
 
 	load, err := Load(cx, tupleType, ptr)
diff --git a/abi/io/canon_lower.go b/abi/io/canon_lower.go
index bc04366..b0595ec 100644
--- a/abi/io/canon_lower.go
+++ b/abi/io/canon_lower.go
@@ -133,8 +133,9 @@ func LowerValuesToTuple(ts []types.ValType, vs []any, outParam values.ValueItera
 	if ptr != align {
 		return nil, fmt.Errorf("ptr %d does not align to %d", ptr, align)
 	}
-	if ptr+size > uint32(cx.Options.Memory.Len()) {
-		return nil, fmt.Errorf("ptr %d is greater than memory size %d", ptr+size, cx.Options.Memory.Len())
+	_, err = memoryRange(cx, ptr, uint64(size))
+	if err != nil {
+		return nil, err
 	}
 	err = Store(cx, tupleValue, tupleType, ptr)
 	if err != nil {
diff --git a/abi/io/load.go b/abi/io/load.go
index 9be637e..592e1ce 100644
--- a/abi/io/load.go
+++ b/abi/io/load.go
@@ -130,12 +130,25 @@ func LoadUInt64(cx *types.CallContext, ptr uint32) (uint64, error) {
 	return u64, nil
 }
 
+// memoryRange returns the size bytes of linear memory that start at ptr, or traps when they are out of bounds
+func memoryRange(c *types.CallContext, ptr uint32, size uint64) ([]byte, error) {
+	memory := c.Options.Memory.Bytes()
+	end := uint64(ptr) + size
+	if size > math.MaxUint32 || end > uint64(len(memory)) {
+		return nil, types.TrapWith("ptr %d + size %d is greater than memory size %d", ptr, size, len(memory))
+	}
+	return memory[ptr:end], nil
+}
+
 func LoadInt(c *types.CallContext, ptr uint32, t types.ValType) (any, error) {
 	size, err := Size(t)
 	if err != nil {
 		return nil, err
 	}
-	buf := c.Options.Memory.Bytes()[ptr : ptr+size]
+	buf, err := memoryRange(c, ptr, uint64(size))
+	if err != nil {
+		return nil, err
+	}
 	switch t.(type) {
 	case types.U8:
 		return buf[0], nil
@@ -233,7 +246,7 @@ func LoadStringFromRange(cx *types.CallContext, ptr, taggedCodeUnits uint32) (st
 		return "", err
 	}
 
-	byteLength := tcu.CodeUnits * uint32(codec.RuneSize())
+	byteLength := uint64(tcu.CodeUnits) * uint64(codec.RuneSize())
 	align, err := AlignTo(ptr, uint32(codec.Alignment()))
 
 	if err != nil {
@@ -244,11 +257,10 @@ func LoadStringFromRange(cx *types.CallContext, ptr, taggedCodeUnits uint32) (st
 		return "", types.TrapWith("error aligning ptr %d to %d", ptr, uint32(codec.Alignment()))
 	}
 
-	if ptr+byteLength > uint32(cx.Options.Memory.Len()) {
-		return "", types.TrapWith("destination %d > memory size %d", ptr+byteLength, cx.Options.Memory.Len())
+	buf, err := memoryRange(cx, ptr, byteLength)
+	if err != nil {
+		return "", err
 	}
-
-	buf := cx.Options.Memory.Bytes()[ptr : ptr+byteLength]
 	return encoding.DecodeString(codec, bytes.NewReader(buf))
 }
 
@@ -283,8 +295,9 @@ func LoadListFromRange(cx *types.CallContext, ptr uint32, length uint32, element
 	if err != nil {
 		return nil, err
 	}
-	if ptr+length*size > uint32(cx.Options.Memory.Len()) {
-		return nil, types.TrapWith("destination size %d is greater than memory size %d", ptr+length*size, cx.Options.Memory.Len())
+	_, err = memoryRange(cx, ptr, uint64(length)*uint64(size))
+	if err != nil {
+		return nil, err
 	}
 	var list []any
 	var i uint32 = 0
diff --git a/abi/io/store.go b/abi/io/store.go
index 95f5886..01400d1 100644
--- a/abi/io/store.go
+++ b/abi/io/store.go
@@ -102,10 +102,7 @@ func StoreValidate(c *types.CallContext, t types.ValType, ptr uint32) error {
 		return err
 	}
 
-	if ptr+size > uint32(c.Options.Memory.Len()) {
-		return fmt.Errorf("Store: %d exceeds memory length %d", ptr+size, c.Options.Memory.Len())
-	}
-
+	_, err = memoryRange(c, ptr, uint64(size))
 	return err
 }
 
@@ -124,7 +121,10 @@ func StoreFloat(c *types.CallContext, val any, ptr uint32, nbytes uint32) error
 }
 
 func StoreUInt32(c *types.CallContext, val uint32, ptr uint32) error {
-	buf := c.Options.Memory.Bytes()[ptr : ptr+SizeOfU32]
+	buf, err := memoryRange(c, ptr, uint64(SizeOfU32))
+	if err != nil {
+		return err
+	}
 	binary.LittleEndian.PutUint32(buf, val)
 	return nil
 }
@@ -194,7 +194,10 @@ func StoreInt(c *types.CallContext, val any, ptr uint32, nbytes uint32, signed b
 		}
 	}
 
-	buf := c.Options.Memory.Bytes()[ptr : ptr+nbytes]
+	buf, err := memoryRange(c, ptr, uint64(nbytes))
+	if err != nil {
+		return err
+	}
 	switch nbytes {
 	case SizeOfS8:
 		buf[0] = uint8(u64)
@@ -293,7 +296,10 @@ func StoreStringDynamic(
 		return 0, 0, err
 	}
 
-	buf := cx.Options.Memory.Bytes()[ptr : ptr+lenEncoded]
+	buf, err := memoryRange(cx, ptr, uint64(lenEncoded))
+	if err != nil {
+		return 0, 0, err
+	}
 	copy(buf, encoded)
 
 	// return the pointer and the adjusted length (in runes)
@@ -317,8 +323,9 @@ func StoreStringCopy(cx *types.CallContext, src string, srcCodeUnits uint32, dst
 	if ptr != align {
 		return 0, 0, types.TrapWith("ptr %d is not aligned to destination %d", ptr, dstAlignment)
 	}
-	if ptr+dstByteLength > uint32(cx.Options.Memory.Len()) {
-		return 0, 0, types.TrapWith("array size %d is greater than the memory size %d", ptr+dstByteLength, cx.Options.Memory.Len())
+	buf, err := memoryRange(cx, ptr, uint64(dstByteLength))
+	if err != nil {
+		return 0, 0, err
 	}
 
 	encoded, err := encoding.EncodeString(dstEncoding, src)
@@ -326,7 +333,6 @@ func StoreStringCopy(cx *types.CallContext, src string, srcCodeUnits uint32, dst
 		return 0, 0, err
 	}
 
-	buf := cx.Options.Memory.Bytes()[ptr : ptr+dstByteLength]
 	copy(buf, encoded)
 
 	return ptr, srcCodeUnits, err
@@ -353,8 +359,9 @@ func StoreUtf8ToUtf16(cx *types.CallContext, src string, srcCodeUnits uint32) (u
 		return 0, 0, types.TrapWith("ptr %d is not alinged to 2", ptr)
 	}
 
-	if ptr+worstCaseSize > uint32(cx.Options.Memory.Len()) {
-		return 0, 0, types.TrapWith("worst case size %d is greater than memory size %d", ptr+worstCaseSize, cx.Options.Memory.Len())
+	_, err = memoryRange(cx, ptr, uint64(worstCaseSize))
+	if err != nil {
+		return 0, 0, err
 	}
 
 	encoded, err := encoding.EncodeString(encoding.NewUTF16(), src)
@@ -412,9 +419,9 @@ func StoreListIntoRange(cx *types.CallContext, v any, elementType types.ValType)
 		return 0, 0, err
 	}
 
-	byteLengthInt := len(slice) * int(size)
-	if byteLengthInt >= math.MaxInt {
-		return 0, 0, types.TrapWith("byte length %d exceeds max of %d", byteLengthInt, math.MaxInt)
+	byteLengthInt := uint64(len(slice)) * uint64(size)
+	if byteLengthInt > math.MaxUint32 {
+		return 0, 0, types.TrapWith("byte length %d exceeds max of %d", byteLengthInt, uint32(math.MaxUint32))
 	}
 	byteLength := uint32(byteLengthInt)
 
@@ -436,8 +443,9 @@ func StoreListIntoRange(cx *types.CallContext, v any, elementType types.ValType)
 		return 0, 0, types.TrapWith("ptr %d not aligned to %d", ptr, alignment)
 	}
 
-	if ptr+byteLength > uint32(cx.Options.Memory.Len()) {
-		return 0, 0, types.TrapWith("ptr %d exceeds mememory size %d", ptr+byteLength, cx.Options.Memory.Len())
+	_, err = memoryRange(cx, ptr, uint64(byteLength))
+	if err != nil {
+		return 0, 0, err
 	}
 
 	for i, element := range slice {
-- 
2.43.0


From 11bf2ff750e9856cd736b7997b0236f55c0625fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:35:28 +0000
Subject: [PATCH 06/59] fix: report exhausted flat values instead of panicking

The iterator only noticed that it was empty when it never had any values, so
a core call with too few values indexed past the end of the slice.
---
 abi/values/value.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/abi/values/value.go b/abi/values/value.go
index 3bdcd3c..f996387 100644
--- a/abi/values/value.go
+++ b/abi/values/value.go
@@ -30,7 +30,7 @@ type valueIterator struct {
 }
 
 func (vi *valueIterator) Next(k kind.Kind) (any, error) {
-	if vi.Length() == 0 {
+	if vi.index >= vi.Length() {
 		return nil, fmt.Errorf("eof")
 	}
 
-- 
2.43.0


From 60f0e61bffc4f872ec679da28f50f0a40d7c439e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:35:29 +0000
Subject: [PATCH 07/59] fix: prevent reentrance while an import call is in
 progress

CanonLower restored MayEnter after an import call but never cleared it before
the call, so the calling instance could be reentered.
---
 abi/io/canon_lower.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/abi/io/canon_lower.go b/abi/io/canon_lower.go
index b0595ec..f0e2f9a 100644
--- a/abi/io/canon_lower.go
+++ b/abi/io/canon_lower.go
@@ -30,6 +30,9 @@ func CanonLower(
 	if !inst.MayEnter {
 		return nil, fmt.Errorf("CanonLower : ComponentInstance MayLeave must be true")
 	}
+	if callingImport {
+		inst.MayEnter = false
+	}
 	args, err := collections.Select(flatArgs, func(source any) (values.Value, error) {
 		result, ok := any(source).(values.Value)
 		if !ok {
-- 
2.43.0


From b2f31238c6bbfebf0c540c49f62b630d7a8ac0b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:35:30 +0000
Subject: [PATCH 08/59] fix: trap when a call ends with outstanding borrows

ExitCall detects that borrowed handles were not dropped before the call
ended, but its result was ignored. A callee could therefore keep a borrowed
handle after the lender dropped the resource. A nil post return function is
also accepted now, because CanonLift callers may not have one.
---
 abi/io/canon_lift.go  | 4 ++++
 abi/io/canon_lower.go | 9 +++++++--
 2 files changed, 11 insertions(+), 2 deletions(-)

diff --git a/abi/io/canon_lift.go b/abi/io/canon_lift.go
index 2d69404..b7fe57d 100644
--- a/abi/io/canon_lift.go
+++ b/abi/io/canon_lift.go
@@ -65,6 +65,10 @@ func CanonLift(
 		return nil, nil, err
 	}
 
+	if cx.BorrowCount != 0 {
+		return nil, nil, types.TrapWith("callee returned while holding %d borrowed handles", cx.BorrowCount)
+	}
+
 	postResult := func() {
 		if opts.PostReturn != nil {
 			// python code has this set as:
diff --git a/abi/io/canon_lower.go b/abi/io/canon_lower.go
index f0e2f9a..a32522c 100644
--- a/abi/io/canon_lower.go
+++ b/abi/io/canon_lower.go
@@ -62,8 +62,13 @@ func CanonLower(
 	}
 	inst.MayLeave = true
 
-	postReturn()
-	cx.ExitCall()
+	if postReturn != nil {
+		postReturn()
+	}
+	err = cx.ExitCall()
+	if err != nil {
+		return nil, err
+	}
 
 	if callingImport {
 		inst.MayEnter = true
-- 
2.43.0


From f0466cff8e7c4cee5679075bf221a46610c11337 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:35:31 +0000
Subject: [PATCH 09/59] fix: trap when a borrow handle is transferred as an own
 handle

LiftOwn accepted any handle, so a callee could turn a handle it had only
borrowed into ownership of the resource.
---
 abi/io/lift.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/abi/io/lift.go b/abi/io/lift.go
index 79abc1a..1af6cb8 100644
--- a/abi/io/lift.go
+++ b/abi/io/lift.go
@@ -9,7 +9,14 @@ import (
 )
 
 func LiftOwn(cx *types.CallContext, i uint32, own types.Own) (uint32, error) {
-	h, err := cx.Instance.Handles.Remove(own.ResourceType(), i)
+	h, err := cx.Instance.Handles.Get(own.ResourceType(), i)
+	if err != nil {
+		return 0, err
+	}
+	if !h.Own {
+		return 0, types.TrapWith("handle %d is a borrow handle and can not be transferred", i)
+	}
+	h, err = cx.Instance.Handles.Remove(own.ResourceType(), i)
 	if err != nil {
 		return 0, err
 	}
-- 
2.43.0


From 92812c279911c01fe2437ce457429aa2614e3f9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:35:32 +0000
Subject: [PATCH 10/59] fix: reject host values that do not match their type

Storing or lowering a value of the wrong Go type panicked for floats, flags,
chars and strings, and stored zero for integers. Integers wider than the
destination were truncated and invalid code points were passed on as chars.
All of these now return an error.
---
 abi/io/lower.go | 14 ++++++++++++--
 abi/io/store.go | 30 +++++++++++++++++++++++++++---
 2 files changed, 39 insertions(+), 5 deletions(-)

diff --git a/abi/io/lower.go b/abi/io/lower.go
index d0d93cb..3ea73b4 100644
--- a/abi/io/lower.go
+++ b/abi/io/lower.go
@@ -170,13 +170,23 @@ func LowerFloat64(v any) ([]values.Value, error) {
 }
 
 func LowerChar(v any) ([]values.Value, error) {
-	r := v.(rune)
+	r, ok := v.(rune)
+	if !ok {
+		return nil, types.NewCastError(v, "rune")
+	}
+	_, err := ConvertU32ToRune(uint32(r))
+	if err != nil {
+		return nil, err
+	}
 	i := values.U32(r)
 	return slice(i), nil
 }
 
 func LowerString(cx *types.CallContext, v any) ([]values.Value, error) {
-	str := v.(string)
+	str, ok := v.(string)
+	if !ok {
+		return nil, types.NewCastError(v, "string")
+	}
 	ptr, packedLength, err := StoreStringIntoRange(cx, str)
 	if err != nil {
 		return nil, err
diff --git a/abi/io/store.go b/abi/io/store.go
index 01400d1..e9469ff 100644
--- a/abi/io/store.go
+++ b/abi/io/store.go
@@ -52,6 +52,10 @@ func Store(c *types.CallContext, val any, t types.ValType, ptr uint32) error {
 		if !ok {
 			return types.NewCastError(val, "rune")
 		}
+		_, err := ConvertU32ToRune(uint32(r))
+		if err != nil {
+			return err
+		}
 		return StoreInt(c, uint32(r), ptr, SizeOfChar, false)
 	case types.String:
 		s, ok := val.(string)
@@ -108,12 +112,18 @@ func StoreValidate(c *types.CallContext, t types.ValType, ptr uint32) error {
 
 func StoreFloat(c *types.CallContext, val any, ptr uint32, nbytes uint32) error {
 	if nbytes == SizeOfFloat32 {
-		f := val.(float32)
+		f, ok := val.(float32)
+		if !ok {
+			return types.NewCastError(val, "float32")
+		}
 		f = CanonicalizeFloat32(f)
 		i := math.Float32bits(f)
 		return StoreInt(c, i, ptr, nbytes, false)
 	} else {
-		f := val.(float64)
+		f, ok := val.(float64)
+		if !ok {
+			return types.NewCastError(val, "float64")
+		}
 		f = CanonicalizeFloat64(f)
 		i := math.Float64bits(f)
 		return StoreInt(c, i, ptr, nbytes, false)
@@ -171,6 +181,8 @@ func StoreInt(c *types.CallContext, val any, ptr uint32, nbytes uint32, signed b
 		return fmt.Errorf("unable to store int. Use sized variant")
 	case uint:
 		return fmt.Errorf("unable to store uint. Use sized variant")
+	default:
+		return types.NewCastError(val, "integer")
 	}
 
 	if sign != signed {
@@ -181,6 +193,15 @@ func StoreInt(c *types.CallContext, val any, ptr uint32, nbytes uint32, signed b
 		return fmt.Errorf("invalid integer sign %v for value %v", signCh, val)
 	}
 
+	// the value must fit in the destination regardless of its own width
+	bits := 8 * nbytes
+	if !signed && bits < 64 && u64>>bits != 0 {
+		return fmt.Errorf("invalid integer %d exceeds %d bits", val, bits)
+	}
+	if signed && bits < 64 && int64(u64)>>(bits-1) != int64(u64)>>63 {
+		return fmt.Errorf("invalid integer %d exceeds %d bits", val, bits)
+	}
+
 	if !signed && u64 > max {
 		return fmt.Errorf("invalid integer %d exceeds max value %d", val, max)
 	}
@@ -533,7 +554,10 @@ func StoreVariant(cx *types.CallContext, val any, ptr uint32, v types.Variant) e
 }
 
 func StoreFlags(c *types.CallContext, val any, ptr uint32, f types.Flags) error {
-	vMap := val.(map[string]any)
+	vMap, err := ToMapStringAny(val)
+	if err != nil {
+		return err
+	}
 	i, err := PackFlagsIntoInt(vMap, f)
 	if err != nil {
 		return err
-- 
2.43.0


From 12d808d9f8b2ddad957a2612d4f252ee0d49b632 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:36:08 +0000
Subject: [PATCH 11/59] fix: support flags types with more than 64 labels

Flags were packed in a single 64-bit integer, so labels from the 65th on were
lost when lowering and lifting, and memory wider than 8 bytes was neither
written nor read. Pack each group of 32 labels in its own integer.
---
 abi/io/lift.go  | 13 ++++++-------
 abi/io/load.go  | 41 +++++++++++++++++++----------------------
 abi/io/lower.go | 18 ++++++------------
 abi/io/store.go | 32 +++++++++++++++++++++++++++-----
 4 files changed, 58 insertions(+), 46 deletions(-)

diff --git a/abi/io/lift.go b/abi/io/lift.go
index 1af6cb8..4a0724e 100644
--- a/abi/io/lift.go
+++ b/abi/io/lift.go
@@ -330,10 +330,8 @@ func LiftFlatVariant(cx *types.CallContext, vi values.ValueIterator, variant typ
 }
 
 func LiftFlatFlags(vi values.ValueIterator, f types.Flags) (any, error) {
-	var flat uint64 = 0
-	shift := 0
-	numFlags := NumI32Flags(f.Labels())
-	for i := 0; i < int(numFlags); i++ {
+	flagMap := map[string]any{}
+	for _, labels := range splitLabels(f.Labels()) {
 		next, err := vi.Next(kind.U32)
 		if err != nil {
 			return nil, err
@@ -342,8 +340,9 @@ func LiftFlatFlags(vi values.ValueIterator, f types.Flags) (any, error) {
 		if !ok {
 			return nil, types.NewCastError(next, "int32")
 		}
-		flat |= (uint64(u32Next) << shift)
-		shift += 32
+		for label, b := range UnpackFlagsFromInt(uint64(u32Next), labels) {
+			flagMap[label] = b
+		}
 	}
-	return UnpackFlagsFromInt(flat, f.Labels()), nil
+	return flagMap, nil
 }
diff --git a/abi/io/load.go b/abi/io/load.go
index 592e1ce..63fcb6d 100644
--- a/abi/io/load.go
+++ b/abi/io/load.go
@@ -426,31 +426,28 @@ func LoadFlags(cx *types.CallContext, ptr uint32, flags types.Flags) (map[string
 		return nil, err
 	}
 
-	i, err := LoadIntWithSize(cx, ptr, size, false)
-	if err != nil {
-		return nil, err
-	}
-
-	var ui uint64 = 0
-	switch size {
-	case 1:
-		ui = uint64(i.(uint8))
-	case 2:
-		ui = uint64(i.(uint16))
-	case 4:
-		ui = uint64(i.(uint32))
-	case 8:
-		ui = i.(uint64)
+	if size > SizeOfU32 {
+		size = SizeOfU32
 	}
 	flagMap := map[string]any{}
-	for _, label := range flags.Labels() {
-		v := ui & 1
-		b := false
-		if v > 0 {
-			b = true
+	for n, labels := range splitLabels(flags.Labels()) {
+		i, err := LoadIntWithSize(cx, ptr+uint32(n)*SizeOfU32, size, false)
+		if err != nil {
+			return nil, err
+		}
+
+		var ui uint64 = 0
+		switch size {
+		case 1:
+			ui = uint64(i.(uint8))
+		case 2:
+			ui = uint64(i.(uint16))
+		case 4:
+			ui = uint64(i.(uint32))
+		}
+		for label, b := range UnpackFlagsFromInt(ui, labels) {
+			flagMap[label] = b
 		}
-		flagMap[label] = b
-		ui >>= 1
 	}
 	return flagMap, nil
 }
diff --git a/abi/io/lower.go b/abi/io/lower.go
index 3ea73b4..86c9760 100644
--- a/abi/io/lower.go
+++ b/abi/io/lower.go
@@ -234,19 +234,13 @@ func LowerFlatFlags(cx *types.CallContext, v any, f types.Flags) ([]values.Value
 	if !ok {
 		return nil, types.NewCastError(v, "map[string]any")
 	}
-	packed, err := PackFlagsIntoInt(vMap, f)
-	if err != nil {
-		return nil, err
-	}
 	var flat []values.Value
-	numFlags := NumI32Flags(f.Labels())
-	for i := 0; i < int(numFlags); i++ {
-		u32 := values.U32(packed & 0xffffffff)
-		flat = append(flat, u32)
-		packed >>= 32
-	}
-	if packed != 0 {
-		return nil, fmt.Errorf("invalid flag value")
+	for _, labels := range splitLabels(f.Labels()) {
+		packed, err := PackFlagsIntoInt(vMap, types.NewFlags(labels...))
+		if err != nil {
+			return nil, err
+		}
+		flat = append(flat, values.U32(packed))
 	}
 	return flat, nil
 }
diff --git a/abi/io/store.go b/abi/io/store.go
index e9469ff..4e213e7 100644
--- a/abi/io/store.go
+++ b/abi/io/store.go
@@ -558,15 +558,37 @@ func StoreFlags(c *types.CallContext, val any, ptr uint32, f types.Flags) error
 	if err != nil {
 		return err
 	}
-	i, err := PackFlagsIntoInt(vMap, f)
-	if err != nil {
-		return err
-	}
 	size, err := Size(f)
 	if err != nil {
 		return err
 	}
-	return StoreInt(c, i, ptr, size, false)
+	if size > SizeOfU32 {
+		size = SizeOfU32
+	}
+	for i, labels := range splitLabels(f.Labels()) {
+		packed, err := PackFlagsIntoInt(vMap, types.NewFlags(labels...))
+		if err != nil {
+			return err
+		}
+		err = StoreInt(c, packed, ptr+uint32(i)*SizeOfU32, size, false)
+		if err != nil {
+			return err
+		}
+	}
+	return nil
+}
+
+// splitLabels splits the labels into the groups that share a 32 bit integer
+func splitLabels(labels []string) [][]string {
+	var groups [][]string
+	for len(labels) > 32 {
+		groups = append(groups, labels[:32])
+		labels = labels[32:]
+	}
+	if len(labels) > 0 {
+		groups = append(groups, labels)
+	}
+	return groups
 }
 
 func ToMapStringAny(val any) (map[string]any, error) {
-- 
2.43.0


From f2d849dc5ccac4302f89a82cdf9477fe44f86930 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:36:33 +0000
Subject: [PATCH 12/59] fix: do not ignore the top bit of utf-8 string lengths

The top bit of the string length tags utf-16 content. A utf-8 string has no
such tag, so a length with that bit set is out of bounds and has to trap
instead of being read as a much shorter string.
---
 abi/io/load.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/abi/io/load.go b/abi/io/load.go
index 63fcb6d..df3b40f 100644
--- a/abi/io/load.go
+++ b/abi/io/load.go
@@ -233,6 +233,10 @@ func LoadStringFromRange(cx *types.CallContext, ptr, taggedCodeUnits uint32) (st
 
 	srcEncoding := cx.Options.StringEncoding
 	tcu := UInt32ToTaggedCodeUnits(taggedCodeUnits)
+	if srcEncoding == encoding.UTF8 {
+		// there is no tag, all the bits belong to the length
+		tcu = TaggedCodeUnits{CodeUnits: taggedCodeUnits}
+	}
 	if srcEncoding == encoding.Latin1Utf16 {
 		if tcu.UTF16 {
 			srcEncoding = encoding.UTF16LE
-- 
2.43.0


From 7b5f6e450c0d951fde5802b30c2341283c06c4ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:36:34 +0000
Subject: [PATCH 13/59] fix: propagate errors from variant discriminants

LoadVariant used the discriminant before checking whether it could be read,
which panicked when it was out of bounds. AlignmentVariant reported alignment
0 instead of the error of a case it could not align.
---
 abi/io/alignment.go | 4 ++--
 abi/io/load.go      | 6 +++---
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/abi/io/alignment.go b/abi/io/alignment.go
index 81203e6..fc7c0d4 100644
--- a/abi/io/alignment.go
+++ b/abi/io/alignment.go
@@ -79,11 +79,11 @@ func AlignmentVariant(v types.Variant) (uint32, error) {
 	}
 	alignment, err := Alignment(dt)
 	if err != nil {
-		return 0, nil
+		return 0, err
 	}
 	maxAlignment, err := MaxCaseAlignment(v.Cases())
 	if err != nil {
-		return 0, nil
+		return 0, err
 	}
 	return max(alignment, maxAlignment), nil
 }
diff --git a/abi/io/load.go b/abi/io/load.go
index df3b40f..baf80ce 100644
--- a/abi/io/load.go
+++ b/abi/io/load.go
@@ -347,6 +347,9 @@ func LoadVariant(cx *types.CallContext, ptr uint32, v types.Variant) (map[string
 		return nil, err
 	}
 	caseIndex, err := LoadInt(cx, ptr, dt)
+	if err != nil {
+		return nil, err
+	}
 	var u32CaseIndex uint32 = 0
 	switch dt.(type) {
 	case types.U8:
@@ -359,9 +362,6 @@ func LoadVariant(cx *types.CallContext, ptr uint32, v types.Variant) (map[string
 		// could cause problems if caseIndex is actually a u64
 		u32CaseIndex = uint32(caseIndex.(uint64))
 	}
-	if err != nil {
-		return nil, err
-	}
 
 	discSize, err := Size(dt)
 	if err != nil {
-- 
2.43.0


From 60ce16eda03d38727971aa1382492e3ef92aad7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:37:09 +0000
Subject: [PATCH 14/59] fix: trap on malformed guest strings

A string with invalid utf-8 or unpaired surrogates was silently lifted with
replacement characters. The canonical ABI requires a trap.
---
 abi/io/load.go | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/abi/io/load.go b/abi/io/load.go
index baf80ce..51edd2a 100644
--- a/abi/io/load.go
+++ b/abi/io/load.go
@@ -265,7 +265,20 @@ func LoadStringFromRange(cx *types.CallContext, ptr, taggedCodeUnits uint32) (st
 	if err != nil {
 		return "", err
 	}
-	return encoding.DecodeString(codec, bytes.NewReader(buf))
+	str, err := encoding.DecodeString(codec, bytes.NewReader(buf))
+	if err != nil {
+		return "", err
+	}
+
+	// the decoder replaces malformed input, in which case the string does not encode to the same bytes
+	encoded, err := encoding.EncodeString(codec, str)
+	if err != nil {
+		return "", err
+	}
+	if !bytes.Equal(encoded, buf) {
+		return "", types.TrapWith("string at %d is not valid %s", ptr, srcEncoding)
+	}
+	return str, nil
 }
 
 func LoadList(cx *types.CallContext, ptr uint32, elementType types.ValType) ([]any, error) {
-- 
2.43.0


From ac2859a7a502d551d1b30dd4b536dbe339513adb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:37:10 +0000
Subject: [PATCH 15/59] fix: do not drop the end of the text when encoding

The encoder buffers an incomplete rune until more input arrives. The writer
was never closed, so when the input ended there the bytes were lost without
an error.
---
 encoding/codec.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/encoding/codec.go b/encoding/codec.go
index 4ba55af..a1204e1 100644
--- a/encoding/codec.go
+++ b/encoding/codec.go
@@ -4,6 +4,7 @@ import (
 	"io"
 
 	"golang.org/x/text/encoding"
+	"golang.org/x/text/transform"
 )
 
 type Codec interface {
@@ -37,9 +38,13 @@ type codec struct {
 
 func (c *codec) Encode(dst io.Writer, src io.Reader) error {
 	encoder := c.enc.NewEncoder()
-	writer := encoder.Writer(dst)
+	writer := transform.NewWriter(dst, encoder)
 	_, err := io.Copy(writer, src)
-	return err
+	if err != nil {
+		return err
+	}
+	// flush what the encoder holds back while it waits for the rest of a rune
+	return writer.Close()
 }
 
 func (c *codec) Decode(dst io.Writer, src io.Reader) error {
-- 
2.43.0


From afc8fba4477593e922a90bfad4c7d085e96c6723 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:37:24 +0000
Subject: [PATCH 16/59] fix: trap when realloc returns a misaligned string

Lists check the alignment of the pointer returned by the guest's realloc but
strings did not. The callee then received a string that it is not allowed to
load.
---
 abi/io/store.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/abi/io/store.go b/abi/io/store.go
index 4e213e7..a8942b8 100644
--- a/abi/io/store.go
+++ b/abi/io/store.go
@@ -317,6 +317,14 @@ func StoreStringDynamic(
 		return 0, 0, err
 	}
 
+	align, err := AlignTo(ptr, dstAlignment)
+	if err != nil {
+		return 0, 0, err
+	}
+	if ptr != align {
+		return 0, 0, types.TrapWith("ptr %d is not aligned to %d", ptr, dstAlignment)
+	}
+
 	buf, err := memoryRange(cx, ptr, uint64(lenEncoded))
 	if err != nil {
 		return 0, 0, err
-- 
2.43.0


From 0e2ce6441fc705c32a25c73e22916411eba9baea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:37:25 +0000
Subject: [PATCH 17/59] fix: reject calls with the wrong number of values

LowerValues panicked when it was given more values than types, and produced a
core call with missing arguments when it was given fewer.
---
 abi/io/canon_lower.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/abi/io/canon_lower.go b/abi/io/canon_lower.go
index a32522c..4f0ba1c 100644
--- a/abi/io/canon_lower.go
+++ b/abi/io/canon_lower.go
@@ -77,6 +77,9 @@ func CanonLower(
 }
 
 func LowerValues(cx *types.CallContext, maxFlat int, vs []any, ts []types.ValType, outParam values.ValueIterator) ([]any, error) {
+	if len(vs) != len(ts) {
+		return nil, fmt.Errorf("expected %d values but found %d", len(ts), len(vs))
+	}
 	flatTypes, err := FlattenTypes(ts)
 	if err != nil {
 		return nil, err
-- 
2.43.0


From 9e74deae0ee95dffd864faa1792c21d152637943 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:37:26 +0000
Subject: [PATCH 18/59] fix: allow dropping resources implemented by the host

A resource type without a component instance is implemented by the host.
Dropping an owned handle of such a type dereferenced the missing instance.
---
 abi/io/canon.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/abi/io/canon.go b/abi/io/canon.go
index fcdfdd9..caab360 100644
--- a/abi/io/canon.go
+++ b/abi/io/canon.go
@@ -26,7 +26,7 @@ func CanonResourceDrop(inst *types.ComponentInstance, rt types.ResourceType, i u
 	if !h.Own {
 		return nil
 	}
-	if inst != rt.Impl() && !rt.Impl().MayEnter {
+	if inst != rt.Impl() && rt.Impl() != nil && !rt.Impl().MayEnter {
 		return types.TrapWith("ComponentInstance != ResourceType.Impl and ResourceType.Impl.MayEnter == false")
 	}
 	if rt.DTor() != nil {
-- 
2.43.0


From d08955b8ab4fe3616a98f2c6aa20a32ea2db6759 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:37:57 +0000
Subject: [PATCH 19/59] fix: reject leb128 values that overflow 32 bits

Bits that do not fit in the result were discarded, so an overlong or too
large encoding decoded to a different, plausible value.
---
 leb128/decode.go | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/leb128/decode.go b/leb128/decode.go
index 0c08921..9908fa0 100644
--- a/leb128/decode.go
+++ b/leb128/decode.go
@@ -6,6 +6,14 @@ import (
 	"io"
 )
 
+// ErrOverflow is returned when the encoded value does not fit in 32 bits
+var ErrOverflow = fmt.Errorf("leb128 value overflows 32 bits")
+
+// overflows returns true when b continues or sets bits past the fifth byte of a 32 bit value
+func overflows(b byte, shift int) bool {
+	return shift == 28 && b&0b_1111_0000 != 0
+}
+
 func DecodeReader(r io.Reader) (uint32, int, error) {
 	var val uint32
 	shift := 0
@@ -22,6 +30,9 @@ func DecodeReader(r io.Reader) (uint32, int, error) {
 		}
 		b := buf[0]
 		total++
+		if overflows(b, shift) {
+			return 0, 0, ErrOverflow
+		}
 		val |= (uint32(b&0b_0111_1111) << shift)
 		if b&0b_1000_0000 == 0 {
 			break
@@ -41,6 +52,9 @@ func Decode(r *bufio.Reader) (uint32, int, error) {
 			return 0, 0, err
 		}
 		total++
+		if overflows(b, shift) {
+			return 0, 0, ErrOverflow
+		}
 		val |= (uint32(b&0b_0111_1111) << shift)
 		if b&0b_1000_0000 == 0 {
 			break
@@ -57,6 +71,9 @@ func DecodeSlice(s []byte) (uint32, int, error) {
 	for index := 0; index < len(s); index++ {
 		b := s[index]
 		total++
+		if overflows(b, shift) {
+			return 0, 0, ErrOverflow
+		}
 		val |= (uint32(b&0b_0111_1111) << shift)
 		if b&0b_1000_0000 == 0 {
 			break
-- 
2.43.0


From 4468dd62178842830a056da4bef120be269b13da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:37:57 +0000
Subject: [PATCH 20/59] fix: report truncated leb128 values in DecodeSlice

DecodeSlice returned a value without an error when the slice ended before the
last byte of the encoding, or was empty.
---
 leb128/decode.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/leb128/decode.go b/leb128/decode.go
index 9908fa0..81be05f 100644
--- a/leb128/decode.go
+++ b/leb128/decode.go
@@ -76,9 +76,9 @@ func DecodeSlice(s []byte) (uint32, int, error) {
 		}
 		val |= (uint32(b&0b_0111_1111) << shift)
 		if b&0b_1000_0000 == 0 {
-			break
+			return val, total, nil
 		}
 		shift += 7
 	}
-	return val, total, nil
+	return 0, 0, io.ErrUnexpectedEOF
 }
-- 
2.43.0


From c6e9dbd72c561107cd46cd05111205bfd4d3de86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:37:58 +0000
Subject: [PATCH 21/59] fix: follow the io.Reader contract when decoding leb128

A reader may return its last byte together with io.EOF, and may return no
bytes without an error. DecodeReader failed in both cases, and hid the cause
when a read failed without returning a byte.
---
 leb128/decode.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/leb128/decode.go b/leb128/decode.go
index 81be05f..0c54ca7 100644
--- a/leb128/decode.go
+++ b/leb128/decode.go
@@ -21,9 +21,9 @@ func DecodeReader(r io.Reader) (uint32, int, error) {
 	buf := make([]byte, 1)
 
 	for {
-		n, err := r.Read(buf)
-		if n == 0 {
-			return 0, 0, fmt.Errorf("expected 1 byte read but read 0")
+		_, err := io.ReadFull(r, buf)
+		if err == io.EOF {
+			return 0, 0, fmt.Errorf("expected 1 byte read but read 0: %w", io.ErrUnexpectedEOF)
 		}
 		if err != nil {
 			return 0, 0, err
-- 
2.43.0


From 92412b243453ad725d7792cdd8ed3ee1b946f0b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:38:39 +0000
Subject: [PATCH 22/59] fix: do not allocate memory for elements that were not
 read

Vector lengths, string lengths and the sizes of skipped sections come from
the file. A file of a few bytes could claim billions of elements and made the
reader allocate gigabytes before it noticed that they were missing.
---
 binary/read.go | 39 ++++++++++++++++++++++++---------------
 1 file changed, 24 insertions(+), 15 deletions(-)

diff --git a/binary/read.go b/binary/read.go
index 0748f7e..77aae6f 100644
--- a/binary/read.go
+++ b/binary/read.go
@@ -105,11 +105,8 @@ func ReadModule(reader io.Reader) (*api.Module, error) {
 			module.Exports = exports
 		default:
 			// skip unknown sections
-			data := make([]byte, size)
-			if size > 0 {
-				if _, err := io.ReadFull(reader, data); err != nil {
-					return nil, fmt.Errorf("failed to read section %d: %w", sectionID, err)
-				}
+			if _, err := io.CopyN(io.Discard, reader, int64(size)); err != nil {
+				return nil, fmt.Errorf("failed to read section %d: %w", sectionID, err)
 			}
 		}
 	}
@@ -134,18 +131,28 @@ func ReadSectionHeader(reader io.Reader) (SectionID, uint32, error) {
 	return SectionID(id), size, nil
 }
 
+// capacity limits how much is allocated for a vector before its elements are read.
+// The length is untrusted and may be much larger than the rest of the file.
+func capacity(count uint32) int {
+	const limit = 64
+	if count > limit {
+		return limit
+	}
+	return int(count)
+}
+
 func ReadFuncTypes(size uint32, reader io.Reader) ([]*api.FuncType, error) {
 	count, err := ReadLebU128(reader)
 	if err != nil {
 		return nil, err
 	}
-	types := make([]*api.FuncType, count)
+	types := make([]*api.FuncType, 0, capacity(count))
 	for i := uint32(0); i < count; i++ {
 		t, err := ReadType(reader)
 		if err != nil {
 			return nil, err
 		}
-		types[i] = t
+		types = append(types, t)
 	}
 	return types, nil
 }
@@ -188,13 +195,13 @@ func ReadValueTypeVector(reader io.Reader) ([]api.ValType, error) {
 	if err != nil {
 		return nil, err
 	}
-	valueTypes := make([]api.ValType, size)
+	valueTypes := make([]api.ValType, 0, capacity(size))
 	for i := uint32(0); i < size; i++ {
 		vt, err := ReadValueType(reader)
 		if err != nil {
 			return nil, err
 		}
-		valueTypes[i] = vt
+		valueTypes = append(valueTypes, vt)
 	}
 	return valueTypes, nil
 }
@@ -224,13 +231,13 @@ func ReadFuncs(size uint32, reader io.Reader) ([]*api.Func, error) {
 		return nil, err
 	}
 
-	funcs := make([]*api.Func, count)
+	funcs := make([]*api.Func, 0, capacity(count))
 	for i := uint32(0); i < count; i++ {
 		result, err := ReadFunc(reader)
 		if err != nil {
 			return nil, err
 		}
-		funcs[i] = result
+		funcs = append(funcs, result)
 	}
 
 	return funcs, nil
@@ -252,13 +259,13 @@ func ReadExports(size uint32, reader io.Reader) ([]api.Export, error) {
 		return nil, err
 	}
 
-	exports := make([]api.Export, count)
+	exports := make([]api.Export, 0, capacity(count))
 	for i := uint32(0); i < count; i++ {
 		export, err := ReadExport(reader)
 		if err != nil {
 			return nil, err
 		}
-		exports[i] = export
+		exports = append(exports, export)
 	}
 
 	return exports, nil
@@ -304,11 +311,13 @@ func ReadString(reader io.Reader) (string, error) {
 		return "", nil
 	}
 
-	buf := make([]byte, size)
-	err = binary.Read(reader, binary.LittleEndian, buf)
+	buf, err := io.ReadAll(io.LimitReader(reader, int64(size)))
 	if err != nil {
 		return "", err
 	}
+	if len(buf) != int(size) {
+		return "", io.ErrUnexpectedEOF
+	}
 
 	return string(buf), nil
 }
-- 
2.43.0


From 5573b89c84fc94960df97f74898a1a9522e55e47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:38:40 +0000
Subject: [PATCH 23/59] fix: enforce the size of sections and function bodies

The declared sizes were read and ignored. Content could run past the end of
its section, or leave bytes behind that were then interpreted as the next
section or function.
---
 binary/read.go | 24 ++++++++++++++++--------
 1 file changed, 16 insertions(+), 8 deletions(-)

diff --git a/binary/read.go b/binary/read.go
index 77aae6f..d138f33 100644
--- a/binary/read.go
+++ b/binary/read.go
@@ -78,37 +78,41 @@ func ReadModule(reader io.Reader) (*api.Module, error) {
 			}
 			return nil, err
 		}
+		section := &io.LimitedReader{R: reader, N: int64(size)}
 		switch sectionID {
 		case TypeSectionID:
-			types, err := ReadFuncTypes(size, reader)
+			types, err := ReadFuncTypes(size, section)
 			if err != nil {
 				return nil, err
 			}
 			module.Types = types
 		case FunctionSectionID:
-			funcs, err := ReadFuncs(size, reader)
+			funcs, err := ReadFuncs(size, section)
 			if err != nil {
 				return nil, err
 			}
 			module.Funcs = funcs
 		case CodeSectionID:
-			err := UpdateFuncsWithCode(module, size, reader)
+			err := UpdateFuncsWithCode(module, size, section)
 			if err != nil {
 				return nil, err
 			}
 
 		case ExportSectionID:
-			exports, err := ReadExports(size, reader)
+			exports, err := ReadExports(size, section)
 			if err != nil {
 				return nil, err
 			}
 			module.Exports = exports
 		default:
 			// skip unknown sections
-			if _, err := io.CopyN(io.Discard, reader, int64(size)); err != nil {
+			if _, err := io.CopyN(io.Discard, section, int64(size)); err != nil {
 				return nil, fmt.Errorf("failed to read section %d: %w", sectionID, err)
 			}
 		}
+		if section.N != 0 {
+			return nil, fmt.Errorf("section %d has %d bytes after its content", sectionID, section.N)
+		}
 	}
 	return module, nil
 }
@@ -356,21 +360,25 @@ func UpdateFuncsWithCode(module *api.Module, size uint32, reader io.Reader) erro
 		}
 
 		// function size
-		_, err := ReadLebU128(reader)
+		size, err := ReadLebU128(reader)
 		if err != nil {
 			return err
 		}
+		code := &io.LimitedReader{R: reader, N: int64(size)}
 
 		fn := module.Funcs[index]
-		locals, err := ReadValueTypeVector(reader)
+		locals, err := ReadValueTypeVector(code)
 		if err != nil {
 			return err
 		}
 		fn.Locals = locals
-		body, err := ReadExpression(reader)
+		body, err := ReadExpression(code)
 		if err != nil {
 			return err
 		}
+		if code.N != 0 {
+			return fmt.Errorf("function %d has %d bytes after its body", index, code.N)
+		}
 		fn.Body = body
 	}
 	return nil
-- 
2.43.0


From 1d3f942e2093912a37ee67c2b6408e6195052bca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:38:40 +0000
Subject: [PATCH 24/59] fix: read locals as groups of a count and a type

Local declarations are run-length encoded. They were read as a plain vector
of types, so every function that declares a local was rejected or misread.
---
 binary/read.go | 31 ++++++++++++++++++++++++++++++-
 1 file changed, 30 insertions(+), 1 deletion(-)

diff --git a/binary/read.go b/binary/read.go
index d138f33..29c748d 100644
--- a/binary/read.go
+++ b/binary/read.go
@@ -367,7 +367,7 @@ func UpdateFuncsWithCode(module *api.Module, size uint32, reader io.Reader) erro
 		code := &io.LimitedReader{R: reader, N: int64(size)}
 
 		fn := module.Funcs[index]
-		locals, err := ReadValueTypeVector(code)
+		locals, err := ReadLocals(code)
 		if err != nil {
 			return err
 		}
@@ -384,6 +384,35 @@ func UpdateFuncsWithCode(module *api.Module, size uint32, reader io.Reader) erro
 	return nil
 }
 
+// maxLocals is the largest number of locals a function can declare
+const maxLocals = 50000
+
+// ReadLocals reads the local declarations of a function, which are compressed as groups of a count and a type
+func ReadLocals(reader io.Reader) ([]api.ValType, error) {
+	groups, err := ReadLebU128(reader)
+	if err != nil {
+		return nil, err
+	}
+	locals := []api.ValType{}
+	for i := uint32(0); i < groups; i++ {
+		count, err := ReadLebU128(reader)
+		if err != nil {
+			return nil, err
+		}
+		vt, err := ReadValueType(reader)
+		if err != nil {
+			return nil, err
+		}
+		if uint64(len(locals))+uint64(count) > maxLocals {
+			return nil, fmt.Errorf("too many locals, the limit is %d", maxLocals)
+		}
+		for ; count > 0; count-- {
+			locals = append(locals, vt)
+		}
+	}
+	return locals, nil
+}
+
 func ReadInstruction(reader io.Reader) (api.Instruction, error) {
 	opCode, err := ReadOpCode(reader)
 	if err != nil {
-- 
2.43.0


From e6bdb7ef4e386e808c5ff4613f5472384366aafd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:38:41 +0000
Subject: [PATCH 25/59] fix: reject modules with functions that have no code

A code section with fewer entries than the function section, or no code
section at all, left functions with a nil body.
---
 binary/read.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/binary/read.go b/binary/read.go
index 29c748d..b683ace 100644
--- a/binary/read.go
+++ b/binary/read.go
@@ -70,6 +70,7 @@ func ReadPreamble(reader io.Reader) (api.Preamble, error) {
 
 func ReadModule(reader io.Reader) (*api.Module, error) {
 	module := &api.Module{}
+	codeCount := 0
 	for {
 		sectionID, size, err := ReadSectionHeader(reader)
 		if err != nil {
@@ -97,7 +98,7 @@ func ReadModule(reader io.Reader) (*api.Module, error) {
 			if err != nil {
 				return nil, err
 			}
-
+			codeCount = len(module.Funcs)
 		case ExportSectionID:
 			exports, err := ReadExports(size, section)
 			if err != nil {
@@ -114,6 +115,9 @@ func ReadModule(reader io.Reader) (*api.Module, error) {
 			return nil, fmt.Errorf("section %d has %d bytes after its content", sectionID, section.N)
 		}
 	}
+	if codeCount != len(module.Funcs) {
+		return nil, fmt.Errorf("function section has %d functions but there is no code section", len(module.Funcs))
+	}
 	return module, nil
 }
 
@@ -351,6 +355,10 @@ func UpdateFuncsWithCode(module *api.Module, size uint32, reader io.Reader) erro
 		return err
 	}
 
+	if int(count) < len(module.Funcs) {
+		return fmt.Errorf("code section has fewer functions than function section, code %d, funcs %d", count, len(module.Funcs))
+	}
+
 	for index := 0; index < int(count); index++ {
 		if index >= len(module.Funcs) {
 			return fmt.Errorf("code section has more functions than function section, index %d, funcs %d", index, len(module.Funcs))
-- 
2.43.0


From 8c6090f99a74143413e7b29c656f4c2410794699 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:38:42 +0000
Subject: [PATCH 26/59] fix: reject names that are not valid utf-8

The binary format requires names to be utf-8.
---
 binary/read.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/binary/read.go b/binary/read.go
index b683ace..cfb1a22 100644
--- a/binary/read.go
+++ b/binary/read.go
@@ -5,6 +5,7 @@ import (
 	"fmt"
 	"io"
 	"slices"
+	"unicode/utf8"
 
 	"encoding/binary"
 
@@ -326,6 +327,9 @@ func ReadString(reader io.Reader) (string, error) {
 	if len(buf) != int(size) {
 		return "", io.ErrUnexpectedEOF
 	}
+	if !utf8.Valid(buf) {
+		return "", fmt.Errorf("name %q is not valid utf-8", buf)
+	}
 
 	return string(buf), nil
 }
-- 
2.43.0


From 58367dc1e94cbfbe689473beb46569c1e4620080 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:39:02 +0000
Subject: [PATCH 27/59] fix: reject duplicate and out of order sections

A second type, function or export section silently replaced the first one, so
functions could refer to types and bodies of a section that was dropped.
---
 binary/binary.go |  2 ++
 binary/read.go   | 19 +++++++++++++++++++
 2 files changed, 21 insertions(+)

diff --git a/binary/binary.go b/binary/binary.go
index 5a2636e..e8e1228 100644
--- a/binary/binary.go
+++ b/binary/binary.go
@@ -13,6 +13,8 @@ const (
 	FunctionSectionID SectionID = 3
 	ExportSectionID   SectionID = 7
 	CodeSectionID     SectionID = 10
+
+	DataCountSectionID SectionID = 12
 )
 
 type Section struct {
diff --git a/binary/read.go b/binary/read.go
index cfb1a22..8ef3e09 100644
--- a/binary/read.go
+++ b/binary/read.go
@@ -72,6 +72,7 @@ func ReadPreamble(reader io.Reader) (api.Preamble, error) {
 func ReadModule(reader io.Reader) (*api.Module, error) {
 	module := &api.Module{}
 	codeCount := 0
+	lastOrder := 0
 	for {
 		sectionID, size, err := ReadSectionHeader(reader)
 		if err != nil {
@@ -80,6 +81,12 @@ func ReadModule(reader io.Reader) (*api.Module, error) {
 			}
 			return nil, err
 		}
+		if order := sectionOrder(sectionID); order > 0 {
+			if order <= lastOrder {
+				return nil, fmt.Errorf("section %d is duplicated or out of order", sectionID)
+			}
+			lastOrder = order
+		}
 		section := &io.LimitedReader{R: reader, N: int64(size)}
 		switch sectionID {
 		case TypeSectionID:
@@ -122,6 +129,18 @@ func ReadModule(reader io.Reader) (*api.Module, error) {
 	return module, nil
 }
 
+// sectionOrder returns the position of the section in a module, or zero when it can appear anywhere
+func sectionOrder(id SectionID) int {
+	switch {
+	case id == DataCountSectionID:
+		// between the element and the code section
+		return 2*int(CodeSectionID) - 1
+	case id < DataCountSectionID:
+		return 2 * int(id)
+	}
+	return 0
+}
+
 func ReadComponent(reader io.Reader) (*api.Component, error) {
 	return &api.Component{}, nil
 }
-- 
2.43.0


From 3096378941e04c7482208e5c918bde9708981cf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:39:03 +0000
Subject: [PATCH 28/59] fix: check the layer of the preamble

The layer distinguishes modules from components. A module version with the
component layer, or any other unknown layer, was decoded as a module.
---
 binary/read.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/binary/read.go b/binary/read.go
index 8ef3e09..13f0f9f 100644
--- a/binary/read.go
+++ b/binary/read.go
@@ -21,6 +21,14 @@ func Read(reader io.Reader) (*api.Document, error) {
 		return nil, err
 	}
 
+	layer := uint16(0)
+	if preamble.Version == ComponentVersion {
+		layer = 1
+	}
+	if preamble.Layer != layer {
+		return nil, fmt.Errorf("invalid layer %d for version %d", preamble.Layer, preamble.Version)
+	}
+
 	var directive api.Directive
 	switch preamble.Version {
 	case ComponentVersion:
-- 
2.43.0


From 20fa1b94e40a4d7786d37a7bfae5c921ca32ec55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:39:03 +0000
Subject: [PATCH 29/59] fix: make exported functions of a module instance
 resolvable

NewModuleInstance never recorded the exports of the module, so GetExport did
not find any of them.
---
 runtime/instance.go | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/runtime/instance.go b/runtime/instance.go
index d6a88b8..19336cf 100644
--- a/runtime/instance.go
+++ b/runtime/instance.go
@@ -1,6 +1,8 @@
 package runtime
 
 import (
+	"fmt"
+
 	"github.com/patrickhuber/go-wasm/address"
 	"github.com/patrickhuber/go-wasm/api"
 )
@@ -21,11 +23,25 @@ func NewModuleInstance(store *Store, module *api.Module) (*ModuleInstance, error
 	moduleInstance := &ModuleInstance{
 		store: store,
 	}
+	for _, export := range module.Exports {
+		desc, ok := export.Description.(*api.FuncExportDescription)
+		if ok && int(desc.FuncIdx) >= len(module.Funcs) {
+			return nil, fmt.Errorf("export %q refers to missing function %d", export.Name, desc.FuncIdx)
+		}
+	}
 	for _, fn := range module.Funcs {
 		funcAddr := len(store.Funcs)
 		store.Funcs = append(store.Funcs, fn)
 		moduleInstance.FunctionAddresses = append(moduleInstance.FunctionAddresses, address.Function(funcAddr))
 	}
+	for _, export := range module.Exports {
+		if desc, ok := export.Description.(*api.FuncExportDescription); ok {
+			moduleInstance.Exports = append(moduleInstance.Exports, ExportInstance{
+				Name:  export.Name,
+				Value: moduleInstance.FunctionAddresses[desc.FuncIdx],
+			})
+		}
+	}
 	return moduleInstance, nil
 }
 
-- 
2.43.0


From 0bb71fd6597b7086935c16d20d0bd8d2db11e1c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:22:41 +0000
Subject: [PATCH 30/59] fix: return lexer errors from Peek instead of panicking

Peeking at text that is not a token panicked when the lexer was used
directly. Next already returned an error for the same text.
---
 wat/lex/lexer.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/wat/lex/lexer.go b/wat/lex/lexer.go
index a07b1e3..71dba81 100644
--- a/wat/lex/lexer.go
+++ b/wat/lex/lexer.go
@@ -71,7 +71,11 @@ func (l *Lexer) Peek() (*token.Token, error) {
 		return l.peekToken, nil
 	}
 
-	l.peekToken = l.next().Unwrap()
+	tok, err := l.next().Deconstruct()
+	if err != nil {
+		return nil, err
+	}
+	l.peekToken = tok
 	return l.peekToken, nil
 }
 
-- 
2.43.0


From b5cc56728f060eee58e7ee5d7ce500d39c1707e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:22:52 +0000
Subject: [PATCH 31/59] fix: reject wat text that ends inside a token

An unterminated string or block comment at the end of the text was taken
for the end of the stream, so the text before it parsed as if it were
complete. A line comment may end with the text.
---
 wat/lex/lexer.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/wat/lex/lexer.go b/wat/lex/lexer.go
index 71dba81..08a9443 100644
--- a/wat/lex/lexer.go
+++ b/wat/lex/lexer.go
@@ -125,8 +125,8 @@ func (l *Lexer) next() (res types.Result[*token.Token]) {
 				}
 			}
 
-			// process any lexemes in an accepted state and emit a token
-			return l.token(token.EndOfStream) // returned if nothing is matched
+			// the input ended inside of a token
+			return result.Error[*token.Token](l.lexerError())
 		}
 
 		var matched []Lexeme
@@ -233,7 +233,7 @@ func whitespace() Rule {
 func lineComment() Rule {
 	start := &Node{}
 	semi := &Node{}
-	semi2 := &Node{}
+	semi2 := &Node{Final: true} // the comment can also end with the input
 	newLine := &Node{
 		Final: true,
 	}
-- 
2.43.0


From 8d89a9d0a0e0788a1c09718892058ec58369a6cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:23:11 +0000
Subject: [PATCH 32/59] fix: nest block comments in wat text

The text format allows a block comment inside a block comment. The inner
end was taken for the end of the comment and the rest for tokens.
---
 wat/lex/lexer.go    | 39 ++---------------------
 wat/lex/nested.go   | 76 +++++++++++++++++++++++++++++++++++++++++++++
 wat/lex/registry.go |  1 +
 3 files changed, 80 insertions(+), 36 deletions(-)
 create mode 100644 wat/lex/nested.go

diff --git a/wat/lex/lexer.go b/wat/lex/lexer.go
index 08a9443..e8b8e77 100644
--- a/wat/lex/lexer.go
+++ b/wat/lex/lexer.go
@@ -262,42 +262,9 @@ func lineComment() Rule {
 }
 
 func blockComment() Rule {
-	start := &Node{}
-	openParen := &Node{}
-	semi := &Node{}
-	semiEnd := &Node{}
-	closeParen := &Node{Final: true}
-
-	start.Edges = append(start.Edges, &ByteEdge{
-		Byte: '(',
-		Node: openParen,
-	})
-	openParen.Edges = append(openParen.Edges, &ByteEdge{
-		Byte: ';',
-		Node: semi,
-	})
-	semi.Edges = append(semi.Edges, &ByteEdge{
-		Byte: ';',
-		Node: semiEnd,
-	}, &FuncEdge{
-		Func: not(';'),
-		Node: semi,
-	})
-	semiEnd.Edges = append(semiEnd.Edges, &ByteEdge{
-		Byte: ')',
-		Node: closeParen,
-	}, &ByteEdge{
-		Byte: ';',
-		Node: semiEnd,
-	}, &FuncEdge{
-		Func: not(')', ';'),
-		Node: semi,
-	})
-
-	return &DfaRule{
-		Dfa: &Dfa{
-			Start: start,
-		},
+	return &NestedRule{
+		Open:      "(;",
+		Close:     ";)",
 		TokenType: token.BlockComment,
 	}
 }
diff --git a/wat/lex/nested.go b/wat/lex/nested.go
new file mode 100644
index 0000000..765aabb
--- /dev/null
+++ b/wat/lex/nested.go
@@ -0,0 +1,76 @@
+package lex
+
+import "github.com/patrickhuber/go-wasm/wat/token"
+
+const NestedRuleType RuleType = 4
+
+// NestedRule matches text between a pair of two byte delimiters, which can be nested
+type NestedRule struct {
+	Open      string
+	Close     string
+	TokenType token.Type
+}
+
+func (r *NestedRule) Type() token.Type {
+	return r.TokenType
+}
+
+func (r *NestedRule) Check(ch byte) bool {
+	return r.Open[0] == ch
+}
+
+func (r *NestedRule) RuleType() RuleType {
+	return NestedRuleType
+}
+
+type NestedLexeme struct {
+	rule   *NestedRule
+	opened bool
+	closed bool
+	depth  int
+	last   byte
+}
+
+func (l *NestedLexeme) Rule() Rule {
+	return l.rule
+}
+
+func (l *NestedLexeme) Eat(ch byte) bool {
+	if l.closed {
+		return false
+	}
+	pair := string([]byte{l.last, ch})
+	switch {
+	case !l.opened && l.last == 0:
+		if ch != l.rule.Open[0] {
+			return false
+		}
+		l.last = ch
+	case pair == l.rule.Open:
+		l.opened = true
+		l.depth++
+		l.last = 0
+	case !l.opened:
+		return false
+	case pair == l.rule.Close:
+		l.depth--
+		l.closed = l.depth == 0
+		l.last = 0
+	default:
+		l.last = ch
+	}
+	return true
+}
+
+func (l *NestedLexeme) Accepted() bool {
+	return l.closed
+}
+
+type NestedFactory struct {
+}
+
+func (f *NestedFactory) Lexeme(r Rule) Lexeme {
+	return &NestedLexeme{
+		rule: r.(*NestedRule),
+	}
+}
diff --git a/wat/lex/registry.go b/wat/lex/registry.go
index 6ff39d6..7fc539f 100644
--- a/wat/lex/registry.go
+++ b/wat/lex/registry.go
@@ -6,4 +6,5 @@ type Registry map[RuleType]Factory
 var registry = Registry{
 	StringRuleType: &StringFactory{},
 	DfaRuleType:    &DfaFactory{},
+	NestedRuleType: &NestedFactory{},
 }
-- 
2.43.0


From 107b734c9b23730477d7693cfbfc5dcc62603e75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:23:28 +0000
Subject: [PATCH 33/59] fix: classify numbers in wat text by the grammar

Decimal numbers with a fraction or an exponent, and exponents without a
sign, were not recognized as numbers. Hexadecimal digits followed by
anything else, and misplaced underscores, were.
---
 wat/lex/lexer.go | 222 +++++++++--------------------------------------
 1 file changed, 42 insertions(+), 180 deletions(-)

diff --git a/wat/lex/lexer.go b/wat/lex/lexer.go
index e8b8e77..461fc59 100644
--- a/wat/lex/lexer.go
+++ b/wat/lex/lexer.go
@@ -309,202 +309,70 @@ func reserved() Rule {
 	}
 }
 
-func sign(s string, i int) (int, bool) {
-	if i >= len(s) {
-		return i, false
-	}
-	if s[i] == '+' || s[i] == '-' {
-		return i + 1, true
-	}
-	return i, false
-}
-
-func num(s string, i int) (int, bool) {
-	if i >= len(s) {
-		return i, false
-	}
-	if !isDigit(s[i]) {
-		return i, false
-	}
-
-	for ; i < len(s); i++ {
-		if s[i] == '_' {
-			continue
-		}
-		if isDigit(s[i]) {
-			continue
-		}
-		return i, false
+// sign skips an optional sign
+func sign(s string, i int) int {
+	if i < len(s) && (s[i] == '+' || s[i] == '-') {
+		return i + 1
 	}
-	return i, true
+	return i
 }
 
-func hexnum(s string, i int) (int, bool) {
-	if i >= len(s) {
+// digits skips one or more digits, which single underscores can separate
+func digits(s string, i int, digit func(ch byte) bool) (int, bool) {
+	if i >= len(s) || !digit(s[i]) {
 		return i, false
 	}
-	if !isHex(s[i]) {
-		return i, false
-	}
-	for ; i < len(s); i++ {
+	for i < len(s) {
 		if s[i] == '_' {
-			continue
+			i++
 		}
-		if isHex(s[i]) {
-			continue
+		if i >= len(s) || !digit(s[i]) {
+			// an underscore has to be followed by a digit
+			return i, s[i-1] != '_'
 		}
-		return i, true
+		i++
 	}
 	return i, true
 }
 
-func frac(s string, i int) (int, bool) {
-	if i >= len(s) {
-		return i, false
-	}
-	if !isDigit(s[i]) {
-		return i, false
-	}
-	for ; i < len(s); i++ {
-		if s[i] == '_' {
-			continue
-		}
-		if isDigit(s[i]) {
-			continue
-		}
-		return i, false
-	}
-	return i, true
+func num(s string, i int) (int, bool) {
+	return digits(s, i, isDigit)
 }
 
-func hexfrac(s string, i int) (int, bool) {
-	if i >= len(s) {
-		return i, false
-	}
-	if !isHex(s[i]) {
-		return i, false
-	}
-	for ; i < len(s); i++ {
-		if s[i] == '_' {
-			continue
-		}
-		if isHex(s[i]) {
-			continue
-		}
-		return i, true
-	}
-	return i, true
+func hexnum(s string, i int) (int, bool) {
+	return digits(s, i, isHex)
 }
 
-func float(s string, i int) (int, bool) {
-	n, ok := num(s, i)
+// float ~ p:num ('.' q:frac?)? (('E'|'e') ('+'|'-')? e:num)?
+func float(s string, i int, digit func(ch byte) bool, exponent string) bool {
+	i, ok := digits(s, i, digit)
 	if !ok {
-		return i, false
-	}
-	if n == len(s) {
-		return n, ok
-	}
-	i = n
-	// p:num '.'?
-	if s[i] == '.' && i == len(s)-1 {
-		return i + 1, true
+		return false
 	}
-	// p:num '.'?('E'|'e')('+'|'-')e:num
-	if (s[i] == '.' && (s[i+1] == 'E' || s[i+1] == 'e')) ||
-		(s[i] == 'e' || s[i] == 'E') {
-		if s[i] == '.' {
-			i++ // '.'
-		}
-		i++ // 'E' | 'e'
-		n, ok = sign(s, i)
-		if !ok {
-			return i, false
+	if i < len(s) && s[i] == '.' {
+		i++
+		if i < len(s) && digit(s[i]) {
+			i, ok = digits(s, i, digit)
+			if !ok {
+				return false
+			}
 		}
-		i = n
-		n, ok = num(s, i)
+	}
+	if i < len(s) && strings.IndexByte(exponent, s[i]) >= 0 {
+		i, ok = num(s, sign(s, i+1))
 		if !ok {
-			return i, false
+			return false
 		}
-		return n, true
 	}
-	// p:num '.' q:frac
-	n, ok = frac(s, i)
-	if !ok {
-		return i, false
-	}
-	i = n
-	if i == len(s) {
-		return i, true
-	}
-	// p:num '.' q:frac ('E'|'e')('+'|'-')e:num
-	if s[i] != 'e' && s[i] != 'E' {
-		return i, false
-	}
-	i++
-	n, ok = sign(s, i)
-	if !ok {
-		return i, false
-	}
-	i = n
-	return num(s, i)
+	return i == len(s)
 }
 
-func hexfloat(s string, i int) (int, bool) {
+// hexfloat ~ '0x' p:hexnum ('.' q:hexfrac?)? (('P'|'p') ('+'|'-')? e:num)?
+func hexfloat(s string) bool {
 	if !strings.HasPrefix(s, "0x") {
-		return i, false
-	}
-	i += 2
-	n, ok := hexnum(s, i)
-	if !ok {
-		return i, false
-	}
-	if n == len(s) {
-		return n, ok
-	}
-	i = n
-	// p:hexnum '.'?
-	if s[i] == '.' && i == len(s)-1 {
-		return i + 1, true
-	}
-	// p:hexnum '.'?('P'|'p')('+'|'-')e:num
-	if (s[i] == '.' && (s[i+1] == 'P' || s[i+1] == 'p')) ||
-		(s[i] == 'p' || s[i] == 'P') {
-		if s[i] == '.' {
-			i++ // '.'
-		}
-		i++ // 'P' | 'p'
-		n, ok = sign(s, i)
-		if !ok {
-			return i, false
-		}
-		i = n
-		n, ok = num(s, i)
-		if !ok {
-			return i, false
-		}
-		return n, true
-	}
-	i++ // '.'
-	// p:hexnum '.' q:hexfrac
-	n, ok = hexfrac(s, i)
-	if !ok {
-		return i, false
-	}
-	i = n
-	if i == len(s) {
-		return i, true
-	}
-	// p:num '.' q:frac ('P'|'p')('+'|'-')e:num
-	if s[i] != 'p' && s[i] != 'P' {
-		return i, false
-	}
-	i++
-	n, ok = sign(s, i)
-	if !ok {
-		return i, false
+		return false
 	}
-	i = n
-	return num(s, i)
+	return float(s, 2, isHex, "pP")
 }
 
 func isFloat(s string) bool {
@@ -529,16 +397,10 @@ func isFloat(s string) bool {
 	}
 	if strings.HasPrefix(s, "nan:0x") {
 		s = strings.TrimPrefix(s, "nan:0x")
-		_, ok := hexnum(s, 0)
-		return ok
+		i, ok := hexnum(s, 0)
+		return ok && i == len(s)
 	}
-	if _, ok := float(s, 0); ok {
-		return true
-	}
-	if _, ok := hexfloat(s, 0); ok {
-		return true
-	}
-	return false
+	return float(s, 0, isDigit, "eE") || hexfloat(s)
 }
 
 func isInteger(s string) bool {
@@ -549,7 +411,7 @@ func isInteger(s string) bool {
 	if s[0] == '+' || s[0] == '-' {
 		s = s[1:]
 	}
-	if _, ok := num(s, 0); ok {
+	if i, ok := num(s, 0); ok && i == len(s) {
 		return true
 	}
 	if strings.HasPrefix(s, "0x") {
-- 
2.43.0


From a0d95fb4aae6a8fdf8a20e24aef02c79d46205e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:23:49 +0000
Subject: [PATCH 34/59] fix: decode escape sequences in wat strings

An escaped quote ended the string, escape sequences were kept as they
were written, and quotes at either end of the content were lost.
---
 wat/lex/lexer.go    | 10 ++++++++-
 wat/parse/parser.go | 51 ++++++++++++++++++++++++++++++++++++++++++++-
 2 files changed, 59 insertions(+), 2 deletions(-)

diff --git a/wat/lex/lexer.go b/wat/lex/lexer.go
index 461fc59..32c47b6 100644
--- a/wat/lex/lexer.go
+++ b/wat/lex/lexer.go
@@ -272,6 +272,7 @@ func blockComment() Rule {
 func str() Rule {
 	start := &Node{}
 	doubleQuote := &Node{}
+	escape := &Node{}
 	end := &Node{Final: true}
 	start.Edges = append(start.Edges, &ByteEdge{
 		Byte: '"',
@@ -280,8 +281,15 @@ func str() Rule {
 	doubleQuote.Edges = append(doubleQuote.Edges, &ByteEdge{
 		Byte: '"',
 		Node: end,
+	}, &ByteEdge{
+		Byte: '\\',
+		Node: escape,
 	}, &FuncEdge{
-		Func: not('"'),
+		Func: not('"', '\\'),
+		Node: doubleQuote,
+	})
+	escape.Edges = append(escape.Edges, &FuncEdge{
+		Func: not(),
 		Node: doubleQuote,
 	})
 	return &DfaRule{
diff --git a/wat/parse/parser.go b/wat/parse/parser.go
index 7b8f746..6efc7c6 100644
--- a/wat/parse/parser.go
+++ b/wat/parse/parser.go
@@ -5,6 +5,7 @@ import (
 	"math"
 	"strconv"
 	"strings"
+	"unicode/utf8"
 
 	"github.com/patrickhuber/go-types"
 	"github.com/patrickhuber/go-types/handle"
@@ -764,7 +765,55 @@ func parseString(lexer *lex.Lexer) (res types.Result[string]) {
 	if tok.Type != token.String {
 		return result.Errorf[string]("%w", parseError(tok))
 	}
-	return result.Ok(strings.Trim(tok.Capture, "\""))
+	str, err := unescape(tok.Capture[1 : len(tok.Capture)-1])
+	if err != nil {
+		return result.Errorf[string]("%w : %w", parseError(tok), err)
+	}
+	return result.Ok(str)
+}
+
+// unescape replaces the escape sequences in the content of a string token
+func unescape(content string) (string, error) {
+	var b strings.Builder
+	for i := 0; i < len(content); i++ {
+		if content[i] != '\\' {
+			b.WriteByte(content[i])
+			continue
+		}
+		rest := content[i+1:]
+		switch {
+		case strings.HasPrefix(rest, "t"):
+			b.WriteByte('\t')
+		case strings.HasPrefix(rest, "n"):
+			b.WriteByte('\n')
+		case strings.HasPrefix(rest, "r"):
+			b.WriteByte('\r')
+		case strings.HasPrefix(rest, "\""), strings.HasPrefix(rest, "'"), strings.HasPrefix(rest, "\\"):
+			b.WriteByte(rest[0])
+		case strings.HasPrefix(rest, "u{"):
+			// \u{hexnum} is a unicode scalar value
+			hex, _, ok := strings.Cut(rest[2:], "}")
+			n, err := strconv.ParseUint(strings.ReplaceAll(hex, "_", ""), 16, 32)
+			if !ok || err != nil || strings.HasPrefix(hex, "_") || !utf8.ValidRune(rune(n)) {
+				return "", fmt.Errorf("invalid escape sequence in string")
+			}
+			b.WriteRune(rune(n))
+			i += len(hex) + 2
+		default:
+			// \hh is a single byte
+			if len(rest) < 2 {
+				return "", fmt.Errorf("invalid escape sequence in string")
+			}
+			n, err := strconv.ParseUint(rest[:2], 16, 8)
+			if err != nil {
+				return "", fmt.Errorf("invalid escape sequence in string")
+			}
+			b.WriteByte(byte(n))
+			i++
+		}
+		i++
+	}
+	return b.String(), nil
 }
 
 func ParseInt32(lexer *lex.Lexer) (int32, error) {
-- 
2.43.0


From 26483f862b4eef0f48c47382cfd20b55cffdfce4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:24:10 +0000
Subject: [PATCH 35/59] fix: parse integer literals of wat text by the grammar

64 bit constants were limited to 32 bits, a leading zero selected octal
and a plus sign was refused.
---
 wat/parse/parser.go | 31 ++++++++++++++++++++-----------
 1 file changed, 20 insertions(+), 11 deletions(-)

diff --git a/wat/parse/parser.go b/wat/parse/parser.go
index 6efc7c6..eec95a5 100644
--- a/wat/parse/parser.go
+++ b/wat/parse/parser.go
@@ -827,14 +827,28 @@ func parseInt32(lexer *lex.Lexer) (res types.Result[int32]) {
 	if tok.Type != token.Integer {
 		return result.Errorf[int32]("expected integer %w", parseError(tok))
 	}
-	if strings.HasPrefix(tok.Capture, "-") {
-		i, err := strconv.ParseInt(tok.Capture, 0, 32)
-		return result.New(int32(i), err)
-	}
-	i, err := strconv.ParseUint(tok.Capture, 0, 32)
+	i, err := integer(tok.Capture, 32)
 	return result.New(int32(i), err)
 }
 
+// integer converts the text of an integer token to an integer of the given size.
+// Negative integers are in the range of the signed type and all others in the range of the unsigned type.
+func integer(capture string, bitSize int) (int64, error) {
+	negative := strings.HasPrefix(capture, "-")
+	digits := strings.TrimLeft(capture, "+-")
+	base := 10
+	if strings.HasPrefix(digits, "0x") {
+		digits = digits[2:]
+		base = 16
+	}
+	digits = strings.ReplaceAll(digits, "_", "")
+	if negative {
+		return strconv.ParseInt("-"+digits, base, bitSize)
+	}
+	i, err := strconv.ParseUint(digits, base, bitSize)
+	return int64(i), err
+}
+
 func ParseInt64(lexer *lex.Lexer) (int64, error) {
 	return parseInt64(lexer).Deconstruct()
 }
@@ -846,12 +860,7 @@ func parseInt64(lexer *lex.Lexer) (res types.Result[int64]) {
 	if tok.Type != token.Integer {
 		return result.Errorf[int64]("expected integer %w", parseError(tok))
 	}
-	if strings.HasPrefix(tok.Capture, "-") {
-		i, err := strconv.ParseInt(tok.Capture, 0, 32)
-		return result.New(int64(i), err)
-	}
-	i, err := strconv.ParseUint(tok.Capture, 0, 32)
-	return result.New(int64(i), err)
+	return result.New(integer(tok.Capture, 64))
 }
 
 func peekFloat(lexer *lex.Lexer) (res types.Result[bool]) {
-- 
2.43.0


From 8c16539df83df156082421099fa743d12f1c8827 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:24:11 +0000
Subject: [PATCH 36/59] fix: indices and limits in wat text are unsigned
 integers

Negative indices and limits wrapped to large ones, indices above the
signed range were truncated and hexadecimal indices were refused.
---
 wat/parse/parser.go | 31 +++++++++++++++++++++++++------
 1 file changed, 25 insertions(+), 6 deletions(-)

diff --git a/wat/parse/parser.go b/wat/parse/parser.go
index eec95a5..12ba938 100644
--- a/wat/parse/parser.go
+++ b/wat/parse/parser.go
@@ -312,15 +312,15 @@ func parseMemory(lexer *lex.Lexer) (res types.Result[ast.Memory]) {
 
 func parseLimits(lexer *lex.Lexer) (res types.Result[ast.Limits]) {
 	defer handle.Error(&res)
-	min := parseInt32(lexer).Unwrap()
+	min := parseUint32(lexer).Unwrap()
 	max := option.None[uint32]()
 	tok := peek(lexer).Unwrap()
 	if tok.Type == token.Integer {
-		n := parseInt32(lexer).Unwrap()
-		max = option.Some(uint32(n))
+		n := parseUint32(lexer).Unwrap()
+		max = option.Some(n)
 	}
 	return result.Ok(ast.Limits{
-		Min: uint32(min),
+		Min: min,
 		Max: max,
 	})
 }
@@ -545,9 +545,9 @@ func parseIndex(lexer *lex.Lexer) (res types.Result[ast.Index]) {
 	var index ast.Index
 	switch tok.Type {
 	case token.Integer:
-		i := result.New(strconv.Atoi(tok.Capture)).Unwrap()
+		i := result.New(unsigned(tok.Capture)).Unwrap()
 		index = &ast.RawIndex{
-			Index: uint32(i),
+			Index: i,
 		}
 	case token.Id:
 		index = &ast.IDIndex{
@@ -849,6 +849,25 @@ func integer(capture string, bitSize int) (int64, error) {
 	return int64(i), err
 }
 
+func parseUint32(lexer *lex.Lexer) (res types.Result[uint32]) {
+	defer handle.Error(&res)
+
+	tok := next(lexer).Unwrap()
+	if tok.Type != token.Integer {
+		return result.Errorf[uint32]("expected integer %w", parseError(tok))
+	}
+	return result.New(unsigned(tok.Capture))
+}
+
+// unsigned converts the text of an integer token to an unsigned integer, which has no sign
+func unsigned(capture string) (uint32, error) {
+	if strings.ContainsAny(capture, "+-") {
+		return 0, fmt.Errorf("expected unsigned integer but found '%s'", capture)
+	}
+	i, err := integer(capture, 32)
+	return uint32(i), err
+}
+
 func ParseInt64(lexer *lex.Lexer) (int64, error) {
 	return parseInt64(lexer).Deconstruct()
 }
-- 
2.43.0


From 3e768a299a862932688d179188db02bf1c5250ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:24:48 +0000
Subject: [PATCH 37/59] fix: parse floating point literals of wat text by the
 grammar

64 bit constants were rounded to 32 bits, nan without a payload became
infinity, nan payloads could change the sign and exponent, and constants
written as integers went through the integer types and lost the sign of
zero or wrapped around.
---
 wast/parse/parser.go |  34 +-----------
 wat/parse/parser.go  | 124 ++++++++++++++++++++++---------------------
 2 files changed, 65 insertions(+), 93 deletions(-)

diff --git a/wast/parse/parser.go b/wast/parse/parser.go
index 401936e..ea40b1f 100644
--- a/wast/parse/parser.go
+++ b/wast/parse/parser.go
@@ -291,26 +291,12 @@ func parseConst(lexer *lex.Lexer) (res types.Result[ast.Const]) {
 			Value: parseInt64(lexer).Unwrap(),
 		}
 	case "f32.const":
-		// some times constants can be ambiguous like '0'
-		var f32 float32
-		if peekFloat(lexer).Unwrap() {
-			f32 = parseFloat32(lexer).Unwrap()
-		} else {
-			f32 = float32(parseInt32(lexer).Unwrap())
-		}
 		c = ast.F32Const{
-			Value: f32,
+			Value: parseFloat32(lexer).Unwrap(),
 		}
 	case "f64.const":
-		// some times constants can be ambiguous like '0'
-		var f64 float64
-		if peekFloat(lexer).Unwrap() {
-			f64 = parseFloat64(lexer).Unwrap()
-		} else if peekInteger(lexer).Unwrap() {
-			f64 = float64(parseInt64(lexer).Unwrap())
-		}
 		c = ast.F64Const{
-			Value: f64,
+			Value: parseFloat64(lexer).Unwrap(),
 		}
 	case "ref.null":
 	case "ref.extern":
@@ -342,14 +328,6 @@ func parseResults(lexer *lex.Lexer) (res types.Result[[]ast.Result]) {
 	return result.Ok(results)
 }
 
-func peekFloat(lexer *lex.Lexer) (res types.Result[bool]) {
-	tok, err := watparse.Peek(lexer)
-	if err != nil {
-		return result.New(false, err)
-	}
-	return result.Ok(tok.Type == token.Float)
-}
-
 func parseFloat32(lexer *lex.Lexer) (res types.Result[float32]) {
 	return result.New(watparse.ParseFloat32(lexer))
 }
@@ -441,14 +419,6 @@ func parseString(lexer *lex.Lexer) types.Result[string] {
 	return result.New(str, err)
 }
 
-func peekInteger(lexer *lex.Lexer) types.Result[bool] {
-	i, err := watparse.Peek(lexer)
-	if err != nil {
-		return result.New(false, err)
-	}
-	return result.Ok(i.Type == token.Integer)
-}
-
 func parseInt32(lexer *lex.Lexer) types.Result[int32] {
 	i, err := watparse.ParseInt32(lexer)
 	return result.New(i, err)
diff --git a/wat/parse/parser.go b/wat/parse/parser.go
index 12ba938..5beea40 100644
--- a/wat/parse/parser.go
+++ b/wat/parse/parser.go
@@ -429,25 +429,12 @@ func parseInstruction(lexer *lex.Lexer) (res types.Result[ast.Instruction]) {
 			Value: parseInt64(lexer).Unwrap(),
 		}
 	case "f32.const":
-		var f32 float32
-		if peekFloat(lexer).Unwrap() {
-			f32 = parseFloat32(lexer).Unwrap()
-		} else {
-			f32 = float32(parseInt32(lexer).Unwrap())
-		}
 		inst = ast.F32Const{
-			Value: f32,
+			Value: parseFloat32(lexer).Unwrap(),
 		}
 	case "f64.const":
-		// some times constants can be ambiguous like '0'
-		var f64 float64
-		if peekFloat(lexer).Unwrap() {
-			f64 = parseFloat64(lexer).Unwrap()
-		} else {
-			f64 = float64(parseInt64(lexer).Unwrap())
-		}
 		inst = ast.F64Const{
-			Value: f64,
+			Value: parseFloat64(lexer).Unwrap(),
 		}
 	// f32 math instructions
 	case "f32.add":
@@ -882,12 +869,6 @@ func parseInt64(lexer *lex.Lexer) (res types.Result[int64]) {
 	return result.New(integer(tok.Capture, 64))
 }
 
-func peekFloat(lexer *lex.Lexer) (res types.Result[bool]) {
-	defer handle.Error(&res)
-	tok := peek(lexer).Unwrap()
-	return result.Ok(tok.Type == token.Float)
-}
-
 func ParseFloat32(lexer *lex.Lexer) (float32, error) {
 	return parseFloat32(lexer).Deconstruct()
 }
@@ -895,52 +876,61 @@ func ParseFloat32(lexer *lex.Lexer) (float32, error) {
 func parseFloat32(lexer *lex.Lexer) (res types.Result[float32]) {
 	defer handle.Error(&res)
 	tok := next(lexer).Unwrap()
-	if tok.Type != token.Float {
+	if tok.Type != token.Float && tok.Type != token.Integer {
 		return result.Errorf[float32]("expected float %w", parseError(tok))
 	}
-	negative := false
-	capture := tok.Capture
-	if strings.HasPrefix(capture, "-") {
-		negative = true
-		capture = capture[1:]
-	}
+	negative, capture := cutSign(tok.Capture)
 	if strings.HasPrefix(capture, "nan") {
-		capture = capture[3:]
-
-		var u32 uint64
-		if strings.HasPrefix(capture, ":") {
-			capture = capture[1:]
-
-			var err error
-			if len(capture) > 0 {
-				if strings.HasPrefix(capture, "canonical") {
-					// https://en.wikipedia.org/wiki/NaN#Canonical_NaN
-					var val uint32 = 0b_1111_1111_1100_0000_0000_0000_0000_0000
-					return result.Ok(math.Float32frombits(val))
-				}
-				if strings.HasPrefix(capture, "arithmetic") {
-					// https://webassembly.github.io/spec/core/syntax/values.html#floating-point
-					var val uint32 = 0b_1111_1111_1100_0000_0000_0000_0000_0000
-					return result.Ok(math.Float32frombits(val))
-				}
-				u32, err = strconv.ParseUint(capture, 0, 32)
-				if err != nil {
-					return result.Error[float32](err)
-				}
-			}
-		}
 		// create float from data
 		// s111 1111 1xxx xxxx xxxx xxxx xxxx xxxx
+		u32 := uint32(result.New(nanPayload(capture, 23)).Unwrap())
+		u32 |= 0b_0111_1111_1000_0000_0000_0000_0000_0000
 		if negative {
-			u32 |= 0b_1111_1111_1000_0000_0000_0000_0000_0000
-		} else {
-			u32 |= 0b_0111_1111_1000_0000_0000_0000_0000_0000
+			u32 |= 1 << 31
 		}
-		return result.Ok(math.Float32frombits(uint32(u32)))
+		return result.Ok(math.Float32frombits(u32))
 	}
 	// not nan, so parse normally
-	f, err := strconv.ParseFloat(tok.Capture, 32)
-	return result.New(float32(f), err)
+	f := result.New(float(capture, 32)).Unwrap()
+	if negative {
+		f = -f
+	}
+	return result.Ok(float32(f))
+}
+
+// cutSign splits the text of a number into its sign and magnitude
+func cutSign(capture string) (negative bool, magnitude string) {
+	if strings.HasPrefix(capture, "+") || strings.HasPrefix(capture, "-") {
+		return capture[0] == '-', capture[1:]
+	}
+	return false, capture
+}
+
+// nanPayload returns the bits a nan literal has in its mantissa of the given size
+func nanPayload(capture string, mantissa int) (uint64, error) {
+	hex, ok := strings.CutPrefix(capture, "nan:0x")
+	if !ok {
+		// https://webassembly.github.io/spec/core/syntax/values.html#floating-point
+		return 1 << (mantissa - 1), nil
+	}
+	payload, err := strconv.ParseUint(strings.ReplaceAll(hex, "_", ""), 16, mantissa)
+	if err != nil {
+		return 0, err
+	}
+	if payload == 0 {
+		return 0, fmt.Errorf("nan payload is zero")
+	}
+	return payload, nil
+}
+
+// float converts the magnitude of a number
+func float(magnitude string, bitSize int) (float64, error) {
+	magnitude = strings.ReplaceAll(magnitude, "_", "")
+	if strings.HasPrefix(magnitude, "0x") && !strings.ContainsAny(magnitude, "pP") {
+		// the exponent is optional
+		magnitude += "p0"
+	}
+	return strconv.ParseFloat(magnitude, bitSize)
 }
 
 func ParseFloat64(lexer *lex.Lexer) (float64, error) {
@@ -950,11 +940,23 @@ func ParseFloat64(lexer *lex.Lexer) (float64, error) {
 func parseFloat64(lexer *lex.Lexer) (res types.Result[float64]) {
 	defer handle.Error(&res)
 	tok := next(lexer).Unwrap()
-	if tok.Type != token.Float {
+	if tok.Type != token.Float && tok.Type != token.Integer {
 		return result.Errorf[float64]("expected float %w", parseError(tok))
 	}
-	f, err := strconv.ParseFloat(tok.Capture, 32)
-	return result.New(f, err)
+	negative, capture := cutSign(tok.Capture)
+	if strings.HasPrefix(capture, "nan") {
+		u64 := result.New(nanPayload(capture, 52)).Unwrap()
+		u64 |= 0x7ff << 52
+		if negative {
+			u64 |= 1 << 63
+		}
+		return result.Ok(math.Float64frombits(u64))
+	}
+	f := result.New(float(capture, 64)).Unwrap()
+	if negative {
+		f = -f
+	}
+	return result.Ok(f)
 }
 
 func eat(lexer *lex.Lexer, ty token.Type) (res types.Result[bool]) {
-- 
2.43.0


From e95b4c147aab8a1b6519358efd0704521601635d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:25:39 +0000
Subject: [PATCH 38/59] fix: keep all i32 instructions of wat text

Instructions that were recognized but had no node in the syntax tree
were replaced by nil.
---
 wat/ast/ast.go      | 100 ++++++++++++++++++++++++++++++++++++++++++++
 wat/parse/parser.go |  25 +++++++++++
 2 files changed, 125 insertions(+)

diff --git a/wat/ast/ast.go b/wat/ast/ast.go
index 3da2ded..4a2f1c1 100644
--- a/wat/ast/ast.go
+++ b/wat/ast/ast.go
@@ -223,6 +223,106 @@ type I32DivU struct{}
 
 func (I32DivU) inst() {}
 
+type I32RemS struct{}
+
+func (I32RemS) inst() {}
+
+type I32RemU struct{}
+
+func (I32RemU) inst() {}
+
+type I32And struct{}
+
+func (I32And) inst() {}
+
+type I32Or struct{}
+
+func (I32Or) inst() {}
+
+type I32Xor struct{}
+
+func (I32Xor) inst() {}
+
+type I32Shl struct{}
+
+func (I32Shl) inst() {}
+
+type I32ShrS struct{}
+
+func (I32ShrS) inst() {}
+
+type I32ShrU struct{}
+
+func (I32ShrU) inst() {}
+
+type I32Rotl struct{}
+
+func (I32Rotl) inst() {}
+
+type I32Rotr struct{}
+
+func (I32Rotr) inst() {}
+
+type I32Clz struct{}
+
+func (I32Clz) inst() {}
+
+type I32Ctz struct{}
+
+func (I32Ctz) inst() {}
+
+type I32Popcnt struct{}
+
+func (I32Popcnt) inst() {}
+
+type I32Extend8S struct{}
+
+func (I32Extend8S) inst() {}
+
+type I32Extend16S struct{}
+
+func (I32Extend16S) inst() {}
+
+type I32Eq struct{}
+
+func (I32Eq) inst() {}
+
+type I32Ne struct{}
+
+func (I32Ne) inst() {}
+
+type I32LtS struct{}
+
+func (I32LtS) inst() {}
+
+type I32LtU struct{}
+
+func (I32LtU) inst() {}
+
+type I32LeS struct{}
+
+func (I32LeS) inst() {}
+
+type I32LeU struct{}
+
+func (I32LeU) inst() {}
+
+type I32GtS struct{}
+
+func (I32GtS) inst() {}
+
+type I32GtU struct{}
+
+func (I32GtU) inst() {}
+
+type I32GeS struct{}
+
+func (I32GeS) inst() {}
+
+type I32GeU struct{}
+
+func (I32GeU) inst() {}
+
 type Folded struct {
 	Instruction Instruction
 	Parameters  []Instruction
diff --git a/wat/parse/parser.go b/wat/parse/parser.go
index 5beea40..762e5af 100644
--- a/wat/parse/parser.go
+++ b/wat/parse/parser.go
@@ -472,32 +472,57 @@ func parseInstruction(lexer *lex.Lexer) (res types.Result[ast.Instruction]) {
 	case "i32.div_u":
 		inst = ast.I32DivU{}
 	case "i32.rem_s":
+		inst = ast.I32RemS{}
 	case "i32.rem_u":
+		inst = ast.I32RemU{}
 	case "i32.and":
+		inst = ast.I32And{}
 	case "i32.or":
+		inst = ast.I32Or{}
 	case "i32.xor":
+		inst = ast.I32Xor{}
 	case "i32.shl":
+		inst = ast.I32Shl{}
 	case "i32.shr_s":
+		inst = ast.I32ShrS{}
 	case "i32.shr_u":
+		inst = ast.I32ShrU{}
 	case "i32.rotl":
+		inst = ast.I32Rotl{}
 	case "i32.rotr":
+		inst = ast.I32Rotr{}
 	case "i32.clz":
+		inst = ast.I32Clz{}
 	case "i32.ctz":
+		inst = ast.I32Ctz{}
 	case "i32.popcnt":
+		inst = ast.I32Popcnt{}
 	case "i32.extend8_s":
+		inst = ast.I32Extend8S{}
 	case "i32.extend16_s":
+		inst = ast.I32Extend16S{}
 	case "i32.eqz":
 		inst = ast.I32Eqz{}
 	case "i32.eq":
+		inst = ast.I32Eq{}
 	case "i32.ne":
+		inst = ast.I32Ne{}
 	case "i32.lt_s":
+		inst = ast.I32LtS{}
 	case "i32.lt_u":
+		inst = ast.I32LtU{}
 	case "i32.le_s":
+		inst = ast.I32LeS{}
 	case "i32.le_u":
+		inst = ast.I32LeU{}
 	case "i32.gt_s":
+		inst = ast.I32GtS{}
 	case "i32.gt_u":
+		inst = ast.I32GtU{}
 	case "i32.ge_s":
+		inst = ast.I32GeS{}
 	case "i32.ge_u":
+		inst = ast.I32GeU{}
 	case "block":
 		inst = parseBlock(lexer).Unwrap()
 	case "loop":
-- 
2.43.0


From c62adcc03a6712cfe20b2445f30480037fb9b498 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:25:40 +0000
Subject: [PATCH 39/59] fix: accept any number of types in a wat result

Only blocks accepted several types in one result.
---
 wat/parse/parser.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/wat/parse/parser.go b/wat/parse/parser.go
index 762e5af..335bcae 100644
--- a/wat/parse/parser.go
+++ b/wat/parse/parser.go
@@ -166,9 +166,12 @@ func parseResult(lexer *lex.Lexer) (res types.Result[*ast.Result]) {
 
 	expectValue(lexer, token.Reserved, "result").Unwrap()
 
-	ty := parseValType(lexer).Unwrap()
+	var types []ast.ValType
+	for peek(lexer).Unwrap().Type != token.CloseParen {
+		types = append(types, parseValType(lexer).Unwrap())
+	}
 	return result.Ok(&ast.Result{
-		Types: []ast.ValType{ty},
+		Types: types,
 	})
 }
 
-- 
2.43.0


From b784ccd861d9b540218acc2e48bdcae0418e9b13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:25:41 +0000
Subject: [PATCH 40/59] fix: refuse malformed types and tables in wat text

A type without a function type, empty parentheses in a function type and
a table with an unknown reference type were accepted.
---
 wat/parse/parser.go | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/wat/parse/parser.go b/wat/parse/parser.go
index 335bcae..1c55fdf 100644
--- a/wat/parse/parser.go
+++ b/wat/parse/parser.go
@@ -181,11 +181,9 @@ func parseType(lexer *lex.Lexer) (res types.Result[ast.Type]) {
 
 	id := parseOptionalId(lexer).Unwrap()
 
-	var funcType ast.FuncType
-	if eat(lexer, token.OpenParen).Unwrap() {
-		funcType = parseFuncType(lexer).Unwrap()
-		expect(lexer, token.CloseParen).Unwrap()
-	}
+	expect(lexer, token.OpenParen).Unwrap()
+	funcType := parseFuncType(lexer).Unwrap()
+	expect(lexer, token.CloseParen).Unwrap()
 
 	return result.Ok(ast.Type{
 		ID:       id,
@@ -208,6 +206,8 @@ func parseFuncType(lexer *lex.Lexer) (res types.Result[ast.FuncType]) {
 		case "result":
 			result := parseResult(lexer).Unwrap()
 			results = append(results, *result)
+		default:
+			return result.Errorf[ast.FuncType]("%w : expected param, result but found '%s'", parseError(tok), tok.Capture)
 		}
 		expect(lexer, token.CloseParen).Unwrap()
 	}
@@ -265,6 +265,8 @@ func parseTableType(lexer *lex.Lexer) (res types.Result[ast.TableType]) {
 		refType = ast.ExternRef{}
 	case "funcref":
 		refType = ast.FuncRef{}
+	default:
+		return result.Errorf[ast.TableType]("expected 'externref' or 'funcref': %w", parseError(tok))
 	}
 
 	return result.Ok(ast.TableType{
-- 
2.43.0


From 8a5d8a7ffe7ce75774641e87bf0b0ae6b706a581 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:25:42 +0000
Subject: [PATCH 41/59] fix: accept all labels of a wat br_table

Only a single label was accepted.
---
 wat/parse/parser.go | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/wat/parse/parser.go b/wat/parse/parser.go
index 1c55fdf..7ebd498 100644
--- a/wat/parse/parser.go
+++ b/wat/parse/parser.go
@@ -379,10 +379,14 @@ func parseInstruction(lexer *lex.Lexer) (res types.Result[ast.Instruction]) {
 			Index: parseIndex(lexer).Unwrap(),
 		}
 	case "br_table":
+		indicies := []ast.Index{
+			parseIndex(lexer).Unwrap(),
+		}
+		for tok := peek(lexer).Unwrap(); tok.Type == token.Integer || tok.Type == token.Id; tok = peek(lexer).Unwrap() {
+			indicies = append(indicies, parseIndex(lexer).Unwrap())
+		}
 		inst = ast.BrTable{
-			Indicies: []ast.Index{
-				parseIndex(lexer).Unwrap(),
-			},
+			Indicies: indicies,
 		}
 	case "return":
 		inst = ast.Return{}
-- 
2.43.0


From 188e7134065f0b8a842a9bad7fe59d4692d87d81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:25:44 +0000
Subject: [PATCH 42/59] fix: do not fold what follows a plain wat instruction

An instruction in parentheses after a plain instruction became its
operand, although only an instruction in parentheses has operands.
---
 wat/parse/parser.go | 42 +++++++++++++++++++++++++++++++-----------
 1 file changed, 31 insertions(+), 11 deletions(-)

diff --git a/wat/parse/parser.go b/wat/parse/parser.go
index 7ebd498..6d3e969 100644
--- a/wat/parse/parser.go
+++ b/wat/parse/parser.go
@@ -112,7 +112,7 @@ func parseFunc(lexer *lex.Lexer) (res types.Result[*ast.Function]) {
 		case "import":
 			_ = parseImport(lexer).Unwrap()
 		default:
-			inst := parseInstruction(lexer).Unwrap()
+			inst := parseFolded(lexer).Unwrap()
 			function.Instructions = append(function.Instructions, inst)
 		}
 		expect(lexer, token.CloseParen).Unwrap()
@@ -122,6 +122,12 @@ func parseFunc(lexer *lex.Lexer) (res types.Result[*ast.Function]) {
 		if tok.Type == token.CloseParen {
 			break
 		}
+		if eat(lexer, token.OpenParen).Unwrap() {
+			instruction := parseFolded(lexer).Unwrap()
+			function.Instructions = append(function.Instructions, instruction)
+			expect(lexer, token.CloseParen).Unwrap()
+			continue
+		}
 		instruction := parseInstruction(lexer).Unwrap()
 		function.Instructions = append(function.Instructions, instruction)
 	}
@@ -355,7 +361,7 @@ func parseInstructions(lexer *lex.Lexer) (res types.Result[[]ast.Instruction]) {
 
 	var instructions []ast.Instruction
 	for eat(lexer, token.OpenParen).Unwrap() {
-		instruction := parseInstruction(lexer).Unwrap()
+		instruction := parseFolded(lexer).Unwrap()
 		instructions = append(instructions, instruction)
 		expect(lexer, token.CloseParen).Unwrap()
 	}
@@ -532,18 +538,32 @@ func parseInstruction(lexer *lex.Lexer) (res types.Result[ast.Instruction]) {
 		inst = ast.I32GeS{}
 	case "i32.ge_u":
 		inst = ast.I32GeU{}
-	case "block":
-		inst = parseBlock(lexer).Unwrap()
-	case "loop":
-		inst = parseLoop(lexer).Unwrap()
-	case "if":
-		inst = parseIf(lexer).Unwrap()
-
 	case "call_indirect":
 		inst = parseCallIndirect(lexer).Unwrap()
 	default:
 		return result.Errorf[ast.Instruction]("%w : error parsing instruction. Unrecognized instruction %v : %s", parseError(tok), tok.Type, tok.Capture)
 	}
+	return result.Ok(inst)
+}
+
+// parseFolded parses an instruction in parentheses together with its operands
+func parseFolded(lexer *lex.Lexer) (res types.Result[ast.Instruction]) {
+	defer handle.Error(&res)
+
+	tok := peek(lexer).Unwrap()
+	switch tok.Capture {
+	case "block":
+		expect(lexer, token.Reserved).Unwrap()
+		return result.Ok[ast.Instruction](parseBlock(lexer).Unwrap())
+	case "loop":
+		expect(lexer, token.Reserved).Unwrap()
+		return result.Ok[ast.Instruction](parseLoop(lexer).Unwrap())
+	case "if":
+		expect(lexer, token.Reserved).Unwrap()
+		return result.Ok[ast.Instruction](parseIf(lexer).Unwrap())
+	}
+
+	inst := parseInstruction(lexer).Unwrap()
 	peekTok := peek(lexer).Unwrap()
 	if peekTok.Type != token.OpenParen {
 		return result.Ok(inst)
@@ -552,7 +572,7 @@ func parseInstruction(lexer *lex.Lexer) (res types.Result[ast.Instruction]) {
 		Instruction: inst,
 	}
 	for eat(lexer, token.OpenParen).Unwrap() {
-		inst = parseInstruction(lexer).Unwrap()
+		inst = parseFolded(lexer).Unwrap()
 		folded.Parameters = append(folded.Parameters, inst)
 		expect(lexer, token.CloseParen).Unwrap()
 	}
@@ -667,7 +687,7 @@ func parseIf(lexer *lex.Lexer) (res types.Result[ast.If]) {
 			e := parseElse(lexer).Unwrap()
 			_else = option.Some(e)
 		default:
-			i := parseInstruction(lexer).Unwrap()
+			i := parseFolded(lexer).Unwrap()
 			instructions = append(instructions, i)
 		}
 		expect(lexer, token.CloseParen).Unwrap()
-- 
2.43.0


From bf972d72eeaad7b98d4b908a6fe74ea11e136baa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:25:45 +0000
Subject: [PATCH 43/59] fix: keep the inline import of a wat function

The import was parsed and dropped, so an imported function looked like
an empty one.
---
 wat/ast/ast.go      | 1 +
 wat/parse/parser.go | 3 ++-
 2 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/wat/ast/ast.go b/wat/ast/ast.go
index 4a2f1c1..347eb3d 100644
--- a/wat/ast/ast.go
+++ b/wat/ast/ast.go
@@ -27,6 +27,7 @@ type Function struct {
 	ID           types.Option[string]
 	Locals       []Local
 	Exports      []InlineExport
+	Imports      []InlineImport
 	Parameters   []Parameter
 	Results      []Result
 	Instructions []Instruction
diff --git a/wat/parse/parser.go b/wat/parse/parser.go
index 6d3e969..212f56d 100644
--- a/wat/parse/parser.go
+++ b/wat/parse/parser.go
@@ -110,7 +110,8 @@ func parseFunc(lexer *lex.Lexer) (res types.Result[*ast.Function]) {
 			export := parseExport(lexer).Unwrap()
 			function.Exports = append(function.Exports, export)
 		case "import":
-			_ = parseImport(lexer).Unwrap()
+			imp := parseImport(lexer).Unwrap()
+			function.Imports = append(function.Imports, imp)
 		default:
 			inst := parseFolded(lexer).Unwrap()
 			function.Instructions = append(function.Instructions, inst)
-- 
2.43.0


From 2ac38bf09d6299f5053a71db41ce0ea6f6a75ca3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:25:46 +0000
Subject: [PATCH 44/59] fix: refuse a malformed if in wat text

Branches could be missing, repeated or out of order, and of repeated
branches only the last one was kept.
---
 wat/parse/parser.go | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/wat/parse/parser.go b/wat/parse/parser.go
index 212f56d..8611527 100644
--- a/wat/parse/parser.go
+++ b/wat/parse/parser.go
@@ -675,15 +675,23 @@ func parseIf(lexer *lex.Lexer) (res types.Result[ast.If]) {
 	var results []ast.Result
 	_else := option.None[ast.Else]()
 	var then ast.Then
+	hasThen := false
 	var instructions []ast.Instruction
 	for eat(lexer, token.OpenParen).Unwrap() {
 		tok = peek(lexer).Unwrap()
+		// ( if <label>? <result>* <clause>* ( then ... ) ( else ... )? )
+		if hasThen && (tok.Capture != "else" || _else.IsSome()) ||
+			!hasThen && tok.Capture == "else" ||
+			len(instructions) > 0 && tok.Capture == "result" {
+			return result.Errorf[ast.If]("%w : unexpected '%s' in if", parseError(tok), tok.Capture)
+		}
 		switch tok.Capture {
 		case "result":
 			res := parseResult(lexer).Unwrap()
 			results = append(results, *res)
 		case "then":
 			then = parseThen(lexer).Unwrap()
+			hasThen = true
 		case "else":
 			e := parseElse(lexer).Unwrap()
 			_else = option.Some(e)
@@ -693,6 +701,9 @@ func parseIf(lexer *lex.Lexer) (res types.Result[ast.If]) {
 		}
 		expect(lexer, token.CloseParen).Unwrap()
 	}
+	if !hasThen {
+		return result.Errorf[ast.If]("%w : if without then", parseError(tok))
+	}
 
 	return result.Ok(ast.If{
 		Name: name,
-- 
2.43.0


From 5407793c5d4c1722d71ff899b7e8a1fdcc780f51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:25:47 +0000
Subject: [PATCH 45/59] fix: return an error from ParseString instead of
 panicking

Text that is not a token made the exported function panic.
---
 wat/parse/parser.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/wat/parse/parser.go b/wat/parse/parser.go
index 8611527..13e75c1 100644
--- a/wat/parse/parser.go
+++ b/wat/parse/parser.go
@@ -793,6 +793,7 @@ func parseBlockType(lexer *lex.Lexer) (res types.Result[ast.BlockType]) {
 }
 
 func parseOptionalId(lexer *lex.Lexer) (res types.Result[types.Option[string]]) {
+	defer handle.Error(&res)
 	tok := peek(lexer).Unwrap()
 	if tok.Type == token.Id {
 		id := parseId(lexer).Unwrap()
@@ -802,6 +803,7 @@ func parseOptionalId(lexer *lex.Lexer) (res types.Result[types.Option[string]])
 }
 
 func parseId(lexer *lex.Lexer) (res types.Result[string]) {
+	defer handle.Error(&res)
 	tok := next(lexer).Unwrap()
 	if tok.Type != token.Id {
 		return result.Errorf[string]("%w", parseError(tok))
@@ -814,6 +816,7 @@ func ParseString(lexer *lex.Lexer) (string, error) {
 }
 
 func parseString(lexer *lex.Lexer) (res types.Result[string]) {
+	defer handle.Error(&res)
 	tok := next(lexer).Unwrap()
 	if tok.Type != token.String {
 		return result.Errorf[string]("%w", parseError(tok))
-- 
2.43.0


From edbf8a51b42cdd9f69bfa8d50b92677369ffe29c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:25:48 +0000
Subject: [PATCH 46/59] fix: refuse wast actions and constants that are not
 understood

Unknown actions and reference constants became nil or were dropped from
the results.
---
 wast/parse/parser.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/wast/parse/parser.go b/wast/parse/parser.go
index ea40b1f..a2e6a51 100644
--- a/wast/parse/parser.go
+++ b/wast/parse/parser.go
@@ -224,6 +224,8 @@ func parseAction(lexer *lex.Lexer) (res types.Result[ast.Action]) {
 		action = parseInvoke(lexer).Unwrap()
 	case "get":
 		action = parseGet(lexer).Unwrap()
+	default:
+		return result.Errorf[ast.Action]("%w : unrecognized action '%s'", parseError(tok), tok.Capture)
 	}
 
 	expect(lexer, token.CloseParen).Unwrap()
@@ -268,6 +270,7 @@ func parseConsts(lexer *lex.Lexer) (res types.Result[[]ast.Const]) {
 }
 
 func parseConst(lexer *lex.Lexer) (res types.Result[ast.Const]) {
+	defer handle.Error(&res)
 	/*
 		const:
 		  ( <num_type>.const <num> )                 ;; number value
@@ -298,8 +301,6 @@ func parseConst(lexer *lex.Lexer) (res types.Result[ast.Const]) {
 		c = ast.F64Const{
 			Value: parseFloat64(lexer).Unwrap(),
 		}
-	case "ref.null":
-	case "ref.extern":
 	default:
 		return result.Error[ast.Const](parseError(tok))
 	}
@@ -319,7 +320,7 @@ func parseResults(lexer *lex.Lexer) (res types.Result[[]ast.Result]) {
 		c := parseConst(lexer).Unwrap()
 		r, ok := c.(ast.Result)
 		if !ok {
-			continue
+			return result.Errorf[[]ast.Result]("unexpected result %T", c)
 		}
 		results = append(results, r)
 		expect(lexer, token.CloseParen).Unwrap()
-- 
2.43.0


From 07d005e0e92fd1bc0973bdc707206f640145b81a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:27:09 +0000
Subject: [PATCH 47/59] fix: return wit lexer errors from Peek instead of
 panicking

Peeking at text that is not a token panicked when the lexer was used
directly. Next already returned an error for the same text.
---
 wit/lex/lexer.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/wit/lex/lexer.go b/wit/lex/lexer.go
index 611ea99..eb7b060 100644
--- a/wit/lex/lexer.go
+++ b/wit/lex/lexer.go
@@ -71,7 +71,11 @@ func (l *Lexer) Peek() (*token.Token, error) {
 		return l.peekToken, nil
 	}
 
-	l.peekToken = l.next().Unwrap()
+	tok, err := l.next().Deconstruct()
+	if err != nil {
+		return nil, err
+	}
+	l.peekToken = tok
 	return l.peekToken, nil
 }
 
-- 
2.43.0


From d62e1dbf81de431e4ddd6b4bff307a3ac0898d0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:27:10 +0000
Subject: [PATCH 48/59] fix: refuse a wit explicit identifier without a name

A percent sign on its own was accepted as an identifier.
---
 wit/lex/lexer.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/wit/lex/lexer.go b/wit/lex/lexer.go
index eb7b060..ad04f4b 100644
--- a/wit/lex/lexer.go
+++ b/wit/lex/lexer.go
@@ -157,9 +157,10 @@ func (l *Lexer) next() (res types.Result[*token.Token]) {
 	case r == '+':
 		return l.token(token.Plus)
 	case r == '%':
-		if l.eatIf(isKeyLikeStart).Unwrap() {
-			for l.eatIf(isKeyLikeContinue).Unwrap() {
-			}
+		if !l.eatIf(isKeyLikeStart).Unwrap() {
+			return result.Errorf[*token.Token]("%w : expected an identifier after %%", l.lexerError())
+		}
+		for l.eatIf(isKeyLikeContinue).Unwrap() {
 		}
 		return l.token(token.ExplicitId)
 
-- 
2.43.0


From f4f709c053b27645b6aa93b6eac51eda1cbe3a7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:27:11 +0000
Subject: [PATCH 49/59] fix: refuse unknown items at the top level of wit text

Tokens between items were turned into empty items, which also hid that
the semicolon of a top level use was not parsed.
---
 wit/parse/parser.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/wit/parse/parser.go b/wit/parse/parser.go
index 4451f84..2325764 100644
--- a/wit/parse/parser.go
+++ b/wit/parse/parser.go
@@ -44,6 +44,8 @@ func parseAst(lexer *lex.Lexer) (res types.Result[*ast.Ast]) {
 			item.World = parseWorld(lexer).Unwrap()
 		case token.Interface:
 			item.Interface = parseInterface(lexer).Unwrap()
+		default:
+			return result.Errorf[*ast.Ast]("%w : expected use, world, interface but found '%s'", parseError(tok), tok.Capture)
 		}
 		n.Items = append(n.Items, *item)
 
@@ -106,6 +108,8 @@ func parseTopLevelUse(lexer *lex.Lexer) (res types.Result[*ast.TopLevelUse]) {
 	} else {
 		topLevelUse.As = option.None[string]()
 	}
+	// ;
+	expect(lexer, token.Semicolon).Unwrap()
 	return result.Ok(topLevelUse)
 }
 
-- 
2.43.0


From 655401874c19ce352fce3d908d5de19afc4276ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:27:12 +0000
Subject: [PATCH 50/59] fix: the namespace of a wit package is an identifier

Any token was accepted.
---
 wit/parse/parser.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wit/parse/parser.go b/wit/parse/parser.go
index 2325764..ef9af2e 100644
--- a/wit/parse/parser.go
+++ b/wit/parse/parser.go
@@ -59,7 +59,7 @@ func parsePackageDeclaration(lexer *lex.Lexer) (res types.Result[*ast.PackageDec
 
 	// id
 	packageName := &ast.PackageDeclaration{}
-	packageName.Namespace = next(lexer).Unwrap().Capture
+	packageName.Namespace = parseId(lexer).Unwrap()
 
 	// ':'
 	expect(lexer, token.Colon).Unwrap()
-- 
2.43.0


From 3c1bffe800f0f2a5fce9e07769ad59739f69d6c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:27:13 +0000
Subject: [PATCH 51/59] fix: version numbers in wit text are decimal

A leading zero selected octal and numbers were limited to 31 bits.
---
 wit/parse/parser.go | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/wit/parse/parser.go b/wit/parse/parser.go
index ef9af2e..222abe1 100644
--- a/wit/parse/parser.go
+++ b/wit/parse/parser.go
@@ -91,9 +91,9 @@ func parseVersion(lexer *lex.Lexer) (res types.Result[*ast.Version]) {
 	patch := parseInteger(lexer).Unwrap()
 
 	return result.Ok(&ast.Version{
-		Major: uint64(major),
-		Minor: uint64(minor),
-		Patch: uint64(patch),
+		Major: major,
+		Minor: minor,
+		Patch: patch,
 	})
 }
 
@@ -896,15 +896,15 @@ func parseId(lexer *lex.Lexer) (res types.Result[string]) {
 	}
 }
 
-func parseInteger(lexer *lex.Lexer) (res types.Result[int64]) {
+func parseInteger(lexer *lex.Lexer) (res types.Result[uint64]) {
 	defer handle.Error(&res)
 	tok := next(lexer).Unwrap()
 	switch tok.Type {
 	case token.Integer:
-		i, err := strconv.ParseInt(tok.Capture, 0, 32)
+		i, err := strconv.ParseUint(tok.Capture, 10, 64)
 		return result.New(i, err)
 	default:
-		return result.Errorf[int64]("%w: found value '%s', type '%v' but expected (integer) ", parseError(tok), tok.Capture, tok.Type)
+		return result.Errorf[uint64]("%w: found value '%s', type '%v' but expected (integer) ", parseError(tok), tok.Capture, tok.Type)
 	}
 }
 func eat(lexer *lex.Lexer, tokenType token.TokenType) (res types.Result[bool]) {
-- 
2.43.0


From b271cbb6be796cdc921c5361180b6362561c87c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:27:13 +0000
Subject: [PATCH 52/59] fix: parse package paths in wit text

A path with a package was always refused because its optional version
was not implemented, and its identifier was a placeholder.
---
 wit/parse/parser.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/wit/parse/parser.go b/wit/parse/parser.go
index 222abe1..47d43e9 100644
--- a/wit/parse/parser.go
+++ b/wit/parse/parser.go
@@ -354,7 +354,6 @@ func parsePath(lexer *lex.Lexer, namespace string) (res types.Result[*ast.UsePat
 	name := parseId(lexer).Unwrap()
 	version := parseOptionalVersion(lexer).Unwrap()
 	usePath := &ast.UsePath{
-		Id: "string",
 		Package: struct {
 			Id   *ast.PackageDeclaration
 			Name string
@@ -371,7 +370,12 @@ func parsePath(lexer *lex.Lexer, namespace string) (res types.Result[*ast.UsePat
 }
 
 func parseOptionalVersion(lexer *lex.Lexer) (res types.Result[types.Option[ast.Version]]) {
-	return result.Errorf[types.Option[ast.Version]]("not implemented")
+	defer handle.Error(&res)
+	if !eat(lexer, token.At).Unwrap() {
+		return result.Ok(option.None[ast.Version]())
+	}
+	version := parseVersion(lexer).Unwrap()
+	return result.Ok(option.Some(*version))
 }
 
 func parseFuncItem(lexer *lex.Lexer) (res types.Result[*ast.FuncItem]) {
-- 
2.43.0


From 07ee787b37e9a02d29d074459057fd2d5c2fdedf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:27:14 +0000
Subject: [PATCH 53/59] fix: accept package paths in wit imports and exports

The colon of the package path was taken for the one before a function or
interface and the path was refused.
---
 wit/parse/parser.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/wit/parse/parser.go b/wit/parse/parser.go
index 47d43e9..0782b02 100644
--- a/wit/parse/parser.go
+++ b/wit/parse/parser.go
@@ -761,7 +761,12 @@ func parseExternType(lexer *lex.Lexer) (res types.Result[ast.ExternType]) {
 		})
 	}
 
-	return result.Errorf[ast.ExternType]("unable to parse ExternType %w", parseError(tok))
+	// neither function nor interface, so the colon belongs to a use path
+	usePath := parseUsePath(lexer).Unwrap()
+	expect(lexer, token.Semicolon).Unwrap()
+	return result.Ok[ast.ExternType](&ast.ExternTypeUsePath{
+		UsePath: usePath,
+	})
 }
 
 // record-item ::= 'record' id '{' record-fields '}'
-- 
2.43.0


From 141e991efbf0e83af785eef35964261b33dccc15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:27:15 +0000
Subject: [PATCH 54/59] fix: recognize all primitive types of wit text

Most primitive types became references to a type of that name, and so
did punctuation and keywords where a type was expected.
---
 wit/parse/parser.go | 22 +++++++++++++++++++++-
 1 file changed, 21 insertions(+), 1 deletion(-)

diff --git a/wit/parse/parser.go b/wit/parse/parser.go
index 0782b02..a95cf07 100644
--- a/wit/parse/parser.go
+++ b/wit/parse/parser.go
@@ -487,6 +487,24 @@ func parseType(lexer *lex.Lexer) (res types.Result[ast.Type]) {
 	switch name.Type {
 	case token.U32:
 		ty = &ast.U32{}
+	case token.U8:
+		ty = &ast.U8{}
+	case token.U16:
+		ty = &ast.U16{}
+	case token.U64:
+		ty = &ast.U64{}
+	case token.S8:
+		ty = &ast.S8{}
+	case token.S16:
+		ty = &ast.S16{}
+	case token.S32:
+		ty = &ast.S32{}
+	case token.S64:
+		ty = &ast.S64{}
+	case token.Char:
+		ty = &ast.Char{}
+	case token.Bool:
+		ty = &ast.Bool{}
 	case token.String:
 		ty = &ast.String{}
 	case token.Float32:
@@ -517,8 +535,10 @@ func parseType(lexer *lex.Lexer) (res types.Result[ast.Type]) {
 			Id: parseId(lexer).Unwrap(),
 		}
 		expect(lexer, token.Greater).Unwrap()
-	default:
+	case token.Id, token.ExplicitId:
 		ty = &ast.Id{Value: name.Capture}
+	default:
+		return result.Errorf[ast.Type]("%w : expected type but found '%s'", parseError(name), name.Capture)
 	}
 
 	return result.Ok(ty)
-- 
2.43.0


From 28cdb51bfb55306f250fdf88e64675d8ac0da2fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:27:16 +0000
Subject: [PATCH 55/59] fix: set the item type of wit lists and options

The item type was stored in the embedded interface and the field was
left empty.
---
 wit/parse/parser.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/wit/parse/parser.go b/wit/parse/parser.go
index a95cf07..33954aa 100644
--- a/wit/parse/parser.go
+++ b/wit/parse/parser.go
@@ -591,7 +591,7 @@ func parseList(lexer *lex.Lexer) (res types.Result[*ast.List]) {
 	ty := parseType(lexer).Unwrap()
 	expect(lexer, token.Greater).Unwrap()
 	return result.Ok(&ast.List{
-		Type: ty,
+		ItemType: ty,
 	})
 }
 
@@ -601,7 +601,7 @@ func parseOption(lexer *lex.Lexer) (res types.Result[*ast.Option]) {
 	ty := parseType(lexer).Unwrap()
 	expect(lexer, token.Greater).Unwrap()
 	return result.Ok(&ast.Option{
-		Type: ty,
+		ItemType: ty,
 	})
 }
 
-- 
2.43.0


From a94e7a319f6c8b77c81a643a6f98b1037acdde34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:27:17 +0000
Subject: [PATCH 56/59] fix: refuse a wit resource without body or semicolon

The resource was accepted and what followed was parsed as the next item.
---
 wit/parse/parser.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/wit/parse/parser.go b/wit/parse/parser.go
index 33954aa..2cb69aa 100644
--- a/wit/parse/parser.go
+++ b/wit/parse/parser.go
@@ -215,6 +215,8 @@ func parseResource(lexer *lex.Lexer) (res types.Result[ast.Resource]) {
 			tok = peek(lexer).Unwrap()
 		}
 		expect(lexer, token.CloseBrace).Unwrap()
+	default:
+		return result.Errorf[ast.Resource]("%w : expected ';' or '{' but found '%s'", parseError(tok), tok.Capture)
 	}
 
 	return result.Ok(ast.Resource{
-- 
2.43.0


From fe2297b49de11f9ceba8ceac7ec6da9fac11b595 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:27:18 +0000
Subject: [PATCH 57/59] fix: accept flags and enum in a wit world

All other type definitions were accepted.
---
 wit/parse/parser.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/wit/parse/parser.go b/wit/parse/parser.go
index 2cb69aa..1349615 100644
--- a/wit/parse/parser.go
+++ b/wit/parse/parser.go
@@ -682,6 +682,10 @@ func parseWorldItem(lexer *lex.Lexer) (res types.Result[ast.WorldItem]) {
 		worldItem = parseRecord(lexer).Unwrap()
 	case token.Variant:
 		worldItem = parseVariant(lexer).Unwrap()
+	case token.Flags:
+		worldItem = parseFlags(lexer).Unwrap()
+	case token.Enum:
+		worldItem = parseEnum(lexer).Unwrap()
 	case token.Resource:
 		worldItem = parseResource(lexer).Unwrap()
 	case token.Include:
-- 
2.43.0


From ba2e83424da23c28b9d0866662960fd9655440a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:27:19 +0000
Subject: [PATCH 58/59] fix: separate the names of a wit include by commas

The commas the grammar asks for were refused.
---
 wit/parse/parser.go | 25 +++++++++++++++----------
 1 file changed, 15 insertions(+), 10 deletions(-)

diff --git a/wit/parse/parser.go b/wit/parse/parser.go
index 1349615..260279a 100644
--- a/wit/parse/parser.go
+++ b/wit/parse/parser.go
@@ -730,16 +730,10 @@ func parseInclude(lexer *lex.Lexer) (res types.Result[ast.WorldItem]) {
 	}
 
 	if eat(lexer, token.With).Unwrap() {
-		expect(lexer, token.OpenBrace).Unwrap()
-		for !eat(lexer, token.CloseBrace).Unwrap() {
-			id := parseId(lexer).Unwrap()
-			expect(lexer, token.As).Unwrap()
-			as := parseId(lexer).Unwrap()
-			include.Names = append(include.Names, ast.IncludeName{
-				Name: id,
-				As:   as,
-			})
-		}
+		include.Names = parseItemList(
+			lexer,
+			token.OpenBrace, token.CloseBrace,
+			parseIncludeName).Unwrap()
 	} else {
 		expect(lexer, token.Semicolon).Unwrap()
 	}
@@ -747,6 +741,17 @@ func parseInclude(lexer *lex.Lexer) (res types.Result[ast.WorldItem]) {
 	return result.Ok[ast.WorldItem](include)
 }
 
+func parseIncludeName(lexer *lex.Lexer) (res types.Result[ast.IncludeName]) {
+	defer handle.Error(&res)
+	id := parseId(lexer).Unwrap()
+	expect(lexer, token.As).Unwrap()
+	as := parseId(lexer).Unwrap()
+	return result.Ok(ast.IncludeName{
+		Name: id,
+		As:   as,
+	})
+}
+
 func parseExternType(lexer *lex.Lexer) (res types.Result[ast.ExternType]) {
 	defer handle.Error(&res)
 
-- 
2.43.0


From a8e2b0090c153a8e9032b5dccec5915c254220b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:49:11 +0000
Subject: [PATCH 59/59] fix: check where realloc moved a utf-16 string

---
 abi/io/store.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/abi/io/store.go b/abi/io/store.go
index a8942b8..767f0ca 100644
--- a/abi/io/store.go
+++ b/abi/io/store.go
@@ -416,8 +416,9 @@ func StoreUtf8ToUtf16(cx *types.CallContext, src string, srcCodeUnits uint32) (u
 			return 0, 0, types.TrapWith("ptr %d could not be aligned to 2", ptr)
 		}
 
-		if hiPtr > uint32(cx.Options.Memory.Len()) {
-			return 0, 0, types.TrapWith("ptr %d is greater than memory size %d", hiPtr, cx.Options.Memory.Len())
+		_, err = memoryRange(cx, ptr, uint64(len(encoded)))
+		if err != nil {
+			return 0, 0, err
 		}
 	}
 
-- 
2.43.0

